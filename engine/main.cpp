#include "tool.hpp"
#include "effects.hpp"
using namespace cta;

static void out(const Report & R, const Interp * in, double wall) {
	printf("{\"obligations\":%llu,\"discharged\":%llu,\"violations\":[", (unsigned long long)R.obligations, (unsigned long long)R.discharged);
	auto list = [&](const vector<string> & v) {
		for (size_t i = 0; i < v.size(); ++i) printf("%s\"%s\"", i ? "," : "", esc(v[i]).c_str());
	};
	list(R.violations);
	printf("],\"unproved\":[");
	list(R.unproved);
	printf("],\"notes\":[");
	list(R.notes);
	printf("],\"counts\":{");
	bool f = true;
	for (auto & c: R.counts) {
		printf("%s\"%s\":%llu", f ? "" : ",", esc(c.first).c_str(), (unsigned long long)c.second);
		f = false;
	}
	if (in) {
		printf("%s\"abstract steps\":%llu", f ? "" : ",", (unsigned long long)in->stats.steps);
	}
	printf("},\"wall\":%.3f}\n", wall);
}

// NAME for any size, NAME:BYTES:CONTENT for a fixed one
static vector<Streams::Form> forms(const string & l) {
	vector<Streams::Form> r;
	std::stringstream in(l);
	for (string x; getline(in, x, ',');) {
		size_t c = x.find(':'), d = c == string::npos ? c : x.find(':', c + 1);
		Streams::Form f;
		f.name = x.substr(0, c);
		if (c != string::npos) {
			f.obj = std::stoll(x.substr(c + 1, d - c - 1));
			f.n = std::stoull(x.substr(d + 1));
		}
		r.push_back(f);
	}
	return r;
}

int main(int argc, char ** argv) {
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	auto t0 = std::chrono::steady_clock::now();
	vector<string> a(argv + 1, argv + argc);
	Report R;
	std::unique_ptr<Tool> s;
	try {
		if (a.size() < 4) throw std::runtime_error("usage: cta MODE BITCODE ALG PREFIX [options]");
		std::map<string, string> opt;
		for (size_t i = 4; i < a.size(); ++i) {
			auto p = a[i].find('=');
			opt[a[i].substr(0, p)] = p == string::npos ? "1" : a[i].substr(p + 1);
		}
		auto O = [&](const string & k, const string & d) { return opt.count(k) ? opt[k] : d; };
		if (a[0] == "effects") {
			Effects e;
			e.run(a[1], R);
			out(R, nullptr, std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
			return 0;
		}
		Session::noSeed() = a[0] == "tool";
		asWritten() = O("aspect", "") == "safety" || O("aspect", "") == "content";
		s = std::make_unique<Tool>(a[1], a[2], a[3]);
		late();
		timeLimit() = std::stod(O("limit", "0"));
		string which = O("upd", "b");
		Report::aspect() = O("aspect", "") == "safety" ? 1 : O("aspect", "") == "content" ? 2 : 0;
		s->in->dataBranchIsViolation = Report::aspect() == 2;
		s->outLen = s->A.digest ? s->A.digest : unsigned(std::stoul(O("len", "32")));
		s->S->outLen = s->outLen;
		s->finalFn = O("final", "final");
		s->relative = O("relative", "0") == "1";
		if (a[0] == "kernel") {
			vector<unsigned> lens;
			unsigned hi = unsigned(std::stoul(O("max", std::to_string(2 * s->A.B + 1)))), st = unsigned(std::stoul(O("step", "1")));
			for (unsigned i = 0; i <= hi; i += st) lens.push_back(i);
			if (O("anchors", "0") == "1") s->prepare(R, true);
			s->expanded(R, lens, which);
		} else if (a[0] == "splits") {
			if (O("nosum", "0") == "0") s->prepare(R, false);
			unsigned B = s->A.B, us = unsigned(std::stoul(O("ustep", "1"))), rs = unsigned(std::stoul(O("rstep", "1")));
			vector<vector<unsigned>> cases;
			for (unsigned u = 0; u <= B; u += us)
				for (unsigned r = 0; r <= B; r += rs) {
					cases.push_back({u, r});
					cases.push_back({u, r + B});
				}
			for (unsigned u = 0; u < B; u += us) {
				cases.push_back({u, B - u});
				cases.push_back({u, B - u, 1});
				cases.push_back({u, 2 * B - u, B - 1});
				cases.push_back({u, 0, 1});
			}
			if (s->relative) {
				auto c = s->ctor();
				if (c.finals.size() == 1) s->ctorCells = s->cellsOf(c.finals[0]), s->ownStart();
			}
			s->splits(R, cases, which);
		} else if (a[0] == "encode") {
			s->bits = unsigned(std::stoul(O("bits", "4")));
			s->eb = unsigned(std::stoul(O("eb", "8")));
			s->alphabet = O("alphabet", "");
			s->pairs = s->alphabet.empty();
			s->padded = O("padded", "0") == "1";
			s->setup();
			if (opt.count("count")) s->counts(R, opt["count"]);
			else s->texts(R, O("text", "text"), O("size", ""), O("text", "text") != "none");
		} else if (a[0] == "tool") {
			for (auto & k: Funcs::parts(O("known", ""), ',')) s->known.push_back({k, 0});
			Report own; // (the functions of the other algorithms are not of interest)
			s->prepare(own, false);
			R.count("summarised functions", own.counts["summarised functions"]);
			if (s->relative) {
				auto c = s->ctor();
				if (c.finals.size() == 1) s->ctorCells = s->cellsOf(c.finals[0]), s->ownStart();
			}
			s->runs(R, Funcs::parts(O("items", ""), ','));
		} else if (a[0] == "func") {
			for (auto & k: Funcs::parts(O("known", ""), ','))
				if (auto q = k.find('='); q != string::npos) s->known.push_back({k.substr(0, q), std::stoi(k.substr(q + 1))});
			s->defaultId = std::stoi(O("default", "-1"));
			s->codesFrom(O("codes", ""));
			if (O("what", "") == "route") s->streamHandlers();
			s->all(R, O("what", ""), Funcs::parts(O("items", ""), ','));
		} else if (a[0] == "oneshot") {
			s->prepare(R, false);
			unsigned st = unsigned(std::stoul(O("step", "1")));
			if (s->relative) {
				auto c = s->ctor();
				if (c.finals.size() == 1) s->ctorCells = s->cellsOf(c.finals[0]), s->ownStart();
			}
			for (auto & f: forms(O("forms", ""))) {
				vector<unsigned> is;
				for (unsigned i = 0; i < s->A.B; ++i)
					if (i % st == 0 || i == s->A.B - 1 || i == 1) is.push_back(i);
				s->fixedObj = f.obj;
				s->fixedN = f.n;
				bool conc = opt.count("conc");
				if (conc) {
					is.clear();
					std::stringstream l(O("conc", ""));
					for (string x; getline(l, x, ',');) is.push_back(unsigned(std::stoul(x)));
				}
				s->oneshot(R, f.name, is, conc);
			}
		} else if (a[0] == "squeeze") {
			s->prepare(R, false);
			if (s->build(R, which)) {
				vector<unsigned> us, ns;
				unsigned B = s->A.B, ut = unsigned(std::stoul(O("ustep", "1")));
				for (unsigned i = 0; i < B; ++i)
					if (i % ut == 0 || i == B - 1) us.push_back(i);
				std::stringstream in(O("lens", "0,1,32"));
				for (string x; getline(in, x, ',');) ns.push_back(unsigned(std::stoul(x)));
				s->squeezes(R, us, ns);
			}
		} else if (a[0] == "states" || a[0] == "stream") {
			if (O("nosum", "0") == "0") s->prepare(R, false);
			if (s->build(R, which)) {
				if (a[0] == "stream") {
					vector<Streams::Step> pairs;
					auto fs = forms(O("forms", which));
					unsigned B = s->A.B, us = unsigned(std::stoul(O("ustep", "1"))), rs = unsigned(std::stoul(O("rstep", "1")));
					bool grid = O("grid", "0") == "1"; // only the points of a grid, the edges and the diagonal
					for (auto & f: fs)
						for (unsigned u = 0; u < B; ++u)
							for (unsigned r = 0; r < B; ++r) {
								if (f.obj >= 0 && r != f.n % B) continue;
								bool gu = u % us == 0 || u == B - 1 || u == 1, gr = f.obj >= 0 || r % rs == 0 || r == B - 1 || r == 1, d = (u + r) % B == 0 || (u + r) % B == B - 1;
								if (grid ? (gu && gr) || (d && (gu || gr)) : u % us == 0 || r % rs == 0 || d) pairs.push_back({u, r, &f});
							}
					s->streaming(R, pairs);
				}
				if (R.violations.empty()) s->states(R, O("unchanged", "0") == "1", O("size", "0") == "1", O("copy", "0") == "1", O("digest", "1") == "1");
			}
		} else
			throw std::runtime_error("mode");
	} catch (std::exception & e) {
		fprintf(stderr, "error: %s\n", e.what());
		printf("{\"error\":\"%s\"}\n", esc(e.what()).c_str());
		return 2;
	}
	out(R, s ? s->in.get() : nullptr, std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
	return 0;
}
