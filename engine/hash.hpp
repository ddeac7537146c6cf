// Analyses of the hashers: conformity of kernels and of whole digests, streaming, purity, size().
#pragma once
#include "interp.hpp"
#include "module.hpp"
#include "spec.hpp"
#include <csignal>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

namespace cta {

struct Report {
	u64 obligations = 0, discharged = 0;
	vector<string> violations, unproved, notes;
	std::map<string, u64> counts;
	std::set<string> seen;
	void ok(u64 n = 1) {
		obligations += n;
		discharged += n;
	}
	void bad(const string & s) {
		++obligations;
		if (seen.insert(s).second && violations.size() < 40) violations.push_back(s);
	}
	// what is asked of the code: 0 results (and safety), 1 safety only, 2 control flow and addresses free of content
	static int & aspect() {
		static int a = 0;
		return a;
	}
	void wrong(const string & s) { // a wrong result
		if (aspect() == 0) bad(s);
	}
	void unshown(const string & s) {
		if (aspect() == 0) open(s);
	}
	void open(const string & s) {
		++obligations;
		if (seen.insert(s).second && unproved.size() < 40) unproved.push_back(s);
	}
	void count(const string & s, u64 n = 1) { counts[s] += n; }
	void take(const Report & o) {
		u64 n = o.obligations - o.violations.size() - o.unproved.size();
		ok(n);
		for (auto & v: o.violations) bad(v);
		for (auto & v: o.unproved) open(v);
		for (auto & c: o.counts) count(c.first, c.second);
	}
};

inline string esc(const string & s) {
	string r;
	for (char c: s) {
		if (c == '\\' || c == '"') r += '\\', r += c;
		else if (c == '\n') r += "\\n";
		else if (c == '\t') r += "\\t";
		else if (uint8_t(c) < 32) r += ' ';
		else r += c;
	}
	return r;
}
// line protocol between workers and parent
inline void send(FILE * f, const Report & r) {
	fprintf(f, "O %llu %llu\n", (unsigned long long)r.obligations, (unsigned long long)r.discharged);
	auto line = [&](char k, const string & s) { fprintf(f, "%c %s\n", k, esc(s).c_str()); };
	for (auto & s: r.violations) line('V', s);
	for (auto & s: r.unproved) line('U', s);
	for (auto & s: r.notes) line('N', s);
	for (auto & c: r.counts) fprintf(f, "C %llu %s\n", (unsigned long long)c.second, c.first.c_str());
}
inline string unesc(const string & s) {
	string r;
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '\\' && i + 1 < s.size()) {
			++i;
			r += s[i] == 'n' ? '\n' : s[i] == 't' ? '\t' : s[i];
		} else
			r += s[i];
	}
	return r;
}
// run f(item, report) for every item on several processes
inline void parallel(size_t n, Report & total, const std::function<void(size_t, Report &)> & f, unsigned procs = 8) {
	if (getenv("CTA_SERIAL")) procs = 1;
	if (n == 0) return;
	if (procs == 1) {
		for (size_t i = 0; i < n && total.violations.size() < 3; ++i) f(i, total);
		return;
	}
	procs = unsigned(std::min<size_t>(procs, n));
	vector<int> fds;
	vector<pid_t> pids;
	for (unsigned p = 0; p < procs; ++p) {
		int fd[2];
		if (pipe(fd)) throw std::runtime_error("pipe");
		pid_t pid = fork();
		if (pid < 0) throw std::runtime_error("fork");
		if (pid == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL); // nothing is left running when the analysis is stopped
			if (getppid() == 1) _exit(1);
			close(fd[0]);
			Report r;
			for (size_t i = p; i < n && r.violations.size() < 3; i += procs) {
				try {
					if (late()) {
						r.open("not analysed within the time limit: " + std::to_string((n - i + procs - 1) / procs) + " of " + std::to_string(n) + " items");
						break;
					}
					f(i, r);
				} catch (std::exception & e) {
					r.open(string("gave up: ") + e.what());
				}
			}
			FILE * o = fdopen(fd[1], "w");
			send(o, r);
			fprintf(o, "E\n");
			fflush(o);
			_exit(0);
		}
		close(fd[1]);
		fds.push_back(fd[0]);
		pids.push_back(pid);
	}
	for (unsigned p = 0; p < procs; ++p) {
		FILE * i = fdopen(fds[p], "r");
		char * line = nullptr;
		size_t cap = 0;
		bool end = false;
		while (getline(&line, &cap, i) > 0) {
			string s(line);
			if (!s.empty() && s.back() == '\n') s.pop_back();
			if (s == "E") end = true;
			else if (s[0] == 'O') {
				unsigned long long a, b;
				sscanf(s.c_str() + 2, "%llu %llu", &a, &b);
				total.obligations += a;
				total.discharged += b;
			} else if (s[0] == 'C') {
				unsigned long long a;
				int off;
				sscanf(s.c_str() + 2, "%llu %n", &a, &off);
				total.counts[s.substr(2 + size_t(off))] += a;
			} else {
				string t = unesc(s.substr(2));
				if (!total.seen.insert(string(1, s[0]) + t).second) continue;
				if (s[0] == 'V' && total.violations.size() < 200) total.violations.push_back(t);
				if (s[0] == 'U' && total.unproved.size() < 200) total.unproved.push_back(t);
				if (s[0] == 'N') total.notes.push_back(t);
			}
		}
		free(line);
		fclose(i);
		int st;
		waitpid(pids[p], &st, 0);
		if (!end) total.open("a worker of the analysis ended abnormally");
	}
}

enum Fam { F_SHA2, F_KECCAK, F_XXH };

struct Alg {
	string name;
	Fam fam;
	Sha2 sha2;
	Keccak kec;
	Xxh xxh;
	unsigned B = 0, digest = 0;
};

inline Alg algByName(const string & n) {
	Alg a;
	a.name = n;
	auto num = [&](size_t p) { return unsigned(std::stoul(n.substr(p))); };
	if (n.rfind("sha512t_", 0) == 0) {
		a.fam = F_SHA2;
		a.sha2 = Sha2::sha512t(num(8));
	} else if (n.rfind("sha3_", 0) == 0) {
		a.fam = F_KECCAK;
		a.kec = Keccak::sha3(num(5));
	} else if (n.rfind("shake", 0) == 0) {
		a.fam = F_KECCAK;
		a.kec = Keccak::shake(num(5));
	} else if (n.rfind("xxh", 0) == 0) {
		a.fam = F_XXH;
		a.xxh = Xxh::make(num(3));
	} else {
		a.fam = F_SHA2;
		a.sha2 = Sha2::sha(num(3));
	}
	a.B = a.fam == F_SHA2 ? a.sha2.B : a.fam == F_KECCAK ? a.kec.rate : a.xxh.B;
	a.digest = a.fam == F_SHA2 ? a.sha2.digest : a.fam == F_KECCAK ? a.kec.digest : a.xxh.w / 8;
	return a;
}

// Summaries: the state after a prefix of the message of c bytes is the value H_i(c)
struct Summ {
	Arena & T;
	const Alg & A;
	u64 idH, idC, idStg;
	N seed = ~0u;
	bool big = false;
	Summ(Arena & T, const Alg & A): T(T), A(A) {
		idH = T.fnId("H");
		idC = T.fnId(A.fam == F_KECCAK ? "keccak" : "compress");
		idStg = T.fnId("schedule");
		if (A.fam == F_XXH) seed = T.sym(A.xxh.w, "seed", HAS_DATA);
		init = initial();
		T.foldFn = [this](u64 id, u64 idx, unsigned, const vector<N> & a) -> N {
			if (id == idH && this->T.isConst(a[0]) && this->T.cval(a[0]) == 0) return init[idx];
			return ~0u;
		};
	}
	vector<N> init;
	vector<N> initial() {
		vector<N> r;
		if (A.fam == F_SHA2)
			for (auto x: A.sha2.iv) r.push_back(T.con(A.sha2.w, x));
		else if (A.fam == F_KECCAK)
			for (int i = 0; i < 25; ++i) r.push_back(T.con(64, 0));
		else
			r = A.xxh.init(T, seed);
		return r;
	}
	unsigned sw() const { return A.fam == F_SHA2 ? A.sha2.w : A.fam == F_KECCAK ? 64 : A.xxh.w; }
	vector<N> H(N c) {
		vector<N> r;
		for (size_t i = 0; i < init.size(); ++i) r.push_back(T.fn(idH, i, sw(), {c}));
		return r;
	}
	N m(N off) { return T.mb(0, off); }
	N at(N c, u64 i) { return T.add(c, T.con(64, i)); }
	// number from bytes
	N word(const vector<N> & b, bool be) {
		vector<Ent> e;
		u64 C = 0;
		for (size_t i = 0; i < b.size(); ++i) {
			int sh = int(8 * (be ? b.size() - 1 - i : i));
			u64 cc = 0;
			vector<Ent> t;
			T.toX(b[i], cc, t);
			C ^= cc << sh;
			for (auto & x: t) e.push_back({x.a, x.d - sh, x.m << sh});
		}
		return T.mkX(unsigned(b.size() * 8), C, e);
	}
	N mword(N c, u64 o, unsigned n, bool be) {
		vector<N> b;
		for (unsigned i = 0; i < n; ++i) b.push_back(m(at(c, o + i)));
		return word(b, be);
	}
	// is this the message word at some offset? gives the offset
	bool isMessageWord(N v, N & off, bool be) {
		u64 C = 0;
		vector<Ent> e;
		T.toX(v, C, e);
		unsigned n = T.w(v) / 8;
		if (C || e.size() != n) return false;
		int d0 = be ? -int(8 * (n - 1)) : 0;
		for (auto & x: e)
			if (x.d == d0 && T.kind(x.a) == KMB && T.n[x.a].c == 0) {
				off = N(T.arg(x.a, 0));
				return mword(off, 0, n, be) == v;
			}
		return false;
	}
	vector<N> compress(const vector<N> & st, const vector<N> & W) {
		N off;
		vector<N> r;
		bool be = true;
		if (isMessageWord(W[0], off, be)) {
			bool all = true;
			unsigned n = A.sha2.w / 8;
			for (unsigned i = 0; i < 16 && all; ++i) all = mword(off, i * n, n, be) == W[i];
			if (all) {
				auto h = H(off);
				if (h == st) return H(at(off, A.B));
			}
		}
		vector<N> a{T.tup(st), T.tup(W)};
		for (unsigned i = 0; i < 8; ++i) r.push_back(T.fn(idC, i, A.sha2.w, a));
		return r;
	}
	vector<N> keccak(const vector<N> & L) {
		vector<N> r;
		// absorb step of the message?
		N c = ~0u;
		if (T.kind(L[24]) == KFN && (T.n[L[24]].c >> 32) == idH) c = N(T.arg(L[24], 0));
		else if (L[24] == T.con(64, 0)) c = T.con(64, 0);
		if (c != ~0u) {
			auto h = H(c);
			bool all = true;
			for (unsigned i = 0; i < 25 && all; ++i) {
				N want = i < A.B / 8 ? T.xor_(h[i], mword(c, i * 8, 8, false)) : h[i];
				all = want == L[i];
			}
			if (all) return H(at(c, A.B));
		}
		// repeated application
		if (T.kind(L[0]) == KFN && (T.n[L[0]].c >> 32) == idC) {
			vector<N> a{N(T.arg(L[0], 0)), N(T.arg(L[0], 1))};
			bool all = true;
			for (unsigned i = 0; i < 25 && all; ++i) all = T.fn(idC, i, 64, a) == L[i];
			if (all) {
				a[1] = T.add(a[1], T.con(64, 1));
				for (unsigned i = 0; i < 25; ++i) r.push_back(T.fn(idC, i, 64, a));
				return r;
			}
		}
		vector<N> a{T.tup(L), T.con(64, 1)};
		for (unsigned i = 0; i < 25; ++i) r.push_back(T.fn(idC, i, 64, a));
		return r;
	}
	// rotl(H_i(c) + word(c + i*n)*P2, r)*P1 is H_i(c + B)
	// (found when such a product is formed: see Arena::onMul)
	N xxhFold(N v) {
		// v = inner * P1 with inner = rotation of a sum containing one H_i(c)
		if (T.kind(v) != KADD || T.n[v].c != 0 || T.nargs(v) != 2 || T.arg(v, 1) != A.xxh.P[1]) return v;
		N in = N(T.arg(v, 0));
		if (T.kind(in) != KX || T.nargs(in) != 6) return v;
		N s = N(T.arg(in, 0));
		if (T.kind(s) != KADD) return v;
		for (uint32_t i = 0; i < T.nargs(s); i += 2) {
			N h = N(T.arg(s, i));
			if (T.kind(h) != KFN || (T.n[h].c >> 32) != idH || T.arg(s, i + 1) != 1) continue;
			u64 idx = T.n[h].c & 0xffffffffu;
			N c = N(T.arg(h, 0));
			unsigned n = A.xxh.w / 8;
			auto hook = std::move(T.addHook);
			T.addHook = nullptr;
			N want = A.xxh.round(T, h, mword(c, idx * n, n, false));
			T.addHook = std::move(hook);
			if (want == v) return T.fn(idH, idx, A.xxh.w, {at(c, A.B)});
		}
		for (unsigned i = 0; i < 4; ++i)
			if (v == firstLanes[i]) return T.fn(idH, i, A.xxh.w, {T.con(64, A.B)});
		return v;
	}
	vector<N> firstLanes; // the lanes after the first block (made before any mark)
	void makeFirstLanes() {
		N z = T.con(64, 0);
		auto h0 = H(z);
		unsigned n = A.xxh.w / 8;
		for (unsigned i = 0; i < 4; ++i) firstLanes.push_back(A.xxh.round(T, h0[i], mword(z, i * n, n, false)));
	}

	// ---- evaluation of summaries by their definition
	vector<u64> nums(Sampler & sm, N tup) {
		vector<u64> r;
		for (uint32_t i = 0; i < T.nargs(tup); ++i) r.push_back(sm.ev(N(T.arg(tup, i))));
		return r;
	}
	static vector<N> cons(Arena & X, unsigned w, const vector<u64> & v) {
		vector<N> r;
		for (u64 x: v) r.push_back(X.con(w, x));
		return r;
	}
	static vector<u64> vals(Arena & X, const vector<N> & v) {
		vector<u64> r;
		for (N x: v) r.push_back(X.cval(x));
		return r;
	}
	vector<u64> oneBlock(Sampler & sm, vector<u64> st, u64 off) { // state behind the message block at off
		Arena X;
		unsigned n = sw() / 8;
		auto byteAt = [&](u64 o) { return sm.ev(T.mb(0, T.con(64, o))); };
		vector<u64> W;
		for (unsigned i = 0; i < A.B / n; ++i) {
			u64 v = 0;
			for (unsigned j = 0; j < n; ++j) {
				u64 b = byteAt(off + i * n + j);
				v |= b << 8 * (A.fam == F_SHA2 ? n - 1 - j : j);
			}
			W.push_back(v);
		}
		if (A.fam == F_SHA2) return vals(X, A.sha2.compress(X, cons(X, sw(), st), cons(X, sw(), W)));
		if (A.fam == F_KECCAK) {
			for (size_t i = 0; i < W.size(); ++i) st[i] ^= W[i];
			return vals(X, Keccak::f(X, cons(X, 64, st)));
		}
		for (unsigned i = 0; i < 4; ++i) st[i] = X.cval(A.xxh.round(X, X.con(sw(), st[i]), X.con(sw(), W[i])));
		return st;
	}
	bool evalFn(Sampler & sm, N a, u64 & out) {
		u64 id = T.n[a].c >> 32, idx = T.n[a].c & 0xffffffffu;
		if (id == idH) {
			u64 c = sm.ev(N(T.arg(a, 0)));
			if (c % A.B) {
				sm.bad = true;
				out = 0;
				return true;
			}
			u64 q = c / A.B, base = ~u64(0);
			for (auto & g: sm.groups) {
				if (g.first <= q && q - g.first <= 4096) base = g.first;
				else if (q < g.first && g.first - q < 8192) sm.bad = true;
			}
			if (sm.bad) {
				out = 0;
				return true;
			}
			if (base == ~u64(0)) {
				base = q <= 4096 ? 0 : q - 64;
				vector<u64> st;
				for (size_t i = 0; i < init.size(); ++i) st.push_back(base == 0 ? sm.ev(init[i]) : Sampler::mix(sm.seed * 1000003 + base * 64 + i) & full(sw()));
				sm.groups[base].push_back(st);
			}
			auto & run = sm.groups[base];
			while (run.size() <= q - base) {
				auto st = run.back();
				u64 off = (base + run.size() - 1) * A.B;
				auto nx = oneBlock(sm, st, off);
				sm.groups[base].push_back(nx);
			}
			out = sm.groups[base][q - base][idx];
			return true;
		}
		if (id == T.fnId("cut")) {
			out = sm.ev(N(T.arg(a, 0)));
			return true;
		}
		if (id == T.fnId("lane")) {
			auto & d = pivotDef.at(idx);
			out = sm.ev(d[0]) ^ (sm.ev(d[1]) & sm.ev(d[2]));
			return true;
		}
		if (id == idC && A.fam == F_SHA2) {
			Arena X;
			auto st = nums(sm, N(T.arg(a, 0))), W = nums(sm, N(T.arg(a, 1)));
			out = X.cval(A.sha2.compress(X, cons(X, sw(), st), cons(X, sw(), W))[idx]);
			return true;
		}
		if (id == idC && A.fam == F_KECCAK) {
			auto st = nums(sm, N(T.arg(a, 0)));
			u64 n = sm.ev(N(T.arg(a, 1)));
			if (n > 300) {
				sm.bad = true;
				out = 0;
				return true;
			}
			for (u64 i = 0; i < n; ++i) {
				Arena X;
				st = vals(X, Keccak::f(X, cons(X, 64, st)));
			}
			out = st[idx];
			return true;
		}
		if (id == idStg && A.fam == F_SHA2) {
			Arena X;
			vector<u64> W;
			for (uint32_t i = 0; i < T.nargs(a); ++i) W.push_back(sm.ev(N(T.arg(a, i))));
			out = X.cval(A.sha2.schedule(X, cons(X, sw(), W))[idx]);
			return true;
		}
		return false;
	}

	// ---- digests by the standard: total = c + u bytes, c a multiple of B
	vector<N> bytesOf(N v, bool be) {
		vector<N> r;
		unsigned n = T.w(v) / 8;
		for (unsigned i = 0; i < n; ++i) r.push_back(T.trunc(T.lshrX(v, 8 * (be ? n - 1 - i : i)), 8));
		return r;
	}
	vector<N> digest(N c, unsigned u, N total, bool expand = false) { return digestFrom(H(c), c, u, total, A.digest ? A.digest : outLen, expand); }
	unsigned outLen = 0; // SHAKE
	vector<N> digestFrom(vector<N> st, N c, unsigned u, N total, unsigned len, bool expand = true) {
		vector<N> out;
		if (A.fam == F_SHA2) {
			unsigned n = A.sha2.w / 8, lenBytes = 2 * n;
			vector<N> tail;
			for (unsigned i = 0; i < u; ++i) tail.push_back(m(at(c, i)));
			tail.push_back(T.con(8, 0x80));
			while (tail.size() % A.B != A.B - lenBytes) tail.push_back(T.con(8, 0));
			for (unsigned i = 8; i < lenBytes; ++i) tail.push_back(T.con(8, 0));
			for (N b: bytesOf(T.shl(total, 3), true)) tail.push_back(b);
			for (size_t b = 0; b < tail.size(); b += A.B) {
				vector<N> W;
				for (unsigned i = 0; i < 16; ++i) W.push_back(word(vector<N>(tail.begin() + long(b + i * n), tail.begin() + long(b + i * n + n)), true));
				st = expand ? A.sha2.compress(T, st, W) : compress(st, W);
			}
			for (N h: st)
				for (N b: bytesOf(h, true)) out.push_back(b);
			out.resize(len);
		} else if (A.fam == F_KECCAK) {
			st = padded(st, c, u);
			while (out.size() < len) {
				st = expand ? kecExpand(st) : keccak(st);
				for (unsigned i = 0; i < A.B / 8; ++i)
					for (N b: bytesOf(st[i], false)) out.push_back(b);
			}
			out.resize(len);
		} else {
			N acc;
			if (T.isConst(c) && T.cval(c) == 0) acc = T.add(seed, T.con(A.xxh.w, A.xxh.P[5]));
			else acc = A.xxh.converge(T, st);
			acc = T.add(acc, A.xxh.w == 64 ? total : T.trunc(total, 32));
			acc = A.xxh.finish(T, acc, u, [&](unsigned o, unsigned n) { return mword(c, o, n, false); });
			out = bytesOf(acc, true);
		}
		return out;
	}
	vector<N> padded(vector<N> st, N c, unsigned u) { // lanes before the last permutation of absorbing
		vector<N> tail;
		for (unsigned i = 0; i < u; ++i) tail.push_back(m(at(c, i)));
		tail.push_back(T.con(8, A.kec.suffix));
		while (tail.size() < A.B) tail.push_back(T.con(8, 0));
		tail[A.B - 1] = T.xor_(tail[A.B - 1], T.con(8, 0x80));
		for (unsigned i = 0; i < A.B / 8; ++i) st[i] = T.xor_(st[i], word(vector<N>(tail.begin() + i * 8, tail.begin() + i * 8 + 8), false));
		return st;
	}
	// full Keccak-f; the products of every round are named so that terms stay small
	unsigned pivots = 0;
	std::map<u64, std::array<N, 3>> pivotDef;
	vector<N> kecExpand(vector<N> L) {
		auto rc = Keccak::roundConstants();
		u64 id = T.fnId("lane");
		u64 old = T.distLimit;
		T.distLimit = 0;
		for (int r = 0; r < 24; ++r) {
			N C[5], D[5];
			for (int x = 0; x < 5; ++x) {
				C[x] = L[size_t(x)];
				for (int y = 1; y < 5; ++y) C[x] = T.xor_(C[x], L[size_t(x + 5 * y)]);
			}
			for (int x = 0; x < 5; ++x) D[x] = T.xor_(C[(x + 4) % 5], T.rotl(C[(x + 1) % 5], 1));
			for (int i = 0; i < 25; ++i) L[size_t(i)] = T.xor_(L[size_t(i)], D[i % 5]);
			vector<N> Bv(25);
			Bv[0] = L[0];
			int x = 1, y = 0;
			for (int t = 0; t < 24; ++t) {
				int nx = y, ny = (2 * x + 3 * y) % 5;
				Bv[size_t(nx + 5 * ny)] = T.rotl(L[size_t(x + 5 * y)], unsigned((t + 1) * (t + 2) / 2 % 64));
				x = nx;
				y = ny;
			}
			for (int yy = 0; yy < 5; ++yy)
				for (int xx = 0; xx < 5; ++xx) {
					N b0 = Bv[size_t(xx + 5 * yy)], b1 = Bv[size_t((xx + 1) % 5 + 5 * yy)], b2 = Bv[size_t((xx + 2) % 5 + 5 * yy)];
					N lin = T.xor_(b0, b2);
					if (xx == 0 && yy == 0) lin = T.xor_(lin, T.con(64, rc[size_t(r)]));
					// b0 ^ (~b1 & b2) ^ rc = lin ^ (b1 & b2) =: S
					u64 c1 = 0, c2 = 0;
					vector<Ent> e1, e2;
					T.toX(b1, c1, e1);
					T.toX(b2, c2, e2);
					if (e1.empty() || e2.empty()) { // a constant factor: no product
						L[size_t(xx + 5 * yy)] = T.xor_(lin, T.and_(b1, b2));
						continue;
					}
					N A1 = T.mkX(64, 0, e1), A2 = T.mkX(64, 0, e2);
					N S;
					if (A1 == A2) {
						L[size_t(xx + 5 * yy)] = T.xor_(lin, T.and_(b1, b2));
						continue;
					}
					u64 p[2] = {std::min(A1, A2), std::max(A1, A2)};
					N prod = T.mk(KAND, 64, 0, p, 2, uint8_t(T.n[A1].fl | T.n[A2].fl));
					auto rw = T.rewrite.find(prod);
					if (rw != T.rewrite.end()) {
						S = T.xor_(lin, T.and_(b1, b2));
					} else {
						pivotDef[pivots] = {lin, b1, b2};
						S = T.fnRaw(id, pivots++, 64, {});
						// A1&A2 = S ^ lin ^ (c1&A2) ^ (c2&A1) ^ (c1&c2)
						N def = T.xor_(T.xor_(S, lin), T.xor_(T.xor_(T.maskc(A2, c1), T.maskc(A1, c2)), T.con(64, c1 & c2)));
						T.rewrite[prod] = def;
					}
					L[size_t(xx + 5 * yy)] = S;
				}
		}
		T.distLimit = old;
		return L;
	}
};

struct Session {
	std::unique_ptr<Mod> mod;
	Arena T;
	std::unique_ptr<Interp> in;
	Alg A;
	std::unique_ptr<Summ> S;
	string pfx;
	u64 objSize = 0;
	vector<const llvm::Function *> roundsFns, stagingFns, keccakFns;
	bool summarise = true;

	static bool anchor(const string & d) {
		auto has = [&](const char * s) { return d.find(s) != string::npos; };
		if (has("cthash::internal_hasher<") && (has(">::rounds(") || has(">::build_staging"))) return true;
		if (has("cthash::keccak::keccak_f(")) return true;
		return streamFn(d) != 0;
	}
	// The ways characters get into a standard stream: 1 one of them, 2 many, 3 and 4 the same through the buffer, 5 the buffer itself,
	// 6 up to a zero, 7 the end of a line, 8 nothing, 9 a number, 10 no output
	static int streamFn(const string & d) {
		auto has = [&](const string & s) { return d.find(s) != string::npos; };
		if (!has("std::basic_ostream<") && !has("std::ostream") && !has("std::basic_streambuf<") && !has("std::basic_ios<") && !has("std::ostreambuf_iterator<") && !has("std::__ostream")) return 0;
		string ch = wideStream(d) ? "wchar_t" : "char", args = d.rfind('(') == string::npos ? string() : d.substr(d.rfind('('));
		bool stream = has("std::basic_ostream<") || has("std::ostream"), own = !has("cthash::") && !has("h_");
		if (!own) return 0;
		if (has("std::operator<<") && args.size() > ch.size() + 3 && args.substr(args.size() - ch.size() - 3) == ", " + ch + ")") return 1;
		if (has("::put(" + ch + ")") && stream) return 1;
		if (has("::sputc(")) return 3;
		if (has("::write(" + ch + " const*, long)") || has("std::__ostream_insert<")) return 2;
		if (has("::sputn(")) return 4;
		if (has("std::basic_ios<") && has("::rdbuf() const")) return 5;
		string text = ", " + ch + " const*)";
		if (has("std::operator<<") && d.size() > text.size() && d.substr(d.size() - text.size()) == text) return 6;
		if (has("std::endl<")) return 7;
		if (has("std::flush<") || has("::flush()")) return 8;
		if (has("::operator<<(") && stream && !has("(*)")) return 9;
		if (has("::widen(char) const")) return 10;
		return 0;
	}
	static bool wideStream(const string & d) { return d.find("<wchar_t") != string::npos || d.find("wostream") != string::npos; }
	static bool & noSeed() {
		static bool b = false;
		return b;
	}
	Session(const string & bc, const string & alg, const string & prefix): A(algByName(alg)), pfx(prefix) {
		mod = loadModule(bc, anchor);
		in = std::make_unique<Interp>(T, *mod->M);
		S = std::make_unique<Summ>(T, A);
		if (A.fam == F_KECCAK) T.cutLimit = 3000;
		if (noSeed() && A.fam == F_XXH) S->seed = T.con(A.xxh.w, 0), S->init = S->initial();
		if (A.fam == F_XXH) S->makeFirstLanes(), T.addHook = [this](N v) { return S->xxhFold(v); };
		for (auto & F: *mod->M) {
			if (F.isDeclaration()) continue;
			string d = llvm::demangle(F.getName().str());
			if (A.fam == F_SHA2) {
				if (d.find(">::rounds(") != string::npos && anchor(d) && F.arg_size() == 2) roundsFns.push_back(&F);
				if (d.find(">::build_staging") != string::npos && anchor(d) && F.arg_size() == 2) stagingFns.push_back(&F);
			}
			if (A.fam == F_KECCAK && d.find("keccak_f(") != string::npos && F.arg_size() == 1) keccakFns.push_back(&F);
		}
		for (auto & F: *mod->M)
			if (!F.isDeclaration()) in->get(&F);
		if (fn("sizeof", true)) objSize = constFn("sizeof");
	}
	const llvm::Function * fn(const string & s, bool optional = false) {
		auto * F = mod->M->getFunction("h_" + pfx + "_" + s);
		if (!F && !optional) throw Fail("anchor", "entry point h_" + pfx + "_" + s + " is missing");
		return F;
	}
	u64 constFn(const string & s) {
		State st = in->fresh();
		in->call(st, fn(s), {});
		auto r = in->explore(st);
		if (r.finals.size() != 1 || !T.isConst(r.finals[0].ret)) throw Fail("anchor", s + " is not a constant");
		return T.cval(r.finals[0].ret);
	}
	N readWord(State & s, N p, unsigned i, unsigned bytes, const Op & op) {
		N off;
		u64 o = in->ptr(s, p, off, op);
		off = T.add(off, T.con(64, u64(i) * bytes));
		in->bounds(s, o, off, bytes, op, "read");
		Cell c[8];
		in->readCells(s, o, off, bytes, c, op);
		return in->fromCells(c, bytes, bytes * 8, op);
	}
	void writeWord(State & s, N p, unsigned i, N v, const Op & op) {
		N off;
		u64 o = in->ptr(s, p, off, op);
		unsigned bytes = T.w(v) / 8;
		off = T.add(off, T.con(64, u64(i) * bytes));
		in->bounds(s, o, off, bytes, op, "write");
		vector<Cell> c(bytes);
		in->storeCells(c.data(), v, bytes);
		in->storeBytes(s, o, off, c, op);
	}
	bool differ(N a, N b, const vector<std::pair<N, bool>> & on = {}) { // certainly different for some input (which meets these conditions)?
		if (T.has(a, HAS_JUNK) || T.has(b, HAS_JUNK)) return false;
		int seen = 0;
		for (u64 k = 1; k <= (on.empty() ? 60 : 600) && seen < 30; ++k) {
			auto mk = T.mark();
			Sampler sm(T, k);
			sm.fnEval = [this](Sampler & s, N n, u64 & v) { return S->evalFn(s, n, v); };
			bool met = true;
			for (auto & c: on) met = met && (sm.ev(c.first) & 1) == u64(c.second);
			u64 x = met ? sm.ev(a) : 0, y = met ? sm.ev(b) : 0;
			T.release(mk);
			if (sm.bad || !met) continue;
			++seen;
			if (x != y) return true;
		}
		return false;
	}
	bool hasUndef(N a) {
		if (!T.has(a, HAS_JUNK)) return false;
		std::set<N> at, seen;
		T.atoms(a, at, seen);
		for (N x: at)
			if (in->isUndef(x)) return true;
		return false;
	}
	static string place(const llvm::Function * F) {
		auto * sp = F->getSubprogram();
		return sp ? Interp::shortPath(sp->getFilename().str()) + ":" + std::to_string(sp->getLine()) : string("?");
	}
	// ---------------- summaries (armed only after the function was shown to equal its reference)
	// 0: cannot be used as one step; 1: is the reference; 2: is some other function of its inputs
	int verifyRounds(const llvm::Function * F, string & why) {
		unsigned n = A.sha2.w / 8;
		State st = in->fresh();
		u64 ow = in->mem(st, "w", A.sha2.rounds * n), os = in->mem(st, "state", 8 * n);
		vector<N> W, H;
		u64 id = T.fnId("in");
		for (unsigned i = 0; i < A.sha2.rounds; ++i) {
			W.push_back(T.fnRaw(id, i, A.sha2.w, {}));
			in->storeCells(st.objs[ow]->cells.data() + i * n, W[i], n);
		}
		for (unsigned i = 0; i < 8; ++i) {
			H.push_back(T.fnRaw(id, 1000 + i, A.sha2.w, {}));
			in->storeCells(st.objs[os]->cells.data() + i * n, H[i], n);
		}
		// (hold the objects outside the frame)
		in->call(st, F, {T.base(ow), T.base(os)});
		auto r = in->explore(st);
		if (!r.viols.empty()) {
			why = r.viols[0].kind + ": " + r.viols[0].msg + " at " + r.viols[0].where;
			return false;
		}
		if (r.finals.size() != 1) {
			why = "several paths";
			return false;
		}
		for (unsigned i = 0; i < A.sha2.rounds * n; ++i)
			if (r.finals[0].objs[ow]->cells[i].n != W[i / n]) {
				why = "the schedule is modified";
				return 0;
			}
		auto want = A.sha2.roundsOf(T, H, W);
		Op none;
		for (unsigned i = 0; i < 8; ++i) {
			N got = in->fromCells(r.finals[0].objs[os]->cells.data() + i * n, n, A.sha2.w, none);
			if (hasUndef(got)) return 0;
			if (got != want[i]) {
				why = "state word " + std::to_string(i) + " after the rounds is not the one of the reference compression";
				return 2 | (differ(got, want[i]) ? 4 : 0);
			}
		}
		return 1;
	}
	int verifyStaging(const llvm::Function * F, string & why) {
		unsigned n = A.sha2.w / 8;
		State st = in->fresh();
		u64 ow = in->mem(st, "w", A.sha2.rounds * n), ob = in->mem(st, "block", A.B);
		vector<N> b, W;
		for (unsigned i = 0; i < A.B; ++i) {
			b.push_back(T.mb(9, T.con(64, i)));
			in->storeCells(st.objs[ob]->cells.data() + i, b[i], 1);
		}
		for (unsigned i = 0; i < 16; ++i) W.push_back(S->word(vector<N>(b.begin() + i * n, b.begin() + i * n + n), true));
		in->call(st, F, {T.base(ow), T.base(ob)});
		auto r = in->explore(st);
		if (!r.viols.empty()) {
			why = r.viols[0].kind + ": " + r.viols[0].msg + " at " + r.viols[0].where;
			return false;
		}
		if (r.finals.size() != 1) {
			why = "several paths";
			return false;
		}
		auto want = A.sha2.schedule(T, W);
		Op none;
		for (unsigned i = 0; i < A.sha2.rounds; ++i) {
			N got = in->fromCells(r.finals[0].objs[ow]->cells.data() + i * n, n, A.sha2.w, none);
			if (got != want[i]) {
				why = "schedule word " + std::to_string(i) + " is not the one of the reference";
				return i < 16 || hasUndef(got) ? 0 : 2 | (differ(got, want[i]) ? 4 : 0);
			}
		}
		return true;
	}
	int verifyKeccak(const llvm::Function * F, string & why) {
		State st = in->fresh();
		u64 os = in->mem(st, "state", 200);
		vector<N> L;
		u64 id = T.fnId("in");
		for (unsigned i = 0; i < 25; ++i) {
			L.push_back(T.fnRaw(id, i, 64, {}));
			in->storeCells(st.objs[os]->cells.data() + i * 8, L[i], 8);
		}
		auto want = S->kecExpand(L);
		u64 old = T.distLimit;
		T.distLimit = 0;
		in->call(st, F, {T.base(os)});
		auto r = in->explore(st);
		T.distLimit = old;
		if (!r.viols.empty()) {
			why = r.viols[0].kind + ": " + r.viols[0].msg + " at " + r.viols[0].where;
			return false;
		}
		if (r.finals.size() != 1) {
			why = "several paths";
			return false;
		}
		Op none;
		for (unsigned i = 0; i < 25; ++i) {
			N got = in->fromCells(r.finals[0].objs[os]->cells.data() + i * 8, 8, 64, none);
			if (got != want[i]) {
				why = "lane " + std::to_string(i) + " after the permutation is not the one of Keccak-f[1600]";
				return hasUndef(got) ? 0 : 2 | (differ(got, want[i]) ? 4 : 0);
			}
		}
		return true;
	}
	bool scheduleWords(const vector<N> & w, vector<N> & W16) {
		W16.assign(w.begin(), w.begin() + 16);
		for (unsigned i = 16; i < w.size(); ++i)
			if (T.kind(w[i]) == KFN && (T.n[w[i]].c >> 32) == S->idStg) {
				if ((T.n[w[i]].c & 0xffffffffu) != i) return false;
				for (unsigned j = 0; j < 16; ++j)
					if (N(T.arg(w[i], j)) != W16[j]) return false;
			} else {
				return A.sha2.schedule(T, W16) == w;
			}
		return true;
	}
	void arm() {
		for (auto * F: stagingFns)
			in->handlers[F] = [this](Interp & I, State & s, const Op & op, const vector<N> & a, N &) {
				unsigned n = A.sha2.w / 8;
				vector<N> W;
				for (unsigned i = 0; i < 16; ++i) W.push_back(readWordBE(s, a[1], i, n, op));
				for (unsigned i = 0; i < A.sha2.rounds; ++i) writeWord(s, a[0], i, i < 16 ? W[i] : T.fn(S->idStg, i, A.sha2.w, W), op);
				(void)I;
				return true;
			};
		for (auto * F: roundsFns)
			in->handlers[F] = [this](Interp & I, State & s, const Op & op, const vector<N> & a, N &) {
				unsigned n = A.sha2.w / 8;
				vector<N> w, st, W16;
				for (unsigned i = 0; i < A.sha2.rounds; ++i) w.push_back(readWord(s, a[0], i, n, op));
				for (unsigned i = 0; i < 8; ++i) st.push_back(readWord(s, a[1], i, n, op));
				if (!scheduleWords(w, W16)) return false; // interpreted in full
				auto r = S->compress(st, W16);
				for (unsigned i = 0; i < 8; ++i) writeWord(s, a[1], i, r[i], op);
				++I.stats.opaque;
				return true;
			};
		for (auto * F: keccakFns)
			in->handlers[F] = [this](Interp & I, State & s, const Op & op, const vector<N> & a, N &) {
				vector<N> L;
				for (unsigned i = 0; i < 25; ++i) L.push_back(readWord(s, a[0], i, 8, op));
				auto r = S->keccak(L);
				for (unsigned i = 0; i < 25; ++i) writeWord(s, a[0], i, r[i], op);
				++I.stats.opaque;
				return true;
			};
	}
	N readWordBE(State & s, N p, unsigned i, unsigned bytes, const Op & op) {
		N off;
		u64 o = in->ptr(s, p, off, op);
		off = T.add(off, T.con(64, u64(i) * bytes));
		in->bounds(s, o, off, bytes, op, "read");
		Cell c[8];
		in->readCells(s, o, off, bytes, c, op);
		vector<N> b;
		for (unsigned j = 0; j < bytes; ++j) b.push_back(in->fromCells(c + j, 1, 8, op));
		for (N x: b)
			if (in->isUndef(x)) return in->undef(bytes * 8);
		return S->word(b, true);
	}
	// verify and arm; a function which is not its reference is interpreted in full instead
	void prepare(Report & R, bool reportKernel) {
		auto check = [&](vector<const llvm::Function *> & v, const char * what, auto && f) {
			vector<const llvm::Function *> good;
			for (auto * F: v) {
				string why;
				int ok = 0;
				auto mk = T.mark();
				try {
					ok = f(F, why);
				} catch (Fail & e) { why = e.what(); }
				T.rewrite.clear();
				T.release(mk);
				if (ok) {
					good.push_back(F);
					if (ok == 1) {
						if (reportKernel) R.ok();
						continue;
					}
					string d = llvm::demangle(F->getName().str());
					if (reportKernel && (ok & 4)) R.bad(A.name + ": " + d + " (" + place(F) + "): " + why);
					else R.notes.push_back(string(what) + " " + d + " is summarised as an unspecified function: " + why);
				} else
					R.notes.push_back(string(what) + " " + llvm::demangle(F->getName().str()) + " is not summarised: " + why);
			}
			v = good;
		};
		// for claims about anything but the standard, a different but well-behaved step is as good as the standard's
		check(stagingFns, "schedule", [&](auto * F, string & w) { return verifyStaging(F, w); });
		check(roundsFns, "rounds", [&](auto * F, string & w) { return verifyRounds(F, w); });
		check(keccakFns, "permutation", [&](auto * F, string & w) { return verifyKeccak(F, w); });
		arm();
		R.count("summarised functions", stagingFns.size() + roundsFns.size() + keccakFns.size());
	}
};

} // namespace cta
