#pragma once
#include "stream.hpp"

namespace cta {

// Views of a byte (or integer) range as chunks of bits, or as text
struct Enc: Streams {
	using Streams::Streams;
	unsigned bits = 4, eb = 8; // width of a chunk and of an element
	bool padded = false, pairs = false;
	string alphabet; // empty: plain chunks
	unsigned E = 1, G = 2; // elements and chunks of a group
	char pad = '=';

	void setup() {
		unsigned a = bits, b = eb;
		while (b) std::swap(a %= b, b);
		unsigned l = bits / a * eb;
		E = l / eb;
		G = l / bits;
		in->nested = true;
	}
	u64 tailChunks(u64 r) const { return r == 0 ? 0 : padded ? G : (r * eb + bits - 1) / bits; }

	// equal for all content / certainly different / not known
	enum Cmp { EQ, DIFF, UNKNOWN };
	Cmp compare(N got, N want, const vector<std::pair<N, bool>> & cond) {
		if (got == want) return EQ;
		if (T.w(got) != T.w(want)) return UNKNOWN;
		std::set<N> at, seen;
		T.atoms(got, at, seen);
		T.atoms(want, at, seen);
		vector<N> by;
		bool fin = true;
		for (N x: at) {
			if (T.kind(x) == KMB) by.push_back(x);
			else fin = false;
		}
		if (!fin || by.size() > 2) {
			// (a few more bytes: only a search for a difference)
			if (T.has(got, HAS_JUNK)) return UNKNOWN;
			return sampled(got, want, cond) ? DIFF : UNKNOWN;
		}
		vector<std::pair<N, bool>> rel, rest;
		for (auto & c: cond) {
			std::set<N> a2, s2;
			T.atoms(c.first, a2, s2);
			bool in = true;
			for (N x: a2) in &= at.count(x) != 0;
			(in ? rel : rest).push_back(c);
		}
		u64 tot = u64(1) << (8 * by.size());
		for (u64 k = 0; k < tot; ++k) {
			auto mk = T.mark();
			Sampler sm(T, 1);
			for (size_t i = 0; i < by.size(); ++i) sm.fixed[by[i]] = (k >> (8 * i)) & 255;
			bool ok = true;
			for (auto & c: rel) ok &= (sm.ev(c.first) & 1) == u64(c.second);
			u64 x = ok ? sm.ev(got) : 0, y = ok ? sm.ev(want) : 0;
			T.release(mk);
			if (sm.bad) return UNKNOWN;
			if (ok && x != y) {
				if (rest.empty()) return DIFF;
				for (u64 t = 1; t < 300; ++t) { // is the path itself taken for some content?
					Sampler s2(T, t);
					for (size_t i = 0; i < by.size(); ++i) s2.fixed[by[i]] = (k >> (8 * i)) & 255;
					bool all = true;
					for (auto & c: cond) all = all && (s2.ev(c.first) & 1) == u64(c.second);
					if (all && !s2.bad) return DIFF;
				}
				return UNKNOWN;
			}
		}
		return EQ;
	}
	bool sampled(N got, N want, const vector<std::pair<N, bool>> & cond) {
		for (u64 t = 1; t < 300; ++t) {
			Sampler s(T, t);
			bool all = true;
			for (auto & c: cond) all = all && (s.ev(c.first) & 1) == u64(c.second);
			if (!all || s.bad) continue;
			u64 x = s.ev(got), y = s.ev(want);
			if (!s.bad && x != y) return true;
		}
		return false;
	}
	// element i behind element offset e0 (a size term), as a number
	N element(N e0, u64 i) { return S->mword(T.mulc(e0, eb / 8), i * (eb / 8), eb / 8, in->big); }
	// chunk j of the group at element offset e0, of which `have` elements exist
	N chunk(N e0, unsigned j, unsigned have) {
		N v = T.con(64, 0);
		for (unsigned b = 0; b < bits;) {
			unsigned p = j * bits + b, e = p / eb, o = p % eb, n = std::min(bits - b, eb - o);
			if (e < have) {
				N el = T.zext(element(e0, e), 64);
				N part = T.lshr(el, eb - o - n);
				if (n < 64) part = T.maskc(part, (u64(1) << n) - 1);
				v = T.xor_(v, T.shl(part, bits - b - n));
			}
			b += n;
		}
		return v;
	}
	unsigned missing(unsigned j, unsigned have) {
		i64 m = i64(j + 1) * bits - i64(have) * eb;
		return m < 0 ? 0 : unsigned(std::min<i64>(m, bits));
	}

	// every size class: the text (or the chunks) written, one after another, are those of the input
	void texts(Report & R, const string & name, const string & sizeName, bool textToo) {
		R.count("size classes of inputs analysed", E);
		parallel(E, R, [&](size_t r, Report & P) {
			auto mk = T.mark();
			unsigned jc = in->junkCount;
			try {
				if (textToo) text(unsigned(r), name, P, ~u64(0));
			} catch (Fail & e) { P.open(tag() + ": " + name + ": " + e.what()); }
			if (P.unproved.size() && P.violations.empty()) bounded(P, 4, [&](u64 m, Report & b) { text(unsigned(r), name, b, m); }, name);
			try {
				if (!sizeName.empty()) size(unsigned(r), sizeName, P);
			} catch (Fail & e) { P.open(tag() + ": " + sizeName + ": " + e.what()); }
			in->outWrite = nullptr;
			T.release(mk);
			in->junkCount = jc;
		});
	}
	// what stays open: once more with concrete sizes (block*m + r elements)
	template <class F> void bounded(Report & P, u64 upto, F f, const string & name) {
		for (u64 m = 0; m < upto && P.violations.empty(); ++m) {
			Report b;
			try {
				f(m, b);
			} catch (Fail & e) {
				// (a few elements need some thousand steps)
				if (e.kind == "fuel" && !P.aspect()) P.bad(tag() + ": " + name + " of a few elements (" + std::to_string(m) + " whole blocks): does not end: " + e.what());
			}
			for (auto & v: b.violations) P.bad(v);
			P.discharged += b.discharged;
			P.obligations += b.discharged;
		}
	}
	void text(unsigned r, const string & name, Report & P, u64 conc) {
		N M = conc == ~u64(0) ? T.sym(64, "M", HAS_SIZE, 0, u64(1) << 40) : T.con(64, conc);
		N n = T.add(T.mulc(M, E), T.con(64, r));
		unsigned stride = pairs ? 16 : 1;
		in->fuel = in->stats.steps + 2000000;
		State s = in->fresh();
		u64 d = in->stream(s, "input", 0, T.con(64, 0), T.mulc(n, eb / 8));
		s.ghosts = {n, T.add(T.mulc(M, G), T.con(64, tailChunks(r)))};
		auto o = std::make_shared<Obj>();
		o->kind = OB_OUT;
		o->name = "output";
		N total = T.add(T.mulc(M, G), T.con(64, tailChunks(r)));
		o->size = T.add(T.mulc(total, stride), T.con(64, 64 * stride)); // (room for too many)
		u64 out = in->addObj(s, o);
		s.ghosts = {n, T.con(64, 0), total, M};
		string ctx = name + " of " + T.str(n) + " elements";
		in->outWrite = [&](Interp & I, State & st, u64 ob, N off, const vector<Cell> & c) {
			if (ob != out) return false;
			if (P.aspect()) {
				st.ghosts[1] = T.add(off, T.con(64, c.size()));
				return true;
			}
			auto wrong = [&](const string & m) {
				Ev e;
				e.k = Ev::VIOL;
				e.v = {"wrong output", m, at(st)};
				throw Interp::Stop{e};
			};
			auto open = [&](const string & m) { throw Fail("unproved", m + in->where(st)); };
			N q, rm, nn = st.ghosts[0];
			if (off != st.ghosts[1]) {
				open("not written in order");
			}
			if (!T.divLin(off, G * stride, q, rm) || !T.isConst(rm)) {
				open("position " + T.str(off) + " of the output");
			}
			unsigned at = unsigned(T.cval(rm)), j = at / stride, part = at % stride;
			N left = T.sub(nn, T.mulc(q, E)); // elements of this group and behind
			unsigned have = 0;
			// which elements of the group exist?
			for (; have < E; ++have) {
				if (u64(have) * eb >= u64(j + 1) * bits) {
					// the chunk is inside the elements known to exist; whether the group goes on matters no more
					break;
				}
				N more = T.ult(T.con(64, have), left);
				if (!T.isConst(more)) I.split(more);
				if (!T.cval(more)) break;
			}
			bool partial = u64(have) * eb < u64(j + 1) * bits;
			if (have == 0 || (partial && !padded && j >= tailChunks(have))) {
				wrong("more output than the input has bits for (at position " + T.str(T.con(64, 0)) + " of the group behind element " + T.str(T.mulc(q, E)) + ")");
			}
			Op none;
			N e0 = T.mulc(q, E), v = chunk(e0, j, have), want;
			unsigned miss = missing(j, have);
			if (pairs) want = part == 0 ? v : T.con(64, miss);
			else if (miss == bits) want = T.con(8, u64(u8c(pad)));
			else want = T.look(alphabet + string(1, 0), v, 8);
			if (pairs && c.size() != 8) {
				open("output of odd size");
			}
			for (size_t i = 0; i < (pairs ? 1 : c.size()); ++i) {
				N got;
				try {
					got = I.fromCells(&c[i], pairs ? 8 : 1, pairs ? 64 : 8, none);
				} catch (Fail & e) {
					open(e.what());
				}
				string what = string(pairs ? part ? "missing bits of chunk " : "chunk " : "character ") + std::to_string(j) + " of the group behind element " + T.str(e0);
				if (hasUndef(got)) {
					wrong(what + " depends on uninitialised memory");
				}
				Cmp k = compare(got, want, st.assumed);
				if (k == DIFF) wrong(what + " is " + T.str(got, 3).substr(0, 150) + ", expected " + T.str(want, 3).substr(0, 150));
				else if (k == UNKNOWN) open(what + " is not shown to be the expected one");
				else ++written;
			}
			st.ghosts[1] = T.add(off, T.con(64, pairs ? 8 : c.size()));
			return true;
		};
		written = 0;
		in->call(s, fn(name), {T.base(d), n, T.base(out)});
		auto res = in->explore(s);
		in->outWrite = nullptr;
		if (!viols(res.viols, true, P, ctx)) return;
		if (!P.aspect()) P.ok(written);
		for (auto & f: res.finals) {
			N want = T.mulc(f.ghosts[2], stride);
			if (f.ghosts[1] == want) P.ok();
			else if (string how; f.assumed.empty() && differ(f.ghosts[1], want, how)) P.wrong(tag() + ": " + ctx + ": " + T.str(f.ghosts[1]) + " instead of " + T.str(want) + (pairs ? " bytes of chunks" : " characters") + " are produced");
			else P.unshown(tag() + ": " + ctx + ": " + T.str(f.ghosts[1]) + " of " + T.str(want) + " characters");
		}
		if (res.finals.empty()) P.wrong(tag() + ": " + ctx + ": does not end");
	}
	u64 written = 0;
	string at(const State & st) const {
		string w = in->where(st);
		return w.size() > 4 ? w.substr(4) : w;
	}
	static unsigned char u8c(char c) { return static_cast<unsigned char>(c); }
	void size(unsigned r, const string & name, Report & P) {
		N M = T.sym(64, "M", HAS_SIZE, 0, u64(1) << 40);
		N n = T.add(T.mulc(M, E), T.con(64, r));
		in->fuel = in->stats.steps + 2000000;
		State s = in->fresh();
		u64 d = in->stream(s, "input", 0, T.con(64, 0), T.mulc(n, eb / 8));
		s.ghosts = {n, T.add(T.mulc(M, G), T.con(64, tailChunks(r)))};
		in->call(s, fn(name), {T.base(d), n});
		auto res = in->explore(s);
		string ctx = name + " of " + T.str(n) + " elements";
		if (!viols(res.viols, true, P, ctx)) return;
		for (auto & f: res.finals) {
			N want = f.ghosts[1];
			string how;
			if (f.ret == want) P.ok();
			else if (differ(f.ret, want, how, &f)) P.wrong(tag() + ": " + ctx + ": announces " + T.str(f.ret) + ", produces " + T.str(want));
			else P.unshown(tag() + ": " + ctx + ": announces " + T.str(f.ret) + ", produces " + T.str(want));
		}
		if (res.finals.empty()) P.wrong(tag() + ": " + ctx + ": does not end");
	}
	// sizes too big for the iteration to be followed: the number of characters is known, what does size() say?
	void announced(unsigned r, const string & name, Report & P) {
		string only = name;
		if (auto at = only.find("count_"); at != string::npos) only.replace(at, 6, "size_");
		else return;
		for (unsigned e = 1; e <= 40; ++e)
			for (u64 m: {(u64(1) << e) - 1, u64(1) << e, (u64(1) << e) + (u64(1) << e / 2)}) {
				if (m > u64(1) << 40) continue;
				u64 n = m * E + r;
				State s = in->fresh();
				u64 d = in->stream(s, "input", 0, T.con(64, 0), T.con(64, n * (eb / 8)));
				in->call(s, fn(only), {T.base(d), T.con(64, n)});
				auto res = in->explore(s);
				if (!res.viols.empty() || res.finals.size() != 1 || !T.isConst(res.finals[0].ret)) return;
				u64 want = m * G + tailChunks(r), got = T.cval(res.finals[0].ret);
				if (got != want) {
					P.wrong(tag() + ": " + only + " of " + std::to_string(n) + " elements: size() is " + std::to_string(got) + ", iteration produces " + std::to_string(want));
					return;
				}
			}
	}
	// the size announced and the number of characters an iteration counts (both by the code)
	void counts(Report & R, const string & name) {
		R.count("size classes of inputs analysed", E);
		parallel(E, R, [&](size_t r, Report & P) {
			auto mk = T.mark();
			unsigned jc = in->junkCount;
			try {
				count(unsigned(r), name, P, ~u64(0));
			} catch (Fail & e) { P.open(tag() + ": " + name + ": " + e.what()); }
			if (P.unproved.size() && P.violations.empty()) bounded(P, 6, [&](u64 m, Report & b) { count(unsigned(r), name, b, m); }, name);
			T.release(mk);
			in->junkCount = jc;
		});
	}
	void count(unsigned r, const string & name, Report & P, u64 conc) {
		N M = conc == ~u64(0) ? T.sym(64, "M", HAS_SIZE, 0, u64(1) << 40) : T.con(64, conc);
		N n = T.add(T.mulc(M, E), T.con(64, r));
		in->fuel = in->stats.steps + 2000000;
		State s = in->fresh();
		u64 d = in->stream(s, "input", 0, T.con(64, 0), T.mulc(n, eb / 8));
		s.ghosts = {n, T.add(T.mulc(M, G), T.con(64, tailChunks(r)))};
		auto o = std::make_shared<Obj>();
		o->kind = OB_MEM;
		o->name = "announced";
		o->cells.assign(8, Cell{0, 0, 0});
		o->size = T.con(64, 8);
		u64 a = in->addObj(s, o);
		in->call(s, fn(name), {T.base(d), n, T.base(a)});
		auto res = in->explore(s);
		string ctx = name + " of " + T.str(n) + " elements";
		if (!viols(res.viols, true, P, ctx)) return;
		Op none;
		bool known = true;
		for (auto & f: res.finals) known = known && f.ret == f.ghosts[1];
		for (auto & f: res.finals) {
			N want = in->fromCells(f.objs[a]->cells.data(), 8, 64, none);
			string how;
			if (f.ret == want) P.ok();
			else if (known && hasUndef(want) == false && T.has(want, HAS_JUNK) && conc == ~u64(0)) {
				P.unshown(tag() + ": " + ctx + ": size() is " + T.str(want) + ", iteration produces " + T.str(f.ret));
				announced(r, name, P);
				if (P.violations.size()) return;
			}
			else if (f.assumed.empty() && differ(f.ret, want, how)) P.wrong(tag() + ": " + ctx + ": size() is " + T.str(want) + ", iteration produces " + T.str(f.ret) + " (" + how + ")");
			else P.unshown(tag() + ": " + ctx + ": size() is " + T.str(want) + ", iteration produces " + T.str(f.ret));
		}
		if (res.finals.empty()) P.wrong(tag() + ": " + ctx + ": does not end");
	}
};

} // namespace cta
