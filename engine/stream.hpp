// Whole-digest conformity, streaming, copy, size and purity of one hasher.
#pragma once
#include "hash.hpp"

namespace cta {

constexpr u64 LIMIT = u64(1) << 50; // message lengths covered: up to 2^50 bytes per call and before it

struct AState {
	vector<Cell> cells;
	N q;      // number of whole blocks absorbed: y + c
	N y = ~0u;
	u64 c = 0;
	bool widened = false;
};

struct Streams: Session {
	vector<vector<AState>> G;
	using Session::Session;

	// --- pieces of runs
	State object(const vector<Cell> * cells) {
		State s = in->fresh();
		u64 o = in->mem(s, "hasher", objSize);
		if (cells) s.objs[o]->cells = *cells;
		return s;
	}
	u64 objId() const { return in->globals.size(); }
	Interp::Result ctor() {
		State s = object(nullptr);
		vector<N> a{T.base(objId())};
		if (A.fam == F_XXH) a.push_back(S->seed);
		s.ghosts = {T.con(64, 0)};
		in->call(s, fn("ctor"), a);
		return in->explore(s);
	}
	// feed n bytes behind `before`
	Interp::Result update(const vector<Cell> & cells, N before, N n, const string & which) {
		State s = object(&cells);
		bool fixed = fixedObj >= 0;
		u64 d = in->stream(s, "input", 0, before, fixed ? T.con(64, u64(fixedObj)) : n);
		s.ghosts = {T.add(before, n)};
		vector<N> args{T.base(objId()), T.base(d)};
		if (!fixed) args.push_back(n);
		in->call(s, fn("update_" + which), args);
		return in->explore(s);
	}
	// forms of a fixed size (arrays, literals): bytes of the object and of its content
	i64 fixedObj = -1;
	u64 fixedN = 0;
	struct Dynamic { // back to a form of any size
		Streams & s;
		i64 old;
		Dynamic(Streams & s): s(s), old(s.fixedObj) { s.fixedObj = -1; }
		~Dynamic() { s.fixedObj = old; }
	};
	struct Fin {
		State s;
		vector<N> digest;
	};
	Interp::Result finalRun(const vector<Cell> & cells, N total, u64 & outId) {
		State s = object(&cells);
		outId = in->mem(s, "digest", spanOut ? outLen : std::max(1u, outLen));
		s.ghosts = {total};
		vector<N> args{T.base(objId()), T.base(outId)};
		if (spanOut) args.push_back(T.con(64, outLen));
		in->call(s, fn(spanOut ? "squeeze" : finalFn), args);
		return in->explore(s);
	}
	bool spanOut = false;
	string finalFn = "final";
	unsigned outLen = 0;
	const vector<Cell> & cellsOf(const State & s) { return s.objs[objId()]->cells; }

	bool differ(N a, N b, string & how, const State * f = nullptr) { return how = "", Session::differ(a, b, f ? f->assumed : vector<std::pair<N, bool>>()); }
	string tag() const { return A.name + (pfx == A.name ? "" : " [" + pfx + "]"); }

	// a hasher whose bytes differ from the expected ones: does it behave as the expected one?
	void behaves(const vector<Cell> & cells, N q, unsigned u, N total, bool exact, Report & R, const string & ctx, const string & what) {
		Report tmp;
		try {
			checkFinal(cells, q, u, total, exact, tmp, ctx, false);
			if (tmp.violations.empty() && mod->M->getFunction("h_" + pfx + "_update_b"))
				for (unsigned r2: {1u, A.B - u, A.B + 1}) {
					Dynamic dyn(*this);
					auto res = update(cells, total, T.con(64, r2), "b");
					string c2 = ctx + ", then update of " + std::to_string(r2) + " bytes";
					viols(res.viols, exact, tmp, c2);
					unsigned u3 = (u + r2) % A.B;
					N qq, rm;
					for (auto & f2: res.finals)
						if (T.divLin(T.sub(f2.ghosts[0], T.con(64, u3)), A.B, qq, rm)) checkFinal(cellsOf(f2), qq, u3, f2.ghosts[0], exact, tmp, c2, false);
					if (!tmp.violations.empty()) break;
				}
		} catch (Fail & e) { tmp.open(e.what()); }
		if (!tmp.violations.empty()) R.bad(tmp.violations[0]);
		else R.open(tag() + ": " + ctx + ": " + what);
	}
	// the cells a run started from, under the case distinctions it made since
	vector<Cell> restricted(const vector<Cell> & cells, const State & f) {
		vector<Cell> r = cells;
		for (auto & l: f.log) {
			Arena::Map m;
			m[l.from] = l.node;
			std::unordered_map<N, N> memo;
			for (auto & c: r)
				if (c.st == 1) c.n = T.subst(c.n, m, memo);
		}
		return r;
	}
	// digest of the hasher state against the standard; returns false on a certain violation
	bool checkFinal(const vector<Cell> & cells, N q, unsigned u, N total, bool exact, Report & R, const string & ctx, bool unchanged) {
		Interp::Result r;
		u64 outId = 0;
		try {
			r = finalRun(cells, total, outId);
		} catch (Fail & e) {
			R.open(tag() + ": " + ctx + ": final(): " + e.what());
			return true;
		}
		return judge(r, outId, cells, u, exact, R, ctx, unchanged);
	}
	bool judge(Interp::Result & r, u64 outId, const vector<Cell> & cells, unsigned u, bool exact, Report & R, const string & ctx, bool unchanged) {
		if (!viols(r.viols, exact, R, ctx + ", final()")) return false;
		bool good = true;
		for (auto & f: r.finals) {
			N tot = f.ghosts[0];
			N qq, rr;
			if (u || true) {
				N t = T.sub(tot, T.con(64, u));
				if (!T.divLin(t, A.B, qq, rr)) {
					R.open(tag() + ": " + ctx + ": length " + T.str(tot));
					continue;
				}
			}
			auto want = specDigest(T.mulc(qq, A.B), u, tot);
			Op none;
			bool all = true;
			for (unsigned i = 0; i < want.size(); ++i) {
				auto & c = f.objs[outId]->cells[i];
				if (c.st == 0) {
					if (R.aspect() != 2) R.bad(tag() + ": " + ctx + ": byte " + std::to_string(i) + " of the digest is never written");
					return false;
				}
				N got;
				try {
					got = in->fromCells(&c, 1, 8, none);
				} catch (Fail & e) {
					R.open(tag() + ": " + ctx + ": " + e.what());
					continue;
				}
				if (in->isUndef(got) || hasUndef(got)) {
					if (R.aspect() != 2) R.bad(tag() + ": " + ctx + ": byte " + std::to_string(i) + " of the digest depends on uninitialised memory");
					return false;
				}
				if (got == want[i]) continue;
				all = false;
				if (getenv("CTA_DIFF")) { auto pr = T.part(got, want[i]); fprintf(stderr, "%u top kinds %d %d w %u %u len %zu: %s\n", i, int(T.kind(got)), int(T.kind(want[i])), T.w(got), T.w(want[i]), T.nargs(got), T.str(got, 1).c_str()); fprintf(stderr, "GOT  %s\nWANT %s\n", T.str(pr.first, 5).c_str(), T.str(pr.second, 5).c_str()); }
				string how;
				if (differ(got, want[i], how, &f)) {
					R.wrong(tag() + ": " + ctx + ": the digest of a message of " + T.str(tot) + " bytes is not the one of the standard (byte " + std::to_string(i) + " is " + T.str(got, 3).substr(0, 200) + ", expected " + T.str(want[i], 3).substr(0, 200) + ")");
					return false;
				}
			}
			if (all) { if (!R.aspect()) R.ok(want.size()); }
			else {
				R.unshown(tag() + ": " + ctx + ": digest bytes not shown equal");
				good = false;
			}
			if (unchanged) {
				auto & after = cellsOf(f);
				auto was = restricted(cells, f);
				bool same = true;
				for (size_t i = 0; i < after.size(); ++i)
					if (!in->sameByte(after[i], was[i])) same = false;
				if (same) R.ok();
				else behaves(after, qq, u, tot, exact, R, ctx + ", final() changed the hasher", "final() modifies the hasher");
			}
		}
		if (r.finals.empty()) R.wrong(tag() + ": " + ctx + ": final() does not return");
		return good;
	}
	vector<N> specDigest(N c, unsigned u, N total) { return S->digest(c, u, total, false); }

	// violations of safety obligations; false when one is certain
	bool viols(const vector<Viol> & v, bool exact, Report & R, const string & ctx) {
		bool ok = true;
		if (v.empty() && R.aspect()) R.ok();
		for (auto & x: v) {
			if (R.aspect() == 1 && x.kind == "data-dependent") continue;
			if (R.aspect() == 2 && x.kind != "data-dependent") continue;
			string s = tag() + ": " + ctx + ": " + x.kind + ": " + x.msg + " at " + x.where;
			bool sure = x.kind.back() != '?' && (exact || x.msg.find("uninitialised") == string::npos);
			if (sure) R.bad(s);
			else R.open(s);
			ok = false;
		}
		return ok;
	}

	// --- abstract states after a single update of B*M + u bytes
	bool asAState(const State & f, unsigned u, AState & a) {
		N t = T.sub(f.ghosts[0], T.con(64, u)), r;
		if (!T.divLin(t, A.B, a.q, r) || !T.isConst(r) || T.cval(r) != 0) return false;
		a.cells = cellsOf(f);
		if (T.isConst(a.q)) {
			a.c = T.cval(a.q);
			return true;
		}
		Lin l = T.lin(a.q);
		if (l.t.size() == 1 && l.t[0].second == 1 && T.kind(l.t[0].first) == KSYM) {
			a.y = l.t[0].first;
			a.c = l.c;
			return true;
		}
		return false;
	}
	// is the concrete outcome inside the abstract state? lists differing cells
	bool inA(const State & f, unsigned u, const AState & g, vector<size_t> & diff) {
		N t = T.sub(f.ghosts[0], T.con(64, u)), q, r;
		if (!T.divLin(t, A.B, q, r)) return false;
		Arena::Map m;
		if (g.y == ~0u) {
			if (q != g.q) return false;
		} else {
			N y = T.sub(q, T.con(64, g.c));
			Range rg = T.range(y);
			if (!rg.exact) return false;
			m[g.y] = y;
		}
		std::unordered_map<N, N> memo;
		auto & c = cellsOf(f);
		for (size_t i = 0; i < c.size(); ++i) {
			Cell w = g.cells[i];
			if (w.st == 2) continue;
			if (w.st == 1) w.n = T.subst(w.n, m, memo);
			if (w.st == 0 || !in->sameByte(w, c[i])) diff.push_back(i);
		}
		if (!diff.empty()) {
			// undefined on both sides is equal
			vector<size_t> d2;
			for (size_t i: diff)
				if (!(g.cells[i].st == 0 && c[i].st == 0)) d2.push_back(i);
			diff = d2;
		}
		return diff.empty();
	}
	vector<Cell> ctorCells;
	// properties that do not depend on the initial value are judged from the one the code has
	bool relative = false;
	void ownStart() {
		if (A.fam != F_SHA2) return;
		try {
			u64 out;
			auto r = finalRun(ctorCells, T.con(64, 0), out);
			if (r.finals.size() != 1) return;
			auto & c = r.finals[0].objs[out]->cells;
			std::set<N> seen;
			vector<N> todo;
			for (auto & x: c)
				if (x.st == 1) todo.push_back(x.n);
			while (!todo.empty()) {
				N v = todo.back();
				todo.pop_back();
				if (!seen.insert(v).second) continue;
				if (T.kind(v) == KFN && (T.n[v].c >> 32) == S->idC && T.kind(N(T.arg(v, 0))) == KTUP) {
					N t = N(T.arg(v, 0));
					if (T.nargs(t) != 8) return;
					vector<N> iv;
					for (unsigned i = 0; i < 8; ++i) iv.push_back(N(T.arg(t, i)));
					for (N x: iv)
						if (!T.isConst(x)) return;
					S->init = iv;
					return;
				}
				if (T.kind(v) == KX) {
					u64 C = 0;
					vector<Ent> e;
					T.toX(v, C, e);
					for (auto & x: e)
						if (x.a != v) todo.push_back(x.a);
				} else if (T.kind(v) == KADD) {
					for (auto & t: T.lin(v).t) todo.push_back(t.first);
				} else if (T.kind(v) != KFN)
					for (unsigned i = 0; i < T.nargs(v); ++i)
						if (T.kind(v) == KSEL) todo.push_back(N(T.arg(v, i)));
			}
		} catch (Fail &) {}
	}
	bool build(Report & R, const string & which) {
		auto c = ctor();
		if (!viols(c.viols, true, R, "constructor")) return false;
		if (c.finals.size() != 1) {
			R.open(tag() + ": the constructor has several outcomes");
			return false;
		}
		ctorCells = cellsOf(c.finals[0]);
		if (relative) ownStart();
		G.assign(A.B, {});
		for (unsigned u = 0; u < A.B; ++u) {
			N M = T.sym(64, "M", HAS_SIZE, 0, LIMIT / A.B);
			N n = T.add(T.mulc(M, A.B), T.con(64, u));
			Interp::Result r;
			try {
				r = update(ctorCells, T.con(64, 0), n, which);
			} catch (Fail & e) {
				R.open(tag() + ": one update of " + T.str(n) + " bytes: " + e.what());
				return false;
			}
			if (!viols(r.viols, true, R, "one update of " + T.str(n) + " bytes")) return false;
			vector<AState> v;
			for (auto & f: r.finals) {
				AState a;
				if (!asAState(f, u, a)) {
					R.open(tag() + ": outcome with length " + T.str(f.ghosts[0]));
					return false;
				}
				v.push_back(a);
			}
			std::stable_sort(v.begin(), v.end(), [](const AState & a, const AState & b) { return (a.y != ~0u) * 1000000 - i64(a.c) > (b.y != ~0u) * 1000000 - i64(b.c); });
			// drop what is covered
			vector<AState> keep;
			for (auto & a: v) {
				bool cov = false;
				for (auto & g: keep) {
					if (g.y == ~0u && !(a.y == ~0u && a.c == g.c)) continue;
					if (g.y != ~0u && a.c < g.c) continue;
					State tmp;
					tmp.objs = in->globals;
					auto o = std::make_shared<Obj>();
					o->cells = a.cells;
					tmp.objs.push_back(o);
					tmp.ghosts = {T.add(T.mulc(a.q, A.B), T.con(64, u))};
					vector<size_t> d;
					if (inA(tmp, u, g, d)) {
						cov = true;
						break;
					}
					// differing only where the general one knows nothing more: weaken it
					bool weak = !d.empty() && d.size() <= g.cells.size();
					bool undefOnly = weak;
					for (size_t i: d) undefOnly &= a.cells[i].st == 0 || g.cells[i].st == 0;
					if (undefOnly) {
						for (size_t i: d) g.cells[i] = Cell{0, 0, 2};
						g.widened = true;
						cov = true;
						break;
					}
				}
				if (!cov) keep.push_back(a);
			}
			G[u] = keep;
		}
		// the state before any update is also one for u = 0
		{
			AState a;
			a.cells = ctorCells;
			a.q = T.con(64, 0);
			bool cov = false;
			for (auto & g: G[0]) {
				State tmp;
				tmp.objs = in->globals;
				auto o = std::make_shared<Obj>();
				o->cells = ctorCells;
				tmp.objs.push_back(o);
				tmp.ghosts = {T.con(64, 0)};
				vector<size_t> d;
				if ((g.y != ~0u && g.c == 0) || (g.y == ~0u && g.c == 0)) cov |= inA(tmp, 0, g, d);
			}
			if (!cov) G[0].push_back(a);
		}
		return true;
	}
	// fresh name for the block count of an abstract state
	AState renamed(const AState & a, N & before, unsigned u) {
		AState r = a;
		if (a.y != ~0u) {
			N y = T.sym(64, "M", HAS_SIZE, 0, LIMIT / A.B);
			Arena::Map m;
			m[a.y] = y;
			std::unordered_map<N, N> memo;
			for (auto & c: r.cells)
				if (c.st == 1) c.n = T.subst(c.n, m, memo);
			r.y = y;
			r.q = T.add(y, T.con(64, a.c));
		}
		before = T.add(T.mulc(r.q, A.B), T.con(64, u));
		return r;
	}

	// block counts at which lengths kept in too few bits, or compared with special values, go wrong
	vector<u64> specialCounts() const {
		std::set<u64> r{0, 1, 2, 3, 5};
		for (unsigned k: {7, 8, 9, 10, 15, 16, 23, 24, 28, 29, 30, 31, 32, 33, 34, 40, 48})
			for (int d: {-1, 0, 1}) {
				u64 v = (u64(1) << k) / A.B + u64(i64(d));
				if (v < LIMIT / A.B) r.insert(v);
			}
		return vector<u64>(r.begin(), r.end());
	}
	// the state with a given number of blocks
	bool at(const AState & g, u64 m, unsigned u, AState & r, N & total) {
		if (g.y == ~0u) return false;
		r = g;
		Arena::Map mp;
		mp[g.y] = T.con(64, m);
		std::unordered_map<N, N> memo;
		for (auto & c: r.cells)
			if (c.st == 1) c.n = T.subst(c.n, mp, memo);
		r.q = T.con(64, m + g.c);
		r.y = ~0u;
		total = T.add(T.mulc(r.q, A.B), T.con(64, u));
		return true;
	}
	unsigned probes = 0;
	// something about this state was left open: look at it for particular numbers of blocks
	void probe(const AState & g, unsigned u, Report & P, const std::function<void(const AState &, N, Report &)> & f) {
		if (probes++ >= 3 || g.widened) return;
		Report tmp;
		for (u64 m: specialCounts()) {
			AState h;
			N total;
			if (!at(g, m, u, h, total)) return;
			try {
				f(h, total, tmp);
			} catch (Fail &) { }
			if (!tmp.violations.empty()) break;
		}
		for (auto & s: tmp.violations) P.bad(s);
	}

	// every update from every reachable abstract state leads to one of them
	struct Form {
		string name;
		i64 obj = -1; // bytes of the object, or -1: any size
		u64 n = 0;    // bytes of content
	};
	struct Step {
		unsigned u, r;
		const Form * f;
	};
	void streaming(Report & R, const vector<Step> & pairs) {
		for (int round = 0; round < 5; ++round) {
			Report rr;
			parallel(pairs.size(), rr, [&](size_t i, Report & P) {
				unsigned u = pairs[i].u, r = pairs[i].r;
				const string & which = pairs[i].f->name;
				fixedObj = pairs[i].f->obj;
				fixedN = pairs[i].f->n;
				for (size_t v = 0; v < G[u].size(); ++v) {
					auto mk = T.mark();
					unsigned jc = in->junkCount;
					try {
						size_t before = P.unproved.size();
						try {
							step(u, v, r, which, P);
						} catch (Fail & e) { P.open(tag() + ": update from " + std::to_string(u) + " pending bytes by " + std::to_string(r) + " mod " + std::to_string(A.B) + ": " + e.what()); }
						if (P.unproved.size() > before && P.violations.empty()) {
							N tot;
							AState g = renamed(G[u][v], tot, u);
							probe(g, u, P, [&](const AState & h, N total, Report & tmp) {
								for (unsigned m = 0; m < (fixedObj < 0 ? 3 : 1) && tmp.violations.empty(); ++m) {
									unsigned n = fixedObj < 0 ? m * A.B + r : unsigned(fixedN);
									string ctx = "update of " + std::to_string(n) + " bytes behind " + T.str(total);
									auto res = update(h.cells, total, T.con(64, n), which);
									if (!viols(res.viols, true, tmp, ctx)) return;
									N q, rm;
									for (auto & f: res.finals)
										if (T.divLin(T.sub(f.ghosts[0], T.con(64, (u + r) % A.B)), A.B, q, rm)) checkFinal(cellsOf(f), q, (u + r) % A.B, f.ghosts[0], true, tmp, ctx, false);
								}
							});
						}
					} catch (Fail & e) { P.open(tag() + ": update from " + std::to_string(u) + " pending bytes by " + std::to_string(r) + " mod " + std::to_string(A.B) + ": " + e.what()); }
					T.release(mk);
					in->junkCount = jc;
				}
			});
			// weakenings asked for
			bool again = false;
			vector<string> rest;
			for (auto & n: rr.notes) {
				unsigned u, v;
				int off;
				if (sscanf(n.c_str(), "WEAKEN %u %u %n", &u, &v, &off) == 2) {
					const char * p = n.c_str() + off;
					while (*p) {
						size_t c = strtoul(p, const_cast<char **>(&p), 10);
						while (*p == ' ') ++p;
						if (G[u][v].cells[c].st != 2) {
							G[u][v].cells[c] = Cell{0, 0, 2};
							G[u][v].widened = true;
							again = true;
						}
					}
				} else
					rest.push_back(n);
			}
			rr.notes = rest;
			if (!again || round == 4 || !rr.violations.empty()) {
				if (again && rr.violations.empty()) rr.open(tag() + ": no stable set of hasher states");
				merge(R, rr);
				R.count("updates analysed (pending bytes x size class)", pairs.size());
				R.count("rounds to the fixpoint", u64(round + 1));
				return;
			}
		}
	}
	static void merge(Report & R, const Report & r) {
		R.obligations += r.obligations;
		R.discharged += r.discharged;
		for (auto & s: r.violations)
			if (R.seen.insert("V" + s).second) R.violations.push_back(s);
		for (auto & s: r.unproved)
			if (R.seen.insert("U" + s).second) R.unproved.push_back(s);
		for (auto & s: r.notes) R.notes.push_back(s);
		for (auto & c: r.counts) R.counts[c.first] += c.second;
	}
	void step(unsigned u, size_t v, unsigned r, const string & which, Report & P) {
		N before;
		AState g = renamed(G[u][v], before, u);
		N m = T.sym(64, "m", HAS_SIZE, 0, LIMIT / A.B);
		N n = fixedObj >= 0 ? T.con(64, fixedN) : T.add(T.mulc(m, A.B), T.con(64, r));
		string ctx = "update of " + T.str(n) + " bytes behind " + T.str(before);
		auto res = update(g.cells, before, n, which);
		if (!viols(res.viols, !g.widened, P, ctx)) return;
		unsigned u2 = (u + r) % A.B;
		vector<std::pair<State, int>> todo;
		for (auto & f: res.finals) todo.push_back({std::move(f), 0});
		while (!todo.empty()) {
			State f = std::move(todo.back().first);
			int splits = todo.back().second;
			todo.pop_back();
			bool cov = false;
			vector<size_t> best;
			size_t bv = ~size_t(0);
			for (size_t w = 0; w < G[u2].size() && !cov; ++w) {
				vector<size_t> d;
				auto & h = G[u2][w];
				// enough blocks for this one?
				N t = T.sub(f.ghosts[0], T.con(64, u2)), q, rm;
				if (!T.divLin(t, A.B, q, rm)) continue;
				if (h.y == ~0u && q != h.q) continue;
				if (h.y != ~0u && T.range(q).lo < h.c) continue;
				if (inA(f, u2, h, d)) {
					cov = true;
					break;
				}
				if (!d.empty() && (bv == ~size_t(0) || d.size() < best.size())) {
					best = d;
					bv = w;
				}
			}
			if (cov) {
				P.ok();
				continue;
			}
			// perhaps one state covers the case of no further block and another the rest
			if (splits < 3) {
				N sy = ~0u;
				for (auto & t: T.lin(f.ghosts[0]).t)
					if (T.kind(t.first) == KSYM && T.range(t.first).lo == 0 && t.second == A.B) sy = t.first;
				if (sy != ~0u && T.range(sy).hi > 1) {
					State f0 = f, f1 = f;
					N y = T.sym(64, "M", HAS_SIZE, 0, T.range(sy).hi - 1);
					Arena::Map m0, m1;
					m0[sy] = T.con(64, 0);
					m1[sy] = T.add(y, T.con(64, 1));
					in->substState(f0, m0);
					in->substState(f1, m1);
					todo.push_back({std::move(f0), splits + 1});
					todo.push_back({std::move(f1), splits + 1});
					continue;
				}
			}
			// exact continuation: is the digest wrong already?
			N q, rm;
			if (T.divLin(T.sub(f.ghosts[0], T.con(64, u2)), A.B, q, rm)) {
				Report tmp;
				checkFinal(cellsOf(f), q, u2, f.ghosts[0], !g.widened, tmp, ctx, false);
				if (tmp.violations.empty() && !best.empty() && !g.widened) {
					// or after one more update
					for (unsigned r2: {0u, 1u, A.B - u2, A.B - 1, A.B}) {
						N n2 = T.con(64, r2);
						auto res2 = [&] {
							bool fx = fixedObj >= 0;
							Dynamic dyn(*this);
							return update(cellsOf(f), f.ghosts[0], n2, fx ? "b" : which);
						}();
						viols(res2.viols, true, tmp, ctx + ", then update of " + std::to_string(r2) + " bytes");
						unsigned u3 = (u2 + r2) % A.B;
						for (auto & f2: res2.finals)
							if (T.divLin(T.sub(f2.ghosts[0], T.con(64, u3)), A.B, q, rm)) checkFinal(cellsOf(f2), q, u3, f2.ghosts[0], true, tmp, ctx + ", then update of " + std::to_string(r2) + " bytes", false);
						if (!tmp.violations.empty()) break;
					}
				}
				for (auto & s: tmp.violations) P.bad(s);
				if (!tmp.violations.empty()) return;
			}
			if (bv == ~size_t(0)) {
				P.open(tag() + ": " + ctx + ": the outcome (" + T.str(f.ghosts[0]) + " bytes) is not one of the expected hasher states");
				continue;
			}
			string w = "WEAKEN " + std::to_string(u2) + " " + std::to_string(bv) + " ";
			for (size_t i: best) w += std::to_string(i) + " ";
			if (P.seen.insert(w).second) P.notes.push_back(w);
		}
	}
	// every reachable state: digest, size, copy, purity of final
	void states(Report & R, bool unchanged, bool sizeToo, bool copyToo, bool digestToo) {
		vector<std::pair<unsigned, size_t>> items;
		for (unsigned u = 0; u < A.B; ++u)
			for (size_t v = 0; v < G[u].size(); ++v) items.push_back({u, v});
		R.count("abstract hasher states", items.size());
		parallel(items.size(), R, [&](size_t i, Report & P) {
			unsigned u = items[i].first;
			auto mk = T.mark();
			unsigned jc = in->junkCount;
			try {
				N total;
				AState g = renamed(G[u][items[i].second], total, u);
				string ctx = "after " + T.str(total) + " bytes";
				auto all = [&](const AState & g, N total, Report & P, const string & ctx) {
					if (digestToo) checkFinal(g.cells, g.q, u, total, !g.widened, P, ctx, unchanged);
					if (sizeToo) checkSize(g, u, total, P, ctx);
					if (copyToo) checkCopy(g, u, total, P, ctx);
				};
				size_t before = P.unproved.size();
				try {
					all(g, total, P, ctx);
				} catch (Fail & e) { P.open(tag() + ": " + ctx + ": " + e.what()); }
				if (P.unproved.size() > before && P.violations.empty()) probe(g, u, P, [&](const AState & h, N tot, Report & tmp) { all(h, tot, tmp, "after " + T.str(tot) + " bytes"); });
			} catch (Fail & e) { P.open(tag() + ": " + std::to_string(u) + " pending bytes: " + e.what()); }
			T.release(mk);
			in->junkCount = jc;
		});
	}
	void checkSize(const AState & g, unsigned u, N total, Report & P, const string & ctx) {
		State s = object(&g.cells);
		s.ghosts = {total};
		in->call(s, fn("size"), {T.base(objId())});
		auto r = in->explore(s);
		if (!viols(r.viols, !g.widened, P, ctx + ", size()")) return;
		for (auto & f: r.finals) {
			N want = f.ghosts[0];
			if (f.ret == want) P.ok();
			else {
				string how;
				if (differ(f.ret, want, how, &f)) P.wrong(tag() + ": " + ctx + ": size() is " + T.str(f.ret));
				else P.unshown(tag() + ": " + ctx + ": size() is " + T.str(f.ret));
			}
			bool same = true;
			auto was = restricted(g.cells, f);
			for (size_t i = 0; i < g.cells.size(); ++i) same &= in->sameByte(was[i], cellsOf(f)[i]) || was[i].st == 2;
			if (same) P.ok();
			else {
				N q, rm;
				if (T.divLin(T.sub(f.ghosts[0], T.con(64, u)), A.B, q, rm)) behaves(cellsOf(f), q, u, f.ghosts[0], !g.widened, P, ctx + ", size()", "size() modifies the hasher");
			}
		}
	}
	void checkCopy(const AState & g, unsigned u, N total, Report & P, const string & ctx) {
		// no address inside
		bool address = false;
		for (size_t i = 0; i < g.cells.size(); ++i) address |= g.cells[i].st == 1 && T.has(g.cells[i].n, HAS_BASE);
		for (const char * how: {"copy", "move"}) {
			State s = object(&g.cells);
			u64 o = in->mem(s, "copy", objSize);
			s.ghosts = {total};
			in->call(s, fn(how), {T.base(o), T.base(objId())});
			auto r = in->explore(s);
			string c1 = ctx + ", " + how + " construction";
			if (!viols(r.viols, !g.widened, P, c1)) return;
			for (auto & f: r.finals) {
				auto & d = f.objs[o]->cells;
				auto was = restricted(g.cells, f);
				bool same = true;
				for (size_t i = 0; i < d.size(); ++i) {
					if (was[i].st == 0 || was[i].st == 2) continue; // padding or unspecified content
					if (in->sameByte(d[i], was[i])) continue;
					if (d[i].st == 1 && T.has(d[i].n, HAS_JUNK)) continue;
					same = false;
				}
				N q, rm, tot = f.ghosts[0];
				if (!T.divLin(T.sub(tot, T.con(64, u)), A.B, q, rm)) {
					P.open(tag() + ": " + c1 + ": length");
					continue;
				}
				if (same) P.ok();
				else behaves(d, q, u, tot, !g.widened, P, c1 + ", the copy", "the copy is not shown to equal its source");
				bool src = true;
				for (size_t i = 0; i < d.size(); ++i) src &= in->sameByte(cellsOf(f)[i], was[i]) || was[i].st == 2;
				if (src) P.ok();
				else if (string(how) == "copy") behaves(cellsOf(f), q, u, tot, !g.widened, P, c1 + ", the source", "the source is not shown to be unchanged");
				else P.ok();
				// independence: work on one, look at the other
				if (!address) {
					P.ok();
					continue;
				}
				for (bool onCopy: {false, true}) {
					if (string(how) == "move" && onCopy) continue;
					State s2 = f;
					u64 in2 = in->stream(s2, "other", 5, T.con(64, 0), T.con(64, 1));
					in->call(s2, fn("update_b"), {T.base(onCopy ? o : objId()), T.base(in2), T.con(64, 1)});
					auto r2 = in->explore(s2);
					for (auto & f2: r2.finals) {
						State s3 = f2;
						u64 out = in->mem(s3, "digest", std::max(1u, outLen));
						in->call(s3, fn(finalFn), {T.base(onCopy ? objId() : o), T.base(out)});
						auto r3 = in->explore(s3);
						viols(r3.viols, !g.widened, P, c1 + ", update of one of the two, final() of the other");
						for (auto & f3: r3.finals) {
							N q3, t3 = f3.ghosts[0];
							if (!T.divLin(T.sub(t3, T.con(64, u)), A.B, q3, rm)) continue;
							compareOut(f3, out, specDigest(T.mulc(q3, A.B), u, t3), P, c1 + ", update of one of the two, final() of the other");
						}
					}
				}
			}
		}
	}
	// functions of the whole message: fn([seed,] input, [size,] output)
	void oneshot(Report & R, const string & name, const vector<unsigned> & rs, bool concrete = false) {
		size_t cnt = fixedObj >= 0 ? 1 : rs.size();
		R.count("one-call digests analysed (size classes)", cnt);
		parallel(cnt, R, [&](size_t i, Report & P) {
			unsigned r = fixedObj >= 0 ? unsigned(fixedN % A.B) : rs[i];
			auto mk = T.mark();
			unsigned jc = in->junkCount;
			string ctx = name;
			try {
				N m = T.sym(64, "m", HAS_SIZE, 0, LIMIT / A.B);
				N n = fixedObj >= 0 ? T.con(64, fixedN) : concrete ? T.con(64, r) : T.add(T.mulc(m, A.B), T.con(64, r));
				ctx += " of " + T.str(n) + " bytes";
				State s = in->fresh();
				u64 d = in->stream(s, "input", 0, T.con(64, 0), fixedObj >= 0 ? T.con(64, u64(fixedObj)) : n);
				u64 outId = in->mem(s, "digest", std::max(1u, outLen));
				s.ghosts = {n};
				vector<N> args;
				if (A.fam == F_XXH) args.push_back(S->seed);
				args.push_back(T.base(d));
				if (fixedObj < 0) args.push_back(n);
				args.push_back(T.base(outId));
				in->call(s, fn(name), args);
				auto res = in->explore(s);
				judge(res, outId, {}, r % A.B, true, P, ctx, false);
			} catch (Fail & e) { P.open(tag() + ": " + ctx + ": " + e.what()); }
			T.release(mk);
			in->junkCount = jc;
		});
	}
	// output of the given lengths, from a span of that size, after messages of any number of blocks
	void squeezes(Report & R, const vector<unsigned> & us, const vector<unsigned> & ns) {
		vector<std::pair<unsigned, unsigned>> items;
		for (unsigned u: us)
			for (unsigned n: ns) items.push_back({u, n});
		R.count("output lengths analysed", items.size());
		parallel(items.size(), R, [&](size_t it, Report & P) {
			unsigned u = items[it].first;
			outLen = S->outLen = items[it].second;
			spanOut = true;
			auto mk = T.mark();
			unsigned jc = in->junkCount;
			try {
				for (size_t v = 0; v < G[u].size(); ++v) {
					N total;
					AState g = renamed(G[u][v], total, u);
					checkFinal(g.cells, g.q, u, total, !g.widened, P, "output of " + std::to_string(outLen) + " bytes after " + T.str(total) + " bytes", false);
				}
			} catch (Fail & e) { P.open(tag() + ": output of " + std::to_string(outLen) + " bytes: " + e.what()); }
			T.release(mk);
			in->junkCount = jc;
		});
	}
	// whole digests at given lengths with nothing summarised
	void expanded(Report & R, const vector<unsigned> & lens, const string & which) {
		auto saved = in->handlers;
		auto hook = T.addHook;
		auto fold = T.foldFn;
		parallel(lens.size(), R, [&](size_t i, Report & P) {
			in->handlers.clear();
			T.addHook = nullptr;
			unsigned n = lens[i];
			auto mk = T.mark();
			unsigned pv = S->pivots;
			u64 old = T.distLimit;
			try {
				// reference first (names the products of every Keccak round)
				Expanded E(*this, n);
				auto c = ctor();
				if (!viols(c.viols, true, P, "constructor")) return;
				if (A.fam == F_KECCAK) T.distLimit = 0;
				for (auto & f0: c.finals) {
					auto r = update(cellsOf(f0), T.con(64, 0), T.con(64, n), which);
					if (!viols(r.viols, true, P, "update of " + std::to_string(n) + " bytes")) break;
					for (auto & f: r.finals) {
						u64 outId = 0;
						auto r2 = finalRun(cellsOf(f), T.con(64, n), outId);
						if (!viols(r2.viols, true, P, "final() after " + std::to_string(n) + " bytes")) break;
						for (auto & g: r2.finals) compareOut(g, outId, E.want, P, "message of " + std::to_string(n) + " bytes (nothing summarised)");
					}
				}
			} catch (Fail & e) { P.open(tag() + ": message of " + std::to_string(n) + " bytes: " + e.what()); }
			T.distLimit = old;
			T.rewrite.clear();
			S->pivots = pv;
			T.release(mk);
			in->handlers = saved;
			T.addHook = hook;
		});
		(void)fold;
		R.count("whole digests compared with the reference, nothing summarised", lens.size());
	}
	// messages in two or three pieces of given sizes (kernel summarised where it was verified)
	void splits(Report & R, const vector<vector<unsigned>> & cases, const string & which) {
		parallel(cases.size(), R, [&](size_t i, Report & P) {
			auto mk = T.mark();
			unsigned jc = in->junkCount;
			string ctx = "updates of";
			for (unsigned n: cases[i]) ctx += " " + std::to_string(n);
			ctx += " bytes";
			try {
				auto c = ctor();
				if (!viols(c.viols, true, P, "constructor")) return;
				vector<vector<Cell>> st;
				for (auto & f: c.finals) st.push_back(cellsOf(f));
				unsigned total = 0;
				for (unsigned n: cases[i]) {
					vector<vector<Cell>> nx;
					for (auto & x: st) {
						auto r = update(x, T.con(64, total), T.con(64, n), which);
						if (!viols(r.viols, true, P, ctx)) return;
						for (auto & f: r.finals) nx.push_back(cellsOf(f));
					}
					st = nx;
					total += n;
				}
				if (st.empty()) P.wrong(tag() + ": " + ctx + ": does not return");
				for (auto & x: st) checkFinal(x, T.con(64, total / A.B), total % A.B, T.con(64, total), true, P, ctx, false);
			} catch (Fail & e) { P.open(tag() + ": " + ctx + ": " + e.what()); }
			T.release(mk);
			in->junkCount = jc;
		});
		R.count("splits of concrete sizes", cases.size());
	}
	struct Expanded {
		vector<N> want;
		Expanded(Streams & s, unsigned n) {
			auto & T = s.T;
			auto & S = *s.S;
			unsigned B = s.A.B, u = n % B;
			vector<N> st = S.init;
			// absorb whole blocks with the expanded kernel
			for (unsigned c = 0; c + B <= n; c += B) {
				N cn = T.con(64, c);
				if (s.A.fam == F_SHA2) {
					vector<N> W;
					unsigned w = s.A.sha2.w / 8;
					for (unsigned i = 0; i < 16; ++i) W.push_back(S.mword(cn, i * w, w, true));
					st = s.A.sha2.compress(T, st, W);
				} else if (s.A.fam == F_KECCAK) {
					for (unsigned i = 0; i < B / 8; ++i) st[i] = T.xor_(st[i], S.mword(cn, i * 8, 8, false));
					st = S.kecExpand(st);
				} else {
					unsigned w = s.A.xxh.w / 8;
					for (unsigned i = 0; i < 4; ++i) st[i] = s.A.xxh.round(T, st[i], S.mword(cn, i * w, w, false));
				}
			}
			want = S.digestFrom(st, T.con(64, n - u), u, T.con(64, n), s.outLen);
		}
	};
	void compareOut(const State & g, u64 outId, const vector<N> & want, Report & P, const string & ctx) {
		Op none;
		bool all = true;
		for (unsigned i = 0; i < want.size(); ++i) {
			auto & c = g.objs[outId]->cells[i];
			if (c.st == 0) {
				if (P.aspect() != 2) P.bad(tag() + ": " + ctx + ": byte " + std::to_string(i) + " of the digest is never written");
				return;
			}
			N got = in->fromCells(&c, 1, 8, none);
			if (hasUndef(got)) {
				if (P.aspect() != 2) P.bad(tag() + ": " + ctx + ": byte " + std::to_string(i) + " of the digest depends on uninitialised memory");
				return;
			}
			if (got == want[i]) continue;
			all = false;
			if (getenv("CTA_DIFF")) { auto pr = T.part(got, want[i]); fprintf(stderr, "%u top kinds %d %d w %u %u len %zu: %s\n", i, int(T.kind(got)), int(T.kind(want[i])), T.w(got), T.w(want[i]), T.nargs(got), T.str(got, 1).c_str()); fprintf(stderr, "GOT  %s\nWANT %s\n", T.str(pr.first, 5).c_str(), T.str(pr.second, 5).c_str()); }
			string how;
			if (differ(got, want[i], how, &g)) {
				P.wrong(tag() + ": " + ctx + ": digest byte " + std::to_string(i) + " is not the one of the standard");
				return;
			}
		}
		if (all) { if (!P.aspect()) P.ok(want.size()); }
		else P.unshown(tag() + ": " + ctx + ": digest bytes not shown equal");
	}
};

} // namespace cta
