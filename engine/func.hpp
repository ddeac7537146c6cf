#pragma once
#include "enc.hpp"
#include <bitset>

namespace cta {

// Small functions of digests with symbolic content: comparisons, selections, text
struct Funcs: Enc {
	using Enc::Enc;
	static vector<string> parts(const string & s, char d) {
		vector<string> r(1);
		for (char c: s)
			if (c == d) r.emplace_back();
			else r.back() += c;
		return r;
	}
	u64 outObj(State & s, u64 len, const string & name = "output") {
		auto o = std::make_shared<Obj>();
		o->kind = OB_MEM;
		o->name = name;
		o->cells.assign(len, Cell{0, 0, 0});
		o->size = T.con(64, len);
		return in->addObj(s, o);
	}
	N mb(u64 stream, u64 i) { return T.mb(stream, T.con(64, i)); }
	using Conds = vector<std::pair<N, bool>>;

	void all(Report & R, const string & what, const vector<string> & items) {
		in->stats.splits = 0;
		T.onRelease.push_back([this](N from) { tables.erase(tables.lower_bound(from), tables.end()); });
		parallel(items.size(), R, [&](size_t i, Report & P) {
			auto p = parts(items[i], ':');
			auto mk = T.mark();
			try {
				if (what == "copy") copies(p, P);
				else if (what == "hex") hex(p, P);
				else if (what == "order") order(p, P);
				else if (what == "name") names(p, P);
				else others(what, p, P);
			} catch (Fail & e) { P.open(pfx + ": " + p[0] + ": " + e.what()); }
			T.release(mk);
		});
	}

	virtual void others(const string &, const vector<string> &, Report &) { throw std::runtime_error("what?"); }

	// out[i] is in[off + i]
	void copies(const vector<string> & p, Report & P) {
		u64 n = std::stoull(p[1]), off = std::stoull(p[2]), len = std::stoull(p[3]);
		State s = in->fresh();
		u64 a = in->stream(s, "digest", 1, T.con(64, 0), T.con(64, n)), o = outObj(s, len);
		in->call(s, fn(p[0]), {T.base(a), T.base(o)});
		auto res = in->explore(s);
		string ctx = pfx + ": " + p[0];
		if (!viols(res.viols, true, P, p[0])) return;
		if (res.finals.empty()) P.bad(ctx + ": does not end");
		Op none;
		for (auto & f: res.finals)
			for (u64 i = 0; i < len; ++i) {
				N v;
				try {
					v = in->fromCells(&f.objs[o]->cells[i], 1, 8, none);
				} catch (Fail & e) {
					P.bad(ctx + ": byte " + std::to_string(i) + ": " + e.what());
					return;
				}
				if (hasUndef(v)) {
					P.bad(ctx + ": byte " + std::to_string(i) + " is not initialised");
					return;
				}
				Cmp c = compare(v, mb(1, off + i), f.assumed);
				if (c == EQ) P.ok();
				else if (c == DIFF) {
					P.bad(ctx + ": byte " + std::to_string(i) + " is " + T.str(v, 3).substr(0, 100) + ", not byte " + std::to_string(off + i) + " of the digest");
					return;
				} else P.open(ctx + ": byte " + std::to_string(i) + " not decided");
			}
	}

	// byte i is spelled by digits 2i and 2i+1
	static int digit(u64 c) { return c >= '0' && c <= '9' ? int(c - '0') : c >= 'a' && c <= 'f' ? int(c - 'a' + 10) : c >= 'A' && c <= 'F' ? int(c - 'A' + 10) : -1; }
	void hex(const vector<string> & p, Report & P) {
		u64 n = std::stoull(p[1]), cw = std::stoull(p[2]);
		string ctx = pfx + ": " + p[0];
		static const string digits = "0123456789abcdefABCDEF";
		// with everything symbolic, or (only = i) all digits but those of byte i fixed
		auto once = [&](i64 only, char other, Report & P) {
			State s = in->fresh();
			u64 a;
			if (only < 0) a = in->stream(s, "text", 1, T.con(64, 0), T.con(64, (2 * n + 1) * cw));
			else {
				a = outObj(s, (2 * n + 1) * cw, "text");
				auto & c = s.objs[a]->cells;
				for (u64 i = 0; i < 2 * n + 1; ++i)
					for (u64 k = 0; k < cw; ++k) {
						N v = T.con(8, k == u64(in->big ? cw - 1 : 0) && i < 2 * n ? u64(u8c(other)) : 0);
						if (i64(i / 2) == only && i < 2 * n) v = mb(1, i * cw + k);
						c[i * cw + k] = Cell{v, 0, 1};
					}
			}
			u64 o = outObj(s, n);
			in->call(s, fn(p[0]), {T.base(a), T.base(o)});
			auto res = in->explore(s);
			if (!viols(res.viols, true, P, p[0])) return;
			if (res.finals.empty()) P.bad(ctx + ": does not end");
			Op none;
			for (auto & f: res.finals)
				for (u64 i = 0; i < n; ++i) {
					N v = in->fromCells(&f.objs[o]->cells[i], 1, 8, none);
					if (hasUndef(v)) {
						P.bad(ctx + ": byte " + std::to_string(i) + " is not initialised");
						return;
					}
					// its value over all pairs of digits
					bool good = true;
					std::set<N> at, seen;
					T.atoms(v, at, seen);
					vector<N> others;
					u64 lo = in->big ? cw - 1 : 0;
					N h = mb(1, (2 * i) * cw + lo), l = mb(1, (2 * i + 1) * cw + lo);
					for (N x: at)
						if (x != h && x != l) {
							bool zero = false;
							for (u64 k = 0; k < cw; ++k) zero |= k != lo && (x == mb(1, 2 * i * cw + k) || x == mb(1, (2 * i + 1) * cw + k));
							if (!zero) others.push_back(x);
						}
					bool mine = only < 0 || u64(only) == i;
					for (char ch: digits) {
						for (char cl: digits) {
							for (u64 seed = 1; good && seed < (f.assumed.empty() && others.empty() ? 2 : 4); ++seed) {
								auto mk = T.mark();
								Sampler sm(T, seed);
								for (u64 j = 0; j < n; ++j)
									for (u64 k = 0; k < 2 * cw; ++k) {
										u64 d = Sampler::mix(seed * 1000 + 2 * j + k / cw) % 22;
										sm.fixed[mb(1, 2 * j * cw + k)] = k % cw == lo ? u64(u8c(digits[d])) : 0;
									}
								sm.fixed[h] = u8c(ch);
								sm.fixed[l] = u8c(cl);
								bool on = true;
								for (auto & c: f.assumed) on = on && (sm.ev(c.first) & 1) == u64(c.second);
								if (on && !sm.bad) {
									u64 got = sm.ev(v), want = mine ? u64(digit(u8c(ch)) * 16 + digit(u8c(cl))) : u64(digit(u8c(other)) * 17);
									if (!sm.bad && got != want) {
										good = false;
										P.bad(ctx + ": digits " + (mine ? string() + ch + cl : string(2, other)) + " for byte " + std::to_string(i) + " give " + std::to_string(got));
									}
								}
								T.release(mk);
								if (sm.bad) others.push_back(v);
							}
							if (!mine) break;
						}
						if (!mine) break;
					}
					if (!good) return;
					if (others.empty() && f.assumed.empty()) P.ok();
					else if (only >= 0 && others.empty()) P.ok();
					else P.open(ctx + ": byte " + std::to_string(i) + " depends on other digits");
				}
		};
		Report first;
		bool failed = false;
		auto mk = T.mark();
		in->fuel = in->stats.steps + 3000000;
		int keep = in->maxConds;
		in->maxConds = 40;
		try {
			once(-1, '0', first);
		} catch (Fail & e) { failed = true; }
		in->maxConds = keep;
		T.release(mk);
		if (!failed && (first.unproved.empty() || !first.violations.empty())) {
			for (auto & v: first.violations) P.bad(v);
			P.obligations += first.discharged;
			P.discharged += first.discharged;
			return;
		}
		// digit by digit (the others fixed, twice)
		for (u64 i = 0; i < n && P.violations.empty(); ++i)
			for (char c: {'0', 'b', 'F'}) {
				in->fuel = in->stats.steps + 3000000;
				once(i64(i), c, P);
			}
		P.notes.push_back(ctx + ": decided byte by byte, the other digits fixed to 0, b and F");
	}

	// truth of a condition about one pair of bytes, for all 65536 of them
	using Table = std::bitset<65536>;
	std::map<N, std::shared_ptr<Table>> tables;
	// the index of the pair a condition is about, and the condition for pair 0
	bool pairOf(N c, u64 n1, u64 n2, u64 & i, N & canon) {
		std::set<N> at, seen;
		T.atoms(c, at, seen);
		if (at.empty()) return false;
		i64 idx = -1;
		Arena::Map m;
		for (N x: at) {
			if (T.kind(x) != KMB || T.n[x].c == 0 || T.n[x].c > 2) return false;
			N off = N(T.arg(x, 0));
			if (!T.isConst(off)) return false;
			i64 k = i64(T.cval(off));
			if (idx >= 0 && k != idx) return false;
			idx = k;
			m[x] = mb(T.n[x].c, 0);
		}
		(void)n1, (void)n2;
		i = u64(idx);
		if (i == 0) canon = c;
		else {
			std::unordered_map<N, N> memo;
			auto old = T.substFlags;
			T.substFlags = 0xff;
			canon = T.subst(c, m, memo);
			T.substFlags = old;
		}
		return true;
	}
	const Table * table(N canon) {
		auto & t = tables[canon];
		if (!t) {
			t = std::make_shared<Table>();
			N a = mb(1, 0), b = mb(2, 0);
			for (u64 x = 0; x < 65536; ++x) {
				Sampler sm(T, 1);
				sm.fixed[a] = x >> 8;
				sm.fixed[b] = x & 255;
				bool v = sm.ev(canon) & 1;
				if (sm.bad) return nullptr;
				(*t)[x] = v;
			}
		}
		return t.get();
	}
	// 0: not consistent, 1: consistent (result -1/0/1 of the comparison expected by kind)
	static i64 wanted(const string & kind, int c) {
		if (kind == "eq") return c == 0;
		if (kind == "ne") return c != 0;
		if (kind == "lt") return c < 0;
		if (kind == "le") return c <= 0;
		if (kind == "gt") return c > 0;
		if (kind == "ge") return c >= 0;
		return c; // cmp
	}
	void order(const vector<string> & p, Report & P) {
		string kind = p[1], ctx = pfx + ": " + p[0];
		u64 n1 = std::stoull(p[2]), n2 = std::stoull(p[3]), L = std::min(n1, n2);
		static const Table LT = [] { Table t; for (u64 x = 0; x < 65536; ++x) t[x] = (x >> 8) < (x & 255); return t; }();
		static const Table GT = [] { Table t; for (u64 x = 0; x < 65536; ++x) t[x] = (x >> 8) > (x & 255); return t; }();
		const Table EQT = ~(LT | GT);
		State s = in->fresh();
		u64 a = in->stream(s, "left", 1, T.con(64, 0), T.con(64, n1)), b = in->stream(s, "right", 2, T.con(64, 0), T.con(64, n2));
		in->maxConds = int(4 * L + 20);
		in->call(s, fn(p[0]), {T.base(a), T.base(b)});
		auto res = in->explore(s);
		if (!viols(res.viols, true, P, p[0])) return;
		if (res.finals.empty()) P.bad(ctx + ": does not end");
		auto said = [&](const State & f) { return T.isConst(f.ret) ? std::to_string(i32(T.cval(f.ret))) : T.str(f.ret, 3).substr(0, 80); };
		// (what is selected by conditions: one case each)
		vector<State> cases;
		for (u64 steps = 0; !res.finals.empty() && steps < 20000; ++steps) {
			State f = std::move(res.finals.back());
			res.finals.pop_back();
			N c;
			if (!T.isConst(f.ret)) f.ret = in->underAssumptions(f, f.ret);
			if (T.isConst(f.ret) || !in->findIcmp(f.ret, c)) {
				cases.push_back(std::move(f));
				continue;
			}
			res.finals.push_back(f);
			res.finals.back().assumed.push_back({c, true});
			f.assumed.push_back({c, false});
			res.finals.push_back(std::move(f));
		}
		for (auto & f: cases) {
			vector<Table> t(L, Table().set());
			bool exact = T.isConst(f.ret);
			i64 got = exact ? i32(T.cval(f.ret)) : 0;
			for (auto & c: f.assumed) {
				u64 i = 0;
				N canon;
				const Table * x = pairOf(c.first, n1, n2, i, canon) && i < L ? table(canon) : nullptr;
				if (!x) {
					exact = false;
					break;
				}
				t[i] &= c.second ? *x : ~*x;
			}
			if (!exact) {
				spots(f, kind, L, P, ctx, said(f));
				continue;
			}
			bool feasible = true;
			for (auto & x: t) feasible = feasible && x.any();
			if (!feasible) continue;
			// every outcome the pairs of this path allow
			string bad;
			u64 i = 0;
			for (; i < L; ++i) {
				if ((t[i] & LT).any() && got != wanted(kind, -1)) bad = "the left one is less at byte ";
				if ((t[i] & GT).any() && got != wanted(kind, 1)) bad = "the left one is greater at byte ";
				if (!bad.empty()) break;
				if ((t[i] & EQT).none()) break;
			}
			if (i == L && got != wanted(kind, 0)) bad = "all bytes are equal; compared ";
			if (bad.empty()) P.ok();
			else P.bad(ctx + ": returns " + said(f) + " although " + bad + std::to_string(i));
		}
	}
	// not in a form that can be enumerated: chosen contents
	void spots(const State & f, const string & kind, u64 L, Report & P, const string & ctx, const string & said) {
		static const int pairs[][2] = {{0, 1}, {1, 0}, {127, 128}, {128, 127}, {0, 255}, {255, 0}, {3, 7}, {200, 100}};
		for (u64 k = 0; k <= L; ++k)
			for (auto & q: pairs)
				for (u64 seed = 1; seed < 4; ++seed) {
					auto mk = T.mark();
					Sampler sm(T, seed);
					for (u64 i = 0; i < L; ++i) {
						u64 v = Sampler::mix(seed * 977 + i) & 255;
						sm.fixed[mb(1, i)] = i == k ? u64(q[0]) : v;
						sm.fixed[mb(2, i)] = i == k ? u64(q[1]) : i < k ? v : Sampler::mix(seed * 1977 + i) & 255;
					}
					bool on = true;
					for (auto & c: f.assumed) on = on && (sm.ev(c.first) & 1) == u64(c.second);
					i64 got = on ? i32(sm.ev(f.ret)) : 0;
					bool sure = !sm.bad;
					T.release(mk);
					if (on && sure && got != wanted(kind, k == L ? 0 : q[0] < q[1] ? -1 : 1)) {
						P.bad(ctx + ": returns " + std::to_string(got) + " for contents that differ first at byte " + std::to_string(k) + " (" + std::to_string(q[0]) + " against " + std::to_string(q[1]) + ")");
						return;
					}
				}
		P.open(ctx + ": " + said + " under conditions on more than one pair of bytes");
	}
	using i32 = int;

	// exceptions: the path ends with the type thrown
	static constexpr const char * thrown = "thrown:";
	void catchThrows() {
		in->named["__cxa_allocate_exception"] = [this](Interp & I, State & s, const Op &, const vector<N> & a, N & r) {
			r = T.base(I.mem(s, "exception", T.isConst(a[0]) ? T.cval(a[0]) : 64));
			return true;
		};
		in->named["__cxa_throw"] = [this](Interp & I, State & s, const Op &, const vector<N> & a, N &) -> bool {
			for (size_t k = s.frames.size(); k-- > 0;) {
				auto & f = s.frames[k];
				auto * inv = llvm::dyn_cast<llvm::InvokeInst>(f.fn->blocks[size_t(f.block)][size_t(f.pc)].I);
				if (!inv) continue;
				auto * lp = inv->getLandingPadInst();
				for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
					for (auto & x: *lp->getParent())
						if (auto * cb = llvm::dyn_cast<llvm::CallBase>(&x); cb && cb->getCalledFunction() && cb->getCalledFunction()->getName() == "__clang_call_terminate")
							I.viol("terminate", "an exception leaves a function that must not throw", f.fn->blocks[size_t(f.block)][size_t(f.pc)]);
					throw Fail("unsupported", "an exception is caught");
				}
			}
			string ty = "?";
			u64 o;
			N off;
			if (I.resolve(a[1], o, off) && s.objs[o]->gv) ty = s.objs[o]->gv->getName().str();
			s.notes.push_back(thrown + ty);
			Ev e;
			e.k = Ev::RET;
			throw Interp::Stop{e};
		};
		for (auto * t: {"16invalid_argument", "12out_of_range", "12length_error", "12domain_error", "13runtime_error", "11logic_error", "11range_error", "12format_error"})
			for (auto * c: {"C1EPKc", "C2EPKc", "D1Ev", "D2Ev", "C1ERKS_", "C2ERKS_"})
				in->named[string("_ZNSt") + t + c] = [this](Interp &, State &, const Op &, const vector<N> & a, N & r) {
					r = 0;
					return true;
				};
	}
	static string throwsWhat(const State & f) {
		for (auto & n: f.notes)
			if (n.rfind(thrown, 0) == 0) return n.substr(strlen(thrown));
		return "";
	}
	// (name, which encoding)
	vector<std::pair<string, int>> known;
	int defaultId = -1; // of an empty name; -1: rejected
	// characters: every low byte, the other bytes (of wide ones) all zero or one of a few values
	static constexpr u64 HIGHS[] = {0, 0x010101, 0xffffff, 0x800080, 0x000001, 0x000100, 0x010000};
	using Set = std::bitset<256 * 7>;
	u64 cw = 1, kinds = 1;

	// the only character a condition is about, and the values it holds for
	bool byteSet(N c, u64 n, u64 & i, Set & t) {
		std::set<N> at, seen;
		T.atoms(c, at, seen);
		if (at.empty()) return false;
		i64 idx = -1;
		for (N x: at) {
			if (T.kind(x) != KMB || T.n[x].c != 1) return false;
			N off = N(T.arg(x, 0));
			if (!T.isConst(off) || T.cval(off) >= n * cw) return false;
			i64 k = i64(T.cval(off) / cw);
			if (idx >= 0 && idx != k) return false;
			idx = k;
		}
		i = u64(idx);
		t.reset();
		for (u64 h = 0; h < kinds; ++h)
			for (u64 v = 0; v < 256; ++v) {
				Sampler sm(T, 1);
				for (N x: at) {
					u64 b = T.cval(N(T.arg(x, 0))) % cw; // which byte of the character
					if (in->big) b = cw - 1 - b;
					sm.fixed[x] = b == 0 ? v : (HIGHS[h] >> (8 * (b - 1))) & 255;
				}
				t[h * 256 + v] = sm.ev(c) & 1;
				if (sm.bad) return false;
			}
		return true;
	}
	struct Got {
		string thrown;
		int id = -1;
		i64 pos = -1;
	};
	string show(const Got & g) { return g.thrown.empty() ? "gives encoding " + std::to_string(g.id) + (g.pos >= 0 ? ", " + std::to_string(g.pos) + " characters read" : "") : "throws " + llvm::demangle(g.thrown); }
	static string quoted(const string & s) {
		string r = "\"";
		for (char c: s) r += c >= ' ' && c < 127 ? string(1, c) : "\\x" + std::to_string(u8c(c));
		return r + "\"";
	}
	// wanted for a text: id, or -1 to be rejected; pos: where the name ends
	int wantedId(const string & name) const {
		for (auto & k: known)
			if (k.first == name) return k.second;
		return name.empty() ? defaultId : -1;
	}
	string wrong(const Got & g, int id, i64 pos) {
		if (id < 0) return g.thrown == "_ZTISt16invalid_argument" ? "" : g.thrown.empty() ? "is accepted: " + show(g) : "is rejected with another exception: " + show(g);
		if (!g.thrown.empty()) return "is rejected";
		if (g.id != id) return show(g) + " instead of " + std::to_string(id);
		if (pos >= 0 && g.pos >= 0 && g.pos != pos) return show(g) + " instead of " + std::to_string(pos);
		return "";
	}
	// items: FUNCTION:KIND:LENGTH; kinds: plain (all of it is the name), until (it ends before }); a length with + means any length from there on
	std::function<void(State &, u64)> nameStart;
	std::function<bool(State &, Got &)> nameResult;
	bool zeroEnds = false; // names have no zero in them
	void names(const vector<string> & p, Report & P) {
		catchThrows();
		string ctx = pfx + ": " + p[0];
		bool until = p[1] == "until", any = p[2].back() == '+', idless = p.size() > 3 && p[3] == "pos";
		cw = p.size() > 4 ? std::stoull(p[4]) : 1;
		kinds = cw == 1 ? 1 : cw == 2 ? 3 : 7;
		Set every;
		for (u64 v = 0; v < kinds * 256; ++v) every[v] = v || !zeroEnds;
		u64 n = std::stoull(p[2]);
		auto result = [&](State & f, u64 po, Got & g) {
			if (nameResult) return nameResult(f, g);
			g.thrown = throwsWhat(f);
			if (!g.thrown.empty()) return true;
			if (!T.isConst(f.ret)) f.ret = in->underAssumptions(f, f.ret);
			if (!T.isConst(f.ret)) return false;
			g.id = idless ? -2 : i32(T.cval(f.ret));
			if (until) {
				Op none;
				N v = in->fromCells(&f.objs[po]->cells[0], 8, 64, none);
				if (!T.isConst(v)) return false;
				g.pos = i64(T.cval(v));
			}
			return true;
		};
		auto wrongOf = [&](const Got & g, int id, i64 pos) {
			Got x = g;
			if (idless && g.thrown.empty() && id >= 0) x.id = id;
			return wrong(x, id, pos);
		};
		auto start = [&](State & s, u64 a, N len, u64 & po) {
			if (nameStart) return nameStart(s, a);
			po = outObj(s, 8, "position");
			vector<N> args{T.base(a), len};
			if (until) args.push_back(T.base(po));
			in->call(s, fn(p[0]), args);
		};
		auto whole = [&](Report & P) {
			State s = in->fresh();
			N len = any ? in->newSym(64, "n", (u64(1) << 40) - n) : T.con(64, n);
			if (any) len = T.add(len, T.con(64, n));
			u64 a = in->stream(s, "name", 1, T.con(64, 0), cw == 1 ? len : T.con(64, n * cw)), po;
			start(s, a, len, po);
			auto res = in->explore(s);
			if (!viols(res.viols, true, P, p[0])) return;
			if (res.finals.empty()) P.bad(ctx + ": does not end for " + p[2] + " characters");
			for (auto & f: res.finals) {
				Got g;
				if (any) {
					if (nameResult && !nameResult(f, g)) {
						P.open(ctx + ": long names: result not decided");
						continue;
					}
					if (!nameResult) g.thrown = throwsWhat(f);
					if (f.assumed.empty() && !until) {
						auto w = wrong(g, -1, -1);
						if (w.empty()) P.ok();
						else P.bad(ctx + ": a name of " + p[2] + " characters or more " + w);
					} else P.open(ctx + ": conditions on the content of long names");
					continue;
				}
				if (!result(f, po, g)) {
					P.open(ctx + ": " + p[2] + " characters: result not decided");
					continue;
				}
				vector<Set> t(n, every);
				bool good = true, feasible = true;
				for (auto & c: f.assumed) {
					u64 i = 0;
					Set x;
					good = good && byteSet(c.first, n, i, x);
					if (good) t[i] &= c.second ? x : ~x;
				}
				if (!good) {
					P.open(ctx + ": " + p[2] + " characters: conditions on more than one character");
					continue;
				}
				for (auto & x: t) feasible = feasible && x.any();
				if (!feasible) continue;
				// every length the name can have on this path
				string bad;
				for (u64 j = until ? 0 : n; j <= n && bad.empty(); ++j) {
					if (j < n && !t[j][u8c('}')]) continue;
					bool single = true, can = true, wide = false;
					string name;
					for (u64 i = 0; i < j; ++i) {
						Set x = t[i];
						if (until) x[u8c('}')] = false;
						can = can && x.any();
						single = single && x.count() == 1;
						u64 v = 0;
						while (v + 1 < kinds * 256 && !x[v]) ++v;
						if (x[u8c('a')]) v = u8c('a');
						if (v >= 256) wide = true;
						name += char(v);
					}
					if (!can) break;
					string w;
					if (single) {
						if (!(w = wrongOf(g, wide ? -1 : wantedId(name), i64(j))).empty()) bad = quoted(name) + (wide ? " (in characters beyond 255) " : " ") + w;
						continue;
					}
					// not one of the names, or one of them
					for (auto & k: known) {
						if (k.first.size() != j) continue;
						bool in_ = true;
						for (u64 i = 0; i < j; ++i) in_ = in_ && t[i][u8c(k.first[i])];
						if (in_ && !(w = wrongOf(g, k.second, i64(j))).empty()) bad = quoted(k.first) + " " + w;
					}
					if (bad.empty() && !(w = wrongOf(g, -1, -1)).empty()) {
						// a text that is no name
						for (u64 i = 0; i < j && !wide && wantedId(name) >= 0; ++i)
							for (u64 v = 0; v < kinds * 256 && !wide && wantedId(name) >= 0; ++v)
								if (t[i][v] && !(until && v == u8c('}'))) name[i] = char(v), wide = v >= 256;
						bad = quoted(name) + (wide ? " (in characters beyond 255) " : " ") + w;
					}
				}
				if (bad.empty()) P.ok();
				else P.bad(ctx + ": " + bad);
			}
		};
		Report first;
		bool failed = false;
		string why;
		auto mk = T.mark();
		in->fuel = in->stats.steps + 20000000;
		in->maxConds = 4000;
		try {
			whole(first);
		} catch (Fail & e) {
			failed = true;
			why = e.what();
		}
		T.release(mk);
		if (!failed && (first.unproved.empty() || !first.violations.empty())) {
			P.take(first);
			return;
		}
		P.open(ctx + ": " + p[2] + " characters: " + (failed ? why : first.unproved[0]));
		// bounded: chosen texts of this length
		std::set<string> texts;
		for (auto & k: known)
			for (u64 i = 0; i <= k.first.size(); ++i)
				for (char c: {'_', 'A', 'e', '6', '}', '\0', ' '}) {
					string x = k.first;
					if (i < x.size()) {
						texts.insert(x.substr(0, i) + c + x.substr(i + 1));
						texts.insert(x.substr(0, i));
					}
					texts.insert(x.substr(0, i) + c + x.substr(i));
					texts.insert(x + string(3, c));
					texts.insert(x);
				}
		for (auto & x: texts) {
			if (x.size() != n || P.violations.size() || (zeroEnds && x.find('\0') != string::npos)) continue;
			in->fuel = in->stats.steps + 2000000;
			auto mk = T.mark();
			try {
				State s = in->fresh();
				u64 a = outObj(s, n * cw, "name"), po;
				for (u64 i = 0; i < n * cw; ++i) s.objs[a]->cells[i] = Cell{T.con(8, i % cw == (in->big ? cw - 1 : 0) ? u8c(x[i / cw]) : 0), 0, 1};
				start(s, a, T.con(64, n), po);
				auto res = in->explore(s);
				if (!viols(res.viols, true, P, p[0])) return;
				if (res.finals.size() == 1 && res.finals[0].assumed.empty()) {
					Got g;
					if (result(res.finals[0], po, g)) {
						auto e = until ? std::min(x.find('}'), x.size()) : x.size();
						string w = wrongOf(g, wantedId(x.substr(0, e)), i64(e));
						if (w.empty()) P.ok();
						else P.bad(ctx + ": " + quoted(x) + " " + w);
					}
				}
			} catch (Fail & e) {}
			T.release(mk);
		}
	}
};

} // namespace cta
