#pragma once
#include "func.hpp"

namespace cta {

// Text of a digest, whatever the way it is asked for
struct Routes: Funcs {
	using Funcs::Funcs;
	struct Code {
		unsigned bits = 4;
		bool padded = false;
		string alphabet;
	};
	std::map<string, Code> codes;
	static constexpr u64 SINK = 512, VPTR = 256, POS = 400; // a stream: table at VPTR, where to write at POS

	void codesFrom(const string & l) {
		for (auto & x: parts(l, ';'))
			if (auto p = parts(x, '|'); p.size() == 4) codes[p[0]] = {unsigned(std::stoul(p[1])), p[2] == "1", p[3]};
	}
	// characters put into a stream
	u64 stdOut = 0; // the object that stands for std::cout
	bool sinkOf(Interp & I, State & s, N os, u64 & o) { // false: not looked at
		N off;
		if (!I.resolve(os, o, off)) throw Fail("unsupported", "output to an unknown stream");
		auto & nm = s.objs[o]->name;
		if (stdOut && nm == "_ZSt4cout") return o = stdOut, true;
		if (stdOut && (nm == "_ZSt4cerr" || nm == "_ZSt4clog")) return false;
		if (nm != "stream") throw Fail("unsupported", "output to an unknown stream");
		return true;
	}
	void emit(Interp & I, State & s, const Op & op, N os, N src, u64 n, u64 w, N value) {
		u64 o;
		if (!sinkOf(I, s, os, o)) return;
		N p = I.fromCells(&s.objs[o]->cells[POS], 8, 64, op);
		u64 t;
		N to;
		if (!I.resolve(p, t, to) || !T.isConst(to)) throw Fail("unsupported", "output at an unknown place");
		u64 at = T.cval(to);
		if (at + n * w > s.objs[t]->cells.size()) I.viol("wrong output", "more characters are written than the encoding has", op);
		vector<Cell> c(n * w);
		if (src) {
			N so;
			u64 q = I.ptr(s, src, so, op);
			if (n) {
				I.bounds(s, q, so, n * w, op, "read");
				I.readCells(s, q, so, n * w, c.data(), op);
			}
		} else
			for (u64 i = 0; i < w; ++i) c[i] = Cell{value, uint8_t(in->big ? w - 1 - i : i), 1};
		auto & d = I.own(s, t);
		for (u64 i = 0; i < n * w; ++i) d.cells[at + i] = c[i];
		auto & st = I.own(s, o);
		N np = T.add(p, T.con(64, n * w));
		for (u64 i = 0; i < 8; ++i) st.cells[POS + i] = Cell{np, uint8_t(in->big ? 7 - i : i), 1};
	}
	void streamHandlers() {
		for (auto & F: in->M) {
			string mn = F.getName().str(), d = llvm::demangle(mn);
			int k = F.isIntrinsic() ? 0 : streamFn(d);
			u64 w = wideStream(d) ? 4 : 1;
			if (k == 5) in->named[mn] = [this](Interp & I, State &, const Op &, const vector<N> & a, N & r) {
				u64 o;
				N off;
				if (!I.resolve(a[0], o, off)) return false;
				r = T.base(o);
				return true;
			};
			else if (k == 1 || k == 3) in->named[mn] = [this, w, k](Interp & I, State & s, const Op & op, const vector<N> & a, N & r) {
				emit(I, s, op, a[0], 0, 1, w, a[1]);
				r = k == 1 ? a[0] : T.zext(a[1], 32);
				return true;
			};
			else if (k == 7) in->named[mn] = [this, w](Interp & I, State & s, const Op & op, const vector<N> & a, N & r) {
				emit(I, s, op, a[0], 0, 1, w, T.con(unsigned(8 * w), 10));
				r = a[0];
				return true;
			};
			else if (k == 8 || k == 9) in->named[mn] = [this, k](Interp & I, State & s, const Op &, const vector<N> & a, N & r) {
				u64 o;
				if (k == 9 && sinkOf(I, s, a[0], o)) throw Fail("unsupported", "a number is printed");
				r = a[0];
				return true;
			};
			else if (k == 10) in->named[mn] = [](Interp &, State &, const Op &, const vector<N> & a, N & r) {
				r = a[1];
				return true;
			};
			else if (k == 6) in->named[mn] = [this, w](Interp & I, State & s, const Op & op, const vector<N> & a, N & r) {
				u64 q;
				r = a[0];
				if (!sinkOf(I, s, a[0], q)) return true;
				N so;
				u64 o = I.ptr(s, a[1], so, op);
				if (!T.isConst(so)) throw Fail("unsupported", "output from a symbolic place");
				auto & c = s.objs[o]->cells;
				u64 at = T.cval(so), n = 0;
				for (bool end = false; !end; n += !end) {
					if (at + (n + 1) * w > c.size()) throw Fail("unsupported", "output of a text without an end");
					end = true;
					for (u64 i = 0; i < w; ++i) {
						N v = I.fromCells(&c[at + n * w + i], 1, 8, op);
						end &= T.isConst(v) && T.cval(v) == 0;
					}
				}
				emit(I, s, op, a[0], a[1], n, w, 0);
				return true;
			};
			else if (k) in->named[mn] = [this, w, k](Interp & I, State & s, const Op & op, const vector<N> & a, N & r) {
				if (!T.isConst(a[2])) throw Fail("unsupported", "output of symbolic size");
				emit(I, s, op, a[0], a[1], T.cval(a[2]), w, 0);
				r = k == 2 ? a[0] : a[2];
				return true;
			};
		}
	}
	u64 sink(State & s, u64 to) {
		u64 st = outObj(s, SINK, "stream");
		auto & c = in->own(s, st).cells;
		auto put = [&](u64 at, N v) {
			for (u64 i = 0; i < 8; ++i) c[at + i] = Cell{v, uint8_t(in->big ? 7 - i : i), 1};
		};
		put(0, T.add(T.base(st), T.con(64, VPTR)));
		for (u64 i = 0; i < 8; ++i) put(VPTR - 8 * (i + 1), T.con(64, 16)); // (offset of the virtual base)
		put(POS, T.base(to));
		return st;
	}
	bool written(const State & f, u64 st, u64 o, u64 & n) {
		Op none;
		N q = in->fromCells(&f.objs[st]->cells[POS], 8, 64, none), off;
		u64 t;
		if (!in->resolve(q, t, off) || t != o || !T.isConst(off)) return false;
		n = T.cval(off);
		return true;
	}
	// items: FUNCTION:ENCODING:BYTES:WIDTH:(ret|os)
	void route(const vector<string> & p, Report & P) {
		auto it = codes.find(p[1]);
		if (it == codes.end()) throw std::runtime_error("encoding " + p[1]);
		bits = it->second.bits;
		padded = it->second.padded;
		alphabet = it->second.alphabet;
		eb = 8;
		setup();
		in->nested = false;
		in->allowHeap = true;
		u64 n = std::stoull(p[2]), w = std::stoull(p[3]), total = n / E * G + tailChunks(n % E), room = (total + 24) * w;
		bool os = p[4] == "os";
		string ctx = pfx + ": " + p[0];
		in->fuel = in->stats.steps + 30000000;
		State s = in->fresh();
		u64 a = in->stream(s, "digest", 0, T.con(64, 0), T.con(64, n)), o = outObj(s, room), st = 0;
		vector<N> args{T.base(a), T.base(o)};
		if (os) {
			st = sink(s, o);
			args.push_back(T.base(st));
		}
		in->call(s, fn(p[0]), args);
		auto res = in->explore(s);
		if (!viols(res.viols, true, P, p[0])) return;
		if (res.finals.empty()) P.bad(ctx + ": does not end");
		Op none;
		for (auto & f: res.finals) {
			N len = f.ret;
			if (os) {
				u64 n2;
				if (!written(f, st, o, n2)) {
					P.open(ctx + ": where the output ends");
					continue;
				}
				len = T.con(64, n2 / w);
			}
			if (!T.isConst(len)) {
				P.open(ctx + ": length " + T.str(len, 3).substr(0, 100));
				continue;
			}
			if (T.cval(len) != total) {
				P.bad(ctx + ": gives " + std::to_string(i64(T.cval(len))) + " characters, the text has " + std::to_string(total));
				continue;
			}
			P.ok();
			for (u64 i = 0; i < total; ++i) {
				N got, want;
				string what = ctx + ": character " + std::to_string(i);
				try {
					got = in->fromCells(&f.objs[o]->cells[i * w], w, unsigned(8 * w), none);
				} catch (Fail & e) {
					P.bad(what + ": " + e.what());
					break;
				}
				if (hasUndef(got)) {
					P.bad(what + " is not written or not initialised");
					break;
				}
				u64 g = i / G, j = i % G, have = std::min<u64>(E, n - g * E);
				if (missing(unsigned(j), unsigned(have)) == bits) want = T.con(8, u64(u8c(pad)));
				else want = T.look(alphabet + string(1, 0), chunk(T.con(64, g * E), unsigned(j), unsigned(have)), 8);
				Cmp k = compare(got, T.zext(want, unsigned(8 * w)), f.assumed);
				if (k == EQ) P.ok();
				else if (k == DIFF) {
					P.bad(what + " is " + T.str(got, 3).substr(0, 120) + ", expected " + T.str(want, 3).substr(0, 120));
					break;
				} else P.open(what + " is not shown to be the expected one");
			}
		}
	}
	void others(const string & what, const vector<string> & p, Report & P) override {
		if (what == "route") route(p, P);
		else throw std::runtime_error("what?");
	}
};

} // namespace cta
