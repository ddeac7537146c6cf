#pragma once
#include "route.hpp"

namespace cta {

// The command-line tool: which digest of what does it print for which name?
struct Tool: Routes {
	using Routes::Routes;
	u64 fileId = 0, pathId = 0, sinkId = 0, outId = 0;
	N fileSize = 0;
	bool missing = false; // the file cannot be opened
	u64 digestBytes = 0;

	void world(State & s, N size) {
		fileSize = size;
		fileId = in->stream(s, "file", 0, T.con(64, 0), size);
		pathId = outObj(s, 5, "path");
		for (u64 i = 0; i < 5; ++i) in->own(s, pathId).cells[i] = Cell{T.con(8, u64("file"[i])), 0, 1};
		outId = outObj(s, 1100, "printed text");
		stdOut = sinkId = sink(s, outId);
	}
	void libc() {
		auto constant = [this](const string & f, u64 v, unsigned w) {
			in->named[f] = [v, w](Interp & I, State &, const Op &, const vector<N> &, N & r) {
				r = I.T.con(w, v);
				return true;
			};
		};
		for (auto f: {"open", "open64"}) in->named[f] = [this](Interp & I, State & s, const Op & op, const vector<N> & a, N & r) {
			u64 o;
			N off;
			if (!I.resolve(a[0], o, off)) throw Fail("unsupported", "open of an unknown path");
			if (o != pathId || !T.isConst(off) || T.cval(off)) I.viol("wrong file", "another path than the one given is opened", op);
			r = T.con(32, missing ? ~u64(0) : 3);
			return true;
		};
		auto size = [this](Interp & I, State & s, N size) {
			if (missing) throw Fail("unsupported", "a file that is not open is used");
			(void)I, (void)s;
			return size;
		};
		for (auto f: {"lseek", "lseek64"}) in->named[f] = [this, size](Interp & I, State & s, const Op &, const vector<N> & a, N & r) {
			if (!T.isConst(a[0]) || !T.isConst(a[1]) || !T.isConst(a[2])) throw Fail("unsupported", "lseek");
			if (missing || (T.cval(a[0]) & 0xffffffff) != 3) {
				r = T.con(64, ~u64(0));
				return true;
			}
			if (T.cval(a[2]) == 1 && T.cval(a[1]) == 0) throw Fail("unsupported", "lseek");
			r = T.cval(a[2]) == 2 ? T.add(size(I, s, fileSize), a[1]) : a[1];
			return true;
		};
		for (auto f: {"fstat", "fstat64"}) in->named[f] = [this](Interp & I, State & s, const Op & op, const vector<N> & a, N & r) {
			r = T.con(32, missing ? ~u64(0) : 0);
			if (missing) return true;
			N off;
			u64 o = I.ptr(s, a[1], off, op);
			I.bounds(s, o, off, 144, op, "write");
			vector<Cell> c(144);
			for (u64 i = 0; i < 144; ++i) c[i] = Cell{T.con(8, i == 25 ? 0x81 : 0), 0, 1}; // an ordinary file
			for (u64 i = 0; i < 8; ++i) c[48 + i] = Cell{fileSize, uint8_t(i), 1};
			I.storeBytes(s, o, off, c, op);
			return true;
		};
		for (auto f: {"mmap", "mmap64"}) in->named[f] = [this](Interp & I, State &, const Op & op, const vector<N> & a, N & r) {
			if (missing) {
				r = T.con(64, ~u64(0));
				return true;
			}
			if (!T.isConst(a[4]) || (T.cval(a[4]) & 0xffffffff) != 3) throw Fail("unsupported", "mmap");
			if (!T.isConst(a[5])) throw Fail("unsupported", "mmap at a symbolic place");
			if (T.cval(a[5]) & 4095) {
				r = T.con(64, ~u64(0));
				return true;
			}
			// (sizes other than zero are those of files that are not empty)
			r = T.isConst(a[1]) && T.cval(a[1]) == 0 ? T.con(64, ~u64(0)) : T.add(T.base(fileId), a[5]);
			(void)op;
			return true;
		};
		for (auto f: {"munmap", "close", "madvise", "posix_madvise", "posix_fadvise"}) constant(f, 0, 32);
		for (auto f: {"_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv"}) constant(f, 0, 64);
		for (auto f: {"printf", "puts", "putchar", "fwrite", "fputs", "fprintf", "write"})
			in->named[f] = [f](Interp &, State &, const Op &, const vector<N> &, N &) -> bool { throw Fail("unsupported", string("output by ") + f); };
		in->named["strlen"] = [this](Interp & I, State & s, const Op & op, const vector<N> & a, N & r) {
			N off;
			u64 o = I.ptr(s, a[0], off, op);
			if (s.objs[o]->name != "name") return false;
			if (!T.isConst(off) || T.cval(off)) throw Fail("unsupported", "strlen inside the name");
			r = s.objs[o]->size;
			return true;
		};
	}
	u64 text(State & s, const string & x, const string & name = "name") {
		u64 a = outObj(s, x.size(), name);
		for (u64 i = 0; i < x.size(); ++i) in->own(s, a).cells[i] = Cell{T.con(8, u8c(x[i])), 0, 1};
		return a;
	}
	// items: NAME;REST (a file of some blocks and REST bytes) or NAME;0;SIZE or NAME;REST;0;BASE (some blocks behind BASE), any:LENGTH (any name), few, missing
	void runs(Report & R, const vector<string> & items) {
		in->allowHeap = true;
		libc();
		streamHandlers();
		R.count("runs of the tool analysed", items.size());
		parallel(items.size(), R, [&](size_t i, Report & P) {
			auto mk = T.mark();
			in->fuel = in->stats.steps + 40000000;
			try {
				if (items[i].rfind("any:", 0) == 0) any(items[i].substr(4), P);
				else if (items[i] == "few" || items[i] == "missing") refused(items[i], P);
				else known_(parts(items[i], ';'), P);
			} catch (Fail & e) { P.open("checksum " + items[i] + ": " + e.what()); }
			T.release(mk);
		});
	}
	void known_(const vector<string> & p, Report & P) {
		u64 r = std::stoull(p[1]);
		State s = in->fresh();
		bool given = p.size() == 3, some = p.size() > 3;
		if (given) r = std::stoull(p[2]);
		u64 base = some ? std::stoull(p[3]) / A.B * A.B : 0;
		N size = given ? T.con(64, r) : T.add(T.mulc(T.sym(64, "m", HAS_SIZE, 0, some ? 1000 : LIMIT / A.B), A.B), T.con(64, base + (r ? r : A.B)));
		string ctx = "checksum " + p[0] + ", file of " + T.str(size) + " bytes";
		world(s, size);
		s.ghosts = {size};
		u64 name = text(s, p[0]);
		in->call(s, fn("tool"), {T.base(name), T.base(pathId)});
		auto res = in->explore(s);
		if (!viols(res.viols, true, P, ctx)) return;
		if (res.finals.empty()) P.bad(ctx + ": does not end");
		for (auto & f: res.finals) {
			N ret = T.isConst(f.ret) ? f.ret : in->underAssumptions(f, f.ret);
			u64 n;
			if (!T.isConst(ret) || !written(f, sinkId, outId, n)) {
				P.open(ctx + ": outcome not decided");
				continue;
			}
			if (T.cval(ret)) {
				P.bad(ctx + ": refused (exit status " + std::to_string(T.cval(ret)) + ")");
				continue;
			}
			N tot = f.ghosts[0], qq, rr;
			if (!T.divLin(T.sub(tot, T.con(64, r % A.B)), A.B, qq, rr)) {
				P.open(ctx + ": length");
				continue;
			}
			auto want = specDigest(T.mulc(qq, A.B), unsigned(r % A.B), tot);
			if (n != 2 * want.size() + 1) {
				P.bad(ctx + ": " + std::to_string(n) + " characters are printed, the digest has " + std::to_string(2 * want.size()) + " and an end of line");
				continue;
			}
			bool all = true;
			Op none;
			for (u64 i = 0; i < n; ++i) {
				N got = in->fromCells(&f.objs[outId]->cells[i], 1, 8, none);
				if (hasUndef(got)) {
					P.bad(ctx + ": character " + std::to_string(i) + " is not initialised");
					all = false;
					break;
				}
				N w = T.con(8, 10);
				if (i + 1 < n) w = T.look(string("0123456789abcdef") + string(1, 0), T.maskc(T.lshr(T.zext(want[i / 2], 64), i % 2 ? 0 : 4), 15), 8);
				if (got == w) continue;
				all = false;
				if (getenv("CTA_DIFF")) fprintf(stderr, "GOT  %s\nWANT %s\n", T.str(got, 5).c_str(), T.str(w, 5).c_str());
				string how;
				if (differ(got, w, how, &f)) {
					P.bad(ctx + ": character " + std::to_string(i) + " is not that of the digest asked for (is " + T.str(got, 3).substr(0, 120) + ", expected " + T.str(w, 3).substr(0, 120) + ")");
					break;
				}
			}
			if (all) P.ok(n);
			else if (P.violations.empty()) P.open(ctx + ": digest characters not shown equal");
		}
	}
	bool outcome(State & f, Got & g) {
		N ret = T.isConst(f.ret) ? f.ret : in->underAssumptions(f, f.ret);
		u64 n;
		if (!T.isConst(ret) || !written(f, sinkId, outId, n)) return false;
		if (n == 0 && T.cval(ret)) g.thrown = "_ZTISt16invalid_argument"; // refused
		else g.id = 0;
		return true;
	}
	void any(const string & len, Report & P) {
		zeroEnds = true;
		nameStart = [this](State & s, u64 a) {
			world(s, T.con(64, 0));
			in->call(s, fn("tool"), {T.base(a), T.base(pathId)});
		};
		nameResult = [this](State & f, Got & g) { return outcome(f, g); };
		names({"tool", "plain", len, "pos"}, P);
	}
	void refused(const string & what, Report & P) {
		missing = what == "missing";
		for (u64 argc = missing ? 3 : 0; argc < (missing ? 4 : 3); ++argc)
			for (auto & k: known) {
				State s = in->fresh();
				world(s, T.con(64, 0));
				u64 name = text(s, k.first);
				vector<N> a{T.base(name), T.base(pathId)};
				if (!missing) a.insert(a.begin(), T.con(32, argc));
				in->call(s, fn(missing ? "tool" : "few"), a);
				auto res = in->explore(s);
				string ctx = "checksum " + k.first + (missing ? ", file that cannot be opened" : ", " + std::to_string(argc) + " arguments");
				if (!viols(res.viols, true, P, ctx)) return;
				for (auto & f: res.finals) {
					Got g;
					if (!outcome(f, g)) P.open(ctx + ": outcome not decided");
					else if (g.thrown.empty()) P.bad(ctx + ": is not refused with an error status and no output");
					else P.ok();
				}
				if (!missing) break;
			}
	}
};

} // namespace cta
