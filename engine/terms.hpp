// Value domain of the analyser: hash-consed symbolic values in normal form.
//
//  KX    bitwise-linear form: constant ^ XOR of (atom bits shifted by d, under a mask)
//  KADD  linear form modulo 2^w: constant + sum coef * term
//  the other kinds are atoms (symbols, message bytes, results of summarised functions, ...)
//
// Two expressions which are equal by the ring laws of + (mod 2^w), of ^ with shifts/rotates/masks, and (up
// to a size limit) of & over ^, get the same node, so equality of values is equality of node numbers.
#pragma once
#include <algorithm>
#include <cassert>
#include <chrono>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

namespace cta {

using N = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;
using i128 = __int128;
using u128 = unsigned __int128;
using std::string;
using std::vector;

enum K : uint8_t { KX, KADD, KSYM, KBASE, KMB, KFN, KMONO, KAND, KMUL, KUDIV, KUREM, KSDIV, KSREM, KSHL, KLSHR, KASHR, KICMP, KSEL, KLOOK, KTUP };
enum Fl : uint8_t { HAS_SIZE = 1, HAS_DATA = 2, HAS_JUNK = 4, HAS_BASE = 8 };
enum Pred : uint8_t { P_EQ, P_ULT, P_SLT };

struct Node {
	K k;
	uint8_t w, fl;
	uint32_t off, len;
	u64 c;
	uint32_t next;
};

struct Fail: std::runtime_error {
	string kind;
	Fail(string k, const string & s): std::runtime_error(s), kind(k) { }
};

// the time this analysis may take (seconds of wall clock; 0: unlimited)
inline double & timeLimit() {
	static double d = 0;
	return d;
}
inline bool late() {
	static const auto t0 = std::chrono::steady_clock::now();
	return timeLimit() > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > timeLimit();
}

inline u64 full(unsigned w) { return w >= 64 ? ~u64(0) : ((u64(1) << w) - 1); }
inline i64 sext64(u64 v, unsigned w) { return w >= 64 ? i64(v) : i64(v << (64 - w)) >> (64 - w); }

struct SymInfo {
	string name;
	u64 lo, hi;
	uint8_t fl;
};

struct Ent {
	N a;
	int32_t d;
	u64 m;
};

struct Range {
	u64 lo, hi;
	bool exact; // for a linear form: the mathematical value does not wrap
};

struct Lin {
	u64 c = 0;
	vector<std::pair<N, u64>> t;
};

struct Arena {
	vector<Node> n;
	vector<u64> pool;
	vector<uint32_t> buckets;
	vector<SymInfo> syms;
	vector<string> tables;
	std::map<string, u64> tableIds;
	vector<string> fns;
	std::map<string, u64> fnIds;
	vector<string> baseNames;
	// fold hook: called with (fnid, index, args) before a KFN node is made; may return a node
	std::function<N(u64, u64, unsigned, const vector<N> &)> foldFn;
	std::function<N(N)> addHook; // may fold a linear form with one term
	u64 distLimit = 64; // how many products a distributed & may have

	Arena() {
		buckets.assign(1u << 20, ~0u);
		n.reserve(1u << 20);
		pool.reserve(1u << 22);
	}

	struct Mark {
		size_t n, pool, syms;
	};
	Mark mark() const { return {n.size(), pool.size(), syms.size()}; }
	void release(Mark m) {
		for (size_t i = n.size(); i-- > m.n;) {
			u64 h = hashOf(n[i].k, n[i].w, n[i].c, pool.data() + n[i].off, n[i].len) & (buckets.size() - 1);
			assert(buckets[h] == i);
			buckets[h] = n[i].next;
		}
		n.resize(m.n);
		pool.resize(m.pool);
		syms.resize(m.syms);
		rangeMemo.clear();
		for (auto it = rewrite.begin(); it != rewrite.end();)
			if (it->first >= m.n || it->second >= m.n) it = rewrite.erase(it);
			else ++it;
		for (auto & f: onRelease) f(N(m.n));
	}
	vector<std::function<void(N)>> onRelease; // who remembers nodes forgets those from this one on

	static u64 hashOf(K k, unsigned w, u64 c, const u64 * p, size_t len) {
		u64 h = (u64(k) << 8 | w) * 0x9e3779b97f4a7c15ull ^ c * 0xc2b2ae3d27d4eb4full;
		for (size_t i = 0; i < len; ++i) {
			h ^= p[i] + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
			h *= 0xff51afd7ed558ccdull;
			h ^= h >> 32;
		}
		h ^= h >> 29;
		return h;
	}

	N mk(K k, unsigned w, u64 c, const u64 * p, size_t len, uint8_t fl) {
		u64 h = hashOf(k, w, c, p, len) & (buckets.size() - 1);
		for (uint32_t i = buckets[h]; i != ~0u; i = n[i].next) {
			const Node & x = n[i];
			if (x.k == k && x.w == w && x.c == c && x.len == len && (len == 0 || memcmp(pool.data() + x.off, p, len * 8) == 0)) return i;
		}
		Node x;
		x.k = k;
		x.w = uint8_t(w);
		x.fl = fl;
		x.off = uint32_t(pool.size());
		x.len = uint32_t(len);
		x.c = c;
		x.next = buckets[h];
		pool.insert(pool.end(), p, p + len);
		n.push_back(x);
		buckets[h] = uint32_t(n.size() - 1);
		if (n.size() > 40u * 1000 * 1000 || pool.size() > 160u * 1000 * 1000) throw Fail("fuel", "term arena exhausted");
		return N(n.size() - 1);
	}

	unsigned w(N a) const { return n[a].w; }
	K kind(N a) const { return n[a].k; }
	u64 arg(N a, size_t i) const { return pool[n[a].off + i]; }
	size_t nargs(N a) const { return n[a].len; }
	bool isConst(N a) const { return n[a].k == KX && n[a].len == 0; }
	u64 cval(N a) const { return n[a].c; }
	bool has(N a, unsigned f) const { return n[a].fl & f; }

	N con(unsigned w, u64 v) { return mk(KX, w, v & full(w), nullptr, 0, 0); }

	N sym(unsigned w, const string & name, uint8_t fl, u64 lo = 0, u64 hi = ~u64(0)) {
		syms.push_back({name, lo, std::min(hi, full(w)), fl});
		if (lo == hi) return con(w, lo);
		return mk(KSYM, w, syms.size() - 1, nullptr, 0, fl);
	}
	N base(u64 obj) { return mk(KBASE, 64, obj, nullptr, 0, HAS_BASE); }
	N mb(u64 stream, N off) {
		u64 p[1] = {off};
		return mk(KMB, 8, stream, p, 1, uint8_t(HAS_DATA | (n[off].fl & ~HAS_BASE)));
	}
	u64 fnId(const string & s) {
		auto it = fnIds.find(s);
		if (it != fnIds.end()) return it->second;
		fns.push_back(s);
		return fnIds[s] = fns.size() - 1;
	}
	uint8_t flagsOf(const vector<N> & args) const {
		uint8_t f = 0;
		for (N a: args) f |= n[a].fl;
		return f;
	}
	N fn(u64 id, u64 idx, unsigned w, const vector<N> & args) {
		if (foldFn) {
			N r = foldFn(id, idx, w, args);
			if (r != ~0u) return r;
		}
		return fnRaw(id, idx, w, args);
	}
	N fnRaw(u64 id, u64 idx, unsigned w, const vector<N> & args) {
		vector<u64> p(args.begin(), args.end());
		return mk(KFN, w, id << 32 | idx, p.data(), p.size(), uint8_t(HAS_DATA | flagsOf(args)));
	}
	N tup(const vector<N> & args) {
		vector<u64> p(args.begin(), args.end());
		return mk(KTUP, 0, 0, p.data(), p.size(), flagsOf(args));
	}

	// ---------------------------------------------------------------- bitwise-linear form
	void toX(N a, u64 & c, vector<Ent> & e) {
		const Node x = n[a];
		if (x.k == KX) {
			c ^= x.c;
			for (uint32_t i = 0; i < x.len; i += 3) e.push_back({N(pool[x.off + i]), int32_t(i64(pool[x.off + i + 1])), pool[x.off + i + 2]});
		} else {
			if (x.k == KADD && sized(a)) { // a size is sliced with its powers of two taken out
				u64 o = 0;
				for (uint32_t i = 0; i < x.len; i += 2) o |= pool[x.off + i + 1];
				unsigned p = unsigned(__builtin_ctzll(o));
				if (p) {
					Lin l;
					l.c = u64(sext64(x.c, x.w) >> p);
					c ^= x.c & full(p);
					for (uint32_t i = 0; i < x.len; i += 2) l.t.push_back({N(pool[x.off + i]), u64(sext64(pool[x.off + i + 1], x.w) >> p)});
					e.push_back({mkAdd(x.w, l), -int(p), full(x.w) & ~full(p)});
					return;
				}
			}
			e.push_back({a, 0, full(x.w)});
		}
	}

	bool sized(N a) const {
		auto k = n[a].k;
		return !(n[a].fl & (HAS_DATA | HAS_JUNK)) && (k == KADD || k == KSYM || k == KUDIV || k == KUREM);
	}
	N mkX(unsigned w, u64 c, vector<Ent> & e) {
		c &= full(w);
		if (e.size() > 1) {
			mergeLow(e);
			std::sort(e.begin(), e.end(), [](const Ent & a, const Ent & b) { return a.a != b.a ? a.a < b.a : a.d < b.d; });
		}
		for (auto & x: e)
			if (sized(x.a)) { // bits a size never has are left out
				u64 b = maybeBits(x.a);
				x.m &= x.d >= 64 || x.d <= -64 ? 0 : x.d >= 0 ? b >> x.d : b << -x.d;
			}
		size_t o = 0;
		for (size_t i = 0; i < e.size();) {
			u64 m = 0;
			size_t j = i;
			for (; j < e.size() && e[j].a == e[i].a && e[j].d == e[i].d; ++j) m ^= e[j].m;
			m &= full(w);
			if (m) e[o++] = {e[i].a, e[i].d, m};
			i = j;
		}
		e.resize(o);
		if (o == 1 && c == 0 && e[0].d == 0 && n[e[0].a].w == w && n[e[0].a].k != KMONO && e[0].m == full(w)) return e[0].a;
		if (o == 1 && c == 0 && e[0].d == 0 && e[0].m == full(w) && n[e[0].a].k == KADD && n[e[0].a].w > w) return trunc(e[0].a, w);
		if (o == 1 && e[0].d <= 0 && c <= full(unsigned(-e[0].d)) && n[e[0].a].w == w && sized(e[0].a) && e[0].m == ((maybeBits(e[0].a) << -e[0].d) & full(w))) return add(mulc(e[0].a, u64(1) << -e[0].d), con(w, c));
		uint8_t fl = 0;
		static thread_local vector<u64> p;
		p.clear();
		for (auto & x: e) {
			p.push_back(x.a);
			p.push_back(u64(i64(x.d)));
			p.push_back(x.m);
			fl |= n[x.a].fl;
		}
		return mk(KX, w, c, p.data(), p.size(), fl);
	}
	// (slices of a sum and of its truncation: bring both to the wider sum, so that its bytes put together are the sum again)
	void mergeLow(vector<Ent> & e) {
		N wide = ~0u;
		bool narrower = false;
		for (auto & x: e)
			if (n[x.a].k == KADD) {
				if (wide == ~0u || n[x.a].w > n[wide].w) {
					if (wide != ~0u) narrower = true;
					wide = x.a;
				} else if (n[x.a].w < n[wide].w)
					narrower = true;
			}
		if (!narrower) return;
		vector<N> wides;
		for (auto & x: e)
			if (n[x.a].k == KADD && std::find(wides.begin(), wides.end(), x.a) == wides.end()) wides.push_back(x.a);
		for (auto & x: e)
			if (n[x.a].k == KADD)
				for (N W: wides)
					if (n[W].w > n[x.a].w && trunc(W, n[x.a].w) == x.a) {
						x.a = W;
						break;
					}
	}

	N xor_(N a, N b) {
		unsigned w = n[a].w;
		if (isConst(a) && isConst(b)) return con(w, n[a].c ^ n[b].c);
		if (isConst(b) && n[b].c == 0) return a;
		if (isConst(a) && n[a].c == 0) return b;
		if (a == b) return con(w, 0);
		u64 c = 0;
		vector<Ent> e;
		toX(a, c, e);
		toX(b, c, e);
		N r = mkX(w, c, e);
		return cutLimit && e.size() > cutLimit ? cut(r) : r;
	}
	// a sum grown too large is named (equal sums get equal names)
	size_t cutLimit = 0;
	N cut(N a) { return fnRaw(fnId("cut"), 0, w(a), {a}); }
	N not_(N a) { return xor_(a, con(w(a), ~u64(0))); }

	N maskc(N a, u64 m) { // a & constant
		unsigned W = w(a);
		m &= full(W);
		if (m == full(W)) return a;
		if (m == 0) return con(W, 0);
		if (isConst(a)) return con(W, n[a].c & m);
		if (n[a].k == KADD) {
			if ((m & (m + 1)) == 0) { // low bits
				unsigned k = unsigned(__builtin_popcountll(m));
				return zext(trunc(a, k), W);
			}
			u64 inv = ~m & full(W);
			if ((inv & (inv + 1)) == 0) { // all but the low bits
				N low = trunc(a, unsigned(__builtin_popcountll(inv)));
				if (isConst(low)) return sub(a, con(W, n[low].c));
			}
		}
		u64 c = 0;
		vector<Ent> e;
		toX(a, c, e);
		for (auto & x: e) x.m &= m;
		return mkX(W, c & m, e);
	}

	// bitwise product of monomials
	N mono(const vector<std::pair<N, int>> & f0) {
		vector<std::pair<N, int>> f = f0;
		std::sort(f.begin(), f.end());
		f.erase(std::unique(f.begin(), f.end()), f.end());
		vector<u64> p;
		uint8_t fl = 0;
		for (auto & x: f) {
			p.push_back(x.first);
			p.push_back(u64(i64(x.second)));
			fl |= n[x.first].fl;
		}
		return mk(KMONO, 64, 0, p.data(), p.size(), fl);
	}
	N and_(N a, N b) {
		unsigned W = w(a);
		if (a == b) return a;
		if (isConst(a)) return maskc(b, n[a].c);
		if (isConst(b)) return maskc(a, n[b].c);
		u64 ca = 0, cb = 0;
		vector<Ent> ea, eb, r;
		toX(a, ca, ea);
		toX(b, cb, eb);
		if (ea.size() * eb.size() > distLimit) {
			// (A ^ ca) & (B ^ cb) = A&B ^ ca&B ^ cb&A ^ ca&cb
			vector<Ent> t1 = ea, t2 = eb;
			N A = mkX(W, 0, t1), B = mkX(W, 0, t2);
			u64 p[2] = {std::min(A, B), std::max(A, B)};
			N prod = (A == B) ? A : mk(KAND, W, 0, p, 2, uint8_t(n[A].fl | n[B].fl));
			auto rw = rewrite.find(prod);
			if (rw != rewrite.end()) prod = rw->second;
			return xor_(xor_(prod, maskc(B, ca)), xor_(maskc(A, cb), con(W, ca & cb)));
		}
		for (auto & x: ea)
			for (auto & y: eb) {
				u64 m = x.m & y.m;
				if (!m) continue;
				if (x.a == y.a && x.d == y.d) {
					r.push_back({x.a, x.d, m});
					continue;
				}
				vector<std::pair<N, int>> f;
				auto add = [&](const Ent & z) {
					if (n[z.a].k == KMONO) {
						for (uint32_t i = 0; i < n[z.a].len; i += 2) f.push_back({N(arg(z.a, i)), int(i64(arg(z.a, i + 1))) + z.d});
					} else
						f.push_back({z.a, z.d});
				};
				add(x);
				add(y);
				std::sort(f.begin(), f.end());
				f.erase(std::unique(f.begin(), f.end()), f.end());
				if (f.size() == 1) {
					r.push_back({f[0].first, f[0].second, m});
					continue;
				}
				int d0 = f[0].second;
				for (auto & q: f) q.second -= d0;
				r.push_back({mono(f), d0, m});
			}
		for (auto & y: eb) r.push_back({y.a, y.d, y.m & ca});
		for (auto & x: ea) r.push_back({x.a, x.d, x.m & cb});
		return mkX(W, ca & cb, r);
	}
	std::unordered_map<N, N> rewrite; // products with a definition to fold back (see keccak reference)

	N or_(N a, N b) {
		if (a == b) return a;
		if ((maybeBits(a) & maybeBits(b)) == 0) return xor_(a, b);
		return xor_(xor_(a, b), and_(a, b));
	}
	u64 maybeBits(N a) const {
		const Node & x = n[a];
		if (x.k == KX) {
			u64 m = x.c;
			for (uint32_t i = 0; i < x.len; i += 3) m |= pool[x.off + i + 2];
			return m;
		}
		if (x.k == KADD || x.k == KSYM || x.k == KUDIV || x.k == KUREM || x.k == KLOOK) {
			u64 hi = const_cast<Arena *>(this)->range(a).hi;
			return hi == 0 ? 0 : full(64 - unsigned(__builtin_clzll(hi)));
		}
		return full(x.w);
	}

	N shl(N a, unsigned k) {
		unsigned W = w(a);
		if (k == 0) return a;
		if (k >= W) return con(W, 0);
		if (isConst(a)) return con(W, n[a].c << k);
		if (sized(a)) return mulc(a, u64(1) << k); // (message data is shifted as bits, sizes as numbers)
		if (n[a].k == KADD) return shlX(a, k);
		u64 c = 0;
		vector<Ent> e;
		toX(a, c, e);
		for (auto & x: e) {
			x.m = (x.m << k) & full(W);
			x.d -= int(k);
		}
		return mkX(W, c << k, e);
	}
	N lshr(N a, unsigned k) {
		unsigned W = w(a);
		if (k == 0) return a;
		if (k >= W) return con(W, 0);
		if (isConst(a)) return con(W, n[a].c >> k);
		if (n[a].k == KADD) {
			N q, r;
			if (divLin(a, u64(1) << k, q, r)) return q;
		}
		u64 c = 0;
		vector<Ent> e;
		toX(a, c, e);
		for (auto & x: e) {
			x.m >>= k;
			x.d += int(k);
		}
		return mkX(W, c >> k, e);
	}
	N ashr(N a, unsigned k) {
		unsigned W = w(a);
		if (isConst(a)) return con(W, u64(sext64(n[a].c, W) >> std::min(k, 63u)));
		N hi = lshr(a, k);
		N s = bit(a, W - 1);
		// replicate the sign bit
		return xor_(hi, spread(s, W, W - k));
	}
	N bit(N a, unsigned i) { return trunc(lshrX(a, i), 1); }
	N lshrX(N a, unsigned k) { // as lshr, never arithmetic
		unsigned W = w(a);
		if (isConst(a)) return con(W, n[a].c >> k);
		u64 c = 0;
		vector<Ent> e;
		toX(a, c, e);
		for (auto & x: e) {
			x.m = k >= 64 ? 0 : x.m >> k;
			x.d += int(k);
		}
		return mkX(W, c >> k, e);
	}
	// bits [from, W) all equal to the 1-bit value s, the others zero
	N spread(N s, unsigned W, unsigned from) {
		if (from >= W) return con(W, 0);
		u64 c = 0;
		vector<Ent> e, r;
		toX(s, c, e);
		u64 C = (c & 1) ? (full(W) & ~full(from)) : 0;
		for (auto & x: e)
			for (unsigned j = from; j < W; ++j) r.push_back({x.a, x.d - int(j), u64(1) << j});
		return mkX(W, C, r);
	}
	N rotl(N a, unsigned k) {
		unsigned W = w(a);
		k %= W;
		if (!k) return a;
		return xor_(asBits(shlX(a, k)), lshrX(a, W - k));
	}
	N asBits(N a) { return a; }
	N shlX(N a, unsigned k) { // as shl, never arithmetic (so that rotations of sums stay bitwise)
		unsigned W = w(a);
		if (isConst(a)) return con(W, n[a].c << k);
		u64 c = 0;
		vector<Ent> e;
		toX(a, c, e);
		for (auto & x: e) {
			x.m = (x.m << k) & full(W);
			x.d -= int(k);
		}
		return mkX(W, c << k, e);
	}
	N trunc(N a, unsigned W) {
		if (W == w(a)) return a;
		if (isConst(a)) return con(W, n[a].c);
		if (n[a].k == KADD) {
			Lin l = lin(a), r;
			r.c = l.c;
			for (auto & t: l.t) {
				if ((t.second & full(W)) == 0) continue;
				addTo(r, trunc(t.first, W), t.second);
			}
			return mkAdd(W, r);
		}
		if (n[a].k == KSEL) return sel(N(arg(a, 0)), trunc(N(arg(a, 1)), W), trunc(N(arg(a, 2)), W));
		u64 c = 0;
		vector<Ent> e;
		toX(a, c, e);
		for (auto & x: e) x.m &= full(W);
		// the whole truncation of one sum is the sum at the lower width
		if (e.size() == 1 || n[a].k == KX) {
			u64 cc = c & full(W);
			N only = ~0u;
			size_t live = 0;
			for (auto & x: e)
				if (x.m) {
					++live;
					only = x.a;
				}
			if (live == 1 && cc == 0 && n[only].k == KADD && n[only].w >= W)
				for (auto & x: e)
					if (x.m && x.d == 0 && x.m == full(W)) return trunc(only, W);
		}
		return mkX(W, c, e);
	}
	N zext(N a, unsigned W) {
		if (W == w(a)) return a;
		if (isConst(a)) return con(W, n[a].c);
		if (n[a].k == KADD) {
			Range r = range(a);
			if (r.exact) {
				Lin l = lin(a), o;
				o.c = u64(sext64(l.c, w(a)));
				for (auto & t: l.t) addTo(o, zext(t.first, W), u64(sext64(t.second, w(a))));
				return mkAdd(W, o);
			}
		}
		if (n[a].k == KSEL) return sel(N(arg(a, 0)), zext(N(arg(a, 1)), W), zext(N(arg(a, 2)), W));
		u64 c = 0;
		vector<Ent> e;
		toX(a, c, e);
		return mkX(W, c, e);
	}
	N sext(N a, unsigned W) {
		unsigned o = w(a);
		if (W == o) return a;
		if (isConst(a)) return con(W, u64(sext64(n[a].c, o)));
		Range r = range(a);
		if (r.exact && r.hi <= full(o) / 2) return zext(a, W);
		if (n[a].k == KADD) {
			i128 lo, hi;
			if (srange(a, lo, hi)) {
				Lin l = lin(a), q;
				q.c = u64(sext64(l.c, o));
				for (auto & t: l.t) addTo(q, zext(t.first, W), u64(sext64(t.second, o)));
				return mkAdd(W, q);
			}
		}
		if (n[a].k == KSEL) return sel(N(arg(a, 0)), sext(N(arg(a, 1)), W), sext(N(arg(a, 2)), W));
		u64 c = 0;
		vector<Ent> e;
		toX(a, c, e);
		N low = mkX(W, c, e);
		return xor_(low, spread(bit(a, o - 1), W, o));
	}
	N bswap(N a) {
		unsigned W = w(a), b = W / 8;
		if (isConst(a)) {
			u64 r = 0;
			for (unsigned i = 0; i < b; ++i) r |= ((n[a].c >> (8 * i)) & 255) << (8 * (b - 1 - i));
			return con(W, r);
		}
		u64 c = 0, C = 0;
		vector<Ent> e, r;
		toX(a, c, e);
		for (unsigned i = 0; i < b; ++i) {
			unsigned to = b - 1 - i;
			C |= ((c >> (8 * i)) & 255) << (8 * to);
			for (auto & x: e) {
				u64 m = (x.m >> (8 * i)) & 255;
				if (m) r.push_back({x.a, x.d + int(8 * i) - int(8 * to), m << (8 * to)});
			}
		}
		return mkX(W, C, r);
	}

	// ---------------------------------------------------------------- linear form
	Lin lin(N a) {
		Lin l;
		const Node & x = n[a];
		if (x.k == KADD) {
			l.c = x.c;
			for (uint32_t i = 0; i < x.len; i += 2) l.t.push_back({N(pool[x.off + i]), pool[x.off + i + 1]});
			return l;
		}
		if (x.k == KX && x.len == 0) {
			l.c = x.c;
			return l;
		}
		if (x.k == KX && x.len == 3 && x.c == 0) {
			N at = N(pool[x.off]);
			int d = int(i64(pool[x.off + 1]));
			u64 m = pool[x.off + 2];
			unsigned p = unsigned(__builtin_ctzll(m));
			if (p) {
				if (d == -int(p) && m == ((full(x.w) << p) & full(x.w)) && n[at].w == x.w && n[at].k != KMONO) {
					if (n[at].k == KADD) {
						Lin k = lin(at);
						l.c = k.c << p;
						for (auto & q: k.t) l.t.push_back({q.first, q.second << p});
					} else
						l.t.push_back({at, u64(1) << p});
				} else {
					vector<Ent> e{{at, d + int(p), m >> p}};
					unsigned W = x.w;
					N t = mkX(W, 0, e);
					l.t.push_back({t, u64(1) << p});
				}
				return l;
			}
		}
		l.t.push_back({a, 1});
		return l;
	}
	void addTo(Lin & l, N t, u64 coef) {
		const Node & x = n[t];
		if (x.k != KADD && !(x.k == KX && x.c == 0 && x.len <= 3) && !(x.k == KX && x.len == 0)) {
			l.t.push_back({t, coef});
			return;
		}
		Lin k = lin(t);
		l.c += k.c * coef;
		for (auto & q: k.t) l.t.push_back({q.first, q.second * coef});
	}
	N mkAdd(unsigned w, Lin & l) {
		l.c &= full(w);
		if (l.t.size() > 1) std::sort(l.t.begin(), l.t.end());
		size_t o = 0;
		for (size_t i = 0; i < l.t.size();) {
			u64 c = 0;
			size_t j = i;
			for (; j < l.t.size() && l.t[j].first == l.t[i].first; ++j) c += l.t[j].second;
			c &= full(w);
			if (c) l.t[o++] = {l.t[i].first, c};
			i = j;
		}
		l.t.resize(o);
		if (o == 0) return con(w, l.c);
		if (o == 1 && l.c == 0) {
			u64 c = l.t[0].second;
			if (c == 1) return l.t[0].first;
			if ((c & (c - 1)) == 0 && !sized(l.t[0].first)) return shl(l.t[0].first, unsigned(__builtin_ctzll(c)));
		}
		uint8_t fl = 0;
		static thread_local vector<u64> p;
		p.clear();
		for (auto & x: l.t) {
			p.push_back(x.first);
			p.push_back(x.second);
			fl |= n[x.first].fl;
		}
		N r = mk(KADD, w, l.c, p.data(), p.size(), fl);
		if (addHook && p.size() == 2 && l.c == 0) return addHook(r);
		return r;
	}
	N add(N a, N b) {
		unsigned W = w(a);
		if (isConst(a) && isConst(b)) return con(W, n[a].c + n[b].c);
		if (isConst(b) && n[b].c == 0) return a;
		if (isConst(a) && n[a].c == 0) return b;
		if (W == 1) return xor_(a, b);
		if (n[a].k != KADD && n[b].k != KADD && !isConst(a) && !isConst(b) && (n[a].k == KX || n[b].k == KX) && (maybeBits(a) & maybeBits(b)) == 0 && bitsLike(a) && bitsLike(b)) return xor_(a, b);
		Lin l;
		addTo(l, a, 1);
		addTo(l, b, 1);
		return mkAdd(W, l);
	}
	bool bitsLike(N a) const { return n[a].k == KX || n[a].k == KMB; }
	N sub(N a, N b) {
		unsigned W = w(a);
		if (isConst(a) && isConst(b)) return con(W, n[a].c - n[b].c);
		if (isConst(b) && n[b].c == 0) return a;
		if (a == b) return con(W, 0);
		if (W == 1) return xor_(a, b);
		Lin l;
		addTo(l, a, 1);
		addTo(l, b, ~u64(0));
		return mkAdd(W, l);
	}
	N mulc(N a, u64 k) {
		unsigned W = w(a);
		k &= full(W);
		if (isConst(a)) return con(W, n[a].c * k);
		if (k == 0) return con(W, 0);
		if (k == 1) return a;
		Lin l;
		addTo(l, a, k);
		return mkAdd(W, l);
	}
	N mul(N a, N b) {
		if (isConst(a)) return mulc(b, n[a].c);
		if (isConst(b)) return mulc(a, n[b].c);
		u64 p[2] = {std::min(a, b), std::max(a, b)};
		return mk(KMUL, w(a), 0, p, 2, uint8_t(n[a].fl | n[b].fl));
	}
	// a = d*q + r with constant r, when that is certain
	bool divLin(N a, u64 d, N & q, N & r) {
		if (d == 0) return false;
		unsigned W = w(a);
		if (isConst(a)) {
			q = con(W, n[a].c / d);
			r = con(W, n[a].c % d);
			return true;
		}
		Range rg = range(a);
		if (!rg.exact) return false;
		if (rg.hi < d) {
			q = con(W, 0);
			r = a;
			return true;
		}
		Lin l = lin(a), o;
		for (auto & t: l.t) {
			i64 c = sext64(t.second, W);
			if (c % i64(d)) return false;
			addTo(o, t.first, u64(c / i64(d)));
		}
		i64 c = sext64(l.c, W), fq = c / i64(d), fr = c % i64(d);
		if (fr < 0) {
			fr += i64(d);
			fq -= 1;
		}
		o.c = o.c + u64(fq);
		q = mkAdd(W, o);
		r = con(W, u64(fr));
		return true;
	}
	N udiv(N a, N b) {
		unsigned W = w(a);
		if (isConst(b) && n[b].c) {
			u64 d = n[b].c;
			if ((d & (d - 1)) == 0) return lshr(a, unsigned(__builtin_ctzll(d)));
			N q, r;
			if (divLin(a, d, q, r)) return q;
		}
		u64 p[2] = {a, b};
		return mk(KUDIV, W, 0, p, 2, uint8_t(n[a].fl | n[b].fl));
	}
	N urem(N a, N b) {
		unsigned W = w(a);
		if (isConst(b) && n[b].c) {
			u64 d = n[b].c;
			if ((d & (d - 1)) == 0) return maskc(a, d - 1);
			N q, r;
			if (divLin(a, d, q, r)) return r;
		}
		u64 p[2] = {a, b};
		return mk(KUREM, W, 0, p, 2, uint8_t(n[a].fl | n[b].fl));
	}
	N bin(K k, N a, N b) {
		u64 p[2] = {a, b};
		return mk(k, w(a), 0, p, 2, uint8_t(n[a].fl | n[b].fl));
	}

	// ---------------------------------------------------------------- ranges and comparisons
	std::unordered_map<N, Range> rangeMemo;
	Range range(N a) {
		const Node & x = n[a];
		switch (x.k) {
		case KX: {
			if (x.len == 0) return {x.c, x.c, true};
			if (x.len == 3 && x.c == 0) {
				N at = N(pool[x.off]);
				int d = int(i64(pool[x.off + 1]));
				u64 m = pool[x.off + 2];
				if (n[at].k != KMONO) {
					Range r = range(at);
					if (r.exact && d <= 0) { // (shifted whole?)
						unsigned s = unsigned(-d);
						u64 am = full(n[at].w);
						if (s < 64 && ((am << s) & full(x.w)) == m && r.hi <= (full(x.w) >> s)) return {r.lo << s, r.hi << s, true};
					}
					if (r.exact && d > 0 && d < 64 && m == (full(n[at].w) >> d)) return {r.lo >> d, r.hi >> d, true};
					if (r.exact && d == 0 && (m & (m + 1)) == 0 && r.hi <= m) return {r.lo, r.hi, true};
				}
				return {0, m, true};
			}
			u64 m = maybeBits(a);
			return {0, m, true};
		}
		case KSYM: return {syms[x.c].lo, syms[x.c].hi, true};
		case KBASE: return {u64(1) << 52, u64(1) << 60, true};
		case KADD: {
			auto it = rangeMemo.find(a);
			if (it != rangeMemo.end()) return it->second;
			i128 lo = sext64(x.c, x.w), hi = lo;
			uint32_t off = x.off, len = x.len, w = x.w;
			bool ok = true;
			for (uint32_t i = 0; i < len; i += 2) {
				Range r = range(N(pool[off + i]));
				i128 c = sext64(pool[off + i + 1], w);
				i128 p = c * i128(r.lo), q = c * i128(r.hi);
				lo += std::min(p, q);
				hi += std::max(p, q);
				if (lo < -(i128(1) << 100) || hi > (i128(1) << 100)) ok = false;
			}
			Range res{0, full(w), false};
			if (ok && lo >= 0 && hi <= i128(full(w))) res = {u64(lo), u64(hi), true};
			else if (ok) { // (constant taken unsigned)
				i128 sh = i128(full(w)) + 1;
				if (sext64(n[a].c, w) < 0 && lo + sh >= 0 && hi + sh <= i128(full(w))) res = {u64(lo + sh), u64(hi + sh), true};
			}
			rangeMemo[a] = res;
			return res;
		}
		case KUDIV: {
			N b = N(arg(a, 1));
			Range r = range(N(arg(a, 0)));
			if (isConst(b) && n[b].c) return {r.lo / n[b].c, r.hi / n[b].c, true};
			return {0, full(x.w), true};
		}
		case KUREM: {
			N b = N(arg(a, 1));
			if (isConst(b) && n[b].c) return {0, n[b].c - 1, true};
			return {0, full(x.w), true};
		}
		case KLOOK: {
			const string & t = tables[x.c];
			unsigned b = x.w / 8;
			u64 lo = ~u64(0), hi = 0;
			for (size_t i = 0; i + b <= t.size(); i += b) {
				u64 v = 0;
				memcpy(&v, t.data() + i, b);
				lo = std::min(lo, v);
				hi = std::max(hi, v);
			}
			if (t.size() < b) return {0, full(x.w), true};
			return {lo, hi, true};
		}
		case KSEL: {
			Range p = range(N(arg(a, 1))), q = range(N(arg(a, 2)));
			return {std::min(p.lo, q.lo), std::max(p.hi, q.hi), p.exact && q.exact};
		}
		default: return {0, full(x.w), true};
		}
	}
	// value as a mathematical signed number stays inside the signed range of its width
	bool srange(N a, i128 & lo, i128 & hi) {
		unsigned w_ = w(a);
		i128 smax = i128(full(w_) / 2), smin = -smax - 1;
		if (n[a].k == KADD) {
			Lin l = lin(a);
			lo = hi = sext64(l.c, w_);
			for (auto & t: l.t) {
				Range r = range(t.first);
				i128 c = sext64(t.second, w_);
				i128 p = c * i128(r.lo), q = c * i128(r.hi);
				lo += std::min(p, q);
				hi += std::max(p, q);
				if (lo < -(i128(1) << 100) || hi > (i128(1) << 100)) return false;
			}
			return lo >= smin && hi <= smax;
		}
		if (isConst(a)) {
			lo = hi = sext64(n[a].c, w_);
			return true;
		}
		Range r = range(a);
		if (r.exact && i128(r.hi) <= smax) {
			lo = r.lo;
			hi = r.hi;
			return true;
		}
		return false;
	}
	// range of a-b over the integers
	struct Diff {
		i128 lo, hi;
		Lin l; // signed coefficients
		bool single;
	};
	bool diff(N a, N b, Diff & d) {
		unsigned W = w(a);
		Lin l;
		addTo(l, a, 1);
		addTo(l, b, ~u64(0));
		// merge
		std::sort(l.t.begin(), l.t.end());
		size_t o = 0;
		for (size_t i = 0; i < l.t.size();) {
			u64 c = 0;
			size_t j = i;
			for (; j < l.t.size() && l.t[j].first == l.t[i].first; ++j) c += l.t[j].second;
			c &= full(W);
			if (c) l.t[o++] = {l.t[i].first, c};
			i = j;
		}
		l.t.resize(o);
		l.c &= full(W);
		d.l = l;
		d.lo = d.hi = sext64(l.c, W);
		for (auto & t: l.t) {
			Range r = range(t.first);
			i128 c = sext64(t.second, W);
			i128 p = c * i128(r.lo), q = c * i128(r.hi);
			d.lo += std::min(p, q);
			d.hi += std::max(p, q);
			if (d.lo < -(i128(1) << 100) || d.hi > (i128(1) << 100)) return false;
		}
		return true;
	}
	static i128 gcd(i128 a, i128 b) {
		if (a < 0) a = -a;
		if (b < 0) b = -b;
		while (b) {
			i128 t = a % b;
			a = b;
			b = t;
		}
		return a;
	}
	// undo a common zero extension
	void narrow(N & a, N & b) {
		auto inner = [&](N x, N & in) -> bool {
			const Node & y = n[x];
			if (y.k == KX && y.len == 3 && y.c == 0 && i64(pool[y.off + 1]) == 0) {
				N at = N(pool[y.off]);
				if (n[at].k != KMONO && n[at].w < y.w && pool[y.off + 2] == full(n[at].w)) {
					in = at;
					return true;
				}
			}
			return false;
		};
		N x, y;
		bool p = inner(a, x), q = inner(b, y);
		if (p && q && w(x) == w(y)) {
			a = x;
			b = y;
		} else if (p && isConst(b) && n[b].c <= full(w(x))) {
			b = con(w(x), n[b].c);
			a = x;
		} else if (q && isConst(a) && n[a].c <= full(w(y))) {
			a = con(w(y), n[a].c);
			b = y;
		}
	}
	N icmpAtom(Pred p, N a, N b) {
		if (p == P_EQ && a > b) std::swap(a, b);
		u64 q[2] = {a, b};
		return mk(KICMP, 1, p, q, 2, uint8_t(n[a].fl | n[b].fl));
	}
	N eq(N a, N b) {
		if (a == b) return con(1, 1);
		if (isConst(a) && isConst(b)) return con(1, n[a].c == n[b].c);
		unsigned W = w(a);
		if (W == 1) return not_(xor_(a, b));
		if (n[a].k == KSEL && isConst(b) && isConst(N(arg(a, 1))) && isConst(N(arg(a, 2)))) return sel(N(arg(a, 0)), eq(N(arg(a, 1)), b), eq(N(arg(a, 2)), b));
		Range ra = range(a), rb = range(b);
		if (ra.exact && rb.exact && (ra.hi < rb.lo || rb.hi < ra.lo)) return con(1, 0);
		Diff d;
		if (diff(a, b, d)) {
			i128 lim = i128(full(W)) + 1;
			if (d.l.t.empty()) return con(1, d.l.c == 0);
			if (d.lo > -lim && d.hi < lim) {
				if (d.lo > 0 || d.hi < 0) return con(1, 0);
				i128 g = 0;
				for (auto & t: d.l.t) g = gcd(g, sext64(t.second, W));
				if (g && i128(sext64(d.l.c, W)) % g) return con(1, 0);
			}
		}
		// impossible by known bits
		if (isConst(b) && (n[b].c & ~maybeBits(a))) return con(1, 0);
		if (isConst(a) && (n[a].c & ~maybeBits(b))) return con(1, 0);
		if (n[a].k == KX && n[b].k == KX && !isConst(a) && !isConst(b)) {
			N x = xor_(a, b);
			if (isConst(x)) return con(1, n[x].c == 0);
		}
		if (W >= 8 && (n[a].k == KADD || n[b].k == KADD) && d.l.t.size() == 2) {
			// x - y == 0
			i64 c0 = sext64(d.l.t[0].second, W), c1 = sext64(d.l.t[1].second, W);
			if (d.l.c == 0 && c0 == -c1 && (c0 == 1 || c0 == -1)) return eq(d.l.t[0].first, d.l.t[1].first);
		}
		narrow(a, b);
		return icmpAtom(P_EQ, a, b);
	}
	N ult(N a, N b) {
		if (a == b) return con(1, 0);
		unsigned W = w(a);
		if (isConst(a) && isConst(b)) return con(1, n[a].c < n[b].c);
		if (isConst(b) && n[b].c == 0) return con(1, 0);
		if (W == 1) return and_(not_(a), b);
		if (isConst(b) && n[b].c == 1) return eq(a, con(W, 0));
		if (isConst(a) && n[a].c == 0) return not_(eq(b, a));
		if (n[a].k == KSEL && isConst(b) && isConst(N(arg(a, 1))) && isConst(N(arg(a, 2)))) return sel(N(arg(a, 0)), ult(N(arg(a, 1)), b), ult(N(arg(a, 2)), b));
		Range ra = range(a), rb = range(b);
		if (ra.hi < rb.lo) return con(1, 1);
		if (ra.lo >= rb.hi) return con(1, 0);
		if (ra.exact && rb.exact) {
			Diff d;
			if (diff(a, b, d)) {
				if (d.hi < 0) return con(1, 1);
				if (d.lo >= 0) return con(1, 0);
				if (d.l.t.empty()) return con(1, sext64(d.l.c, W) < 0);
			}
		}
		narrow(a, b);
		return icmpAtom(P_ULT, a, b);
	}
	N slt(N a, N b) {
		if (a == b) return con(1, 0);
		unsigned W = w(a);
		if (isConst(a) && isConst(b)) return con(1, sext64(n[a].c, W) < sext64(n[b].c, W));
		if (n[a].k == KSEL && isConst(b) && isConst(N(arg(a, 1))) && isConst(N(arg(a, 2)))) return sel(N(arg(a, 0)), slt(N(arg(a, 1)), b), slt(N(arg(a, 2)), b));
		Range ra = range(a), rb = range(b);
		u64 smax = full(W) / 2;
		if (ra.exact && rb.exact && ra.hi <= smax && rb.hi <= smax) return ult(a, b);
		i128 l1, h1, l2, h2;
		if (srange(a, l1, h1) && srange(b, l2, h2)) {
			if (h1 < l2) return con(1, 1);
			if (l1 >= h2) return con(1, 0);
			Diff d;
			if (diff(a, b, d)) {
				if (d.hi < 0) return con(1, 1);
				if (d.lo >= 0) return con(1, 0);
				// move negative terms to the other side
				Lin p, q;
				i64 c = sext64(d.l.c, W);
				if (c > 0) p.c = u64(c);
				else q.c = u64(-c);
				for (auto & t: d.l.t) {
					i64 k = sext64(t.second, W);
					if (k > 0) p.t.push_back({t.first, u64(k)});
					else q.t.push_back({t.first, u64(-k)});
				}
				N A = mkAdd(W, p), B = mkAdd(W, q);
				Range r1 = range(A), r2 = range(B);
				if (r1.exact && r2.exact && r1.hi <= smax && r2.hi <= smax) return ult(A, B);
			}
		}
		return icmpAtom(P_SLT, a, b);
	}
	N sel(N c, N a, N b) {
		if (isConst(c)) return n[c].c ? a : b;
		if (a == b) return a;
		unsigned W = w(a);
		if (W == 1) return xor_(b, and_(c, xor_(a, b)));
		if (n[c].k == KX && n[c].c == 1) { // negated
			return sel(not_(c), b, a);
		}
		u64 p[3] = {c, a, b};
		return mk(KSEL, W, 0, p, 3, uint8_t(n[a].fl | n[b].fl | n[c].fl));
	}
	u64 table(const string & s) {
		auto it = tableIds.find(s);
		if (it != tableIds.end()) return it->second;
		tables.push_back(s);
		return tableIds[s] = tables.size() - 1;
	}
	// element of a constant table at byte offset idx
	N look(const string & content, N idx, unsigned w) {
		Range r = range(idx);
		if (isConst(idx)) {
			u64 v = 0;
			memcpy(&v, content.data() + n[idx].c, w / 8);
			return con(w, v);
		}
		string t = content.substr(0, size_t(std::min<u64>(content.size(), r.hi + w / 8)));
		u64 p[1] = {idx};
		return mk(KLOOK, w, table(t), p, 1, n[idx].fl);
	}

	// ---------------------------------------------------------------- substitution
	// map: atom node -> node of the same width
	using Map = std::unordered_map<N, N>;
	N subst(N a, const Map & m, std::unordered_map<N, N> & memo) {
		if (isConst(a)) return a;
		auto f = m.find(a);
		if (f != m.end()) return f->second;
		uint8_t want = substFlags;
		if (!(n[a].fl & want)) return a;
		auto it = memo.find(a);
		if (it != memo.end()) return it->second;
		Node x = n[a];
		vector<u64> p(pool.begin() + x.off, pool.begin() + x.off + x.len);
		auto s = [&](u64 v) { return subst(N(v), m, memo); };
		N r = a;
		switch (x.k) {
		case KX: {
			vector<std::pair<N, N>> ch;
			bool any = false;
			for (size_t i = 0; i < p.size(); i += 3) {
				N q = s(p[i]);
				ch.push_back({N(p[i]), q});
				any |= q != p[i];
			}
			if (!any) break;
			N acc = con(x.w, x.c);
			vector<Ent> keep;
			u64 kc = 0;
			for (size_t i = 0; i < p.size(); i += 3) {
				N q = ch[i / 3].second;
				int d = int(i64(p[i + 1]));
				if (q == p[i]) {
					keep.push_back({q, d, p[i + 2]});
					continue;
				}
				u64 c = 0;
				vector<Ent> e;
				toX(q, c, e);
				auto sh = [&](u64 v) -> u64 { return d >= 64 || d <= -64 ? 0 : d >= 0 ? v >> d : v << -d; };
				kc ^= sh(c) & p[i + 2];
				for (auto & y: e) keep.push_back({y.a, y.d + d, sh(y.m) & p[i + 2]});
			}
			N k = mkX(x.w, kc, keep);
			// (sums which became constants in their low bits fold through the ordinary builders)
			r = xor_(acc, k);
			r = refold(r);
			break;
		}
		case KADD: {
			Lin l;
			l.c = x.c;
			for (size_t i = 0; i < p.size(); i += 2) addTo(l, s(p[i]), p[i + 1]);
			r = mkAdd(x.w, l);
			break;
		}
		case KMB: r = mb(x.c, s(p[0])); break;
		case KFN: {
			vector<N> v;
			for (u64 q: p) v.push_back(s(q));
			r = fn(x.c >> 32, x.c & 0xffffffffu, x.w, v);
			break;
		}
		case KTUP: {
			vector<N> v;
			for (u64 q: p) v.push_back(s(q));
			r = tup(v);
			break;
		}
		case KMONO: {
			// product of shifted atoms; rebuild on 64 virtual bits
			N acc = con(64, ~u64(0));
			bool any = false;
			for (size_t i = 0; i < p.size(); i += 2) any |= s(p[i]) != p[i];
			if (!any) break;
			for (size_t i = 0; i < p.size(); i += 2) {
				int d = int(i64(p[i + 1]));
				N q = s(p[i]);
				u64 c = 0;
				vector<Ent> e;
				toX(q, c, e);
				auto sh = [&](u64 v) -> u64 { return d >= 64 || d <= -64 ? 0 : d >= 0 ? v >> d : v << -d; };
				c = sh(c);
				for (auto & y: e) {
					y.m = sh(y.m);
					y.d += d;
				}
				acc = and_(acc, mkX(64, c, e));
			}
			r = acc;
			break;
		}
		case KAND: r = and_(s(p[0]), s(p[1])); break;
		case KMUL: r = mul(s(p[0]), s(p[1])); break;
		case KUDIV: r = udiv(s(p[0]), s(p[1])); break;
		case KUREM: r = urem(s(p[0]), s(p[1])); break;
		case KICMP: {
			N A = s(p[0]), B = s(p[1]);
			r = x.c == P_EQ ? eq(A, B) : x.c == P_ULT ? ult(A, B) : slt(A, B);
			break;
		}
		case KSEL: r = sel(s(p[0]), s(p[1]), s(p[2])); break;
		case KLOOK: {
			string t = tables[x.c];
			r = look(t, s(p[0]), x.w);
			break;
		}
		case KSHL:
		case KLSHR:
		case KASHR: {
			N A = s(p[0]), B = s(p[1]);
			if (isConst(B) && n[B].c < x.w) r = x.k == KSHL ? shl(A, unsigned(n[B].c)) : x.k == KLSHR ? lshr(A, unsigned(n[B].c)) : ashr(A, unsigned(n[B].c));
			else r = bin(x.k, A, B);
			break;
		}
		case KSDIV:
		case KSREM: r = bin(x.k, s(p[0]), s(p[1])); break;
		default: break;
		}
		memo[a] = r;
		return r;
	}
	uint8_t substFlags = HAS_SIZE;
	N refold(N a) { return a; }

	// ---------------------------------------------------------------- concrete evaluation under an assignment of atoms
	std::optional<u64> eval(N a, const Map & m) const {
		const Node & x = n[a];
		auto f = m.find(a);
		if (f != m.end()) return f->second;
		auto p = [&](size_t i) { return N(pool[x.off + i]); };
		switch (x.k) {
		case KX: {
			u64 v = x.c;
			for (uint32_t i = 0; i < x.len; i += 3) {
				auto q = eval(N(pool[x.off + i]), m);
				if (!q) return {};
				int d = int(i64(pool[x.off + i + 1]));
				u64 s = d >= 64 || d <= -64 ? 0 : d >= 0 ? *q >> d : *q << -d;
				v ^= s & pool[x.off + i + 2];
			}
			return v & full(x.w);
		}
		case KADD: {
			u64 v = x.c;
			for (uint32_t i = 0; i < x.len; i += 2) {
				auto q = eval(N(pool[x.off + i]), m);
				if (!q) return {};
				v += *q * pool[x.off + i + 1];
			}
			return v & full(x.w);
		}
		case KMONO: {
			u64 v = ~u64(0);
			for (uint32_t i = 0; i < x.len; i += 2) {
				auto q = eval(N(pool[x.off + i]), m);
				if (!q) return {};
				int d = int(i64(pool[x.off + i + 1]));
				v &= d >= 64 || d <= -64 ? 0 : d >= 0 ? *q >> d : *q << -d;
			}
			return v;
		}
		case KLOOK: {
			auto q = eval(p(0), m);
			if (!q || *q + x.w / 8 > tables[x.c].size()) return {};
			u64 v = 0;
			memcpy(&v, tables[x.c].data() + *q, x.w / 8);
			return v;
		}
		case KSEL: {
			auto c = eval(p(0), m);
			if (!c) return {};
			return eval(*c ? p(1) : p(2), m);
		}
		case KICMP:
		case KAND:
		case KMUL:
		case KUDIV:
		case KUREM:
		case KSHL:
		case KLSHR:
		case KASHR: {
			auto A = eval(p(0), m), B = eval(p(1), m);
			if (!A || !B) return {};
			unsigned W = n[p(0)].w;
			switch (x.k) {
			case KICMP: return x.c == P_EQ ? *A == *B : x.c == P_ULT ? *A < *B : sext64(*A, W) < sext64(*B, W);
			case KAND: return *A & *B;
			case KMUL: return (*A * *B) & full(W);
			case KUDIV: return *B ? std::optional<u64>(*A / *B) : std::nullopt;
			case KUREM: return *B ? std::optional<u64>(*A % *B) : std::nullopt;
			case KSHL: return *B >= W ? std::optional<u64>() : (*A << *B) & full(W);
			case KLSHR: return *B >= W ? std::optional<u64>() : *A >> *B;
			case KASHR: return *B >= W ? std::optional<u64>() : u64(sext64(*A, W) >> *B) & full(W);
			default: return {};
			}
		}
		default: return {};
		}
	}
	// atoms a value depends on (symbols, message bytes, summarised results)
	void atoms(N a, std::set<N> & out, std::set<N> & seen) const {
		if (!seen.insert(a).second) return;
		const Node & x = n[a];
		switch (x.k) {
		case KSYM:
		case KMB:
		case KFN:
		case KBASE: out.insert(a); return;
		case KX:
			for (uint32_t i = 0; i < x.len; i += 3) atoms(N(pool[x.off + i]), out, seen);
			return;
		case KADD:
		case KMONO:
			for (uint32_t i = 0; i < x.len; i += 2) atoms(N(pool[x.off + i]), out, seen);
			return;
		default:
			for (uint32_t i = 0; i < x.len; ++i) atoms(N(pool[x.off + i]), out, seen);
		}
	}

	vector<N> kids(N a) const {
		const Node & x = n[a];
		vector<N> r;
		unsigned st = x.k == KX ? 3 : x.k == KADD || x.k == KMONO ? 2 : 1;
		if (x.k != KSYM && x.k != KBASE)
			for (uint32_t i = 0; i < x.len; i += st) r.push_back(N(pool[x.off + i]));
		return r;
	}
	// the innermost place where two terms part (for messages)
	std::pair<N, N> part(N a, N b) const {
		for (int guard = 0; guard < 200; ++guard) {
			auto x = kids(a), y = kids(b);
			if (n[a].k != n[b].k || n[a].c != n[b].c || x.size() != y.size()) break;
			size_t d = 0, at = 0;
			for (size_t i = 0; i < x.size(); ++i)
				if (x[i] != y[i]) {
					if (!d) at = i;
					++d;
				}
			if (d == 0) break;
			a = x[at];
			b = y[at];
		}
		return {a, b};
	}
	string str(N a, int depth = 4) const {
		const Node & x = n[a];
		auto hex = [](u64 v) {
			char b[32];
			snprintf(b, sizeof b, v < 10 ? "%llu" : "0x%llx", (unsigned long long)v);
			return string(b);
		};
		auto sub = [&](size_t i) { return str(N(pool[x.off + i]), depth - 1); };
		switch (x.k) {
		case KX: {
			if (x.len == 0) return hex(x.c);
			if (depth <= 0) return "(..)";
			string s = x.c ? hex(x.c) : "";
			for (uint32_t i = 0; i < x.len; i += 3) {
				if (i >= 24) {
					s += " ^ ...";
					break;
				}
				int d = int(i64(pool[x.off + i + 1]));
				if (!s.empty()) s += " ^ ";
				string t = sub(i);
				if (d > 0) t = "(" + t + ">>" + std::to_string(d) + ")";
				if (d < 0) t = "(" + t + "<<" + std::to_string(-d) + ")";
				s += t;
				if (pool[x.off + i + 2] != full(x.w)) s += "&" + hex(pool[x.off + i + 2]);
			}
			return "[" + s + "]";
		}
		case KADD: {
			if (depth <= 0) return "(..)";
			string s;
			for (uint32_t i = 0; i < x.len; i += 2) {
				if (i >= 16) {
					s += " + ...";
					break;
				}
				if (!s.empty()) s += " + ";
				i64 c = sext64(pool[x.off + i + 1], x.w);
				if (c != 1) s += (c < 0 && c > -100000 ? std::to_string(c) : hex(pool[x.off + i + 1])) + "*";
				s += sub(i);
			}
			i64 c = sext64(x.c, x.w);
			if (c) s += c < 0 && c > -100000 ? " - " + std::to_string(-c) : " + " + hex(x.c);
			return "(" + s + ")";
		}
		case KSYM: return syms[x.c].name;
		case KBASE: return "&" + (x.c < baseNames.size() ? baseNames[x.c] : std::to_string(x.c));
		case KMB: return "M[" + str(N(pool[x.off]), 3) + "]";
		default: {
			static const char * nm[] = {"", "", "", "", "", "", "mono", "and", "mul", "udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr", "", "sel", "look", "tup"};
			string s = x.k == KFN ? fns[x.c >> 32] + "." + std::to_string(x.c & 0xffffffffu) : x.k == KICMP ? (x.c == P_EQ ? "eq" : x.c == P_ULT ? "ult" : "slt") : nm[x.k];
			if (depth <= 0) return s + "(..)";
			s += "(";
			for (uint32_t i = 0; i < x.len && i < 6; i += (x.k == KMONO ? 2 : 1)) s += (i ? ", " : "") + sub(i);
			return s + ")";
		}
		}
	}
};

} // namespace cta
