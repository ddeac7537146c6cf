// Reference definitions, written from the standards, over the value domain of terms.hpp.
#pragma once
#include "terms.hpp"

namespace cta {

// floor(frac(p^(1/n)) * 2^bits), by integer arithmetic
inline u64 rootFrac(unsigned p, unsigned n, unsigned bits) {
	// largest x with x^n <= p * 2^(n*bits); x fits in bits+5 bits
	auto le = [&](u128 x) { // x^n <= p << (n*bits)?
		// big multiplication in 32-bit limbs
		auto mul = [](const vector<uint32_t> & a, const vector<uint32_t> & b) {
			vector<uint32_t> r(a.size() + b.size(), 0);
			for (size_t i = 0; i < a.size(); ++i) {
				u64 carry = 0;
				for (size_t j = 0; j < b.size(); ++j) {
					u64 t = u64(a[i]) * b[j] + r[i + j] + carry;
					r[i + j] = uint32_t(t);
					carry = t >> 32;
				}
				r[i + b.size()] = uint32_t(carry);
			}
			return r;
		};
		vector<uint32_t> X{uint32_t(x), uint32_t(x >> 32), uint32_t(x >> 64)}, P = X;
		for (unsigned i = 1; i < n; ++i) P = mul(P, X);
		vector<uint32_t> R(P.size() + 8, 0);
		unsigned sh = n * bits;
		u64 v = u64(p) << (sh % 32);
		R[sh / 32] = uint32_t(v);
		R[sh / 32 + 1] = uint32_t(v >> 32);
		P.resize(R.size(), 0);
		for (size_t i = R.size(); i-- > 0;)
			if (P[i] != R[i]) return P[i] < R[i];
		return true;
	};
	u128 lo = 0, hi = u128(1) << (bits + 6);
	while (hi - lo > 1) {
		u128 mid = (lo + hi) / 2;
		if (le(mid)) lo = mid;
		else hi = mid;
	}
	return u64(lo) & full(bits);
}
inline vector<unsigned> primes(unsigned n) {
	vector<unsigned> p;
	for (unsigned x = 2; p.size() < n; ++x) {
		bool ok = true;
		for (unsigned q: p) ok &= x % q != 0;
		if (ok) p.push_back(x);
	}
	return p;
}

struct Sha2 {
	unsigned w;      // word bits
	unsigned B;      // block bytes
	unsigned rounds;
	unsigned digest; // bytes
	vector<u64> iv, K;
	unsigned S0[3], S1[3], s0[3], s1[3];

	static Sha2 base(unsigned w) {
		Sha2 s;
		s.w = w;
		s.B = w * 2;
		s.rounds = w == 32 ? 64 : 80;
		auto p = primes(80);
		for (unsigned i = 0; i < s.rounds; ++i) s.K.push_back(rootFrac(p[i], 3, w));
		auto set = [](unsigned * d, unsigned a, unsigned b, unsigned c) { d[0] = a, d[1] = b, d[2] = c; };
		if (w == 32) {
			set(s.S0, 2, 13, 22);
			set(s.S1, 6, 11, 25);
			set(s.s0, 7, 18, 3);
			set(s.s1, 17, 19, 10);
		} else {
			set(s.S0, 28, 34, 39);
			set(s.S1, 14, 18, 41);
			set(s.s0, 1, 8, 7);
			set(s.s1, 19, 61, 6);
		}
		return s;
	}
	static Sha2 sha(unsigned bits) {
		Sha2 s = base(bits <= 256 ? 32 : 64);
		s.digest = bits / 8;
		auto p = primes(16);
		for (unsigned i = 0; i < 8; ++i) {
			if (bits == 256) s.iv.push_back(rootFrac(p[i], 2, 32));
			if (bits == 512) s.iv.push_back(rootFrac(p[i], 2, 64));
			if (bits == 384) s.iv.push_back(rootFrac(p[i + 8], 2, 64));
			if (bits == 224) s.iv.push_back(rootFrac(p[i + 8], 2, 64) & 0xffffffffu);
		}
		return s;
	}
	static Sha2 sha512t(unsigned t) {
		Sha2 s = sha(512);
		Arena A;
		for (auto & x: s.iv) x ^= 0xa5a5a5a5a5a5a5a5ull;
		string msg = "SHA-512/" + std::to_string(t);
		size_t len = msg.size();
		msg += char(0x80);
		msg.resize(128, 0);
		msg[126] = char((len * 8) >> 8);
		msg[127] = char(len * 8);
		vector<N> st, wd;
		for (auto x: s.iv) st.push_back(A.con(64, x));
		for (int i = 0; i < 16; ++i) {
			u64 v = 0;
			for (int j = 0; j < 8; ++j) v = v << 8 | uint8_t(msg[size_t(i * 8 + j)]);
			wd.push_back(A.con(64, v));
		}
		auto r = s.compress(A, st, wd);
		for (int i = 0; i < 8; ++i) s.iv[size_t(i)] = A.cval(r[size_t(i)]);
		s.digest = t / 8;
		return s;
	}
	N sg(Arena & T, N x, const unsigned * r, bool shift) const {
		N a = T.xor_(T.rotl(x, w - r[0]), T.rotl(x, w - r[1]));
		return T.xor_(a, shift ? T.lshrX(x, r[2]) : T.rotl(x, w - r[2]));
	}
	vector<N> schedule(Arena & T, vector<N> W) const {
		for (unsigned i = 16; i < rounds; ++i) W.push_back(T.add(T.add(sg(T, W[i - 2], s1, true), W[i - 7]), T.add(sg(T, W[i - 15], s0, true), W[i - 16])));
		return W;
	}
	vector<N> roundsOf(Arena & T, const vector<N> & st, const vector<N> & W) const {
		N a = st[0], b = st[1], c = st[2], d = st[3], e = st[4], f = st[5], g = st[6], h = st[7];
		for (unsigned i = 0; i < rounds; ++i) {
			N ch = T.xor_(T.and_(e, f), T.and_(T.not_(e), g));
			N mj = T.xor_(T.xor_(T.and_(a, b), T.and_(a, c)), T.and_(b, c));
			N t1 = T.add(T.add(T.add(h, sg(T, e, S1, false)), T.add(ch, T.con(w, K[i]))), W[i]);
			N t2 = T.add(sg(T, a, S0, false), mj);
			h = g;
			g = f;
			f = e;
			e = T.add(d, t1);
			d = c;
			c = b;
			b = a;
			a = T.add(t1, t2);
		}
		vector<N> r{a, b, c, d, e, f, g, h};
		for (int i = 0; i < 8; ++i) r[size_t(i)] = T.add(r[size_t(i)], st[size_t(i)]);
		return r;
	}
	vector<N> compress(Arena & T, const vector<N> & st, const vector<N> & W16) const { return roundsOf(T, st, schedule(T, W16)); }
};

struct Keccak {
	unsigned rate;   // bytes
	unsigned digest; // bytes, 0 for SHAKE
	uint8_t suffix;  // domain bits and the first padding bit
	static Keccak sha3(unsigned bits) { return {200 - bits / 4, bits / 8, 0x06}; }
	static Keccak shake(unsigned bits) { return {200 - bits / 4, 0, 0x1f}; }

	static vector<u64> roundConstants() {
		vector<u64> rc;
		uint8_t lfsr = 1;
		for (int r = 0; r < 24; ++r) {
			u64 c = 0;
			for (int j = 0; j < 7; ++j) {
				if (lfsr & 1) c ^= u64(1) << ((1 << j) - 1);
				lfsr = uint8_t(lfsr << 1 ^ (lfsr >> 7 ? 0x71 : 0));
			}
			rc.push_back(c);
		}
		return rc;
	}
	// Keccak-f[1600]; lanes A[x + 5*y]
	static vector<N> f(Arena & T, vector<N> A, const std::function<void(int, vector<N> &)> & after = {}) {
		auto rc = roundConstants();
		for (int r = 0; r < 24; ++r) {
			N C[5], D[5];
			for (int x = 0; x < 5; ++x) {
				C[x] = A[size_t(x)];
				for (int y = 1; y < 5; ++y) C[x] = T.xor_(C[x], A[size_t(x + 5 * y)]);
			}
			for (int x = 0; x < 5; ++x) D[x] = T.xor_(C[(x + 4) % 5], T.rotl(C[(x + 1) % 5], 1));
			for (int i = 0; i < 25; ++i) A[size_t(i)] = T.xor_(A[size_t(i)], D[i % 5]);
			vector<N> Bv(25);
			Bv[0] = A[0];
			int x = 1, y = 0;
			for (int t = 0; t < 24; ++t) {
				unsigned o = unsigned((t + 1) * (t + 2) / 2 % 64);
				int nx = y, ny = (2 * x + 3 * y) % 5;
				Bv[size_t(nx + 5 * ny)] = T.rotl(A[size_t(x + 5 * y)], o);
				x = nx;
				y = ny;
			}
			for (int yy = 0; yy < 5; ++yy)
				for (int xx = 0; xx < 5; ++xx) A[size_t(xx + 5 * yy)] = T.xor_(Bv[size_t(xx + 5 * yy)], T.and_(T.not_(Bv[size_t((xx + 1) % 5 + 5 * yy)]), Bv[size_t((xx + 2) % 5 + 5 * yy)]));
			A[0] = T.xor_(A[0], T.con(64, rc[size_t(r)]));
			if (after) after(r, A);
		}
		return A;
	}
};

struct Xxh {
	unsigned w;
	u64 P[6];
	unsigned B;
	static Xxh make(unsigned w) {
		Xxh x;
		x.w = w;
		x.B = w / 2;
		if (w == 32) {
			u64 p[6] = {0, 0x9E3779B1u, 0x85EBCA77u, 0xC2B2AE3Du, 0x27D4EB2Fu, 0x165667B1u};
			memcpy(x.P, p, sizeof p);
		} else {
			u64 p[6] = {0, 0x9E3779B185EBCA87ull, 0xC2B2AE3D27D4EB4Full, 0x165667B19E3779F9ull, 0x85EBCA77C2B2AE63ull, 0x27D4EB2F165667C5ull};
			memcpy(x.P, p, sizeof p);
		}
		return x;
	}
	vector<N> init(Arena & T, N seed) const { return {T.add(seed, T.con(w, P[1] + P[2])), T.add(seed, T.con(w, P[2])), seed, T.sub(seed, T.con(w, P[1]))}; }
	N round(Arena & T, N acc, N lane) const { return T.mulc(T.rotl(T.add(acc, T.mulc(lane, P[2])), w == 32 ? 13 : 31), P[1]); }
	N converge(Arena & T, const vector<N> & a) const {
		N r = T.add(T.add(T.rotl(a[0], 1), T.rotl(a[1], 7)), T.add(T.rotl(a[2], 12), T.rotl(a[3], 18)));
		if (w == 64)
			for (int i = 0; i < 4; ++i) r = T.add(T.mulc(T.xor_(r, round(T, T.con(64, 0), a[size_t(i)])), P[1]), T.con(64, P[4]));
		return r;
	}
	// word(o, n): little-endian n-byte number at tail offset o
	N finish(Arena & T, N acc, unsigned tail, const std::function<N(unsigned, unsigned)> & word) const {
		unsigned o = 0;
		if (w == 32) {
			for (; tail - o >= 4; o += 4) acc = T.mulc(T.rotl(T.add(acc, T.mulc(word(o, 4), P[3])), 17), P[4]);
			for (; o < tail; ++o) acc = T.mulc(T.rotl(T.add(acc, T.mulc(T.zext(word(o, 1), 32), P[5])), 11), P[1]);
			acc = T.mulc(T.xor_(acc, T.lshrX(acc, 15)), P[2]);
			acc = T.mulc(T.xor_(acc, T.lshrX(acc, 13)), P[3]);
			return T.xor_(acc, T.lshrX(acc, 16));
		}
		for (; tail - o >= 8; o += 8) acc = T.add(T.mulc(T.rotl(T.xor_(acc, round(T, T.con(64, 0), word(o, 8))), 27), P[1]), T.con(64, P[4]));
		if (tail - o >= 4) {
			acc = T.add(T.mulc(T.rotl(T.xor_(acc, T.mulc(T.zext(word(o, 4), 64), P[1])), 23), P[2]), T.con(64, P[3]));
			o += 4;
		}
		for (; o < tail; ++o) acc = T.mulc(T.rotl(T.xor_(acc, T.mulc(T.zext(word(o, 1), 64), P[5])), 11), P[1]);
		acc = T.mulc(T.xor_(acc, T.lshrX(acc, 33)), P[2]);
		acc = T.mulc(T.xor_(acc, T.lshrX(acc, 29)), P[3]);
		return T.xor_(acc, T.lshrX(acc, 32));
	}
};

} // namespace cta
