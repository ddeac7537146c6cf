"""Entry points handed to the analyser: thin extern "C" wrappers over the public interface of
/repo/include, one set per algorithm, compiled to unoptimised LLVM IR (never linked, never run)."""
import os

REPO = os.environ.get('CTA_REPO', '/repo')
INC = os.path.join(REPO, 'include')

SHA2 = ['sha224', 'sha256', 'sha384', 'sha512']
SHA3 = ['sha3_224', 'sha3_256', 'sha3_384', 'sha3_512']
SHAKE = ['shake128', 'shake256']
XXH = ['xxh32', 'xxh64']
BLOCK = {'sha224': 64, 'sha256': 64, 'sha384': 128, 'sha512': 128, 'sha3_224': 144, 'sha3_256': 136, 'sha3_384': 104,
         'sha3_512': 72, 'shake128': 168, 'shake256': 136, 'xxh32': 16, 'xxh64': 32}


def block(alg):
    return BLOCK[alg] if alg in BLOCK else 128  # sha512t_N


def cpptype(alg):
    if alg.startswith('sha512t_'):
        return 'cthash::sha512t<%s>' % alg[8:]
    if alg == 'xxh32':
        return 'cthash::xxhash32'
    if alg == 'xxh64':
        return 'cthash::xxhash64'
    return 'cthash::' + alg


PRE = '''#include <cthash/cthash.hpp>
#include <new>
#include <span>
#include <string>
#include <string_view>
#include <array>
#include <vector>
#include <cstddef>
#include <cstdint>
#define H_ENTRY extern "C" __attribute__((used, noinline))
'''


def anchors(algs):
    """Force out-of-line copies of the compression functions where they exist under these names."""
    return ''


def streams(alg, pfx, forms=('b',), outlen=None, extra=''):
    """Entry points of one hasher."""
    t = cpptype(alg)
    xxh = alg.startswith('xxh')
    o = ['using T_%s = %s;' % (pfx, t)]
    o.append('H_ENTRY std::size_t h_%s_sizeof() { return sizeof(T_%s); }' % (pfx, pfx))
    if xxh:
        st = 'std::uint32_t' if alg == 'xxh32' else 'std::uint64_t'
        o.append('H_ENTRY void h_%s_ctor(T_%s * h, %s seed) { ::new (static_cast<void *>(h)) T_%s(seed); }' % (pfx, pfx, st, pfx))
    else:
        o.append('H_ENTRY void h_%s_ctor(T_%s * h) { ::new (static_cast<void *>(h)) T_%s(); }' % (pfx, pfx, pfx))
    ty = {'b': 'std::byte', 'c': 'char', 'u': 'unsigned char', 's': 'signed char', 'w': 'char8_t'}
    for f in forms:
        if f in ty:
            o.append('H_ENTRY void h_%s_update_%s(T_%s * h, const %s * p, std::size_t n) { h->update(std::span<const %s>(p, n)); }' % (pfx, f, pfx, ty[f], ty[f]))
        elif f == 'vc':
            o.append('H_ENTRY void h_%s_update_vc(T_%s * h, const char * p, std::size_t n) { h->update(std::string_view(p, n)); }' % (pfx, pfx))
        elif f == 'vw':
            o.append('H_ENTRY void h_%s_update_vw(T_%s * h, const char8_t * p, std::size_t n) { h->update(std::u8string_view(p, n)); }' % (pfx, pfx))
    if alg in SHAKE:
        for n in (outlen or [32]):
            o.append('H_ENTRY void h_%s_final%s(T_%s * h, unsigned char * out) { auto r = h->template final<%uu>(); for (std::size_t i = 0; i != %uu; ++i) out[i] = static_cast<unsigned char>(r[i]); }'
                     % (pfx, '' if n == (outlen or [32])[0] else str(n), pfx, n * 8, n))
        o.append('H_ENTRY void h_%s_squeeze(T_%s * h, std::byte * out, std::size_t n) { h->final_absorb(); h->squeeze(std::span<std::byte>(out, n)); }' % (pfx, pfx))
    else:
        o.append('H_ENTRY void h_%s_final(T_%s * h, unsigned char * out) { auto r = h->final(); for (std::size_t i = 0; i != r.size(); ++i) out[i] = static_cast<unsigned char>(r[i]); }' % (pfx, pfx))
    if alg.startswith('sha') and not alg.startswith('sha3_') and not alg.startswith('shake'):
        o.append('H_ENTRY std::uint64_t h_%s_size(const T_%s * h) { return h->size(); }' % (pfx, pfx))
    o.append('H_ENTRY void h_%s_copy(void * d, const T_%s * h) { ::new (d) T_%s(*h); }' % (pfx, pfx, pfx))
    o.append('H_ENTRY void h_%s_move(void * d, T_%s * h) { ::new (d) T_%s(static_cast<T_%s &&>(*h)); }' % (pfx, pfx, pfx, pfx))
    return '\n'.join(o) + extra + '\n'


TY = {'b': 'std::byte', 'c': 'char', 'u': 'unsigned char', 's': 'signed char', 'w': 'char8_t'}
FIXED = [1, 3, 8, 20]


def input_forms(alg, quick=True):
    """Every way of passing bytes: (name, C++ expression of (p, n), parameter list, fixed size or None)."""
    B = block(alg)
    o = []
    for k, t in TY.items():
        o.append(('span_' + k, 'const %s * p, std::size_t n' % t, 'std::span<const %s>(p, n)' % t, None))
        o.append(('vec_' + k, 'const %s * p, std::size_t n' % t, 'view_of<std::vector<%s>>(p, n)' % t, None))
        o.append(('mspan_' + k, '%s * p, std::size_t n' % t, 'std::span<%s>(p, n)' % t, None))
    for k in 'cw':
        o.append(('sv_' + k, 'const %s * p, std::size_t n' % TY[k], 'std::basic_string_view<%s>(p, n)' % TY[k], None))
        o.append(('str_' + k, 'const %s * p, std::size_t n' % TY[k], 'view_of<std::basic_string<%s>>(p, n)' % TY[k], None))
    o.append(('rng_c', 'const char * p, std::size_t n', 'contiguous<char>{p, n}', None))
    o.append(('rng_b', 'const std::byte * p, std::size_t n', 'contiguous<std::byte>{p, n}', None))
    sizes = [1, 7, B // 2, B - 1, B, B + 1, 2 * B + 3, 300, 1100] + ([] if quick else list(range(2, 2 * B + 2, 5)))
    for n in sorted(set(sizes)):
        for k, t in TY.items():
            o.append(('arr_%s_%d' % (k, n), 'const %s * p' % t, '*reinterpret_cast<const std::array<%s, %d> *>(p)' % (t, n), (n, n)))
            if k not in 'cw':
                o.append(('carr_%s_%d' % (k, n), 'const %s * p' % t, '*reinterpret_cast<const %s (*)[%d]>(p)' % (t, n), (n, n)))
            o.append(('fspan_%s_%d' % (k, n), 'const %s * p' % t, 'std::span<const %s, %d>(p, %d)' % (t, n, n), (n, n)))
        for k in 'cw':
            o.append(('lit_%s_%d' % (k, n), 'const %s * p' % TY[k], '*reinterpret_cast<const %s (*)[%d]>(p)' % (TY[k], n), (n, n - 1)))
    if alg in XXH:  # takes spans of const, string views, arrays and literals
        o = [f for f in o if f[0].split('_')[0] in ('span', 'sv', 'carr', 'lit')]
    return o


FORMS_PRE = PRE + '''
// a container whose elements are at p (the layout libstdc++ uses: three pointers, or pointer and size)
template <typename C> struct view_of {
	using T = typename C::value_type;
	union U { std::size_t raw[4]; C c; U() { } ~U() { } } u;
	view_of(const T * p, std::size_t n) {
		if constexpr (sizeof(C) == 24) {
			u.raw[0] = reinterpret_cast<std::size_t>(p); u.raw[1] = reinterpret_cast<std::size_t>(p + n); u.raw[2] = reinterpret_cast<std::size_t>(p + n);
		} else {
			u.raw[0] = reinterpret_cast<std::size_t>(p); u.raw[1] = n; u.raw[2] = n; u.raw[3] = 0;
		}
	}
	const C & get() const { return u.c; }
};
template <typename T> struct contiguous {
	const T * p; std::size_t n;
	const T * data() const { return p; }
	std::size_t size() const { return n; }
	const T * begin() const { return p; }
	const T * end() const { return p + n; }
};
template <typename T> const T & plain(const T & v) { return v; }
template <typename C> const C & plain(const view_of<C> & v) { return v.get(); }
'''


def form_key(f):
    return f[0] if f[3] is None else '%s:%d:%d' % (f[0], f[3][0], f[3][1])


def form_entries(alg, fs, oneshot=False, native=False):
    """update()/simple() through each form of input. Returns the C++ text and the analyser's names."""
    t, xxh = cpptype(alg), alg.startswith('xxh')
    o, names = [], []
    for f in fs:
        if not oneshot:
            o.append('H_ENTRY void h_%s_update_%s(T_%s * h, %s) { h->update(plain(%s)); }' % (alg, f[0], alg, f[1], f[2]))
            names.append(form_key(f))
            continue
        seed = ('std::uint32_t seed, ' if alg == 'xxh32' else 'std::uint64_t seed, ') if xxh else ''
        for pre, call in (('simple_', 'cthash::simple<T_%s>(plain(%s)%s)' % (alg, f[2], ', seed' if xxh else '')),
                          ('once_', 'T_%s(seed).update_and_final(plain(%s))' % (alg, f[2]))):
            if pre == 'once_' and (not xxh or not native):
                continue
            o.append('H_ENTRY void h_%s_%s%s(%s%s, unsigned char * out) { auto r = %s; for (std::size_t i = 0; i != r.size(); ++i) out[i] = static_cast<unsigned char>(r[i]); }'
                     % (alg, pre, f[0], seed, f[1], call))
            names.append(pre + form_key(f))
    return '\n'.join(o) + '\n', names


CXX = 'clang++'
FLAGS = ['-std=c++23', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-w', '-ftemplate-depth=4096',
         '-fconstexpr-steps=100000000', '-fbracket-depth=4096']


# --- encodings: name -> (bits, padded, alphabet), from RFC 4648 (base16, 32, 64), z-base-32 and plain positional notation
B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'
ENCODINGS = {
    'base2': (1, 0, '01'), 'base4': (2, 0, '0123'), 'base8': (3, 1, '01234567'),
    'base16': (4, 0, '0123456789abcdef'), 'base16_uppercase': (4, 0, '0123456789ABCDEF'),
    'base32': (5, 1, B64[:26] + '234567'), 'base32_no_padding': (5, 0, B64[:26] + '234567'),
    'z_base32': (5, 0, 'ybndrfg8ejkmcpqxot1uwisza345h769'),
    'base64': (6, 1, B64 + '+/'), 'base64_no_padding': (6, 0, B64 + '+/'), 'base64url': (6, 0, B64 + '-_'),
}
ENC_PRE = '''#include <cthash/cthash.hpp>
#include <span>
#include <string_view>
#define H_ENTRY extern "C" __attribute__((used, noinline))
// G steps a round, so that every round starts at the same place of a block
template <unsigned G, class F> static inline void laps(F one) {
	auto lap = [&]<std::size_t... I>(std::index_sequence<I...>) { return ((void(I), one()) && ...); };
	while (lap(std::make_index_sequence<G>())) { }
}
template <unsigned G, class V> static inline void text(V v, char * out) {
	auto it = v.begin();
	const auto e = v.end();
	laps<G>([&] { if (it == e) return false; *out++ = *it; ++it; return true; });
}
template <unsigned G, class V> static inline void text2(const V v, char * out) {
	auto it = v.begin();
	laps<G>([&] { if (!(it != v.end())) return false; auto old = it++; *out++ = *old; return true; });
}
template <unsigned G, class V> static inline std::size_t count(V v) {
	std::size_t n = 0;
	auto it = v.begin();
	laps<G>([&] { if (it == v.end()) return false; ++n; ++it; return true; });
	return n;
}
template <unsigned G, class V> static inline void chunks(V v, unsigned long long * out) {
	auto it = v.begin();
	laps<G>([&] { if (it == v.end()) return false; const auto r = *it; *out++ = r.value; *out++ = r.missing_bits; ++it; return true; });
}
'''


def group(bits, eb=8):
    import math
    return math.lcm(bits, eb) // bits


def encoders(enc, pfx, kinds=('b', 'c', 'u')):
    """text and size of the views over (pointer, count)"""
    bits = ENCODINGS[enc][0]
    g = group(bits)
    t = ''
    for k in kinds:
        el, rng = {'b': ('std::byte', 'std::span<const std::byte>(p, n)'), 'c': ('char', 'std::string_view(p, n)'), 'u': ('unsigned char', 'std::span<const unsigned char>(p, n)'), 's': ('signed char', 'std::span<const signed char>(p, n)')}[k]
        for v, f in (('', 'text'), ('2', 'text2')):
            t += 'H_ENTRY void h_%s_text%s_%s(const %s * p, std::size_t n, char * out) { %s<%d>(%s | cthash::encode_to<cthash::encoding::%s>, out); }\n' % (pfx, v, k, el, f, g, rng, enc)
        t += 'H_ENTRY std::size_t h_%s_size_%s(const %s * p, std::size_t n) { return (%s | cthash::encode_to<cthash::encoding::%s>).size(); }\n' % (pfx, k, el, rng, enc)
        t += ('H_ENTRY std::size_t h_%s_count_%s(const %s * p, std::size_t n, std::size_t * a) { auto v = %s | cthash::encode_to<cthash::encoding::%s>; *a = v.size(); return count<%d>(v); }\n'
              % (pfx, k, el, rng, enc, g))
    return t


# --- digest types: name -> (C++ type, bytes, literal suffix, hasher, how it finishes)
def values(quick=True):
    v = {}
    for a, n in (('sha224', 28), ('sha256', 32), ('sha384', 48), ('sha512', 64), ('sha3_224', 28), ('sha3_256', 32), ('sha3_384', 48), ('sha3_512', 64)):
        v[a] = ('cthash::%s_value' % a, n, '_' + a, 'cthash::' + a, 'final()')
    for t in (224, 256):
        v['sha512_%d' % t] = ('cthash::sha512t_value<%d>' % t, t // 8, '_sha512_%d' % t, 'cthash::sha512t<%d>' % t, 'final()')
    for t in (8, 160, 376) if quick else [t for t in range(8, 512, 8) if t not in (224, 256, 384)]:
        v['sha512t_%d' % t] = ('cthash::sha512t_value<%d>' % t, t // 8, None, 'cthash::sha512t<%d>' % t, 'final()')
    for b, n in ((32, 4), (64, 8)):
        v['xxh%d' % b] = ('cthash::xxhash%d_value' % b, n, '_xxh%d' % b, 'cthash::xxhash%d' % b, 'final()')
    for a in SHAKE:
        for n in (1, 16, 32, 64) if quick else (1, 2, 3, 7, 8, 16, 20, 28, 32, 33, 48, 64, 100, 128, 168, 200):
            v['%s_%d' % (a, n)] = ('cthash::%s_value<%d>' % (a, 8 * n), n, '_' + a, 'cthash::' + a, 'final<%d>()' % (8 * n))
    for n in (1, 5, 32) if quick else (1, 2, 3, 4, 5, 7, 8, 16, 20, 28, 32, 33, 48, 64, 100):
        v['plain_%d' % n] = ('cthash::hash_value<%d>' % n, n, '_hash', None, None)
    return v


VAL_PRE = PRE + '''#include <compare>
template <class A, class B> static inline int order(const A & a, const B & b) { const auto r = a <=> b; if (r < 0) return -1; if (r > 0) return 1; if (r == 0) return 0; return 2; }
'''
OPS = {'eq': 'if (*a == *b) return 1; return 0;', 'ne': 'if (*a != *b) return 1; return 0;', 'lt': 'if (*a < *b) return 1; return 0;', 'le': 'if (*a <= *b) return 1; return 0;',
       'gt': 'if (*a > *b) return 1; return 0;', 'ge': 'if (*a >= *b) return 1; return 0;', 'cmp': 'return order(*a, *b);'}


def chunked(l, k):
    l = list(l)
    return [x for x in (l[i::k] for i in range(k)) if x]
