#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property of /repo's current tree by static
analysis (see DESIGN.md). Exit 0: holds on everything analysed; 1: VIOLATION; 2: analysis broken."""
import math
import sys

import harness as h
import lib

TABLE = {}


def prop(f):
    TABLE[f.__name__.upper()] = f
    return f


FORM = ['b']


def hashers(c, algs, mode, opts, forms=('b',), timeout=None, kernel=None, common=None, label='', pre=None, text=None, **comp):
    """Analyses hashers with one engine mode; what it leaves open is looked at again with concrete
    sizes (bounded), so that a form of the code the symbolic analysis cannot follow is still covered.
    common: engine options of every run; text(alg): further entry points; comp: compiler options."""
    common = common or {}

    def src(alg):
        return (pre or h.PRE) + h.streams(alg, alg, forms) + (text(alg) if text else '')

    def one(alg):
        def f():
            o = dict(opts(alg) if callable(opts) else opts)
            bc = c.compile(label + alg, src(alg), **comp)
            name = label + alg
            r = c.cta(mode, bc, alg, alg, timeout=timeout, **common, **o)
            c.count('hashers analysed')
            if r:
                c.merge(r, label)
                c.sample('%s: %d obligations over %s' % (name, r['obligations'], ', '.join('%s %s' % (v, k) for k, v in r['counts'].items())))
            else:
                c.open('%s: no answer from the symbolic analysis (%s)' % (name, mode))
            if r and not r['unproved']:
                return
            # bounded second look
            B = h.block(alg)
            for m, oo in (('splits', dict(ustep=max(1, B // 7), rstep=max(1, B // 9))), ('kernel', dict(max=2 * B + 1, step=7))):
                if m == 'kernel' and (kernel or mode != 'states'):
                    continue
                k = c.cta(m, bc, alg, alg, timeout=250, **common, **oo)
                if k:
                    c.merge(k, (label + ' bounded').strip())
        return f

    def kern(alg):
        def f():
            bc = c.compile(label + 'k_' + alg, src(alg), **comp)
            r = c.cta('kernel', bc, alg, alg, timeout=timeout, **common, **(kernel(alg) if callable(kernel) else kernel))
            c.count('kernels analysed')
            if r:
                c.merge(r, label)
            else:
                c.open('%s: no answer for the expanded messages' % alg)
        return f
    c.run([one(a) for a in algs] + ([kern(a) for a in algs] if kernel else []))


BOUND = 'message totals below 2^61 bytes (the length field of SHA-2 counts bits in 64 bits)'


def conform(c, algs, std):
    c.rule = ('Abstract interpretation of the hasher\'s LLVM IR over value-numbered byte terms, with loop invariants inferred and re-checked. '
              '(a) Every message length up to two blocks and one byte, all content symbolic: each digest byte is the same normal form as the ' + std +
              ' reference; (b) the functions the hasher calls per block are proved equal to the reference functions; (c) for M*block + r bytes, '
              'M symbolic, every r below the block length: the state after update() and the digest after final() are those of the reference.')
    c.assumptions = [BOUND]
    step = 1
    hashers(c, algs, 'states', dict(), kernel=dict(step=step, anchors=1))


def streaming(c, algs):
    c.rule = ('Abstract interpretation of update()/final() over symbolic hasher states. The states reachable by any sequence of updates are '
              'described by (whole blocks M, pending bytes u), M symbolic; for every u and every update of N*block + r bytes, N symbolic, the state '
              'reached is the one described by the total, so induction over the updates gives every split; final() of every described state '
              'gives the reference digest of the absorbed message.')
    c.assumptions = [BOUND]

    def opts(alg):
        if not c.quick or h.block(alg) < 40:
            return {}
        st = 7 if alg in ('sha384', 'sha512') or alg.startswith('sha512t') else 3 if alg.startswith('sha2') else 5
        return dict(ustep=st, rstep=st)
    hashers(c, algs, 'stream', opts, common=dict(relative=1))


def encode(c, enc, what, kinds, label='', extra=(), inc=None, **opt):
    """what: text, count or size over every kind of element"""
    def f():
        bits, padded, alphabet = h.ENCODINGS[enc]
        bc = c.compile(label + enc, h.ENC_PRE + h.encoders(enc, enc, kinds), extra=extra, inc=inc)
        o = dict(opt, bits=bits, **(dict(padded=1) if padded else {}))
        for k in kinds:
            for fn in [dict(text='text_' + k, alphabet=alphabet), dict(text='text2_' + k, alphabet=alphabet)] if what == 'text' else [{what: '%s_%s' % (what, k)}]:
                r = c.cta('encode', bc, 'xxh32', enc, **o, **fn)
                c.count('functions analysed')
                if r:
                    c.merge(r, label)
                else:
                    c.open('%s%s: no answer for %s' % (label, enc, fn))
    return f


WIDTHS = [(8, 'std::byte'), (8, 'char'), (8, 'signed char'), (8, 'unsigned char'), (16, 'unsigned short'), (16, 'short'), (16, 'char16_t'), (32, 'unsigned int'), (32, 'int'),
          (64, 'unsigned long long'), (64, 'long long')]


def chunks(c, eb, el, part, label='', **opt):
    """every width congruent to part modulo 3, with and without padding"""
    def f():
        t, cases = h.ENC_PRE, []
        for b in range(1, 65):
            if math.lcm(b, eb) > 64 or b % 3 != part or b == math.lcm(b, eb) >= 32:
                continue
            if c.quick and el in ('unsigned char', 'signed char', 'short', 'char16_t', 'int', 'long long') and b not in (3, 5, 6, 12, 16, 8, 32):
                continue
            for pad in (0, 1):
                n = 'w%d_%d' % (b, pad)
                view = 'std::span<const %s>(p, n) | cthash::chunk_of_bits<%d, %s>' % (el, b, 'true' if pad else 'false')
                t += 'H_ENTRY void h_%s_text(const %s * p, std::size_t n, unsigned long long * out) { chunks<%d>(%s, out); }\n' % (n, el, h.group(b, eb), view)
                t += 'H_ENTRY std::size_t h_%s_size(const %s * p, std::size_t n) { return (%s).size(); }\n' % (n, el, view)
                cases.append((n, b, pad))
        if not cases:
            return
        name = label + '%s_%d' % (el.replace(' ', '_').replace(':', ''), part)
        bc = c.compile(name, t)
        for n, b, pad in cases:
            r = c.cta('encode', bc, 'xxh32', n, bits=b, eb=eb, **opt, **(dict(padded=1) if pad else {}))
            c.count('pairs of widths analysed')
            if r:
                c.merge(r, label + el)
            else:
                c.open('%s: no answer for %s' % (el, n))
    return f


@prop
def c01(c):
    conform(c, h.SHA2, 'FIPS 180-4')


@prop
def c02(c):
    streaming(c, h.SHA2 + ['sha512t_256'] + ([] if c.quick else ['sha512t_%d' % t for t in (8, 72, 224, 376, 392, 504)]))


@prop
def c03(c):
    c.rule = ('For every supported t: the constructor and final() of SHA-512/t are analysed as in C01 against SHA-512 from the initial value FIPS 180-4 5.3.6 generates '
              '(computed by the analyser\'s own reference), whole digests of symbolic content at chosen lengths with nothing summarised and every length block*M + r; '
              'for unsupported t a witness program must be rejected by the type checker, with every supported t as the positive control.')
    c.assumptions = [BOUND]
    ts = [t for t in range(8, 513, 8) if t != 384]
    groups = [ts[i::16] for i in range(16)]

    def group(g):
        def f():
            bc = c.compile('t%d' % g[0], h.PRE + ''.join(h.streams('sha512t_%d' % t, 'sha512t_%d' % t) for t in g))
            for t in g:
                a = 'sha512t_%d' % t
                for mode, o in (('kernel', dict(max=257, step=37 if c.quick else 3, anchors=1)), ('states', {})):
                    r = c.cta(mode, bc, a, a, **o)
                    if r:
                        c.merge(r, '')
                    else:
                        c.open('%s: no answer (%s)' % (a, mode))
                c.count('values of t analysed')
        return f

    def witness(t, good):
        def f():
            ok, err = c.syntax('w%d' % t, '#include <cthash/cthash.hpp>\nint main() { cthash::sha512t<%d> h; (void)h; }\n' % t)
            if good and not ok:
                raise lib.Broken('the positive control sha512t<%d> does not compile: %s' % (t, err))
            if not good:
                c.oblig(not ok, 'sha512t<%d> is accepted at compile time (cthash/sha2/sha512/t.hpp)' % t)
                c.sample('sha512t<%d> rejected: %s' % (t, err))
        return f
    bad = [0, 384, 1, 4, 7, 12, 100, 225, 383, 385, 511, 513, 516, 520, 768, 1000, 1024, 1032]
    c.run([group(g) for g in groups] + [witness(t, False) for t in bad] + [witness(256, True)])


@prop
def c04(c):
    conform(c, h.SHA3, 'FIPS 202')


@prop
def c05(c):
    streaming(c, h.SHA3 + h.SHAKE)


@prop
def c06(c):
    c.rule = ('final<N>() is analysed on every reachable hasher state (whole blocks M symbolic, every number of pending bytes, all content symbolic) for output lengths around '
              'the word and rate boundaries, and squeezing into a span for every output length from 0 bytes on up to a bound and selected long ones: every output byte is the byte of '
              'that position in the FIPS 202 stream of that message. Lengths beyond are not covered; everything else is universal.')
    c.assumptions = [BOUND, 'output lengths as listed (all up to the bound, selected ones beyond)']

    def one(alg):
        B = h.block(alg)
        few = sorted({1, 5, 8, 16, 20, 28, 32, 48, 64, 100, 128, 200, 256, 500, 512, B - 8, B - 1, B, B + 1, B + 7, B + 8, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B})
        few = [32] + [n for n in few if n != 32]
        if not c.quick:
            few += [n for n in range(1, 4 * B) if n not in few]
        sp = list(range(0, (4 if c.quick else 12) * B + 2)) + [1000, 1023, 1024, 1025, 4095, 4096, 8191, 8193, 32767, 32769, 65535, 65536, 65537, 131073] + ([] if c.quick else [2**20 + 1])

        def fixed(part):
            def f():
                bc = c.compile('%s_%d' % (alg, part[0]), h.PRE + h.streams(alg, alg, ['b'], part))
                for n in part:
                    r = c.cta('states', bc, alg, alg, final='final' + ('' if n == part[0] else str(n)), len=n)
                    c.count('final<N> instances analysed')
                    if r:
                        c.merge(r, 'final<%d>' % (8 * n))
                    if not r or r['unproved']:
                        c.open('%s: final<%d>: no answer for symbolic messages' % (alg, 8 * n)) if not r else None
                        k = c.cta('splits', bc, alg, alg, final='final' + ('' if n == part[0] else str(n)), len=n, ustep=B // 3, rstep=B // 2)
                        if k:
                            c.merge(k, 'bounded, final<%d>' % (8 * n))
            return f

        def spans(part):
            def f():
                bc = c.compile('%s_s%d' % (alg, part[0]), h.PRE + h.streams(alg, alg, ['b']))
                r = c.cta('squeeze', bc, alg, alg, lens=','.join(map(str, part)), ustep=B - 1 if c.quick else 13)
                if r:
                    c.merge(r, 'squeeze(span)')
                else:
                    c.open('%s: squeeze(span): no answer' % alg)
            return f
        k = 6
        return [fixed(few[i::k]) for i in range(k)] + [spans(sp[i::3]) for i in range(3)]
    c.run(one('shake128') + one('shake256'))
    hashers(c, h.SHAKE, 'states', {}, kernel=dict(step=8 if c.quick else 1, anchors=1))


@prop
def c07(c):
    conform(c, h.XXH, 'xxHash')
    c.assumptions = ['message totals below 2^61 bytes']


@prop
def c08(c):
    streaming(c, h.XXH)
    c.assumptions = ['message totals below 2^61 bytes']


@prop
def c09(c):
    c.rule = ('final() is analysed on every reachable hasher state (whole blocks symbolic, every number of pending bytes): every byte of the hasher '
              'holds the same value after it as before, or the hasher still behaves as before under final() and updates.')
    c.assumptions = ['message totals below 2^61 bytes']
    hashers(c, h.XXH, 'states', dict(unchanged=1, digest=1))


ALL = h.SHA2 + ['sha512t_224', 'sha512t_256'] + h.SHA3 + h.SHAKE + h.XXH


def grid(c, alg, div=4):
    """Options of a coarse grid of (pending bytes, size class) pairs: its points, the edges, the diagonal."""
    B = h.block(alg)
    k = max(1, B // div)
    return dict(grid=1, ustep=k - 1 if k > 2 else 1, rstep=k + 1 if k > 2 else 1) if c.quick else dict(ustep=max(1, B // 9), rstep=max(1, B // 7))


@prop
def c10(c):
    c.rule = ('The branches taken in constant evaluation are made the only ones (in a copy of the headers every "if consteval" and is_constant_evaluated() becomes true) and the '
              'result is analysed against the reference exactly as the run-time code is for the conformity and split properties, for every element type: both equal the reference, '
              'hence each other. That whole digests of every form of input are constant expressions is settled by the type checker.')
    c.assumptions = [BOUND]
    inc, sites = c.consteval_copy()
    c.count('places that distinguish constant evaluation', sites)

    def opts(alg):
        return dict(forms='b,c,u,s,w', **grid(c, alg))
    hashers(c, ALL, 'stream', opts, forms=('b', 'c', 'u', 's', 'w'), kernel=lambda a: dict(max=2 * h.block(a) + 1, step=7 if c.quick else 1), label='constant evaluation: ', inc=inc)

    def witness(alg):
        def f():
            fin = 'final<256>()' if alg in h.SHAKE else 'final()'
            lines = ['#include <cthash/cthash.hpp>', '#include <array>', 'using namespace std::string_view_literals; using T = %s;' % h.cpptype(alg),
                     'template <typename C, std::size_t N> constexpr auto fill() { std::array<C, N> r{}; for (auto & x: r) x = static_cast<C>(\'a\'); return r; }']
            for k, t in h.TY.items():
                for n in (0, 1, h.block(alg) - 1, h.block(alg), 2 * h.block(alg) + 5):
                    lines.append('constexpr auto a_%s%d = fill<%s, %d>(); constexpr auto d_%s%d = T{}.update(std::span<const %s>(a_%s%d)).update(std::span<const %s>(a_%s%d)).%s;'
                                 % (k, n, t, n or 1, k, n, t, k, n, t, k, n, fin))
            lines.append('constexpr auto l = T{}.update("literal").update("view"sv).update(u8"abc").%s;' % fin)
            ok, err = c.syntax('ce_' + alg, '\n'.join(lines))
            c.oblig(ok, '%s is not usable in constant expressions: %s' % (alg, err))
        return f
    c.run([witness(a) for a in ALL])


@prop
def c11(c):
    c.rule = ('update() through every form of input (spans, vectors, strings, arrays and contiguous ranges of each byte type, string views, character array literals) is analysed '
              'from every sampled number of pending bytes, whole blocks and content symbolic: the state reached is the one the content bytes, and only they, lead to.')
    c.assumptions = [BOUND, 'vectors and strings are laid out as libstdc++ does']

    def text(alg):
        return h.form_entries(alg, h.input_forms(alg, c.quick))[0]

    def opts(alg):
        return dict(forms=','.join(h.form_entries(alg, h.input_forms(alg, c.quick))[1]), **grid(c, alg, 2))
    algs = ['sha256', 'sha512', 'sha512t_256', 'sha3_256', 'shake128', 'xxh32', 'xxh64'] if c.quick else ALL
    hashers(c, algs, 'stream', opts, pre=h.FORMS_PRE, text=text, common=dict(relative=1))


@prop
def c13(c):
    c.rule = ('Call graph walk from every public entry point that hashes, compares or iterates encoded bytes: every instruction of every function that can be reached is looked at. None allocates, '
              'throws, synchronises, does input or output, leaves the analysed code or touches an object of static or thread storage duration that is not constant. Blocks that only report a failed '
              'assertion and stop are left out, branches on constants are resolved.')
    c.assumptions = ['the standard library functions instantiated are those of the installed libstdc++']

    def walk(name, text):
        def f():
            bc = c.compile(name, text)
            r = c.cta('effects', bc, name, name)
            if r:
                c.merge(r, '')
                c.sample('%s: %s' % (name, ', '.join('%s %s' % (n, k) for k, n in r['counts'].items())))
            else:
                c.open('%s: no answer' % name)
        return f
    jobs = []
    for a in ALL if c.quick else ALL + ['sha512t_%d' % t for t in range(8, 512, 8) if t not in (224, 256, 384)]:
        fs = h.input_forms(a, c.quick)
        text = h.FORMS_PRE + h.streams(a, a, ('b', 'c', 'u', 's', 'w', 'vc', 'vw') if a not in h.XXH else ('b', 'c', 'u', 's', 'w', 'vc'), [1, 32, 200, 500] if a in h.SHAKE else None) + h.form_entries(a, fs)[0]
        if a not in h.SHAKE:
            text += h.form_entries(a, fs, oneshot=True, native=True)[0]
        jobs.append(walk(a, text))
    for n, (t, k, *_) in h.values(c.quick).items():
        text = h.VAL_PRE + h.ENC_PRE.replace('#define H_ENTRY', '#undef H_ENTRY\n#define H_ENTRY') + 'using V = %s;\n' % t + ''.join('H_ENTRY int h_%s(const V * a, const V * b) { %s }\n' % (o, b) for o, b in h.OPS.items())
        text += 'H_ENTRY void h_copy(void * d, const V * v) { ::new (d) V(*v); }\n'
        for j in {0, 1, k // 2, k}:
            text += ''.join('H_ENTRY void h_%s%d(const V * v, void * o) { ::new (o) auto(v->%s<%d>()); }\n' % (f, j, f, j) for f in ('prefix', 'suffix'))
        for ch in CHARS:
            text += 'H_ENTRY void h_a_%s(const %s * p, void * o) { ::new (o) V(reinterpret_cast<const %s (&)[%d]>(*p)); }\n' % (ch, ch, ch, 2 * k + 1)
        for e in h.ENCODINGS:
            text += 'H_ENTRY void h_text_%s(const V * v, char * out) { text<1>(*v | cthash::encode_to<cthash::encoding::%s>, out); text2<1>(*v | cthash::encode_to<cthash::encoding::%s>, out); }\n' % (e, e, e)
            text += 'H_ENTRY std::size_t h_size_%s(const V * v) { return (*v | cthash::encode_to<cthash::encoding::%s>).size(); }\n' % (e, e)
            text += 'H_ENTRY void h_fixed_%s(const V * v, char * out) { auto f = to_fixed_string<cthash::encoding::%s>(*v); for (char x: f) *out++ = x; }\n' % (e, e)
        jobs.append(walk('value_' + n, text))
    for e in h.ENCODINGS:
        jobs.append(walk('enc_' + e, h.ENC_PRE + h.encoders(e, e, 'bcus')))
    for eb, el in WIDTHS:
        text = h.ENC_PRE
        for b in (3, 5, 8, 12) if c.quick else range(1, 33):
            if math.lcm(b, eb) <= 64 and not b == math.lcm(b, eb) >= 32:
                for pad in (0, 1):
                    text += ('H_ENTRY void h_w%d_%d(const %s * p, std::size_t n, unsigned long long * out) { auto v = std::span<const %s>(p, n) | cthash::chunk_of_bits<%d, %s>; out[0] = v.size(); chunks<1>(v, out + 1); }\n'
                             % (b, pad, el, el, b, 'true' if pad else 'false'))
        jobs.append(walk('chunks_' + el.replace(' ', '_').replace(':', ''), text))
    c.run(jobs)


@prop
def c14(c):
    c.rule = ('Every memory access, assertion, shift and arithmetic operation on the analysed paths (updates of every form from every kind of hasher state, final, squeeze, copies) is an '
              'obligation: inside its object, initialised, not failing. Accesses at symbolic offsets are decided by the size domain, for all sizes at once.')
    c.assumptions = [BOUND]

    def text(alg):
        return h.form_entries(alg, h.input_forms(alg, True))[0]

    def opts(alg):
        return dict(forms=','.join(['b'] + h.form_entries(alg, h.input_forms(alg, True))[1]), **grid(c, alg, 4))
    hashers(c, ALL, 'stream', opts, pre=h.FORMS_PRE, text=text, common=dict(aspect='safety', size=0),
            kernel=lambda a: dict(max=2 * h.block(a) + 1, step=11 if c.quick else 1))

    def squeeze(alg):
        def f():
            B = h.block(alg)
            bc = c.compile('sq_' + alg, h.PRE + h.streams(alg, alg))
            r = c.cta('squeeze', bc, alg, alg, aspect='safety', lens=','.join(map(str, list(range(0, 3 * B + 2, 1)) + [4097, 65537])), ustep=B - 1)
            c.merge(r, 'squeeze') if r else c.open('%s: squeeze: no answer' % alg)
        return f
    c.run([squeeze(a) for a in h.SHAKE] + [encode(c, e, 'text', 'b' if c.quick else 'bcus', label='encoded: ', aspect='safety') for e in h.ENCODINGS]
          + [chunks(c, eb, el, part, label='chunks: ', aspect='safety') for eb, el in WIDTHS if not c.quick or el in ('std::byte', 'unsigned int') for part in range(3)])


@prop
def c23(c):
    c.rule = ('The same sources are compiled to IR for big-endian targets (target description only, nothing is linked or run) and analysed with the target\'s byte order against the '
              'same reference as on the little-endian host: kernels with nothing summarised, states and updates with symbolic sizes.')
    c.assumptions = [BOUND, 'the C and C++ standard headers of the host stand in for those of the target']
    targets = ['powerpc64-linux-gnu'] + ([] if c.quick else ['s390x-linux-gnu', 'aarch64_be-linux-gnu', 'mips64-linux-gnu'])
    for t in targets:
        hashers(c, ALL, 'stream', lambda alg: dict(forms='b,c,w', **grid(c, alg)), forms=('b', 'c', 'w'), label=t.split('-')[0] + ': ', extra=c.target(t),
                kernel=lambda a: dict(max=2 * h.block(a) + 1, step=7 if c.quick else 1, anchors=1))
        l = t.split('-')[0] + ': '
        c.run([encode(c, e, 'text', 'b', label=l, extra=c.target(t)) for e in h.ENCODINGS if not c.quick or e in ('base16', 'base32', 'base64')])


@prop
def c25(c):
    c.rule = ('simple<H>() and, for xxHash, update_and_final() are analysed as one call on a message of block*M + r bytes, M, content and seed symbolic, every r, through every form of '
              'input: the result is the reference digest of exactly the content.')
    c.assumptions = [BOUND]

    def one(alg):
        def f():
            e, names = h.form_entries(alg, h.input_forms(alg, c.quick), oneshot=True, native=True)
            bc = c.compile(alg, h.FORMS_PRE + h.streams(alg, alg) + e)
            r = c.cta('oneshot', bc, alg, alg, relative=1, forms=','.join(names))
            c.count('functions analysed', len(names))
            if r:
                c.merge(r, '')
            if not r or r['unproved']:
                if not r:
                    c.open('%s: no answer' % alg)
                B = h.block(alg)
                for n in names:
                    if ':' in n:
                        continue
                    # bounded: concrete sizes
                    k = c.cta('oneshot', bc, alg, alg, timeout=100, relative=1, conc=','.join(map(str, (0, 1, B // 2, B - 1, B, B + 1, 2 * B, 3 * B + 7))), forms=n)
                    if k:
                        c.merge(k, 'bounded')
        return f
    c.run([one(a) for a in ALL if a not in h.SHAKE])


@prop
def c26(c):
    c.rule = ('Every branch, switch, loop condition, memory address and copy size on every analysed path is an obligation: its abstract value, with all message bytes and the seed symbolic, '
              'does not depend on them. Paths: whole digests with nothing summarised, and updates and final from every kind of hasher state at symbolic sizes, in each byte type.')
    c.assumptions = [BOUND, 'the compiler does not turn data selection into branches (source-level statement)']
    hashers(c, ALL, 'stream', lambda alg: dict(forms='b,c,u,s,w', **grid(c, alg)), forms=('b', 'c', 'u', 's', 'w'), common=dict(aspect='content'),
            kernel=lambda a: dict(max=2 * h.block(a) + 1, step=7 if c.quick else 1))


@prop
def c12(c):
    c.rule = ('On every reachable hasher state, the copy and move constructors are analysed: the copy holds the same abstract state (so it behaves the same), '
              'no byte of it is an address, and what it holds depends on nothing outside the source; final() and updates of the copy are those of the state.')
    c.assumptions = [BOUND]
    hashers(c, h.SHA2 + ['sha512t_224', 'sha512t_256'] + h.SHA3 + h.SHAKE + h.XXH, 'states', dict(copy=1, digest=1), common=dict(relative=1))


@prop
def c27(c):
    c.rule = ('On every reachable hasher state, size() is analysed: it returns the number of bytes absorbed (block*M + u, M symbolic) and writes nothing; '
              'update() is shown to keep this over every pending count and every size.')
    c.assumptions = [BOUND]

    def opts(alg):
        return dict(size=1, ustep=11, rstep=13) if c.quick else dict(size=1)
    hashers(c, h.SHA2 + ['sha512t_224', 'sha512t_256'], 'stream', opts, common=dict(relative=1))


@prop
def c15(c):
    c.rule = ('Iterating the encoded view of block*M + r elements, M symbolic and every r, with symbolic content: the n-th character written is the one the encoding (RFC 4648, z-base-32, '
              'positional notation) defines; a loop invariant is inferred and re-checked, each character compared over every value of the bytes it depends on.')
    c.assumptions = ['inputs below 2^40 elements']
    c.run([encode(c, e, 'text', 'bcus') for e in h.ENCODINGS])


@prop
def c16(c):
    c.rule = ('size() and the number of steps from begin() to end() of the same view are analysed together, for block*M + r elements, M symbolic, every r: they are the same term.')
    c.assumptions = ['inputs below 2^40 elements']
    c.run([encode(c, e, 'count', 'bcus') for e in h.ENCODINGS])


@prop
def c29(c):
    c.rule = ('Iterating chunk_of_bits over block*M + r elements, M symbolic and every r, with symbolic content: the n-th value is exactly the next bits of the elements, most significant first, '
              'its missing bits are those behind the last element, and as many chunks come as have bits (up to a whole block with padding). Every width the buffer supports, every kind of element.')
    c.assumptions = ['inputs below 2^40 elements', 'widths whose block (the least common multiple with the element width) has at most 64 bits and more than one chunk when it has 32 or more: others do not compile']
    c.run([chunks(c, eb, el, part, size='size') for eb, el in WIDTHS for part in range(3)])


def func(c, what, name, text, items, extra=(), inc=None):
    """Analyses small functions: items are 'entry:parameters...'"""
    def f():
        bc = c.compile(name, text, extra=extra, inc=inc)
        c.count('functions analysed', len(items))
        r = c.cta('func', bc, 'xxh32', name, what=what, items=','.join(items))
        if r:
            c.merge(r, '')
        else:
            c.open('%s: no answer' % name)
    return f


def witness(c, name, text, good, what, cxx=lib.CLANG, std='c++23', extra=()):
    """A witness program: the type checker accepts it (good) or rejects it."""
    def f():
        ok, err = c.syntax(name, text, cxx=cxx, std=std, extra=extra)
        c.oblig(ok == good, what + ((': ' + err) if good else ': is accepted'))
    return f


@prop
def c20(c):
    c.rule = ('Every comparison operator of every digest type is analysed with both digests symbolic: each path (conditions on pairs of bytes, result) is enumerated, the conditions of a pair '
              'as a table over its 65536 values; the result is the one of the first pair that differs, unsigned, or of equality when none does.')
    jobs = []
    for n, (t, k, *_) in h.values(c.quick).items():
        text = h.VAL_PRE + 'using V = %s;\n' % t + ''.join('H_ENTRY int h_%s_%s(const V * a, const V * b) { %s }\n' % (n, o, b) for o, b in h.OPS.items())
        jobs.append(func(c, 'order', n, text, ['%s:%s:%d:%d' % (o, o, k, k) for o in h.OPS]))
    lens = [1, 2, 8, 16, 32, 33, 64] if c.quick else [1, 2, 3, 4, 7, 8, 16, 17, 20, 28, 31, 32, 33, 48, 64, 65, 100, 128, 200]
    for a in h.SHAKE:
        for n1 in lens:
            text, items = h.VAL_PRE, []
            for n2 in lens:
                if n1 == n2:
                    continue
                for o, b in h.OPS.items():
                    fn = '%s_%d' % (o, n2)
                    text += 'H_ENTRY int h_%s_%d_%s(const cthash::%s_value<%d> * a, const cthash::%s_value<%d> * b) { %s }\n' % (a, n1, fn, a, 8 * n1, a, 8 * n2, b)
                    items.append('%s:%s:%d:%d' % (fn, o, n1, n2))
            jobs.append(func(c, 'order', '%s_%d' % (a, n1), text, items))
    c.run(jobs)


@prop
def c28(c):
    c.rule = ('prefix<K>() and suffix<K>() are analysed for every K up to the length of the digest, with symbolic content: byte i of the result is that byte of the digest; '
              'a larger K is rejected by the type checker (a constraint, checked by a static assertion).')
    jobs = []
    for n, (t, k, *_) in h.values(c.quick).items():
        text, items, st = h.VAL_PRE + 'using V = %s;\n' % t, [], '#include <cthash/cthash.hpp>\nusing V = %s;\n' % t
        for j in range(0, k + 1):
            for fn, off in (('prefix', 0), ('suffix', k - j)):
                text += 'H_ENTRY void h_%s_%s%d(const V * v, void * o) { ::new (o) auto(v->%s<%d>()); }\n' % (n, fn, j, fn, j)
                if j:
                    items.append('%s%d:%d:%d:%d' % (fn, j, k, off, j))
        for fn in ('prefix', 'suffix'):
            st += 'template <class T, std::size_t K> concept has_%s = requires(const T & v) { v.template %s<K>(); };\nstatic_assert(has_%s<V, %d>);\n' % (fn, fn, fn, k)
            st += ''.join('static_assert(!has_%s<V, %d>);\n' % (fn, j) for j in (k + 1, k + 2, 2 * k + 1, 4096))
            st += ''.join('static_assert(std::size(decltype(std::declval<const V &>().%s<%d>()){}) == %d);\n' % (fn, j, j) for j in range(1, k + 1))
        jobs.append(func(c, 'copy', n, text, items))
        jobs.append(witness(c, 'w_' + n, st, True, '%s: prefix and suffix have K bytes and exist exactly for K <= %d' % (t, k)))
    c.run(jobs)


CHARS = {'char': ('', 1), 'char8_t': ('u8', 1), 'char16_t': ('u', 2), 'char32_t': ('U', 4), 'wchar_t': ('L', 4)}


@prop
def c18(c):
    c.rule = ('The constructors from text (array and fixed_string, every character type) of every digest type are analysed with symbolic text: each byte depends on its own two digits only '
              'and is checked over all 22*22 pairs of digits. Literals are compile-time only: static assertions evaluate every suffix on texts that put every digit at every position. '
              'Wrong lengths must be rejected by the type checker.')
    jobs = []
    D = '0123456789abcdefABCDEF'
    lits = {}
    for n, (t, k, lit, _, _) in h.values(c.quick).items():
        text, items = h.VAL_PRE + 'using V = %s;\n' % t, []
        st = '#include <cthash/cthash.hpp>\n#include <type_traits>\nusing V = %s;\n' % t
        for ch, (_, w) in CHARS.items():
            text += 'H_ENTRY void h_%s_a%s(const %s * p, void * o) { ::new (o) V(reinterpret_cast<const %s (&)[%d]>(*p)); }\n' % (n, ch, ch, ch, 2 * k + 1)
            items.append('a%s:%d:%d' % (ch, k, w))
            if True:
                text += ('H_ENTRY void h_%s_f%s(const %s * p, void * o) { cthash::fixed_string<%s, %d> f(nullptr); for (unsigned i = 0; i != %d; ++i) f[i] = p[i]; ::new (o) V(f); }\n'
                         % (n, ch, ch, ch, 2 * k, 2 * k))
                items.append('f%s:%d:%d' % (ch, k, w))
            for j in (1, 2 * k - 1, 2 * k, 2 * k + 2, 2 * k + 3, 4 * k + 1):
                if j != 2 * k + 1:
                    st += 'static_assert(!std::is_constructible_v<V, const %s (&)[%d]>, "%d characters");\n' % (ch, j, j - 1)
            st += 'static_assert(std::is_constructible_v<V, const %s (&)[%d]>);\n' % (ch, 2 * k + 1)
        jobs.append(func(c, 'hex', n, text, items))
        jobs.append(witness(c, 'w_' + n, st, True, '%s takes text of %d digits only' % (t, 2 * k)))
        if lit:
            lits.setdefault(lit, []).append((t, k))
    for lit, ts in lits.items():
        st = '#include <cthash/cthash.hpp>\n#include <array>\nusing namespace cthash::literals;\nusing B = unsigned char;\ntemplate <class V, std::size_t N> constexpr bool same(const V & v, const B (&b)[N]) { if (v.size() != N) return false; for (std::size_t i = 0; i != N; ++i) if (static_cast<B>(v[i]) != b[i]) return false; return true; }\n'
        for t, k in ts:
            for rot in range(22):
                txt = ''.join(D[(rot + i + (i // 22) * 5) % 22] for i in range(2 * k))
                b = ','.join('0x' + txt[2 * i:2 * i + 2] for i in range(k))
                pres = [x[0] for x in CHARS.values()] if rot == 0 else ['']
                for pre in pres:
                    st += 'static_assert(same(%s"%s"%s, {%s}));\n' % (pre, txt, lit, b)
        jobs.append(witness(c, 'l' + lit, st, True, '%s gives the bytes spelled' % lit))
        var = lit in ('_hash', '_shake128', '_shake256')
        k = ts[-1][1]
        for j in ((1, 2 * k - 1, 2 * k + 1) if var else (0, 1, 2 * k - 2, 2 * k - 1, 2 * k + 1, 2 * k + 2, 4 * k)):
            t = '#include <cthash/cthash.hpp>\nusing namespace cthash::literals;\nauto v = "%s"%s;\n' % ('1' * j, lit)
            jobs.append(witness(c, 'n%s_%d' % (lit, j), t, False, '"..."%s with %d digits' % (lit, j)))
    c.run(jobs)


NAMES = [('base64', 'base64'), ('base64_no_padding', 'base64_no_padding'), ('base64url', 'base64url'), ('base64_url', 'base64url'), ('base32', 'base32'), ('base32_no_padding', 'base32_no_padding'),
         ('z_base32', 'z_base32'), ('zbase32', 'z_base32'), ('base16', 'base16'), ('hexdec', 'base16'), ('BASE16', 'base16_uppercase'), ('HEXDEC', 'base16_uppercase'), ('base8', 'base8'), ('octal', 'base8'),
         ('base4', 'base4'), ('base2', 'base2'), ('binary', 'base2')]
IDS = {e: i for i, e in enumerate(h.ENCODINGS)}


@prop
def c17(c):
    c.rule = ('Lookup by name is analysed for every length, all characters symbolic: the conditions each path puts on characters are enumerated as sets, so a path describes exactly a set of texts. A path that '
              'yields an encoding must describe exactly one documented name of it, a path that throws std::invalid_argument none of them. For names inside a format context the name ends at the first }.')
    c.assumptions = ['inside a format context: names of up to the lengths listed']
    longest = max(len(n) for n, _ in NAMES)
    pre = h.ENC_PRE + ''.join('template <> [[maybe_unused]] constexpr int id_of<cthash::encoding::%s> = %d;\n' % (e, i) for e, i in IDS.items())
    pre = pre.replace('#define H_ENTRY', 'template <class E> constexpr int id_of = -3;\n#define H_ENTRY', 1)
    pre += 'static inline int id(const cthash::runtime_encoding & e) { return e.visit([]<class E>(const E &) { return id_of<E>; }); }\n'
    known = ','.join('%s=%d' % (n, IDS[e]) for n, e in NAMES)

    def run(label, text, fs, default=-1):
        def f():
            bc = c.compile(label, pre + text)
            r = c.cta('func', bc, 'xxh32', label, what='name', items=','.join(fs), known=known, default=default)
            c.count('functions analysed', len(fs))
            c.merge(r, '') if r else c.open(label + ': no answer')
        return f
    top = 2 * longest if c.quick else 78
    jobs = [run('text', 'H_ENTRY int h_text_rt(const char * p, std::size_t n) { return id(cthash::runtime_encoding(std::string_view(p, n))); }\n',
                ['rt:plain:%d' % n for n in range(0, 41)] + ['rt:plain:41+'])]
    for d in h.ENCODINGS if not c.quick else ('base16', 'base64', 'z_base32'):
        t = ('H_ENTRY int h_ctx_%s_sel(const char * p, std::size_t n, std::size_t * at) { const std::string_view v(p, n); auto r = cthash::select_runtime_encoding<cthash::encoding::%s>(v); *at = std::size_t(r.iterator - v.begin()); return id(r.encoding); }\n' % (d, d))
        jobs.append(run('ctx_' + d, t, ['sel:until:%d' % n for n in range(0, top + 1)], IDS[d]))
    for n, v in {'hash_value': 'cthash::hash_value<4>', 'tagged': 'cthash::sha256_value'}.items():
        t = ('#include <format>\nH_ENTRY int h_fmt_%s_parse(const char * p, std::size_t n, std::size_t * at) { std::formatter<%s, char> f; std::basic_format_parse_context<char> c(std::string_view(p, n)); auto it = f.parse(c); *at = std::size_t(it - c.begin()); return 0; }\n' % (n, v))
        jobs.append(run('fmt_' + n, t, ['parse:until:%d:pos' % n for n in range(0, min(top, longest + 5) + 1)], IDS['base16']))
    for ch, w in (('wchar_t', 4), ('char16_t', 2), ('char8_t', 1), ('char32_t', 4)):
        if ch == 'wchar_t':
            t = ('#include <format>\nH_ENTRY int h_fmt_%s_parse(const %s * p, std::size_t n, std::size_t * at) { std::formatter<cthash::sha256_value, %s> f; std::basic_format_parse_context<%s> c(std::basic_string_view<%s>(p, n)); '
                 'auto it = f.parse(c); *at = std::size_t(it - c.begin()); return 0; }\n' % (ch, ch, ch, ch, ch))
            jobs.append(run('fmt_' + ch, t, ['parse:until:%d:pos:%d' % (n, w) for n in range(0, min(top, longest + 5) + 1)], IDS['base16']))
        t = ('H_ENTRY int h_ctx_%s_sel(const %s * p, std::size_t n, std::size_t * at) { const std::basic_string_view<%s> v(p, n); auto r = cthash::select_runtime_encoding<cthash::encoding::base16>(v); '
             '*at = std::size_t(r.iterator - v.begin()); return id(r.encoding); }\n' % (ch, ch, ch))
        jobs.append(run('ctx_' + ch, t, ['sel:until:%d:id:%d' % (n, w) for n in range(0, min(top, longest + 5) + 1)], IDS['base16']))
    c.run(jobs)


ROUTE_PRE = h.VAL_PRE + '''#include <format>
#include <sstream>
using namespace std::literals;
template <class S, class C> static inline std::size_t put(const S & s, C * out) { std::size_t n = 0; for (; n != s.size(); ++n) out[n] = s[n]; return n; }
template <class C> struct format_to { using iterator = C *; C * o; C * out() const { return o; } };
template <class V, class C> static inline std::size_t formatted(const V & v, std::basic_string_view<C> spec, C * out) {
	std::formatter<V, C> f;
	std::basic_format_parse_context<C> pc(spec);
	auto it = f.parse(pc);
	if (it != pc.begin() + (std::ptrdiff_t)spec.size() && *it != C('}')) return 0;
	format_to<C> c{out};
	return std::size_t(f.format(v, c) - out);
}
struct own_tag { static constexpr std::size_t digest_length = 7; using encoding = cthash::encoding::base64; };
struct plain_tag { static constexpr std::size_t digest_length = 5; };
'''


@prop
def c19(c):
    c.rule = ('operator<<, print_into, to_string, to_fixed_string, std::formatter (every documented name) and the encoded views of every digest type are analysed with symbolic content; the standard '
              'stream is modelled at put, write and operator<<. Every character is the one the encoding defines at that position for all values of the bytes it depends on, and there are as many '
              'as the text has. Both ways the library builds strings (std::ranges::to and the fallback) are analysed.')
    c.assumptions = ['the stream has no field width set and takes all output', 'std::basic_format_parse_context of the installed standard library; the format context delivers characters in order']
    codes = ';'.join('%s|%d|%d|%s' % (e, b, p, a) for e, (b, p, a) in h.ENCODINGS.items())
    jobs = []

    def run(name, text, items, std):
        def f():
            bc = c.compile(name, text, std=std, extra=['-D_GLIBCXX_EXTERN_TEMPLATE=0'])
            r = c.cta('func', bc, 'xxh32', name, what='route', codes=codes, items=','.join(items))
            c.count('functions analysed', len(items))
            c.merge(r, std) if r else c.open(name + ': no answer')
        return f
    vs = {n: (v[0], v[1], 'base16') for n, v in h.values(c.quick).items() if n != 'plain_1'}
    vs['own_tag'] = ('cthash::tagged_hash_value<own_tag>', 7, 'base64')
    vs['plain_tag'] = ('cthash::tagged_hash_value<plain_tag>', 5, 'base16')
    for i, (n, (t, k, default)) in enumerate(vs.items()):
        full = n in ('own_tag', 'sha224', 'plain_5', 'shake128_16', 'xxh32') or not c.quick
        for std in ('c++20', 'c++23') if full or i % 2 else ('c++23',):
            N = 'r%s_%s' % (std[-2:], n)
            text, items = ROUTE_PRE + 'using V = %s;\n' % t, []

            def add(fn, enc, w, kind, ch, body):
                nonlocal text
                args = 'const V * v, %s * out' % ch + (', std::basic_ostream<%s> * os' % ch if kind == 'os' else '')
                text += 'H_ENTRY %s h_%s_%s(%s) { %s }\n' % ('void' if kind == 'os' else 'std::size_t', N, fn, args, body)
                items.append('%s:%s:%d:%d:%s' % (fn, enc, k, w, kind))
            for ch, w, l in (('char', 1, ''), ('wchar_t', 4, 'L'), ('char8_t', 1, 'u8'), ('char16_t', 2, 'u'), ('char32_t', 4, 'U')):
                if l not in ('', 'L') and not full:
                    continue
                es = list(h.ENCODINGS) if ch == 'char' and full else ['base16', 'base64', 'base8', 'base32'][:4 if full else 2] if ch == 'char' or full else ['base16']
                for e in es:
                    E = 'cthash::encoding::' + e
                    add('str_%s_%s' % (e, ch), e, w, 'ret', ch, 'return put(to_string<%s, %s>(*v), out);' % (E, ch))
                    add('fix_%s_%s' % (e, ch), e, w, 'ret', ch, 'return put(to_fixed_string<%s, %s>(*v), out);' % (E, ch))
                    add('view_%s_%s' % (e, ch), e, w, 'ret', ch, 'return put((*v | cthash::encode_to<%s, %s>).to_string(), out);' % (E, ch))
                    if l in ('', 'L'):
                        add('into_%s_%s' % (e, ch), e, w, 'os', ch, 'v->template print_into<%s>(*os);' % E)
                        add('vos_%s_%s' % (e, ch), e, w, 'os', ch, '*os << (*v | cthash::encode_to<%s, %s>);' % (E, ch))
                        add('vfmt_%s_%s' % (e, ch), e, w, 'ret', ch, 'return formatted<decltype(*v | cthash::encode_to<%s, %s>), %s>(*v | cthash::encode_to<%s, %s>, %s""sv, out);' % (E, ch, ch, E, ch, l))
                if l in ('', 'L'):
                    add('os_' + ch, default, w, 'os', ch, '*os << *v;')
                    add('osinto_' + ch, default, w, 'os', ch, 'v->print_into(*os);')
                    for j, (spec, e) in enumerate([('', default), ('}', default)] + (NAMES if full or l == '' and i % 3 == 0 else NAMES[i % 5::5])):
                        for tail in ('', '} and more') if j % 4 == 1 else ('',):
                            add('fmt%d_%s_%d' % (j, ch, len(tail)), e, w, 'ret', ch, 'return formatted<V, %s>(*v, %s"%s"sv, out);' % (ch, l, spec + tail))
            add('str', default, 1, 'ret', 'char', 'return put(to_string(*v), out);')
            add('fix', default, 1, 'ret', 'char', 'return put(to_fixed_string(*v), out);')
            jobs.append(run(N, text, items, std))
    c.run(jobs)


@prop
def c24(c):
    c.rule = ('main() of checksum.cpp is analysed with the whole library behind it, for each documented name: a file of any number of bytes (block*M + r, M and content symbolic) gives exactly the hexadecimal '
              'digits of its digest and an end of line on the standard output, and exit status 0; any other name (a symbolic text of each length, and of any longer length), too few arguments and a file '
              'that cannot be opened give no output and another exit status.')
    c.assumptions = [BOUND, 'open, lseek, fstat and mmap succeed on an ordinary file and give its size and content; the clock does not matter', 'the standard stream takes all output']
    names = {}
    for n, a in (('sha-%d', 'sha%d'), ('sha3-%d', 'sha3_%d')):
        for b in (224, 256, 384, 512):
            names[n % b] = (a % b, None)
    for b in (224, 256):
        names['sha-512/%d' % b] = ('sha512t_%d' % b, None)
    for b in (128, 256):
        for n in (32, 64, 128, 256, 512, 1024, 2048):
            names['shake-%d/%d' % (b, n)] = ('shake%d' % b, n // 8)
    for b in (32, 64):
        names['xxhash%d' % b] = ('xxh%d' % b, None)
    src = lib.REPO + '/checksum.cpp'

    def unit(alg):
        return (h.FORMS_PRE + h.streams(alg, alg) + '#include "%s"\n' % src + '''
H_ENTRY int h_%s_tool(char * name, char * path) { char prog[] = "checksum"; char * argv[4] = {prog, name, path, nullptr}; return main(3, argv); }
H_ENTRY int h_%s_few(int argc, char * name, char * path) { char prog[] = "checksum"; char * argv[4] = {argc > 0 ? prog : nullptr, argc > 1 ? name : nullptr, nullptr, nullptr}; return main(argc, argv); }
''' % (alg, alg))

    def run(alg, mine):
        def f():
            bc = c.compile(alg, unit(alg))
            B = h.block(alg)
            rs = sorted({0, 1, B - 9, B - 1} if c.quick else set(range(0, B)))
            for n in mine:
                k = names[n][1]
                items = ['%s;%d' % (n, r) for r in rs] + ['%s;0;0' % n]
                r = c.cta('tool', bc, alg, alg, relative=1, items=','.join(items), **({'len': k} if k else {}))
                c.count('functions analysed', 1)
                c.merge(r, '') if r else c.open(n + ': no answer')
                if not r or r['unproved']:
                    again.append((alg, n, bc))
        return f

    def sizes(alg, n, bc):  # bounded: files of particular sizes
        def f():
            B, k = h.block(alg), names[n][1]
            for group in (['0;%d' % x for x in (0, 1, B // 2, B - 1, B, B + 1, 2 * B, 3 * B + 7)], ['1;0;%d' % (1 << 32)], ['1;0;%d' % (1 << 33)]):
                if not c.violations:
                    r = c.cta('tool', bc, alg, alg, timeout=100, relative=1, items=','.join('%s;%s' % (n, x) for x in group), **({'len': k} if k else {}))
                    if r:
                        c.merge(r, 'bounded')
        return f

    def others():
        bc = c.compile('xxh32_names', unit('xxh32'))
        top = max(map(len, names)) + 1
        items = ['any:%d' % i for i in range(top)] + ['any:%d+' % top, 'few', 'missing']
        r = c.cta('tool', bc, 'xxh32', 'xxh32', items=','.join(items), known=','.join(names))
        c.merge(r, 'names') if r else c.open('names: no answer')
    by = {}
    for n, (a, _) in names.items():
        by.setdefault(a, []).append(n)
    jobs = [others]
    for a, ns in by.items():
        jobs += [run(a, ns[i:i + 4]) for i in range(0, len(ns), 4)]
    again = []
    c.run(jobs)
    if not c.violations:
        c.run([sizes(*x) for x in again])


MIX = '''#include <cthash/cthash.hpp>
#include <type_traits>
#include <concepts>
template <class A, class B> concept eq_ = requires(const A & a, const B & b) { a == b; } || requires(const A & a, const B & b) { a != b; };
template <class A, class B> concept lt_ = requires(const A & a, const B & b) { a < b; } || requires(const A & a, const B & b) { a > b; } || requires(const A & a, const B & b) { a <= b; } || requires(const A & a, const B & b) { a >= b; };
template <class A, class B> concept cmp_ = requires(const A & a, const B & b) { a <=> b; };
template <class A, class B> constexpr bool apart = !std::is_convertible_v<A, B> && !std::is_convertible_v<const A &, B> && !std::is_convertible_v<A &, B &> && !std::is_convertible_v<const A &, const B &>
	&& !std::is_assignable_v<B &, A> && !std::is_assignable_v<B &, const A &> && !eq_<A, B> && !eq_<B, A> && !lt_<A, B> && !lt_<B, A> && !cmp_<A, B> && !cmp_<B, A>;
'''


@prop
def c21(c):
    c.rule = ('Static assertions over every ordered pair of digest types of different algorithms (same size or not): no conversion, no assignment, no comparison operator; over every hasher: '
              'final() returns the value type of its algorithm with its digest length; over every literal suffix: its type is the value type of its algorithm. Two compilers, two language modes.')
    vs = {n: v for n, v in h.values(False).items() if not n.startswith('plain') and (not n.startswith('sha512t') or int(n[8:]) % (64 if c.quick else 16) == 32 or n in ('sha512t_160', 'sha512t_512'))}
    algo = {n: n.rsplit('_', 1)[0] if n.startswith('shake') else n for n in vs}
    jobs = []
    for cxx, std in ((lib.CLANG, 'c++23'), ('g++', 'c++20')) + (() if c.quick else ((lib.CLANG, 'c++20'), ('g++', 'c++23'))):
        for a in vs:
            st = MIX
            for b in vs:
                if algo[a] != algo[b]:
                    st += 'static_assert(apart<%s, %s>, "%s and %s are kept apart");\n' % (vs[a][0], vs[b][0], a, b)
            for b in vs:
                if a == b:
                    st += 'static_assert(eq_<%s, %s> && lt_<%s, %s> && cmp_<%s, %s>);\n' % ((vs[a][0],) * 6)
            t, k, lit, hasher, fin = vs[a]
            st += 'static_assert(%s{}.size() == %d);\n' % (t, k)
            obj = '%s{}' % hasher
            st += ('template <class V, class R> constexpr bool same_digest = std::is_convertible_v<R, V> && !std::is_same_v<R, cthash::hash_value<%d>>;\n' % k)
            st += 'static_assert(std::is_same_v<decltype(%s.%s), %s>, "what final() returns");\n' % (obj, fin, t)
            if lit:
                st += 'using namespace cthash::literals;\nstatic_assert(std::is_same_v<std::remove_cvref_t<decltype("%s"%s)>, %s>, "the type of the literal");\n' % ('00' * k, lit, t)
            jobs.append(witness(c, '%s_%s_%s' % (cxx.replace('+', 'p').replace('/', '_'), std.replace('+', 'p'), a), st, True, '%s (%s, %s)' % (t, cxx.split('/')[-1], std)))
            c.count('pairs of digest types', sum(algo[a] != algo[b] for b in vs))
    c.run(jobs)


USES = {  # header -> what can be done with it alone
    'cthash/sha2/sha224.hpp': ['hash:cthash::sha224'], 'cthash/sha2/sha256.hpp': ['hash:cthash::sha256'], 'cthash/sha2/sha384.hpp': ['hash:cthash::sha384'],
    'cthash/sha2/sha512.hpp': ['hash:cthash::sha512'], 'cthash/sha2/sha512/t.hpp': ['hash:cthash::sha512t<224>', 'hash:cthash::sha512t<160>'],
    'cthash/sha3/sha3-224.hpp': ['hash:cthash::sha3_224'], 'cthash/sha3/sha3-256.hpp': ['hash:cthash::sha3_256'], 'cthash/sha3/sha3-384.hpp': ['hash:cthash::sha3_384'],
    'cthash/sha3/sha3-512.hpp': ['hash:cthash::sha3_512'], 'cthash/sha3/shake128.hpp': ['xof:cthash::shake128'], 'cthash/sha3/shake256.hpp': ['xof:cthash::shake256'],
    'cthash/xxhash.hpp': ['hash:cthash::xxhash32', 'hash:cthash::xxhash64'], 'cthash/value.hpp': ['value'], 'cthash/encoding/base.hpp': ['encode', 'format'], 'cthash/encoding/chunk-of-bits.hpp': ['chunk'],
}
ALLUSES = sorted({u for v in USES.values() for u in v})


def use(u):
    kind, _, t = u.partition(':')
    if kind in ('hash', 'xof'):
        fin = 'final<256>()' if kind == 'xof' else 'final()'
        n = ''.join(x if x.isalnum() else '_' for x in t)
        return ('inline auto use_%s(const unsigned char * p, decltype(sizeof(0)) n) { auto h = %s{}; h.update(std::span<const unsigned char>(p, n)); auto v = h.%s; '
                'auto s = to_string(v); auto f = to_fixed_string<cthash::encoding::base64>(v); return s.size() + f.size() + (v == v) + (v < v); }\n' % (n, t, fin)
                + 'static_assert(%s{}.update("abc").%s == %s{}.update("ab").update("c").%s);\n' % (t, fin, t, fin))
    if kind == 'value':
        return 'using namespace cthash::literals;\nstatic_assert("00ff"_hash < "0100"_hash && "00ff"_hash.prefix<1>() == "00"_hash);\ninline auto use_value() { return to_string("00ff"_hash); }\n'
    if kind == 'format':
        return '#include <format>\n#ifdef __cpp_lib_format\nstatic_assert(std::is_default_constructible_v<std::formatter<decltype(std::string_view{} | cthash::base64_encode), char>>);\n#endif\ninline auto use_format() { return 0; }\n'
    if kind == 'encode':
        return 'inline auto use_encode(std::string_view v) { return (v | cthash::base64_encode).to_string().size() + (v | cthash::base32_encode).size() + (v | cthash::hexdec_encode).to_string().size(); }\n'
    return 'inline auto use_chunk(std::string_view v) { unsigned n = 0; for (auto x: v | cthash::chunk_of_bits<5>) n += x.value; return n; }\n'


@prop
def c22(c):
    c.rule = ('Every header is type-checked as the only include, and used, by two compilers in two language modes; no definition with strong external linkage comes out of including everything '
              '(so any number of translation units can); the single header is analysed with the same analyses as the tree: kernels, streaming on a grid, SHAKE output, encodings, digests.')
    c.assumptions = [BOUND, 'the standard library installed (libstdc++ 13) for both compilers']
    import os
    import re
    modes = [(cxx, std) for cxx in (lib.CLANG, 'g++') for std in ('c++20', 'c++23')]
    heads = []
    for root, _, files in os.walk(h.INC):
        heads += [os.path.relpath(os.path.join(root, f), h.INC) for f in files if f.endswith('.hpp')]
    heads.sort()
    if 'cthash/cthash.hpp' not in heads or 'cthash-single-header.hpp' not in heads:
        raise lib.Broken('the headers are not where they were')
    jobs = []
    for x in heads:
        us = ALLUSES if x in ('cthash/cthash.hpp', 'cthash-single-header.hpp') else USES.get(x, [])
        for cxx, std in modes:
            tag = re.sub(r'\W', '_', '%s_%s_%s' % (x, cxx.split('/')[-1], std))
            text = '#include <%s>\n#include <%s>\n' % (x, x) + ('#include <span>\n#include <string_view>\n' if us else '') + ''.join(map(use, us)) + 'int main() { }\n'
            jobs.append(witness(c, tag, '#include <%s>\n' % x, True, '%s alone (%s, %s)' % (x, cxx.split('/')[-1], std), cxx=cxx, std=std))
            if us:
                jobs.append(witness(c, tag + '_u', text, True, '%s alone, used (%s, %s)' % (x, cxx.split('/')[-1], std), cxx=cxx, std=std))
    # both include orders
    for i, hs in enumerate((heads, heads[::-1])):
        text = ''.join('#include <%s>\n' % x for x in hs if x != 'cthash-single-header.hpp')
        for cxx, std in modes:
            jobs.append(witness(c, 'all%d_%s_%s' % (i, cxx.split('/')[-1].replace('+', 'p'), std.replace('+', 'p')), text, True, 'all headers together', cxx=cxx, std=std))

    def strong(name, text):
        def f():
            for x, l in c.definitions(name, text):
                c.oblig(l != 'external' or x == 'main', '%s: %s is defined with external linkage: including it in two translation units does not link' % (name, x))
        return f
    for x in ('cthash/cthash.hpp', 'cthash-single-header.hpp'):
        jobs.append(strong('odr_' + x.split('/')[-1][:-4].replace('-', '_'), '#include <%s>\n#include <span>\n#include <string_view>\n' % x + ''.join(map(use, ALLUSES))
                           + 'int main() { const void * volatile p; %s }\n' % ' '.join('p = (const void *)&use_%s;' % ''.join(y if y.isalnum() else '_' for y in u.partition(':')[2]) for u in ALLUSES if ':' in u)))
    c.run(jobs)
    # the single header in place of the tree
    inc = os.path.join(c.dir, 'single')
    os.makedirs(os.path.join(inc, 'cthash'), exist_ok=True)
    with open(os.path.join(inc, 'cthash', 'cthash.hpp'), 'w') as f:
        f.write('#include "%s"\n' % os.path.join(h.INC, 'cthash-single-header.hpp'))
    hashers(c, ALL, 'stream', lambda alg: dict(forms='b,c,w', **grid(c, alg)), forms=('b', 'c', 'w'), label='single header: ', inc=inc,
            kernel=lambda a: dict(max=2 * h.block(a) + 1, step=9 if c.quick else 1, anchors=1))
    jobs = [encode(c, e, w, 'b', label='single header: ', inc=inc) for e in h.ENCODINGS for w in ('text', 'count')]
    for n, (t, k, *_) in h.values(c.quick).items():
        text = h.VAL_PRE + 'using V = %s;\n' % t + ''.join('H_ENTRY int h_%s_%s(const V * a, const V * b) { %s }\n' % (n, o, b) for o, b in h.OPS.items())
        jobs.append(func(c, 'order', 's_' + n, text.replace('h_%s_' % n, 'h_s_%s_' % n), ['%s:%s:%d:%d' % (o, o, k, k) for o in h.OPS], inc=inc))
        text = h.VAL_PRE + 'using V = %s;\n' % t + 'H_ENTRY void h_t_%s_hex(const char * p, void * o) { ::new (o) V(reinterpret_cast<const char (&)[%d]>(*p)); }\n' % (n, 2 * k + 1)
        jobs.append(func(c, 'hex', 't_' + n, text, ['hex:%d:1' % k], inc=inc))

    def squeeze(alg):
        def f():
            B = h.block(alg)
            bc = c.compile('single header: sq_' + alg, h.PRE + h.streams(alg, alg), inc=inc)
            r = c.cta('squeeze', bc, alg, alg, lens=','.join(map(str, list(range(0, 2 * B + 2, 1)) + [4097])), ustep=B - 1)
            c.merge(r, 'single header: squeeze') if r else c.open('%s: squeeze: no answer' % alg)
        return f
    c.run(jobs + [squeeze(a) for a in h.SHAKE])


if __name__ == '__main__':
    sys.exit(lib.main(TABLE))
