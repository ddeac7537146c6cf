AI = 'abstract interpretation of LLVM IR over value-numbered terms, with inferred and re-checked loop invariants'
TR = (' Trusts clang\'s translation of C++ to IR, the analyser and its reference definitions; nothing is executed and no solver is used. '
      'Constructs the analysis cannot follow are reported as undecided in the evidence and looked at with concrete sizes.')
INFO = {
    'C01': (AI, 'proof', 'Whole digests of symbolic content equal the FIPS 180-4 reference as normal forms for every length to two blocks and one byte; per-block functions proved equal to the reference; every length block*M + r, M symbolic.' + TR),
    'C02': (AI + ' (induction over updates)', 'proof', 'Inductive over updates: every reachable (blocks, pending) state and every update size class. Quick analyses a grid of pairs (all boundary pairs included), thorough all of them.' + TR),
    'C04': (AI, 'proof', 'As C01, against FIPS 202.' + TR),
    'C05': (AI + ' (induction over updates)', 'proof', 'As C02, for SHA-3 and SHAKE.' + TR),
    'C07': (AI, 'proof', 'As C01, against the xxHash specification, seed symbolic.' + TR),
    'C08': (AI + ' (induction over updates)', 'proof', 'Every pending count and size class, seed symbolic.' + TR),
    'C09': (AI + ' (frame condition of final)', 'proof', 'final() leaves every byte of every reachable hasher state as it was, or leaves a state that behaves the same.' + TR),
    'C12': (AI + ' (points-to of object fields)', 'proof', 'Copy and move of every reachable hasher state: same abstract state, no addresses stored in the object.' + TR),
    'C27': (AI, 'proof', 'size() of every reachable state is the number of bytes absorbed.' + TR),
    'C03': (AI + '; compile-fail witnesses for unsupported t', 'proof', 'All 63 supported t: initial value, compression and truncation against the generation function of FIPS 180-4 5.3.6; 18 unsupported t rejected by the type checker.' + TR),
    'C06': (AI, 'proof', 'Universal in the message; output lengths: every one up to several rates and selected long ones (concrete lengths, hence bounded in that dimension).' + TR),
    'C10': (AI + ' of the constant-evaluation branches; compile-time witnesses', 'proof', 'The code reached in constant evaluation is analysed like the run-time code against the same reference; a type-checked witness shows it is usable in constant expressions.' + TR),
    'C11': (AI, 'proof', 'Every overload and byte type, fixed sizes sampled, dynamic sizes symbolic, on a grid of pending counts and size classes.' + TR),
    'C13': ('effect analysis: call-graph walk over the compiler\'s IR (allocation, static and thread-local objects, throws, atomics, output, unknown externals)', 'proof', 'Every function reachable from the public hashing, comparing, selecting, parsing and encoding entry points, every byte type and form of input; flow-insensitive except for branches on constants and blocks that only report a failed assertion.' + TR),
    'C17': (AI + ' (paths described as sets of texts; exceptions as path ends)', 'proof', 'Every text of every length for lookup by std::string_view; inside format contexts every text up to twice the longest name (quick) or 78 characters (thorough), char, char8_t, char16_t, char32_t and wchar_t (for the wide ones the upper bytes are represented by seven values).' + TR),
    'C14': (AI + ' (memory-safety, initialisation and assertion obligations)', 'proof', 'Obligations at every access, assertion and shift on all analysed paths; sizes symbolic.' + TR),
    'C23': (AI + ' of the IR for a big-endian target', 'proof', 'powerpc64 in quick; s390x, aarch64_be and mips64 as well in thorough.' + TR),
    'C24': (AI + ' (main() with the library behind it; names described as sets of texts)', 'proof', 'Every documented name with files of every number of bytes in sampled rests modulo the block (all rests in thorough), all content; every other name of any length is refused; system calls are modelled as succeeding on an ordinary file.' + TR),
    'C25': (AI, 'proof', 'One-call digests through every form of input, all sizes block*M + r.' + TR),
    'C26': (AI + ' (dependence of branches and addresses on content)', 'proof', 'Every branch condition, address and copy size on the analysed paths is free of message bytes and seed. About the source level: what an optimiser makes of it is out of reach.' + TR),
    'C15': (AI, 'proof', 'Every character of the text of every input length (M whole blocks and every rest), all content, over four element types and both ways of stepping.' + TR),
    'C16': (AI, 'proof', 'size() and the number of steps of an iteration are the same term, for every length.' + TR),
    'C29': (AI, 'proof', 'Every chunk of every input length for each width the buffer supports (154 pairs with padding and without in quick; more element types in thorough).' + TR),
    'C18': (AI + '; compile-time witnesses for literals, compile-fail witnesses for wrong lengths', 'proof', 'Constructors: every text (each byte over all pairs of digits), every character type. Literals take their text as a template parameter, so they are evaluated by the type checker on texts that place every digit at every position.' + TR),
    'C20': (AI + ' (path conditions enumerated as tables over pairs of bytes)', 'proof', 'Every operator of every digest type, all contents; SHAKE values over a grid of pairs of lengths (larger in thorough).' + TR),
    'C19': (AI + ' (standard streams modelled at put, write and operator<<)', 'proof', 'Every route from a digest to text, narrow and wide, every encoding and every documented format name, all contents; digest types: all fixed ones, sampled lengths of SHAKE and plain values. A field width set on the stream is not modelled.' + TR),
    'C21': ('type-level witnesses (static assertions over every pair of types, two compilers)', 'proof', 'A property of types: decided by the type checkers of clang and gcc for the listed types (all fixed ones; sampled t and SHAKE lengths).'),
    'C22': ('compile matrix; linkage of definitions in the IR; ' + AI + ' of the single header', 'proof', 'Every header in four compiler and mode combinations; the single header under kernels, streaming, squeezing, encoding, comparison and text analyses.' + TR),
    'C28': (AI + '; type-level witnesses for the bound', 'proof', 'Every N for every digest length, all contents.' + TR),
}
NA = {
    'C30': 'Quantifies over the computational effort of an adversary: no static argument about this code settles the hardness of the hash functions themselves.',
    'C31': 'Quantifies over the state of the file system and over what the operating system does (fstat sizes, mmap failures, truncation while mapped), none of which is in the source; the part that is in the source is covered by C24.',
}
