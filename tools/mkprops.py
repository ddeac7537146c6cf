#!/usr/bin/env python3
# Writes properties.jsonl (one place to edit them).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
I = "include/cthash/"
H, S2 = I+"hasher.hpp", I+"sha2/"
p("C01", "SHA-224/256/384/512 digests conform to FIPS 180-4",
  "For every message (any content, any byte length from zero up) the digest SHA-224, SHA-256, SHA-384 and SHA-512 return for it is the one FIPS 180-4 defines: right initial value, message schedule, round function, feed-forward, padding, big-endian bit length and truncation.",
  ["inputs"], "every message of every length (up to 2^50 bytes) and every content",
  "Digest equality quantifies over all contents and lengths; the tests compare a handful of literal messages, most of them one or two blocks long.",
  [H, S2+"common.hpp", S2+"sha224.hpp", S2+"sha256.hpp", S2+"sha384.hpp", S2+"sha512.hpp", I+"internal/convert.hpp"],
  [("build_staging / rounds", H+", sha2/common.hpp"), ("finalize_buffer, finalize_buffer_by_writing_length, finalize", H), ("write_result_into", H)],
  [("hash", "chaining value", H), ("total_length", "message length in bytes", H), ("block, block_used", "pending bytes", H)], ["hasher::final", "hasher::update"])
p("C02", "SHA-2 streaming: the split of a message into updates never matters",
  "Feeding a message to any SHA-2 hasher (SHA-512/t included) in any number of update calls of any sizes, empty ones included, gives the same digest as feeding it at once: every byte is absorbed exactly once and in order, whatever was already pending.",
  ["inputs", "histories"], "every sequence of update calls, every chunk length (up to 2^50 bytes), every pending-byte count",
  "The pairs (bytes pending, bytes added) and the sequences of updates are unbounded; the tests try a few fixed splits.",
  [H], [("update_to_buffer_and_process", H), ("byte_copy", I+"internal/convert.hpp")],
  [("block_used", "pending bytes in block", H), ("total_length", "bytes absorbed", H)], ["hasher::update", "hasher::final"])
p("C03", "SHA-512/t uses the FIPS 180-4 initial value and length for every t",
  "For every supported t (a multiple of 8, non-zero, at most 512 and not 384) the digest of SHA-512/t is the leftmost t bits of SHA-512 run from the initial value FIPS 180-4 section 5.3.6 generates from the text \"SHA-512/t\"; an unsupported t is rejected at compile time.",
  ["configurations", "inputs"], "all 63 admissible values of t, every message; every inadmissible t up to 600",
  "The tests instantiate two or three values of t; the generator works on the decimal digits of t, and truncation takes another code path when t is not a multiple of 64.",
  [S2+"sha512/t.hpp", H], [("generate_signature, calculate_sha512t_iv", S2+"sha512/t.hpp"), ("write_result_into (unaligned)", H)], None, ["sha512t<T>::final"])
p("C04", "SHA3-224/256/384/512 digests conform to FIPS 202",
  "For every message the digest SHA3-224, SHA3-256, SHA3-384 and SHA3-512 return is the one FIPS 202 defines: Keccak-f[1600] with 24 rounds, the rate and capacity of the variant, the 01 domain suffix, the 10*1 padding (also when only one byte of the block is free) and little-endian lanes.",
  ["inputs"], "every message of every length (up to 2^50 bytes) and every content",
  "Digest equality quantifies over all contents and lengths; the tests compare a few literal messages.",
  [I+"sha3/keccak.hpp", I+"sha3/common.hpp", I+"sha3/sha3-224.hpp", I+"sha3/sha3-256.hpp", I+"sha3/sha3-384.hpp", I+"sha3/sha3-512.hpp"],
  [("keccak_f", I+"sha3/keccak.hpp"), ("xor_padding_block, final_absorb, squeeze", I+"sha3/common.hpp")],
  [("internal_state", "sponge lanes", I+"sha3/common.hpp"), ("position", "bytes absorbed into the current block", I+"sha3/common.hpp")], ["keccak_hasher::final"])
p("C05", "SHA-3 and SHAKE streaming: the split into updates never matters",
  "Feeding a message to any SHA-3 or SHAKE hasher in any number of update calls of any sizes, empty ones included, gives the same digest as feeding it at once: every byte is absorbed exactly once, in order, at its place in the block.",
  ["inputs", "histories"], "every sequence of update calls, every chunk length (up to 2^50 bytes), every position in the block",
  "The pairs (position, chunk length) and the sequences are unbounded, and each rate has its own arithmetic; the tests try a few splits.",
  [I+"sha3/common.hpp"], [("update, xor_overwrite_block", I+"sha3/common.hpp")], [("position", "bytes absorbed into the current block", I+"sha3/common.hpp")], ["keccak_hasher::update"])
p("C06", "SHAKE128/256 output conforms to FIPS 202 for every output length",
  "For every message and every requested output length the output of SHAKE128 and SHAKE256 is the prefix of that length of the one infinite FIPS 202 output stream (1111 suffix, rate 168 or 136, a further permutation after every full block of output), so a shorter output is a prefix of a longer one.",
  ["inputs", "configurations"], "every message, every output length in bytes",
  "Output lengths are a template parameter; the tests use a few, and few of them pass the first block of output or end inside a lane.",
  [I+"sha3/common.hpp", I+"sha3/shake128.hpp", I+"sha3/shake256.hpp"], [("squeeze", I+"sha3/common.hpp"), ("suffix, rate_bit", I+"sha3/shake128.hpp")], None, ["keccak_hasher::final<N>"])
p("C07", "xxHash32/64 digests conform to the xxHash specification",
  "For every message and every seed, the digest XXH32 and XXH64 return (through update and final, or in one call) is the one the xxHash specification defines, written as a big-endian number.",
  ["inputs"], "every seed, every message of every length (up to 2^50 bytes) and every content",
  "The tests compare a few short strings with a few seeds; whole classes of lengths (256 bytes and more, 4 GiB and more) are never reached.",
  [I+"xxhash.hpp"], [("round, convergence, consume_remaining, avalanche", I+"xxhash.hpp"), ("process_blocks, converge_conditionaly, final_from", I+"xxhash.hpp")],
  [("internal_state, seed, length, buffer", "accumulators, seed, bytes seen, pending bytes", I+"xxhash.hpp")], ["xxhash::final", "xxhash::update_and_final"])
p("C08", "xxHash streaming: the split of a message into updates never matters",
  "Feeding a message to an xxHash hasher in any number of update calls of any sizes, empty ones included, gives the same digest as hashing it in one call, for every seed.",
  ["inputs", "histories"], "every sequence of update calls, every chunk length (up to 2^50 bytes), every pending-byte count, every seed",
  "The pairs (bytes pending, bytes added) and the sequences of updates are unbounded; the tests try a few splits of short messages.",
  [I+"xxhash.hpp"], [("update, buffer_usage, process_blocks", I+"xxhash.hpp")], [("buffer, length", "pending bytes, bytes seen", I+"xxhash.hpp")], ["xxhash::update", "xxhash::final"])
p("C09", "Reading an xxHash digest does not disturb the hasher",
  "Asking an xxHash hasher for its digest changes nothing: asking again gives the same digest, and updates made afterwards give the digest of the whole message as if it had not been asked.",
  ["inputs", "histories"], "every reachable hasher state, every interleaving of final with update",
  "It quantifies over every state of the hasher in which a digest can be read.",
  [I+"xxhash.hpp"], [("final, final_from (const)", I+"xxhash.hpp")], [("internal_state, buffer, length", "hasher state", I+"xxhash.hpp")], ["xxhash::final"])
p("C10", "Digests computed at compile time equal the run-time ones",
  "Evaluating any hash in a constant expression gives the same digest as evaluating it at run time, for every message, element type and way of feeding it.",
  ["inputs", "configurations"], "every message, element type and split, for SHA-2, SHA-3, SHAKE and xxHash",
  "The code takes different branches when it is constant-evaluated; the tests evaluate a few ASCII messages on both sides.",
  [I+"internal/convert.hpp", I+"sha3/common.hpp"], [("cast_from_bytes, cast_from_le_bytes (if consteval)", I+"internal/convert.hpp"), ("xor_overwrite_block (is_constant_evaluated)", I+"sha3/common.hpp")], None, ["update / final in constant expressions"])
p("C11", "Every way of passing the same bytes hashes the same bytes",
  "Whatever form the input takes - spans, arrays or containers of std::byte, char, unsigned char, signed char or char8_t, string views, or string literals, whose terminator is not content - exactly the bytes of the content are hashed, with bytes of 0x80 and above unchanged.",
  ["inputs"], "every element type and input form accepted by update, every content and length",
  "The tests feed ASCII text through a few of the overloads.",
  [H, I+"sha3/common.hpp", I+"xxhash.hpp", I+"internal/concepts.hpp"], [("update overloads", H+", "+I+"sha3/common.hpp, "+I+"xxhash.hpp"), ("byte_like, string_literal, convertible_to_byte_span", I+"internal/concepts.hpp")], None, ["update overloads"])
p("C12", "Hashers are self-contained values",
  "Copying a hasher at any point gives an independent hasher that continues from the same state: a hasher never refers to the input it was fed, to another hasher or to itself, and its behaviour depends only on its own content.",
  ["histories"], "every hasher type, every point in its life",
  "It is about all later uses of both copies and of input buffers already gone; tests see only the outputs of particular runs.",
  [H, I+"sha3/common.hpp", I+"xxhash.hpp"], [("defaulted copy and move constructors, plain data members", H)], None, ["copy constructors", "update"])
p("C13", "Hashing and encoding allocate nothing and touch no shared state",
  "Hashing (constructing, updating, finalising), comparing digests and iterating an encoded digest never allocate memory, throw, perform I/O, take locks or write any global, thread-local or static object, so they can be used concurrently on distinct objects.",
  ["inputs", "schedules"], "every call of the public hashing, comparing and encoding API",
  "Absence of an effect on every path cannot be observed by sampling runs.",
  [H, I+"sha3/common.hpp", I+"xxhash.hpp", I+"encoding/base.hpp", I+"encoding/chunk-of-bits.hpp", I+"internal/algorithm.hpp"], [("value types, noexcept members", H)], None, ["public API"])
p("C14", "No out-of-bounds access, undefined value or failing assertion in hashing",
  "For every input and every sequence of updates, hashing reads only the bytes it was given and its own state, writes only its own state and the output, never uses an uninitialised value, and none of the library's assertions ever fails.",
  ["inputs", "histories"], "every sequence of update calls with any chunk lengths, final, every hasher type",
  "Accesses that are out of bounds for some length only, or that read indeterminate bytes, need that length and a tool watching; the tests use few lengths and no sanitizer.",
  [H, I+"sha3/common.hpp", I+"xxhash.hpp", I+"internal/convert.hpp"], [("CTHASH_ASSERT", I+"internal/assert.hpp"), ("spans and subspans", H)], None, ["update", "final"])
p("C15", "Encoded text conforms to the encoding for every input",
  "For every byte sequence and each of the encodings base2, base4, base8, base16, BASE16, base32, base32_no_padding, z_base32, base64, base64_no_padding and base64url, iterating the encoded view yields exactly the text the encoding defines: the input bits from the most significant one, in groups of the encoding's width, the last group filled with zero bits, mapped through its alphabet, and '=' up to a whole block where the encoding pads.",
  ["inputs"], "every content and every length of the input, each encoding",
  "The tests encode a few short texts; the state machine behind the iterator depends on the length modulo its block and on every content.",
  [I+"encoding/base.hpp", I+"encoding/bit-buffer.hpp", I+"encoding/chunk-of-bits.hpp", I+"encoding/encodings.hpp"],
  [("feed_buffer, pad_buffer, saturate_missing_bits", I+"encoding/chunk-of-bits.hpp"), ("push, pop, front, push_zeros_for_padding", I+"encoding/bit-buffer.hpp"), ("alphabets", I+"encoding/encodings.hpp")], None, ["encode_to<...>"])
p("C16", "The announced size of encoded text is the number of characters produced",
  "For every sized input and every encoding, size() of the encoded view equals the number of characters iterating it produces, so text built from size() is never cut short, padded or overrun.",
  ["inputs"], "every input length, each encoding",
  "Size and iteration are computed by unrelated code (a formula and a state machine) which must agree for every length; the tests compare a few.",
  [I+"encoding/chunk-of-bits.hpp", I+"encoding/base.hpp"], [("size", I+"encoding/chunk-of-bits.hpp"), ("operator++, operator==(sentinel)", I+"encoding/chunk-of-bits.hpp")], None, ["encode_to_view::size", "to_string", "to_fixed_string"])
p("C17", "Encoding names select exactly the encoding they name",
  "Looking an encoding up by name succeeds exactly for the documented names and alternative names and yields the encoding of that name; no two encodings share a name, an empty name means the default, and any other text, a known name with characters added or missing included, is rejected with std::invalid_argument.",
  ["inputs"], "every name (any length, any content)",
  "The tests look up each known name and a few unknown ones; rejection quantifies over all other strings.",
  [I+"encoding/encodings.hpp"], [("match_encoding, assign_encoding, select_encoding", I+"encoding/encodings.hpp")], None, ["runtime_encoding", "select_runtime_encoding", "std::formatter::parse"])
p("C18", "Hexadecimal literals become exactly the bytes they spell",
  "A digest built from hexadecimal text (constructor or literal suffix of any algorithm) holds the bytes the text spells, first digit in the high half, upper and lower case alike, for every content; text of the wrong length is rejected at compile time.",
  ["inputs", "programs"], "every hexadecimal text, every digest type and literal suffix",
  "The tests parse a few literals of a few sizes; wrong programs that must not compile cannot be unit tests.",
  [I+"internal/hexdec.hpp", I+"value.hpp"], [("hexdec_to_binary, get_hexdec_table", I+"internal/hexdec.hpp"), ("hash_value constructors, literal operators", I+"value.hpp")], None, ["hash_value(text)", "operator\"\"_sha256 and siblings"])
p("C19", "Printing a digest gives its bytes as text, whatever the route",
  "Streaming a digest, to_string, to_fixed_string and std::format all give the same text: the encoding asked for, or lower-case hexadecimal by default, of all digest bytes in order, so that the text parses back to the same digest.",
  ["inputs", "configurations"], "every digest value and type, every encoding, every route",
  "The routes are separate code; the tests print a few values in a few encodings.",
  [I+"value.hpp", I+"encoding/base.hpp"], [("print_into, to_string, to_fixed_string, formatter", I+"value.hpp")], None, ["operator<<", "to_string", "std::format"])
p("C20", "Digest comparison is exact and lexicographic",
  "Two digests of one type are equal exactly when all their bytes are equal, and order as their unsigned bytes order lexicographically from the first byte on, consistently with equality; SHAKE digests of different lengths compare by their common prefix.",
  ["inputs"], "all pairs of digest values of every type, all pairs of SHAKE lengths",
  "The tests compare a few pairs that differ in one place.",
  [I+"value.hpp", I+"internal/algorithm.hpp", I+"sha3/shake128.hpp", I+"sha3/shake256.hpp"], [("operator==, operator<=>", I+"value.hpp"), ("threeway_compare_of_same_size", I+"internal/algorithm.hpp")], None, ["operator==", "operator<=>"])
p("C21", "Digest types of different algorithms cannot be mixed up",
  "A digest of one algorithm neither converts to, is assigned to, nor compares with a digest of another algorithm, even when the sizes agree; every literal suffix and every final() yields the value type of its own algorithm, with its digest length.",
  ["programs"], "every pair of digest types, every literal suffix, every hasher",
  "A program that must not compile cannot be a unit test, and the pairs are many.",
  [I+"value.hpp", S2+"sha256.hpp", I+"sha3/shake128.hpp", I+"xxhash.hpp"], [("tagged_hash_value", I+"value.hpp"), ("literal operators", S2+"sha256.hpp")], None, ["sha256_value and siblings"])
p("C22", "Every header can be included on its own, and the single header is the library",
  "Every public header compiles when it is the first and only include, in C++20 and C++23 and with GCC and Clang, two translation units may include all of them, and the single-header distribution behaves as the library it was generated from.",
  ["programs", "configurations"], "every header, both language modes, both compilers; the single header under the same obligations as the tree",
  "The tests include a fixed list of headers in a fixed order, in one language mode with one compiler, and never the single header.",
  ["include/cthash-single-header.hpp", I+"cthash.hpp", I+"internal/concepts.hpp"], [("includes", "include/")], None, ["#include <cthash/...>", "#include <cthash-single-header.hpp>"])
p("C23", "Digests and encodings do not depend on the byte order of the machine",
  "On a big-endian target every hash gives the same digest as on a little-endian one for every message and every split into updates.",
  ["configurations", "inputs"], "big-endian targets; every message and split",
  "The tests run on little-endian machines only.",
  [I+"internal/convert.hpp", I+"sha3/common.hpp"], [("std::endian branches", I+"internal/convert.hpp"), ("xor_overwrite_block", I+"sha3/common.hpp")], None, ["update", "final"])
p("C24", "The checksum tool runs the algorithm it was asked for, once, over the file",
  "For each algorithm name the checksum tool documents in its help, it hashes exactly the file content once with that algorithm and output length and prints that digest; any other name is refused without printing a digest.",
  ["inputs"], "every algorithm name the tool accepts or refuses",
  "No test runs the tool.",
  ["checksum.cpp"], [("the comparison chain in main", "checksum.cpp")], None, ["checksum"])
p("C25", "simple() is construct, update and final in one call",
  "cthash::simple<H>(input, args...) returns for every hasher, input form and constructor arguments (the xxHash seed) the digest that constructing H from these arguments, updating it once with the input and finalising it gives.",
  ["inputs"], "every hasher with final(), every content and length, every seed",
  "The tests call it with a few texts.",
  [I+"simple.hpp", I+"xxhash.hpp"], [("simple", I+"simple.hpp"), ("update_and_final", I+"xxhash.hpp")], None, ["simple"])
p("C26", "Hashing neither branches on nor indexes memory by message content",
  "Which instructions hashing executes and which addresses it touches depend only on the lengths passed, never on the values of the message bytes or (for xxHash) of the seed.",
  ["inputs"], "every pair of messages with the same chunk lengths",
  "It relates all pairs of executions; a test sees outputs only.",
  [S2+"common.hpp", I+"sha3/keccak.hpp", I+"xxhash.hpp", H], [("branch-free kernels", S2+"common.hpp")], None, ["update", "final"])
p("C27", "size() reports the number of message bytes absorbed",
  "After any sequence of updates, size() of a SHA-2 hasher is the total number of bytes passed to it, and asking for it changes nothing.",
  ["inputs", "histories"], "every sequence of update calls, every chunk length (up to 2^50 bytes)",
  "The tests ask for the size a few times.",
  [H], [("size, total_length", H)], None, ["hasher::size"])
p("C28", "prefix() and suffix() select the first and last bytes of a digest",
  "For every digest and every N not above its length, prefix<N>() is its first N bytes and suffix<N>() its last N bytes in order; a larger N is rejected at compile time.",
  ["inputs", "programs"], "every digest value, every N",
  "The tests take one prefix and one suffix.",
  [I+"value.hpp"], [("prefix, suffix", I+"value.hpp")], None, ["hash_value::prefix", "hash_value::suffix"])
p("C29", "Chunks of bits of any width cover the input bits exactly",
  "Splitting any range of 8, 16, 32 or 64-bit integers into chunks of any supported width yields the bits of the range from the most significant bit of its first element on, each bit exactly once and in order, with zero bits and a correct count of missing bits only in the last block.",
  ["inputs", "configurations"], "every content, every length, every pair of element width and chunk width",
  "The tests split a few short byte arrays into a few widths.",
  [I+"encoding/chunk-of-bits.hpp", I+"encoding/bit-buffer.hpp"], [("bit_buffer", I+"encoding/bit-buffer.hpp"), ("chunk_of_bits_view::iterator", I+"encoding/chunk-of-bits.hpp")], None, ["chunk_of_bits"])
p("C30", "Hashes cannot be inverted or collided in practice",
  "No feasible computation finds a message for a given SHA-2, SHA-3 or SHAKE digest or two messages with one digest.",
  ["inputs"], "every adversary",
  "It is a hardness assumption about the functions, not a fact about code.",
  [S2+"common.hpp", I+"sha3/keccak.hpp"], [("the standards' functions", S2+"common.hpp")], None, ["final"])
p("C31", "The checksum tool reports unreadable, empty and special files properly",
  "For every path (missing, empty, a directory, a pipe, a file that shrinks while it is read) the checksum tool prints the digest of the content or an error and a non-zero exit status, and never crashes.",
  ["inputs", "fault_sequences"], "every path and every file-system failure",
  "No test runs the tool.",
  ["checksum.cpp"], [("mapped_file", "checksum.cpp")], None, ["checksum"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
