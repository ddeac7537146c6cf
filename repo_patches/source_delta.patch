From 8b802d59a1f4f21ea49f9776e5a7df0d1791b0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 01/14] fix: xxhash::update counts every byte of inputs of 256
 bytes and more

The length was advanced by the low 8 bits of the size only, so the digest of
any single update of 256 or more bytes was wrong.
---
 include/cthash-single-header.hpp | 2 +-
 include/cthash/xxhash.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 1691958..ec3cf05 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -2856,7 +2856,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<uint8_t>(input.size());
+		length += static_cast<value_type>(input.size());
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
diff --git a/include/cthash/xxhash.hpp b/include/cthash/xxhash.hpp
index 6a0db64..7708e16 100644
--- a/include/cthash/xxhash.hpp
+++ b/include/cthash/xxhash.hpp
@@ -162,7 +162,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<uint8_t>(input.size());
+		length += static_cast<value_type>(input.size());
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
-- 
2.43.0


From fc7ea4666a2ea72186b1302e65417c6a60a78b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 02/14] fix: xxhash32 keeps a 64-bit length so inputs of 4 GiB
 and more are not taken for short ones

The length was kept modulo 2^32: an input whose length modulo 2^32 is below 16
skipped the convergence of the lanes, so its digest ignored the data.
---
 include/cthash-single-header.hpp | 6 +++---
 include/cthash/xxhash.hpp        | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index ec3cf05..72aab62 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -2824,7 +2824,7 @@ template <size_t Bits> struct xxhash {
 
 	// members
 	value_type seed{0u};
-	value_type length{0u};
+	uint64_t length{0u};
 	acc_array internal_state{};
 	std::array<std::byte, sizeof(value_type) * 4u> buffer{};
 
@@ -2856,7 +2856,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<value_type>(input.size());
+		length += input.size();
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
@@ -2892,7 +2892,7 @@ template <size_t Bits> struct xxhash {
 	}
 
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
-		length = static_cast<value_type>(input.size());
+		length = input.size();
 		process_blocks(input);
 		tagged_hash_value<tag> output;
 		final_from(input, output);
diff --git a/include/cthash/xxhash.hpp b/include/cthash/xxhash.hpp
index 7708e16..96257c0 100644
--- a/include/cthash/xxhash.hpp
+++ b/include/cthash/xxhash.hpp
@@ -130,7 +130,7 @@ template <size_t Bits> struct xxhash {
 
 	// members
 	value_type seed{0u};
-	value_type length{0u};
+	uint64_t length{0u};
 	acc_array internal_state{};
 	std::array<std::byte, sizeof(value_type) * 4u> buffer{};
 
@@ -162,7 +162,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<value_type>(input.size());
+		length += input.size();
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
@@ -200,7 +200,7 @@ template <size_t Bits> struct xxhash {
 	// TODO: any range with value convertible to byte
 
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
-		length = static_cast<value_type>(input.size());
+		length = input.size();
 		process_blocks(input);
 		tagged_hash_value<tag> output;
 		final_from(input, output);
-- 
2.43.0


From 2ffacae731c46e233ea1e50ef42a88e5c65da78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 03/14] fix: compile-time reads of char and int8_t bytes of
 0x80 and more are not sign-extended

The constant-evaluated branch widened the element type directly, so a digest
computed at compile time from such text differed from the run-time one.
---
 include/cthash-single-header.hpp    | 4 ++--
 include/cthash/internal/convert.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 72aab62..35df277 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -1401,7 +1401,7 @@ template <typename It1, typename It2, typename It3> constexpr auto byte_copy(It1
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<std::byte>(in[Idx])) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
@@ -1417,7 +1417,7 @@ template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_byt
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_le_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << static_cast<T>(Idx * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<std::byte>(in[Idx])) << static_cast<T>(Idx * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
diff --git a/include/cthash/internal/convert.hpp b/include/cthash/internal/convert.hpp
index d75ddcc..16ac33f 100644
--- a/include/cthash/internal/convert.hpp
+++ b/include/cthash/internal/convert.hpp
@@ -18,7 +18,7 @@ template <typename It1, typename It2, typename It3> constexpr auto byte_copy(It1
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<std::byte>(in[Idx])) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
@@ -34,7 +34,7 @@ template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_byt
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_le_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << static_cast<T>(Idx * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<std::byte>(in[Idx])) << static_cast<T>(Idx * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
-- 
2.43.0


From 07b199f0b15dcde9b35d4d3b5f8226add97250df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 04/14] fix: an encoding name with trailing characters after
 the longest known name is rejected

The name was cut at the length of the longest known one before it was compared.
---
 include/cthash-single-header.hpp      | 3 ++-
 include/cthash/encoding/encodings.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 35df277..68ab027 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -762,7 +762,8 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 	}
 
 	// this will copy it into buffer to compare
-	std::array<char, Encoding::longest_name_size> buffer{};
+	// (one more character than any name has, so a longer name is never taken for its prefix)
+	std::array<char, Encoding::longest_name_size + 1u> buffer{};
 	auto out = buffer.begin();
 
 	for (;;) {
diff --git a/include/cthash/encoding/encodings.hpp b/include/cthash/encoding/encodings.hpp
index 37508da..4068886 100644
--- a/include/cthash/encoding/encodings.hpp
+++ b/include/cthash/encoding/encodings.hpp
@@ -174,7 +174,8 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 	}
 
 	// this will copy it into buffer to compare
-	std::array<char, Encoding::longest_name_size> buffer{};
+	// (one more character than any name has, so a longer name is never taken for its prefix)
+	std::array<char, Encoding::longest_name_size + 1u> buffer{};
 	auto out = buffer.begin();
 
 	for (;;) {
-- 
2.43.0


From e5b15aef4ad026689af0e7d1eff14d4e7001ce62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 05/14] fix: the library compiles in C++20 mode again

The fallback of encode_to_view::to_string named a variable which does not exist.
---
 include/cthash/encoding/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cthash/encoding/base.hpp b/include/cthash/encoding/base.hpp
index 745130d..7bdb57b 100644
--- a/include/cthash/encoding/base.hpp
+++ b/include/cthash/encoding/base.hpp
@@ -93,7 +93,7 @@ template <typename Encoding, typename CharT, typename R> struct encode_to_view {
 		auto result = std::basic_string<CharT>{};
 		result.resize(size());
 		auto [i, o] = std::ranges::copy(begin(), end(), result.begin());
-		assert(i == encoded.end());
+		assert(i == end());
 		assert(o == result.end());
 		return result;
 #endif
-- 
2.43.0


From e52f45b7ea45b422b6e46d6104433777baca8ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 06/14] fix: encoding ranges of 32-bit and 64-bit integers does
 not shift by the whole storage width

Pushing an input as wide as the storage shifted the buffer by its full width,
which is undefined; clang produced only zeros.
---
 include/cthash-single-header.hpp       | 6 +++++-
 include/cthash/encoding/bit-buffer.hpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 68ab027..60dfc8a 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -206,7 +206,11 @@ public:
 
 	template <size_t Bits> constexpr void push(select_bit_integer_t<Bits> in) noexcept requires(Bits <= capacity()) {
 		assert(size() <= capacity() - Bits);
-		buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		if constexpr (Bits == sizeof(storage_type) * 8u) {
+			buffer = static_cast<storage_type>(in); // nothing of the previous content stays (and a shift by the whole width is undefined)
+		} else {
+			buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		}
 		bits_available += static_cast<size_type>(Bits);
 	}
 	constexpr void push_empty_bits(size_t count) noexcept {
diff --git a/include/cthash/encoding/bit-buffer.hpp b/include/cthash/encoding/bit-buffer.hpp
index 3f9dab6..6ec4ad5 100644
--- a/include/cthash/encoding/bit-buffer.hpp
+++ b/include/cthash/encoding/bit-buffer.hpp
@@ -69,7 +69,11 @@ public:
 
 	template <size_t Bits> constexpr void push(select_bit_integer_t<Bits> in) noexcept requires(Bits <= capacity()) {
 		assert(size() <= capacity() - Bits);
-		buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		if constexpr (Bits == sizeof(storage_type) * 8u) {
+			buffer = static_cast<storage_type>(in); // nothing of the previous content stays (and a shift by the whole width is undefined)
+		} else {
+			buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		}
 		bits_available += static_cast<size_type>(Bits);
 	}
 	constexpr void push_empty_bits(size_t count) noexcept {
-- 
2.43.0


From 19dffbf9bb045bc1d5d838516099c14606a9e3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 07/14] fix: every header is self-contained

internal/concepts.hpp, internal/convert.hpp and internal/deduce.hpp did not
compile when included first.
---
 include/cthash/internal/concepts.hpp | 3 +++
 include/cthash/internal/convert.hpp  | 3 +++
 include/cthash/internal/deduce.hpp   | 1 +
 3 files changed, 7 insertions(+)

diff --git a/include/cthash/internal/concepts.hpp b/include/cthash/internal/concepts.hpp
index c653670..939797b 100644
--- a/include/cthash/internal/concepts.hpp
+++ b/include/cthash/internal/concepts.hpp
@@ -1,7 +1,10 @@
 #ifndef CTHASH_CONCEPTS_HPP
 #define CTHASH_CONCEPTS_HPP
 
+#include <concepts>
 #include <span>
+#include <cstddef>
+#include <cstdint>
 
 namespace cthash {
 
diff --git a/include/cthash/internal/convert.hpp b/include/cthash/internal/convert.hpp
index 16ac33f..8d634b0 100644
--- a/include/cthash/internal/convert.hpp
+++ b/include/cthash/internal/convert.hpp
@@ -3,8 +3,11 @@
 
 #include "bit.hpp"
 #include "concepts.hpp"
+#include <algorithm>
+#include <concepts>
 #include <span>
 #include <type_traits>
+#include <utility>
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
diff --git a/include/cthash/internal/deduce.hpp b/include/cthash/internal/deduce.hpp
index abc37c6..20de83f 100644
--- a/include/cthash/internal/deduce.hpp
+++ b/include/cthash/internal/deduce.hpp
@@ -2,6 +2,7 @@
 #define CTHASH_INTERNAL_DEDUCE_HPP
 
 #include <concepts>
+#include <cstddef>
 #include <cstdint>
 
 namespace cthash::internal {
-- 
2.43.0


From 6d0e80e9cf5aebe5a2136d41e8d094753716e763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 08/14] fix: regenerate the single header, which did not
 compile on its own and lagged behind the tree

---
 include/cthash-single-header.hpp | 88 +++++++++++++++++++++++++++++---
 1 file changed, 82 insertions(+), 6 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 60dfc8a..c35a2b8 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -116,6 +116,7 @@ template <typename CharT, size_t N> fixed_string(const CharT (&)[N]) -> fixed_st
 
 #include <ranges>
 #include <concepts>
+#include <cstdint>
 
 namespace cthash {
 
@@ -511,7 +512,7 @@ template <size_t Bits, bool AllowPadding, std::ranges::input_range Input> requir
 
 		storage_type buffer{};
 
-		constexpr iterator(parent & p) noexcept: it{p.begin()}, end{p.end()} {
+		constexpr iterator(parent & p) noexcept: it{std::ranges::begin(p)}, end{std::ranges::end(p)} {
 			// initialize
 			buffer.feed_buffer(it, end);
 		}
@@ -885,6 +886,24 @@ template <typename Encoding, typename CharT, typename R> struct encode_to_view {
 	constexpr size_t size() const noexcept requires(std::ranges::sized_range<R>) {
 		return input.size();
 	}
+
+	constexpr auto to_string() const requires(std::ranges::sized_range<R>) {
+#if __cpp_lib_ranges_to_container >= 202202L
+		return std::ranges::to<std::basic_string<CharT>>(*this);
+#else
+		auto result = std::basic_string<CharT>{};
+		result.resize(size());
+		auto [i, o] = std::ranges::copy(begin(), end(), result.begin());
+		assert(i == end());
+		assert(o == result.end());
+		return result;
+#endif
+	}
+
+	constexpr friend std::basic_ostream<CharT> & operator<<(std::basic_ostream<CharT> & out, encode_to_view in) {
+		std::ranges::copy(in.begin(), in.end(), std::ostream_iterator<CharT, CharT>(out));
+		return out;
+	}
 };
 
 template <typename Encoding, typename ValueT, typename R> struct decode_from_view {
@@ -916,7 +935,7 @@ template <typename Encoding, typename CharT = char> struct encode_to_action {
 	template <std::ranges::input_range R> constexpr friend auto operator|(R && input, encode_to_action action) {
 		return action.operator()<R>(std::forward<R>(input));
 	}
-	template <std::ranges::input_range R> constexpr auto operator()(R && input) {
+	template <std::ranges::input_range R> constexpr auto operator()(R && input) const {
 		return encode_to_view<Encoding, CharT, R>(std::forward<R>(input));
 	}
 };
@@ -925,7 +944,7 @@ template <typename Encoding, typename ValueT = unsigned char> struct decode_from
 	template <std::ranges::input_range R> constexpr friend auto operator|(R && input, decode_from_action action) {
 		return action.operator()<R>(std::forward<R>(input));
 	}
-	template <std::ranges::input_range R> constexpr auto operator()(R && input) {
+	template <std::ranges::input_range R> constexpr auto operator()(R && input) const {
 		return decode_from_view<Encoding, ValueT, R>(std::forward<R>(input));
 	}
 };
@@ -962,6 +981,38 @@ constexpr auto base64_no_padding_decode = decode_from<encoding::base64_no_paddin
 
 } // namespace cthash
 
+namespace std {
+
+#if __cpp_lib_format >= 201907L
+#define CTHASH_STDFMT_AVAILABLE 1
+#endif
+
+#if _LIBCPP_VERSION >= 170000
+// libc++ will define __cpp_lib_format macro in 19.0
+// https://github.com/llvm/llvm-project/issues/77773
+#define CTHASH_STDFMT_AVAILABLE 1
+#endif
+
+// template <typename Encoding, typename CharT, typename R> struct encode_to_view
+
+#ifdef CTHASH_STDFMT_AVAILABLE
+template <typename Encoding, typename R, typename CharT>
+struct formatter<cthash::encode_to_view<Encoding, CharT, R>, CharT> {
+	using subject_type = cthash::encode_to_view<Encoding, CharT, R>;
+
+	template <typename ParseContext> constexpr auto parse(ParseContext & ctx) {
+		return std::ranges::begin(ctx);
+	}
+
+	template <typename FormatContext> constexpr auto format(const subject_type & value, FormatContext & ctx) const {
+		return std::ranges::copy(value, ctx.out()).out;
+	}
+};
+
+#endif
+
+} // namespace std
+
 #endif
 
 #ifndef CTHASH_INTERNAL_ALGORITHM_HPP
@@ -997,6 +1048,7 @@ template <typename T, typename It1, typename It2, typename Stream> constexpr aut
 #define CTHASH_INTERNAL_DEDUCE_HPP
 
 #include <concepts>
+#include <cstddef>
 #include <cstdint>
 
 namespace cthash::internal {
@@ -1362,7 +1414,10 @@ template <unsigned_integral_of_size<8> T> constexpr auto byteswap(T val) noexcep
 #ifndef CTHASH_CONCEPTS_HPP
 #define CTHASH_CONCEPTS_HPP
 
+#include <concepts>
 #include <span>
+#include <cstddef>
+#include <cstdint>
 
 namespace cthash {
 
@@ -1391,8 +1446,11 @@ template <typename T> concept convertible_to_byte_span = requires(T && obj) //
 #ifndef CTHASH_INTERNAL_CONVERT_HPP
 #define CTHASH_INTERNAL_CONVERT_HPP
 
+#include <algorithm>
+#include <concepts>
 #include <span>
 #include <type_traits>
+#include <utility>
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
@@ -1629,7 +1687,7 @@ template <typename Config> struct internal_hasher {
 	}
 
 	[[gnu::always_inline]] constexpr void write_result_into(digest_span_t out) noexcept
-	requires(digest_bytes % sizeof(state_item_t) == 0u)
+		requires(digest_bytes % sizeof(state_item_t) == 0u)
 	{
 		// copy result to byte result
 		constexpr size_t values_for_output = digest_bytes / sizeof(state_item_t);
@@ -1641,7 +1699,7 @@ template <typename Config> struct internal_hasher {
 	}
 
 	[[gnu::always_inline]] constexpr void write_result_into(digest_span_t out) noexcept
-	requires(digest_bytes % sizeof(state_item_t) != 0u)
+		requires(digest_bytes % sizeof(state_item_t) != 0u)
 	{
 		// this is only used when digest doesn't align with output buffer
 
@@ -1693,6 +1751,8 @@ template <typename Config> struct hasher: private internal_hasher<Config> {
 		return *this;
 	}
 
+	// TODO: any range with value convertible to byte
+
 	// output (by reference or by value)
 	constexpr void final(digest_span_t digest) noexcept {
 		super::finalize();
@@ -1837,6 +1897,7 @@ namespace literals {
 
 #endif
 
+
 namespace cthash {
 
 struct sha224_config: sha256_config {
@@ -1872,6 +1933,7 @@ namespace literals {
 #ifndef CTHASH_SHA2_SHA512_HPP
 #define CTHASH_SHA2_SHA512_HPP
 
+
 namespace cthash {
 
 struct sha512_config {
@@ -1943,6 +2005,7 @@ namespace literals {
 
 #endif
 
+
 namespace cthash {
 
 struct sha384_config: sha512_config {
@@ -1973,6 +2036,7 @@ namespace literals {
 #ifndef CTHASH_SHA2_SHA512_T_HPP
 #define CTHASH_SHA2_SHA512_T_HPP
 
+
 namespace cthash {
 
 namespace sha256t_support {
@@ -2060,6 +2124,7 @@ namespace literals {
 
 #endif
 
+
 // SHA-3 (keccak) family
 #ifndef CTHASH_SHA3_SHA3_224_HPP
 #define CTHASH_SHA3_SHA3_224_HPP
@@ -2158,7 +2223,6 @@ struct state_1600_ref: std::span<uint64_t, (5u * 5u)> {
 } // namespace cthash::keccak
 
 #endif
-
 #include <cstdint>
 
 namespace cthash {
@@ -2455,6 +2519,8 @@ template <typename Config> struct keccak_hasher: basic_keccak_hasher<Config> {
 		return *this;
 	}
 
+	// TODO: any range with value convertible to byte
+
 	using super::final;
 };
 
@@ -2462,6 +2528,7 @@ template <typename Config> struct keccak_hasher: basic_keccak_hasher<Config> {
 
 #endif
 
+
 namespace cthash {
 
 struct sha3_224_config {
@@ -2493,6 +2560,7 @@ namespace literals {
 #ifndef CTHASH_SHA3_SHA3_256_HPP
 #define CTHASH_SHA3_SHA3_256_HPP
 
+
 namespace cthash {
 
 struct sha3_256_config {
@@ -2524,6 +2592,7 @@ namespace literals {
 #ifndef CTHASH_SHA3_SHA3_384_HPP
 #define CTHASH_SHA3_SHA3_384_HPP
 
+
 namespace cthash {
 
 struct sha3_384_config {
@@ -2555,6 +2624,7 @@ namespace literals {
 #ifndef CTHASH_SHA3_SHA3_512_HPP
 #define CTHASH_SHA3_SHA3_512_HPP
 
+
 namespace cthash {
 
 struct sha3_512_config {
@@ -2586,6 +2656,7 @@ namespace literals {
 #ifndef CTHASH_SHA3_SHAKE128_HPP
 #define CTHASH_SHA3_SHAKE128_HPP
 
+
 namespace cthash {
 
 template <size_t N> struct shake128_value;
@@ -2647,6 +2718,7 @@ namespace literals {
 #ifndef CTHASH_SHA3_SHAKE256_HPP
 #define CTHASH_SHA3_SHAKE256_HPP
 
+
 namespace cthash {
 
 template <size_t N> struct shake256_value;
@@ -2703,6 +2775,7 @@ namespace literals {
 
 #endif
 
+
 // xxhash (non-crypto fast hash)
 #ifndef CTHASH_XXHASH_HPP
 #define CTHASH_XXHASH_HPP
@@ -2896,6 +2969,8 @@ template <size_t Bits> struct xxhash {
 		return update(std::span(std::data(input), std::size(input) - 1u));
 	}
 
+	// TODO: any range with value convertible to byte
+
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
 		length = input.size();
 		process_blocks(input);
@@ -2976,4 +3051,5 @@ namespace literals {
 
 #endif
 
+
 #endif
-- 
2.43.0


From ca4e7d4050b265827839430381aa636e8d603600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 09/14] fix: the last byte of an array of std::byte, unsigned
 char or signed char is hashed

Any array of one-byte elements was taken for a string literal, whose last
element is dropped as its terminator.
---
 include/cthash-single-header.hpp     | 11 ++++++++++-
 include/cthash/internal/concepts.hpp |  3 ++-
 include/cthash/xxhash.hpp            |  8 ++++++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index c35a2b8..d0d955c 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -1425,7 +1425,8 @@ template <typename T> concept one_byte_char = (sizeof(T) == 1u);
 
 template <typename T> concept byte_like = (sizeof(T) == 1u) && (std::same_as<T, char> || std::same_as<T, unsigned char> || std::same_as<T, char8_t> || std::same_as<T, std::byte> || std::same_as<T, uint8_t> || std::same_as<T, int8_t>);
 
-template <one_byte_char CharT, size_t N> void string_literal_helper(const CharT (&)[N]);
+// only character arrays are literals (last element of any other array of bytes is content, not a terminator)
+template <one_byte_char CharT, size_t N> requires(std::same_as<CharT, char> || std::same_as<CharT, char8_t>) void string_literal_helper(const CharT (&)[N]);
 
 template <typename T> concept string_literal = requires(const T & in) //
 {
@@ -2965,6 +2966,10 @@ template <size_t Bits> struct xxhash {
 		return update(std::span<const CharT>(input.data(), input.size()));
 	}
 
+	template <byte_like Byte, size_t N> requires(!string_literal<Byte[N]>) [[gnu::flatten]] constexpr xxhash & update(const Byte (&input)[N]) noexcept {
+		return update(std::span<const Byte>(input));
+	}
+
 	template <string_literal T> [[gnu::flatten]] constexpr xxhash & update(const T & input) noexcept {
 		return update(std::span(std::data(input), std::size(input) - 1u));
 	}
@@ -2983,6 +2988,10 @@ template <size_t Bits> struct xxhash {
 		return update_and_final(std::span<const CharT>(input.data(), input.size()));
 	}
 
+	template <byte_like Byte, size_t N> requires(!string_literal<Byte[N]>) [[gnu::flatten]] constexpr auto update_and_final(const Byte (&input)[N]) noexcept {
+		return update_and_final(std::span<const Byte>(input));
+	}
+
 	template <string_literal T> [[gnu::flatten]] constexpr auto update_and_final(const T & input) noexcept {
 		return update_and_final(std::span(std::data(input), std::size(input) - 1u));
 	}
diff --git a/include/cthash/internal/concepts.hpp b/include/cthash/internal/concepts.hpp
index 939797b..afcc767 100644
--- a/include/cthash/internal/concepts.hpp
+++ b/include/cthash/internal/concepts.hpp
@@ -12,7 +12,8 @@ template <typename T> concept one_byte_char = (sizeof(T) == 1u);
 
 template <typename T> concept byte_like = (sizeof(T) == 1u) && (std::same_as<T, char> || std::same_as<T, unsigned char> || std::same_as<T, char8_t> || std::same_as<T, std::byte> || std::same_as<T, uint8_t> || std::same_as<T, int8_t>);
 
-template <one_byte_char CharT, size_t N> void string_literal_helper(const CharT (&)[N]);
+// only character arrays are literals (last element of any other array of bytes is content, not a terminator)
+template <one_byte_char CharT, size_t N> requires(std::same_as<CharT, char> || std::same_as<CharT, char8_t>) void string_literal_helper(const CharT (&)[N]);
 
 template <typename T> concept string_literal = requires(const T & in) //
 {
diff --git a/include/cthash/xxhash.hpp b/include/cthash/xxhash.hpp
index 96257c0..ce53a3d 100644
--- a/include/cthash/xxhash.hpp
+++ b/include/cthash/xxhash.hpp
@@ -193,6 +193,10 @@ template <size_t Bits> struct xxhash {
 		return update(std::span<const CharT>(input.data(), input.size()));
 	}
 
+	template <byte_like Byte, size_t N> requires(!string_literal<Byte[N]>) [[gnu::flatten]] constexpr xxhash & update(const Byte (&input)[N]) noexcept {
+		return update(std::span<const Byte>(input));
+	}
+
 	template <string_literal T> [[gnu::flatten]] constexpr xxhash & update(const T & input) noexcept {
 		return update(std::span(std::data(input), std::size(input) - 1u));
 	}
@@ -211,6 +215,10 @@ template <size_t Bits> struct xxhash {
 		return update_and_final(std::span<const CharT>(input.data(), input.size()));
 	}
 
+	template <byte_like Byte, size_t N> requires(!string_literal<Byte[N]>) [[gnu::flatten]] constexpr auto update_and_final(const Byte (&input)[N]) noexcept {
+		return update_and_final(std::span<const Byte>(input));
+	}
+
 	template <string_literal T> [[gnu::flatten]] constexpr auto update_and_final(const T & input) noexcept {
 		return update_and_final(std::span(std::data(input), std::size(input) - 1u));
 	}
-- 
2.43.0


From 02478103683cd80c4e1fa3f0eceef0ddd681da68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 10/14] fix: checksum names sha-512/224, which it implements,
 in its help

---
 checksum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/checksum.cpp b/checksum.cpp
index eab5903..603bc04 100644
--- a/checksum.cpp
+++ b/checksum.cpp
@@ -40,7 +40,7 @@ struct mapped_file {
 int main(int argc, char ** argv) {
 	if (argc < 3) {
 		std::cerr << argv[0] << " hash file\n";
-		std::cerr << "hash is one of: sha-224, sha-256, sha-384, sha-512, sha-512/223, sha-512/256, sha3-224, sha3-256, sha3-384, sha3-512, \n";
+		std::cerr << "hash is one of: sha-224, sha-256, sha-384, sha-512, sha-512/224, sha-512/256, sha3-224, sha3-256, sha3-384, sha3-512, \n";
 		std::cerr << "  shake-128/n, shake-256/n (where n is 32/64/128/256/512/1024/2048),\n";
 		std::cerr << "  xxhash32, xxhash64\n";
 		return 1;
-- 
2.43.0


From c84fd6a4908d4c53d630d3fbc31df459d0db668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 11/14] fix: digests of different algorithms are not comparable
 even when their sizes agree

The README promises that the strong types keep SHA-256 and SHA3-256 results
apart, but both decayed to hash_value<32> in comparisons.
---
 include/cthash-single-header.hpp | 4 ++++
 include/cthash/value.hpp         | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index d0d955c..95692c5 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -1248,6 +1248,10 @@ template <typename Tag, size_t = internal::digest_bytes_length_of<Tag>> struct t
 
 	static constexpr size_t digest_length = N;
 
+	// values of different algorithms must not be mixed up (even if they have same size)
+	template <typename OtherTag, size_t M> requires(!std::same_as<Tag, OtherTag>) constexpr friend bool operator==(const tagged_hash_value & lhs, const tagged_hash_value<OtherTag, M> & rhs) noexcept = delete;
+	template <typename OtherTag, size_t M> requires(!std::same_as<Tag, OtherTag>) constexpr friend auto operator<=>(const tagged_hash_value & lhs, const tagged_hash_value<OtherTag, M> & rhs) noexcept = delete;
+
 	template <typename Encoding = default_encoding<Tag>::encoding, typename CharT, typename Traits> constexpr auto & print_into(std::basic_ostream<CharT, Traits> & os) const {
 		return super::template print_into<Encoding>(os);
 	}
diff --git a/include/cthash/value.hpp b/include/cthash/value.hpp
index 6b9d9af..ccb2123 100644
--- a/include/cthash/value.hpp
+++ b/include/cthash/value.hpp
@@ -107,6 +107,10 @@ template <typename Tag, size_t = internal::digest_bytes_length_of<Tag>> struct t
 
 	static constexpr size_t digest_length = N;
 
+	// values of different algorithms must not be mixed up (even if they have same size)
+	template <typename OtherTag, size_t M> requires(!std::same_as<Tag, OtherTag>) constexpr friend bool operator==(const tagged_hash_value & lhs, const tagged_hash_value<OtherTag, M> & rhs) noexcept = delete;
+	template <typename OtherTag, size_t M> requires(!std::same_as<Tag, OtherTag>) constexpr friend auto operator<=>(const tagged_hash_value & lhs, const tagged_hash_value<OtherTag, M> & rhs) noexcept = delete;
+
 	template <typename Encoding = default_encoding<Tag>::encoding, typename CharT, typename Traits> constexpr auto & print_into(std::basic_ostream<CharT, Traits> & os) const {
 		return super::template print_into<Encoding>(os);
 	}
-- 
2.43.0


From 0bec02ba695500c2e813f56063a4bd0e62e659f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:45 +0000
Subject: [PATCH 12/14] fix: encoding/base.hpp and the internal headers include
 what they use

---
 include/cthash-single-header.hpp   | 10 ++++++++++
 include/cthash/encoding/base.hpp   |  4 ++++
 include/cthash/internal/bit.hpp    |  4 ++++
 include/cthash/internal/hexdec.hpp |  2 ++
 4 files changed, 20 insertions(+)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 95692c5..a5aae72 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -804,7 +804,11 @@ template <typename DefaultEncoding = encoding::hexdec, typename InputContext> co
 
 #endif
 
+#include <algorithm>
 #include <bit>
+#include <cassert>
+#include <iterator>
+#include <string>
 
 namespace cthash {
 
@@ -1094,6 +1098,8 @@ template <typename Config> constexpr size_t digest_bytes_length_of = [] {
 #include <ostream>
 #include <span>
 #include <type_traits>
+#include <cstddef>
+#include <cstdint>
 
 namespace cthash::internal {
 
@@ -1380,7 +1386,11 @@ constexpr void assert_this(bool value, const char * expression, const char * fil
 #ifndef CTHASH_INTERNAL_BIT_HPP
 #define CTHASH_INTERNAL_BIT_HPP
 
+#include <array>
 #include <bit>
+#include <concepts>
+#include <cstddef>
+#include <cstdint>
 
 namespace cthash::internal {
 
diff --git a/include/cthash/encoding/base.hpp b/include/cthash/encoding/base.hpp
index 7bdb57b..52cbbd2 100644
--- a/include/cthash/encoding/base.hpp
+++ b/include/cthash/encoding/base.hpp
@@ -3,7 +3,11 @@
 
 #include "chunk-of-bits.hpp"
 #include "encodings.hpp"
+#include <algorithm>
 #include <bit>
+#include <cassert>
+#include <iterator>
+#include <string>
 
 namespace cthash {
 
diff --git a/include/cthash/internal/bit.hpp b/include/cthash/internal/bit.hpp
index 99ede08..be6773b 100644
--- a/include/cthash/internal/bit.hpp
+++ b/include/cthash/internal/bit.hpp
@@ -1,7 +1,11 @@
 #ifndef CTHASH_INTERNAL_BIT_HPP
 #define CTHASH_INTERNAL_BIT_HPP
 
+#include <array>
 #include <bit>
+#include <concepts>
+#include <cstddef>
+#include <cstdint>
 
 namespace cthash::internal {
 
diff --git a/include/cthash/internal/hexdec.hpp b/include/cthash/internal/hexdec.hpp
index 44d186e..406941c 100644
--- a/include/cthash/internal/hexdec.hpp
+++ b/include/cthash/internal/hexdec.hpp
@@ -5,6 +5,8 @@
 #include <ostream>
 #include <span>
 #include <type_traits>
+#include <cstddef>
+#include <cstdint>
 
 namespace cthash::internal {
 
-- 
2.43.0


From 0e63e534cd9958d659fd722dbbb506addd480c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 13/14] fix: encoded views can be formatted whatever was
 included before

---
 include/cthash-single-header.hpp | 1 +
 include/cthash/encoding/base.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index a5aae72..5924798 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -807,6 +807,7 @@ template <typename DefaultEncoding = encoding::hexdec, typename InputContext> co
 #include <algorithm>
 #include <bit>
 #include <cassert>
+#include <format>
 #include <iterator>
 #include <string>
 
diff --git a/include/cthash/encoding/base.hpp b/include/cthash/encoding/base.hpp
index 52cbbd2..2fe40ef 100644
--- a/include/cthash/encoding/base.hpp
+++ b/include/cthash/encoding/base.hpp
@@ -6,6 +6,7 @@
 #include <algorithm>
 #include <bit>
 #include <cassert>
+#include <format>
 #include <iterator>
 #include <string>
 
-- 
2.43.0


From e8b1391b7bce25d4051d8550ece9295da7a4f5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:44 +0000
Subject: [PATCH 14/14] fix: names of encodings in wide format strings are not
 truncated before they are compared

---
 include/cthash-single-header.hpp      | 6 ++++--
 include/cthash/encoding/encodings.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 5924798..0d4b110 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -776,14 +776,16 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 			break;
 		}
 
-		const char c = *it;
+		const auto c = *it;
 
 		if (c == '}') {
 			break;
 		}
 
 		if (out != buffer.end()) {
-			*out++ = c;
+			// (a wider character must not be taken for the one it would be truncated to)
+			const auto narrow = static_cast<char>(c);
+			*out++ = (static_cast<decltype(c)>(narrow) == c) ? narrow : '\0';
 		}
 
 		++it;
diff --git a/include/cthash/encoding/encodings.hpp b/include/cthash/encoding/encodings.hpp
index 4068886..38e189f 100644
--- a/include/cthash/encoding/encodings.hpp
+++ b/include/cthash/encoding/encodings.hpp
@@ -183,14 +183,16 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 			break;
 		}
 
-		const char c = *it;
+		const auto c = *it;
 
 		if (c == '}') {
 			break;
 		}
 
 		if (out != buffer.end()) {
-			*out++ = c;
+			// (a wider character must not be taken for the one it would be truncated to)
+			const auto narrow = static_cast<char>(c);
+			*out++ = (static_cast<decltype(c)>(narrow) == c) ? narrow : '\0';
 		}
 
 		++it;
-- 
2.43.0

