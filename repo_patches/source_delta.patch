From 83cc991e550979fa9f429686d230cd43ff1c0629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 01/17] fix: xxhash: count all bytes of an update, not only
 their number modulo 256

---
 include/cthash-single-header.hpp | 2 +-
 include/cthash/xxhash.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 1691958..ec3cf05 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -2856,7 +2856,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<uint8_t>(input.size());
+		length += static_cast<value_type>(input.size());
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
diff --git a/include/cthash/xxhash.hpp b/include/cthash/xxhash.hpp
index 6a0db64..7708e16 100644
--- a/include/cthash/xxhash.hpp
+++ b/include/cthash/xxhash.hpp
@@ -162,7 +162,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<uint8_t>(input.size());
+		length += static_cast<value_type>(input.size());
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
-- 
2.43.0


From d6c5851dee8f5c3f46cc57c6cf53aae1c5c016eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 02/17] fix: xxhash: update_and_final keeps data supplied by
 previous updates

---
 include/cthash-single-header.hpp | 5 +++++
 include/cthash/xxhash.hpp        | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index ec3cf05..fc41ae3 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -2892,6 +2892,11 @@ template <size_t Bits> struct xxhash {
 	}
 
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
+		if (length != 0u) {
+			// there are already data hashed, this is only the last part
+			return update(input).final();
+		}
+
 		length = static_cast<value_type>(input.size());
 		process_blocks(input);
 		tagged_hash_value<tag> output;
diff --git a/include/cthash/xxhash.hpp b/include/cthash/xxhash.hpp
index 7708e16..4c0b581 100644
--- a/include/cthash/xxhash.hpp
+++ b/include/cthash/xxhash.hpp
@@ -200,6 +200,11 @@ template <size_t Bits> struct xxhash {
 	// TODO: any range with value convertible to byte
 
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
+		if (length != 0u) {
+			// there are already data hashed, this is only the last part
+			return update(input).final();
+		}
+
 		length = static_cast<value_type>(input.size());
 		process_blocks(input);
 		tagged_hash_value<tag> output;
-- 
2.43.0


From 80852dbc8ba30d8d2a05c0a26ddd1253b27366bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 03/17] fix: xxhash: 64bit total length, so XXH32 of 4 GiB and
 more does not take the short input path

---
 include/cthash-single-header.hpp | 6 +++---
 include/cthash/xxhash.hpp        | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index fc41ae3..58802f9 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -2824,7 +2824,7 @@ template <size_t Bits> struct xxhash {
 
 	// members
 	value_type seed{0u};
-	value_type length{0u};
+	uint64_t length{0u}; // needs to distinguish short input even when the value is only 32bit
 	acc_array internal_state{};
 	std::array<std::byte, sizeof(value_type) * 4u> buffer{};
 
@@ -2856,7 +2856,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<value_type>(input.size());
+		length += static_cast<uint64_t>(input.size());
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
@@ -2897,7 +2897,7 @@ template <size_t Bits> struct xxhash {
 			return update(input).final();
 		}
 
-		length = static_cast<value_type>(input.size());
+		length = static_cast<uint64_t>(input.size());
 		process_blocks(input);
 		tagged_hash_value<tag> output;
 		final_from(input, output);
diff --git a/include/cthash/xxhash.hpp b/include/cthash/xxhash.hpp
index 4c0b581..e1412f5 100644
--- a/include/cthash/xxhash.hpp
+++ b/include/cthash/xxhash.hpp
@@ -130,7 +130,7 @@ template <size_t Bits> struct xxhash {
 
 	// members
 	value_type seed{0u};
-	value_type length{0u};
+	uint64_t length{0u}; // needs to distinguish short input even when the value is only 32bit
 	acc_array internal_state{};
 	std::array<std::byte, sizeof(value_type) * 4u> buffer{};
 
@@ -162,7 +162,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<value_type>(input.size());
+		length += static_cast<uint64_t>(input.size());
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
@@ -205,7 +205,7 @@ template <size_t Bits> struct xxhash {
 			return update(input).final();
 		}
 
-		length = static_cast<value_type>(input.size());
+		length = static_cast<uint64_t>(input.size());
 		process_blocks(input);
 		tagged_hash_value<tag> output;
 		final_from(input, output);
-- 
2.43.0


From ff7cd9acccea1feb0d2ea804d976a67966bb4167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 04/17] fix: sha512: encode also the upper half of the 128bit
 message length

---
 include/cthash-single-header.hpp | 5 +++++
 include/cthash/hasher.hpp        | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 58802f9..d52f40a 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -1602,6 +1602,11 @@ template <typename Config> struct internal_hasher {
 	}
 
 	[[gnu::always_inline]] static constexpr void finalize_buffer_by_writing_length(block_value_t & block, length_t total_length) noexcept {
+		// length field can be wider than number of bits we are able to count (and it was zeroed out before)
+		if constexpr (config.length_size_bits >= 16u * sizeof(length_t)) {
+			unwrap_bigendian_number{std::span(block).template last<2u * sizeof(length_t)>().template first<sizeof(length_t)>()} = (total_length >> (8u * sizeof(length_t) - 3u));
+		}
+
 		unwrap_bigendian_number{std::span(block).template last<sizeof(length_t)>()} = (total_length * 8u);
 	}
 
diff --git a/include/cthash/hasher.hpp b/include/cthash/hasher.hpp
index bd15faf..5635d76 100644
--- a/include/cthash/hasher.hpp
+++ b/include/cthash/hasher.hpp
@@ -144,6 +144,11 @@ template <typename Config> struct internal_hasher {
 	}
 
 	[[gnu::always_inline]] static constexpr void finalize_buffer_by_writing_length(block_value_t & block, length_t total_length) noexcept {
+		// length field can be wider than number of bits we are able to count (and it was zeroed out before)
+		if constexpr (config.length_size_bits >= 16u * sizeof(length_t)) {
+			unwrap_bigendian_number{std::span(block).template last<2u * sizeof(length_t)>().template first<sizeof(length_t)>()} = (total_length >> (8u * sizeof(length_t) - 3u));
+		}
+
 		unwrap_bigendian_number{std::span(block).template last<sizeof(length_t)>()} = (total_length * 8u);
 	}
 
-- 
2.43.0


From edd56739d732037ace75b96bda4a35ee230a7d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 05/17] fix: constant evaluation: don't sign-extend char and
 signed char input

---
 include/cthash-single-header.hpp    | 4 ++--
 include/cthash/internal/convert.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index d52f40a..8ec4326 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -1401,7 +1401,7 @@ template <typename It1, typename It2, typename It3> constexpr auto byte_copy(It1
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<unsigned char>(in[Idx])) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
@@ -1417,7 +1417,7 @@ template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_byt
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_le_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << static_cast<T>(Idx * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<unsigned char>(in[Idx])) << static_cast<T>(Idx * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
diff --git a/include/cthash/internal/convert.hpp b/include/cthash/internal/convert.hpp
index d75ddcc..7839373 100644
--- a/include/cthash/internal/convert.hpp
+++ b/include/cthash/internal/convert.hpp
@@ -18,7 +18,7 @@ template <typename It1, typename It2, typename It3> constexpr auto byte_copy(It1
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<unsigned char>(in[Idx])) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
@@ -34,7 +34,7 @@ template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_byt
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_le_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << static_cast<T>(Idx * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<unsigned char>(in[Idx])) << static_cast<T>(Idx * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
-- 
2.43.0


From eedacfd732976f6642e75ae62efd2eb62397fb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 06/17] fix: copying a SHA-2 hasher is a constant expression
 (no indeterminate bytes in its block)

---
 include/cthash-single-header.hpp | 2 +-
 include/cthash/hasher.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 8ec4326..4985634 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -1504,7 +1504,7 @@ template <typename Config> struct internal_hasher {
 	unsigned block_used;
 
 	// constructors
-	constexpr internal_hasher() noexcept: hash{config.initial_values}, total_length{0u}, block_used{0u} { }
+	constexpr internal_hasher() noexcept: hash{config.initial_values}, total_length{0u}, block{}, block_used{0u} { }
 	constexpr internal_hasher(const internal_hasher &) noexcept = default;
 	constexpr internal_hasher(internal_hasher &&) noexcept = default;
 	constexpr ~internal_hasher() noexcept = default;
diff --git a/include/cthash/hasher.hpp b/include/cthash/hasher.hpp
index 5635d76..3ddd9e5 100644
--- a/include/cthash/hasher.hpp
+++ b/include/cthash/hasher.hpp
@@ -46,7 +46,7 @@ template <typename Config> struct internal_hasher {
 	unsigned block_used;
 
 	// constructors
-	constexpr internal_hasher() noexcept: hash{config.initial_values}, total_length{0u}, block_used{0u} { }
+	constexpr internal_hasher() noexcept: hash{config.initial_values}, total_length{0u}, block{}, block_used{0u} { }
 	constexpr internal_hasher(const internal_hasher &) noexcept = default;
 	constexpr internal_hasher(internal_hasher &&) noexcept = default;
 	constexpr ~internal_hasher() noexcept = default;
-- 
2.43.0


From 8c02d9615e9771f6940f73e3ed7d08b06e4d774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 07/17] fix: bit_buffer: don't shift by the whole width when
 one element fills the buffer

---
 include/cthash-single-header.hpp       | 7 ++++++-
 include/cthash/encoding/bit-buffer.hpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 4985634..8f62a96 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -206,7 +206,12 @@ public:
 
 	template <size_t Bits> constexpr void push(select_bit_integer_t<Bits> in) noexcept requires(Bits <= capacity()) {
 		assert(size() <= capacity() - Bits);
-		buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		if constexpr (Bits == capacity()) {
+			// there is nothing to keep (and shift by whole width is not allowed)
+			buffer = static_cast<storage_type>(in);
+		} else {
+			buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		}
 		bits_available += static_cast<size_type>(Bits);
 	}
 	constexpr void push_empty_bits(size_t count) noexcept {
diff --git a/include/cthash/encoding/bit-buffer.hpp b/include/cthash/encoding/bit-buffer.hpp
index 3f9dab6..1151a7d 100644
--- a/include/cthash/encoding/bit-buffer.hpp
+++ b/include/cthash/encoding/bit-buffer.hpp
@@ -69,7 +69,12 @@ public:
 
 	template <size_t Bits> constexpr void push(select_bit_integer_t<Bits> in) noexcept requires(Bits <= capacity()) {
 		assert(size() <= capacity() - Bits);
-		buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		if constexpr (Bits == capacity()) {
+			// there is nothing to keep (and shift by whole width is not allowed)
+			buffer = static_cast<storage_type>(in);
+		} else {
+			buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		}
 		bits_available += static_cast<size_type>(Bits);
 	}
 	constexpr void push_empty_bits(size_t count) noexcept {
-- 
2.43.0


From 16800a7d1558fc90e83ef813ecbf691168fdcb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:33 +0000
Subject: [PATCH 08/17] fix: encoding name in format specification: text longer
 than the longest name doesn't match its beginning

---
 include/cthash-single-header.hpp      | 4 ++--
 include/cthash/encoding/encodings.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 8f62a96..c26dbd2 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -766,8 +766,8 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 		return result{.encoding = DefaultEncoding{}, .iterator = it};
 	}
 
-	// this will copy it into buffer to compare
-	std::array<char, Encoding::longest_name_size> buffer{};
+	// this will copy it into buffer to compare (one more character than the longest name, so a longer text can't match)
+	std::array<char, Encoding::longest_name_size + 1u> buffer{};
 	auto out = buffer.begin();
 
 	for (;;) {
diff --git a/include/cthash/encoding/encodings.hpp b/include/cthash/encoding/encodings.hpp
index 37508da..cc56089 100644
--- a/include/cthash/encoding/encodings.hpp
+++ b/include/cthash/encoding/encodings.hpp
@@ -173,8 +173,8 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 		return result{.encoding = DefaultEncoding{}, .iterator = it};
 	}
 
-	// this will copy it into buffer to compare
-	std::array<char, Encoding::longest_name_size> buffer{};
+	// this will copy it into buffer to compare (one more character than the longest name, so a longer text can't match)
+	std::array<char, Encoding::longest_name_size + 1u> buffer{};
 	auto out = buffer.begin();
 
 	for (;;) {
-- 
2.43.0


From d0ed3b3fe15f23f8deda50d1ecaed5c5a9f89b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:15 +0000
Subject: [PATCH 09/17] fix: encoding name in wide format specification: don't
 compare truncated characters

---
 include/cthash-single-header.hpp      | 6 ++++--
 include/cthash/encoding/encodings.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index c26dbd2..9919bc3 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -775,14 +775,16 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 			break;
 		}
 
-		const char c = *it;
+		const auto c = *it;
 
 		if (c == '}') {
 			break;
 		}
 
 		if (out != buffer.end()) {
-			*out++ = c;
+			// wide character which doesn't fit can't be part of any name
+			const char narrow = static_cast<char>(c);
+			*out++ = (static_cast<decltype(c)>(narrow) == c) ? narrow : '\0';
 		}
 
 		++it;
diff --git a/include/cthash/encoding/encodings.hpp b/include/cthash/encoding/encodings.hpp
index cc56089..ee522b7 100644
--- a/include/cthash/encoding/encodings.hpp
+++ b/include/cthash/encoding/encodings.hpp
@@ -182,14 +182,16 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 			break;
 		}
 
-		const char c = *it;
+		const auto c = *it;
 
 		if (c == '}') {
 			break;
 		}
 
 		if (out != buffer.end()) {
-			*out++ = c;
+			// wide character which doesn't fit can't be part of any name
+			const char narrow = static_cast<char>(c);
+			*out++ = (static_cast<decltype(c)>(narrow) == c) ? narrow : '\0';
 		}
 
 		++it;
-- 
2.43.0


From 8b74604b3211681c0be32261c00e2500dcf71c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:44 +0000
Subject: [PATCH 10/17] fix: raw arrays of bytes other than char and char8_t
 are hashed whole, only literals have a terminator

---
 include/cthash-single-header.hpp     | 13 +++++++++----
 include/cthash/hasher.hpp            |  2 +-
 include/cthash/internal/concepts.hpp |  5 +++++
 include/cthash/sha3/common.hpp       |  2 +-
 include/cthash/xxhash.hpp            |  4 ++--
 5 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 9919bc3..3de8204 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -1379,6 +1379,11 @@ template <typename T> concept string_literal = requires(const T & in) //
 	string_literal_helper(in);
 };
 
+// literals of char and char8_t have a terminator which is not part of the content, arrays of other bytes are content whole
+template <one_byte_char CharT, size_t N> constexpr size_t length_of_literal(const CharT (&)[N]) noexcept {
+	return (std::same_as<CharT, char> || std::same_as<CharT, char8_t>) ? N - 1u : N;
+}
+
 template <typename T> concept convertible_to_byte_span = requires(T && obj) //
 {
 	{ std::span(obj) };
@@ -1696,7 +1701,7 @@ template <typename Config> struct hasher: private internal_hasher<Config> {
 	}
 
 	template <string_literal T> constexpr hasher & update(const T & lit) noexcept {
-		super::update_to_buffer_and_process(std::span(lit, std::size(lit) - 1u));
+		super::update_to_buffer_and_process(std::span(lit, length_of_literal(lit)));
 		return *this;
 	}
 
@@ -2458,7 +2463,7 @@ template <typename Config> struct keccak_hasher: basic_keccak_hasher<Config> {
 	}
 
 	template <string_literal T> constexpr keccak_hasher & update(const T & lit) noexcept {
-		super::update(std::span(lit, std::size(lit) - 1u));
+		super::update(std::span(lit, length_of_literal(lit)));
 		return *this;
 	}
 
@@ -2900,7 +2905,7 @@ template <size_t Bits> struct xxhash {
 	}
 
 	template <string_literal T> [[gnu::flatten]] constexpr xxhash & update(const T & input) noexcept {
-		return update(std::span(std::data(input), std::size(input) - 1u));
+		return update(std::span(std::data(input), length_of_literal(input)));
 	}
 
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
@@ -2921,7 +2926,7 @@ template <size_t Bits> struct xxhash {
 	}
 
 	template <string_literal T> [[gnu::flatten]] constexpr auto update_and_final(const T & input) noexcept {
-		return update_and_final(std::span(std::data(input), std::size(input) - 1u));
+		return update_and_final(std::span(std::data(input), length_of_literal(input)));
 	}
 
 	constexpr auto converge_conditionaly() const noexcept -> value_type {
diff --git a/include/cthash/hasher.hpp b/include/cthash/hasher.hpp
index 3ddd9e5..d2f2adc 100644
--- a/include/cthash/hasher.hpp
+++ b/include/cthash/hasher.hpp
@@ -231,7 +231,7 @@ template <typename Config> struct hasher: private internal_hasher<Config> {
 	}
 
 	template <string_literal T> constexpr hasher & update(const T & lit) noexcept {
-		super::update_to_buffer_and_process(std::span(lit, std::size(lit) - 1u));
+		super::update_to_buffer_and_process(std::span(lit, length_of_literal(lit)));
 		return *this;
 	}
 
diff --git a/include/cthash/internal/concepts.hpp b/include/cthash/internal/concepts.hpp
index c653670..d31ca87 100644
--- a/include/cthash/internal/concepts.hpp
+++ b/include/cthash/internal/concepts.hpp
@@ -16,6 +16,11 @@ template <typename T> concept string_literal = requires(const T & in) //
 	string_literal_helper(in);
 };
 
+// literals of char and char8_t have a terminator which is not part of the content, arrays of other bytes are content whole
+template <one_byte_char CharT, size_t N> constexpr size_t length_of_literal(const CharT (&)[N]) noexcept {
+	return (std::same_as<CharT, char> || std::same_as<CharT, char8_t>) ? N - 1u : N;
+}
+
 template <typename T> concept convertible_to_byte_span = requires(T && obj) //
 {
 	{ std::span(obj) };
diff --git a/include/cthash/sha3/common.hpp b/include/cthash/sha3/common.hpp
index 537e808..62466a0 100644
--- a/include/cthash/sha3/common.hpp
+++ b/include/cthash/sha3/common.hpp
@@ -299,7 +299,7 @@ template <typename Config> struct keccak_hasher: basic_keccak_hasher<Config> {
 	}
 
 	template <string_literal T> constexpr keccak_hasher & update(const T & lit) noexcept {
-		super::update(std::span(lit, std::size(lit) - 1u));
+		super::update(std::span(lit, length_of_literal(lit)));
 		return *this;
 	}
 
diff --git a/include/cthash/xxhash.hpp b/include/cthash/xxhash.hpp
index e1412f5..3691e88 100644
--- a/include/cthash/xxhash.hpp
+++ b/include/cthash/xxhash.hpp
@@ -194,7 +194,7 @@ template <size_t Bits> struct xxhash {
 	}
 
 	template <string_literal T> [[gnu::flatten]] constexpr xxhash & update(const T & input) noexcept {
-		return update(std::span(std::data(input), std::size(input) - 1u));
+		return update(std::span(std::data(input), length_of_literal(input)));
 	}
 
 	// TODO: any range with value convertible to byte
@@ -217,7 +217,7 @@ template <size_t Bits> struct xxhash {
 	}
 
 	template <string_literal T> [[gnu::flatten]] constexpr auto update_and_final(const T & input) noexcept {
-		return update_and_final(std::span(std::data(input), std::size(input) - 1u));
+		return update_and_final(std::span(std::data(input), length_of_literal(input)));
 	}
 
 	constexpr auto converge_conditionaly() const noexcept -> value_type {
-- 
2.43.0


From 122d5f0f3ddec13587dd7b60cf5c0412ac117eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:51 +0000
Subject: [PATCH 11/17] fix: digests of different algorithms are not comparable
 with each other

---
 include/cthash-single-header.hpp | 9 +++++++++
 include/cthash/value.hpp         | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 3de8204..9595109 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -1215,6 +1215,15 @@ template <typename Tag, size_t = internal::digest_bytes_length_of<Tag>> struct t
 	}
 };
 
+// digests of different algorithms are not comparable (only as plain values, or SHAKE's outputs of different length)
+template <typename TagA, size_t NA, typename TagB, size_t NB>
+requires(!std::same_as<TagA, TagB>)
+constexpr bool operator==(const tagged_hash_value<TagA, NA> & lhs, const tagged_hash_value<TagB, NB> & rhs) = delete;
+
+template <typename TagA, size_t NA, typename TagB, size_t NB>
+requires(!std::same_as<TagA, TagB>)
+constexpr std::strong_ordering operator<=>(const tagged_hash_value<TagA, NA> & lhs, const tagged_hash_value<TagB, NB> & rhs) = delete;
+
 template <typename T> concept variable_digest_length = T::digest_length_bit == 0u;
 
 template <size_t N, variable_digest_length Tag> struct variable_bit_length_tag: Tag {
diff --git a/include/cthash/value.hpp b/include/cthash/value.hpp
index 6b9d9af..59a8c01 100644
--- a/include/cthash/value.hpp
+++ b/include/cthash/value.hpp
@@ -124,6 +124,15 @@ template <typename Tag, size_t = internal::digest_bytes_length_of<Tag>> struct t
 	}
 };
 
+// digests of different algorithms are not comparable (only as plain values, or SHAKE's outputs of different length)
+template <typename TagA, size_t NA, typename TagB, size_t NB>
+requires(!std::same_as<TagA, TagB>)
+constexpr bool operator==(const tagged_hash_value<TagA, NA> & lhs, const tagged_hash_value<TagB, NB> & rhs) = delete;
+
+template <typename TagA, size_t NA, typename TagB, size_t NB>
+requires(!std::same_as<TagA, TagB>)
+constexpr std::strong_ordering operator<=>(const tagged_hash_value<TagA, NA> & lhs, const tagged_hash_value<TagB, NB> & rhs) = delete;
+
 template <typename T> concept variable_digest_length = T::digest_length_bit == 0u;
 
 template <size_t N, variable_digest_length Tag> struct variable_bit_length_tag: Tag {
-- 
2.43.0


From 75c868232900bde3d37705c70875f0a0cc3f5397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 12/17] fix: encode_to_view::to_string compiles without
 std::ranges::to (C++20, GCC 13) when assertions are on

---
 include/cthash/encoding/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cthash/encoding/base.hpp b/include/cthash/encoding/base.hpp
index 745130d..7bdb57b 100644
--- a/include/cthash/encoding/base.hpp
+++ b/include/cthash/encoding/base.hpp
@@ -93,7 +93,7 @@ template <typename Encoding, typename CharT, typename R> struct encode_to_view {
 		auto result = std::basic_string<CharT>{};
 		result.resize(size());
 		auto [i, o] = std::ranges::copy(begin(), end(), result.begin());
-		assert(i == encoded.end());
+		assert(i == end());
 		assert(o == result.end());
 		return result;
 #endif
-- 
2.43.0


From efb62ed40ff3521e1d30d7beb12b4a6e9572e1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 13/17] fix: single header: compiles on its own, has everything
 the modular headers have (views' to_string, stream and format output, const
 actions)

---
 include/cthash-single-header.hpp | 57 ++++++++++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 3 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 9595109..ed60ff3 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -116,6 +116,7 @@ template <typename CharT, size_t N> fixed_string(const CharT (&)[N]) -> fixed_st
 
 #include <ranges>
 #include <concepts>
+#include <cstdint>
 
 namespace cthash {
 
@@ -512,7 +513,7 @@ template <size_t Bits, bool AllowPadding, std::ranges::input_range Input> requir
 
 		storage_type buffer{};
 
-		constexpr iterator(parent & p) noexcept: it{p.begin()}, end{p.end()} {
+		constexpr iterator(parent & p) noexcept: it{std::ranges::begin(p)}, end{std::ranges::end(p)} {
 			// initialize
 			buffer.feed_buffer(it, end);
 		}
@@ -887,6 +888,24 @@ template <typename Encoding, typename CharT, typename R> struct encode_to_view {
 	constexpr size_t size() const noexcept requires(std::ranges::sized_range<R>) {
 		return input.size();
 	}
+
+	constexpr auto to_string() const requires(std::ranges::sized_range<R>) {
+#if __cpp_lib_ranges_to_container >= 202202L
+		return std::ranges::to<std::basic_string<CharT>>(*this);
+#else
+		auto result = std::basic_string<CharT>{};
+		result.resize(size());
+		auto [i, o] = std::ranges::copy(begin(), end(), result.begin());
+		assert(i == end());
+		assert(o == result.end());
+		return result;
+#endif
+	}
+
+	constexpr friend std::basic_ostream<CharT> & operator<<(std::basic_ostream<CharT> & out, encode_to_view in) {
+		std::ranges::copy(in.begin(), in.end(), std::ostream_iterator<CharT, CharT>(out));
+		return out;
+	}
 };
 
 template <typename Encoding, typename ValueT, typename R> struct decode_from_view {
@@ -918,7 +937,7 @@ template <typename Encoding, typename CharT = char> struct encode_to_action {
 	template <std::ranges::input_range R> constexpr friend auto operator|(R && input, encode_to_action action) {
 		return action.operator()<R>(std::forward<R>(input));
 	}
-	template <std::ranges::input_range R> constexpr auto operator()(R && input) {
+	template <std::ranges::input_range R> constexpr auto operator()(R && input) const {
 		return encode_to_view<Encoding, CharT, R>(std::forward<R>(input));
 	}
 };
@@ -927,7 +946,7 @@ template <typename Encoding, typename ValueT = unsigned char> struct decode_from
 	template <std::ranges::input_range R> constexpr friend auto operator|(R && input, decode_from_action action) {
 		return action.operator()<R>(std::forward<R>(input));
 	}
-	template <std::ranges::input_range R> constexpr auto operator()(R && input) {
+	template <std::ranges::input_range R> constexpr auto operator()(R && input) const {
 		return decode_from_view<Encoding, ValueT, R>(std::forward<R>(input));
 	}
 };
@@ -964,6 +983,38 @@ constexpr auto base64_no_padding_decode = decode_from<encoding::base64_no_paddin
 
 } // namespace cthash
 
+namespace std {
+
+#if __cpp_lib_format >= 201907L
+#define CTHASH_STDFMT_AVAILABLE 1
+#endif
+
+#if _LIBCPP_VERSION >= 170000
+// libc++ will define __cpp_lib_format macro in 19.0
+// https://github.com/llvm/llvm-project/issues/77773
+#define CTHASH_STDFMT_AVAILABLE 1
+#endif
+
+// template <typename Encoding, typename CharT, typename R> struct encode_to_view
+
+#ifdef CTHASH_STDFMT_AVAILABLE
+template <typename Encoding, typename R, typename CharT>
+struct formatter<cthash::encode_to_view<Encoding, CharT, R>, CharT> {
+	using subject_type = cthash::encode_to_view<Encoding, CharT, R>;
+
+	template <typename ParseContext> constexpr auto parse(ParseContext & ctx) {
+		return std::ranges::begin(ctx);
+	}
+
+	template <typename FormatContext> constexpr auto format(const subject_type & value, FormatContext & ctx) const {
+		return std::ranges::copy(value, ctx.out()).out;
+	}
+};
+
+#endif
+
+} // namespace std
+
 #endif
 
 #ifndef CTHASH_INTERNAL_ALGORITHM_HPP
-- 
2.43.0


From 77d85a61aeeeda380e1142bbb4f3e9924baa36a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:59 +0000
Subject: [PATCH 14/17] fix: checksum: file which can't be sized or mapped is
 reported, not accessed

---
 checksum.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/checksum.cpp b/checksum.cpp
index eab5903..b904d81 100644
--- a/checksum.cpp
+++ b/checksum.cpp
@@ -7,6 +7,7 @@
 
 struct mapped_file {
 	static constexpr int invalid = -1;
+	static constexpr size_t unknown_size = static_cast<size_t>(-1);
 
 	int fd{invalid};
 	size_t sz{0};
@@ -20,18 +21,34 @@ struct mapped_file {
 		return (size_t)lseek(fd, 0, SEEK_END);
 	}
 
-	mapped_file(const char * path): fd{open(path, O_RDONLY)}, sz{get_size(fd)}, ptr{mmap(nullptr, sz, PROT_READ, MAP_PRIVATE, fd, 0)} { }
+	static void * map(int fd, size_t sz) {
+		// there is nothing to map without a file, without its size, or in an empty file
+		if (fd == invalid || sz == unknown_size || sz == 0) {
+			return nullptr;
+		}
+
+		void * ptr = mmap(nullptr, sz, PROT_READ, MAP_PRIVATE, fd, 0);
+		return ptr != MAP_FAILED ? ptr : nullptr;
+	}
+
+	mapped_file(const char * path): fd{open(path, O_RDONLY)}, sz{get_size(fd)}, ptr{map(fd, sz)} { }
 
 	mapped_file(const mapped_file &) = delete;
 	mapped_file(mapped_file &&) = delete;
 
 	~mapped_file() {
-		if (ptr && fd != invalid) {
+		if (ptr) {
 			munmap(ptr, sz);
+		}
+		if (fd != invalid) {
 			close(fd);
 		}
 	}
 
+	bool is_readable() const noexcept {
+		return sz == 0 || ptr != nullptr;
+	}
+
 	auto get_span() const noexcept {
 		return std::span<const std::byte>(reinterpret_cast<std::byte *>(ptr), sz);
 	}
@@ -54,6 +71,11 @@ int main(int argc, char ** argv) {
 		return 1;
 	}
 
+	if (!f.is_readable()) {
+		std::cerr << "can't read file!\n";
+		return 1;
+	}
+
 	const auto start = std::chrono::high_resolution_clock::now();
 
 	if (h == "sha-224") {
-- 
2.43.0


From 7bc84a1afb17182b37849b04e8e3563ac5f6dee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:59 +0000
Subject: [PATCH 15/17] fix: checksum: usage lists the supported name
 sha-512/224

---
 checksum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/checksum.cpp b/checksum.cpp
index b904d81..6eff4ee 100644
--- a/checksum.cpp
+++ b/checksum.cpp
@@ -57,7 +57,7 @@ struct mapped_file {
 int main(int argc, char ** argv) {
 	if (argc < 3) {
 		std::cerr << argv[0] << " hash file\n";
-		std::cerr << "hash is one of: sha-224, sha-256, sha-384, sha-512, sha-512/223, sha-512/256, sha3-224, sha3-256, sha3-384, sha3-512, \n";
+		std::cerr << "hash is one of: sha-224, sha-256, sha-384, sha-512, sha-512/224, sha-512/256, sha3-224, sha3-256, sha3-384, sha3-512, \n";
 		std::cerr << "  shake-128/n, shake-256/n (where n is 32/64/128/256/512/1024/2048),\n";
 		std::cerr << "  xxhash32, xxhash64\n";
 		return 1;
-- 
2.43.0


From 882a816e75845e3fc89a843096ff311a94ddf30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:59 +0000
Subject: [PATCH 16/17] fix: checksum: digest which can't be written is an
 error

---
 checksum.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/checksum.cpp b/checksum.cpp
index 6eff4ee..1464fe3 100644
--- a/checksum.cpp
+++ b/checksum.cpp
@@ -135,6 +135,11 @@ int main(int argc, char ** argv) {
 		return 1;
 	}
 
+	if (!std::cout.flush()) {
+		std::cerr << "can't write the digest!\n";
+		return 1;
+	}
+
 	const auto end = std::chrono::high_resolution_clock::now();
 	const auto dur = end - start;
 
-- 
2.43.0


From 4389ef4fc46311a624db028d27b49b507b2c9fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:24 +0000
Subject: [PATCH 17/17] fix: size of unpadded encodings overflowed for inputs
 whose number of bits exceeds size_t

---
 include/cthash-single-header.hpp          | 6 +++---
 include/cthash/encoding/chunk-of-bits.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index ed60ff3..ab403f6 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -572,9 +572,9 @@ template <size_t Bits, bool AllowPadding, std::ranges::input_range Input> requir
 	}
 
 	constexpr size_t size() const noexcept requires(std::ranges::sized_range<Input> && !AllowPadding) {
-		// calculate with bits
-		const size_t bit_size_of_input = std::ranges::size(input) * input_value_bit_size;
-		return (bit_size_of_input + (output_value_bit_size - 1u)) / output_value_bit_size;
+		// calculate with bits (whole groups of inputs first, so the number of bits cannot overflow)
+		const size_t count = std::ranges::size(input);
+		return (count / output_value_bit_size) * input_value_bit_size + ((count % output_value_bit_size) * input_value_bit_size + (output_value_bit_size - 1u)) / output_value_bit_size;
 	}
 };
 
diff --git a/include/cthash/encoding/chunk-of-bits.hpp b/include/cthash/encoding/chunk-of-bits.hpp
index 7b47f6a..45f069b 100644
--- a/include/cthash/encoding/chunk-of-bits.hpp
+++ b/include/cthash/encoding/chunk-of-bits.hpp
@@ -241,9 +241,9 @@ template <size_t Bits, bool AllowPadding, std::ranges::input_range Input> requir
 	}
 
 	constexpr size_t size() const noexcept requires(std::ranges::sized_range<Input> && !AllowPadding) {
-		// calculate with bits
-		const size_t bit_size_of_input = std::ranges::size(input) * input_value_bit_size;
-		return (bit_size_of_input + (output_value_bit_size - 1u)) / output_value_bit_size;
+		// calculate with bits (whole groups of inputs first, so the number of bits cannot overflow)
+		const size_t count = std::ranges::size(input);
+		return (count / output_value_bit_size) * input_value_bit_size + ((count % output_value_bit_size) * input_value_bit_size + (output_value_bit_size - 1u)) / output_value_bit_size;
 	}
 };
 
-- 
2.43.0

