#!/usr/bin/env python3
"""Planted bugs, first series (writes seeded/a-*)."""
import hashlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed_lib import seed
H = 'include/cthash/hasher.hpp'
S3 = 'include/cthash/sha3/common.hpp'
XX = 'include/cthash/xxhash.hpp'
V = 'include/cthash/value.hpp'
B = 'include/cthash/encoding/base.hpp'
BB = 'include/cthash/encoding/bit-buffer.hpp'
CH = 'include/cthash/encoding/chunk-of-bits.hpp'
EN = 'include/cthash/encoding/encodings.hpp'
CV = 'include/cthash/internal/convert.hpp'
AL = 'include/cthash/internal/algorithm.hpp'
HX = 'include/cthash/internal/hexdec.hpp'
BI = 'include/cthash/internal/bit.hpp'
SH = 'include/cthash-single-header.hpp'
CK = 'checksum.cpp'

PRE = '''#include <cthash/cthash.hpp>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <sstream>
#include <format>
#include <span>
static int bad = 0;
[[maybe_unused]] static void expect(bool ok, const char * what) { if (!ok) { std::printf("broken: %s\\n", what); bad = 1; } }
[[maybe_unused]] static void expect_hex(const std::string & got, const std::string & want, const char * what) { if (got != want) { std::printf("broken: %s: %s instead of %s\\n", what, got.c_str(), want.c_str()); bad = 1; } }
template <typename V> std::string hex(const V & v) { static const char d[] = "0123456789abcdef"; std::string r; for (auto b: v) { r += d[unsigned(b) >> 4]; r += d[unsigned(b) & 15u]; } return r; }
'''
def pattern(n):
	return bytes((i * 7 + 3) & 0xff for i in range(n))
PAT = '''[[maybe_unused]] static std::vector<std::byte> pattern(size_t n) { std::vector<std::byte> r; for (size_t i = 0; i != n; ++i) r.push_back(static_cast<std::byte>(i * 7 + 3)); return r; }
'''

# C01: room for the length field judged by what is counted, not by what is written
seed('a-c01-length-field', 'C01',
	[(H, 'return free_space.size() < (1u + (config.length_size_bits / 8u));', 'return free_space.size() < (1u + sizeof(length_t));')],
	needs='SHA-384/512 and a message whose length modulo 128 is 112..119',
	breaks='the 128-bit length field does not fit any more but no extra block is processed, so the digest is not the FIPS 180-4 one',
	cpp=PRE + PAT + 'int main() {\n' + ''.join('expect_hex(hex(cthash::sha512{}.update(std::span<const std::byte>(pattern(%d))).final()), "%s", "sha512 of %d bytes");\n' % (n, hashlib.sha512(pattern(n)).hexdigest(), n) for n in (0, 111, 112, 116, 119, 120, 128, 245)) + 'return bad; }\n')

# C02: three digit name built for every t
seed('a-c02-short-name', 'C02',
	[('include/cthash/sha2/sha512/t.hpp', "\t\t} else if (t < 100u) {", "\t\t} else if (t <= 104u) {")],
	needs='SHA-512/104',
	breaks='the initial value is generated from the name SHA-512/04',
	cpp=PRE + '''#include <openssl_free_reference.hpp>
int main() {
	// SHA-512/t of "abc" by the reference construction (t-specific initial value, then truncation)
	expect_hex(hex(cthash::sha512t<96>{}.update("abc").final()), ref512t(96, "abc"), "t=96");
	expect_hex(hex(cthash::sha512t<104>{}.update("abc").final()), ref512t(104, "abc"), "t=104");
	expect_hex(hex(cthash::sha512t<8>{}.update("abc").final()), ref512t(8, "abc"), "t=8");
	expect_hex(hex(cthash::sha512t<256>{}.update("abc").final()), ref512t(256, "abc"), "t=256");
	return bad;
}
'''.replace('<openssl_free_reference.hpp>', '"ref512t.hpp"'),
	files={'ref512t.hpp': '''#pragma once
// straightforward SHA-512/t (FIPS 180-4, 5.3.6), independent of the library
#include <cstdint>
#include <string>
#include <vector>
inline void compress512(uint64_t (&h)[8], const unsigned char * p) {
	static uint64_t k[80]; static bool init = false;
	if (!init) { // fractional parts of cube roots of the first 80 primes
		init = true; unsigned n = 0;
		for (unsigned c = 2; n != 80; ++c) {
			bool prime = true; for (unsigned d = 2; d * d <= c; ++d) if (c % d == 0) prime = false;
			if (!prime) continue;
			// floor(cbrt(c) * 2^64) mod 2^64 by binary search on 72 bit numbers: x^3 <= c * 2^192, arithmetic in 32-bit limbs
			auto le = [&](unsigned __int128 x) {
				uint32_t a[3] = {uint32_t(x), uint32_t(x >> 32), uint32_t(x >> 64)}; uint32_t sq[6] = {}, cu[9] = {};
				for (int i = 0; i != 3; ++i) { uint64_t cy = 0; for (int j = 0; j != 3; ++j) { uint64_t v = uint64_t(a[i]) * a[j] + sq[i + j] + cy; sq[i + j] = uint32_t(v); cy = v >> 32; } for (int q = i + 3; cy && q < 6; ++q) { uint64_t v = sq[q] + cy; sq[q] = uint32_t(v); cy = v >> 32; } }
				for (int i = 0; i != 6; ++i) { uint64_t cy = 0; for (int j = 0; j != 3; ++j) { uint64_t v = uint64_t(sq[i]) * a[j] + cu[i + j] + cy; cu[i + j] = uint32_t(v); cy = v >> 32; } for (int q = i + 3; cy && q < 9; ++q) { uint64_t v = cu[q] + cy; cu[q] = uint32_t(v); cy = v >> 32; } }
				uint32_t lim[9] = {}; lim[6] = c;
				for (int i = 8; i >= 0; --i) if (cu[i] != lim[i]) return cu[i] < lim[i];
				return true;
			};
			unsigned __int128 x = 0;
			for (int b = 67; b >= 0; --b) { auto y = x | ((unsigned __int128)1 << b); if (le(y)) x = y; }
			k[n++] = uint64_t(x);
		}
	}
	auto r = [](uint64_t v, int s) { return (v >> s) | (v << (64 - s)); };
	uint64_t w[80];
	for (int i = 0; i != 16; ++i) { w[i] = 0; for (int j = 0; j != 8; ++j) w[i] = (w[i] << 8) | p[i * 8 + j]; }
	for (int i = 16; i != 80; ++i) w[i] = w[i - 16] + (r(w[i - 15], 1) ^ r(w[i - 15], 8) ^ (w[i - 15] >> 7)) + w[i - 7] + (r(w[i - 2], 19) ^ r(w[i - 2], 61) ^ (w[i - 2] >> 6));
	uint64_t s[8]; for (int i = 0; i != 8; ++i) s[i] = h[i];
	for (int i = 0; i != 80; ++i) {
		uint64_t t1 = s[7] + (r(s[4], 14) ^ r(s[4], 18) ^ r(s[4], 41)) + ((s[4] & s[5]) ^ (~s[4] & s[6])) + k[i] + w[i];
		uint64_t t2 = (r(s[0], 28) ^ r(s[0], 34) ^ r(s[0], 39)) + ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
		for (int j = 7; j; --j) s[j] = s[j - 1];
		s[4] += t1; s[0] = t1 + t2;
	}
	for (int i = 0; i != 8; ++i) h[i] += s[i];
}
inline void hash512(uint64_t (&h)[8], const std::string & m) {
	std::vector<unsigned char> b(m.begin(), m.end()); b.push_back(0x80); while (b.size() % 128 != 112) b.push_back(0);
	for (int i = 0; i != 8; ++i) b.push_back(0);
	for (int i = 7; i >= 0; --i) b.push_back((unsigned char)((uint64_t(m.size()) * 8u) >> (8 * i)));
	for (size_t i = 0; i != b.size(); i += 128) compress512(h, b.data() + i);
}
inline std::string ref512t(unsigned t, const std::string & m) {
	uint64_t h[8] = {0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull, 0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull};
	for (auto & v: h) v ^= 0xa5a5a5a5a5a5a5a5ull;
	hash512(h, "SHA-512/" + std::to_string(t)); hash512(h, m);
	std::string o; static const char d[] = "0123456789abcdef";
	for (unsigned i = 0; i != t / 8; ++i) { unsigned v = (h[i / 8] >> (56 - 8 * (i % 8))) & 255u; o += d[v >> 4]; o += d[v & 15]; }
	return o;
}
'''})

# C03: padding when exactly one byte of the rate is left
seed('a-c03-one-byte-padding', 'C03',
	[(S3, 'internal_state[position / sizeof(uint64_t)] ^= uint64_t(suffix_and_start_of_padding) << ((position % sizeof(uint64_t)) * 8u);\n\t\tinternal_state[(rate - 1u) / sizeof(uint64_t)] ^= 0x8000000000000000ull; // last bit',
	  '// when only one byte is left both ends of the padding share it\n\t\tconst std::byte first = (position + 1u == rate) ? (suffix_and_start_of_padding | (std::byte{0b0000\'0001u} << 7u)) : suffix_and_start_of_padding;\n\t\tinternal_state[position / sizeof(uint64_t)] ^= uint64_t(first) << ((position % sizeof(uint64_t)) * 8u);\n\t\tinternal_state[(rate - 1u) / sizeof(uint64_t)] ^= 0x8000000000000000ull; // last bit')],
	needs='a message whose length modulo the rate is rate - 1 (e.g. 135 bytes for SHA3-256)',
	breaks='the last padding bit is xored twice and disappears',
	cpp=PRE + PAT + 'int main() {\n' + ''.join('expect_hex(hex(cthash::sha3_256{}.update(std::span<const std::byte>(pattern(%d))).final()), "%s", "sha3-256 of %d bytes");\n' % (n, hashlib.sha3_256(pattern(n)).hexdigest(), n) for n in (0, 134, 135, 136, 271)) + 'return bad; }\n')

# C04: tail of the output begins a new block
seed('a-c04-squeeze-tail', 'C04',
	[(S3, '''			// if we ran out of `rate` part, we need to squeeze another block
			if (r.empty()) {
				keccak_f(internal_state);
				r = std::span<const value_t>(internal_state).first(rate / sizeof(value_t));
			}

			const value_t current = r.front();
''', '''			// there is at least one value left (aligned part ends before the last one)
			const value_t current = *r.data();
''')],
	needs='SHAKE output longer than the rate by 1..7 bytes (or a multiple of the rate plus 1..7), e.g. shake128 final<(168 + 4) * 8>',
	breaks='the tail comes from the capacity part of the state instead of the next squeezed block',
	cpp=PRE + PAT + 'int main() {\n' + ''.join('expect_hex(hex(cthash::shake%d{}.update("abc").final<%d * 8>()), "%s", "shake%d, %d bytes");\n' % (a, n, getattr(hashlib, 'shake_%d' % a)(b'abc').hexdigest(n), a, n) for a, n in ((128, 4), (128, 168), (128, 172), (128, 176), (128, 337), (256, 136), (256, 139), (256, 272 + 7))) + 'return bad; }\n')

# C05: 64-bit seed loses its upper half only for short input
seed('a-c05-short-seed', 'C05',
	[(XX, 'return seed + config::primes[4];', 'return static_cast<uint32_t>(seed) + config::primes[4];')],
	needs='XXH64 of an input shorter than 32 bytes with a seed of 2^32 or more',
	breaks='upper half of the seed is ignored for short input',
	cpp=PRE + '''int main() {
	// reference value of the empty input: avalanche(seed + prime5)
	auto want = [](uint64_t seed) { uint64_t h = seed + 2870177450012600261ULL; h = (h ^ (h >> 33)) * 14029467366897019727ULL; h = (h ^ (h >> 29)) * 1609587929392839161ULL; h ^= h >> 32; std::string r; static const char d[] = "0123456789abcdef"; for (int i = 60; i >= 0; i -= 4) r += d[(h >> i) & 15]; return r; };
	for (uint64_t seed: {uint64_t(0), uint64_t(0xffffffff), uint64_t(1) << 32, ~uint64_t(0)}) expect_hex(hex(cthash::xxhash64(seed).update(std::string_view("")).final()), want(seed), "empty input");
	return bad;
}
''')

# C06: rest of the block is not cleared completely
seed('a-c06-stale-tail', 'C06',
	[(H, 'std::fill(it, (block.data() + block.size()), std::byte{0x0u}); // rest is filled with zeros',
	  "// rest is filled with zeros (except the length, which is going to be written there)\n\t\tstd::fill(it, (free_space.size() > sizeof(length_t)) ? (block.data() + block.size() - sizeof(length_t)) : (block.data() + block.size()), std::byte{0x0u});")],
	needs='SHA-384/512, total length modulo 128 in 112..119, and an earlier block that went through the internal buffer (the message was supplied in pieces)',
	breaks='no length is written into that block, so bytes of the previous block stay in its end and enter the digest',
	cpp=PRE + PAT + '''int main() {
	for (size_t n: {116u, 128u + 115u, 128u + 118u, 300u}) {
		const auto m = pattern(n); const auto s = std::span<const std::byte>(m);
		const auto whole = cthash::sha512{}.update(s).final();
		for (size_t cut = 0; cut <= n; ++cut) expect(cthash::sha512{}.update(s.first(cut)).update(s.subspan(cut)).final() == whole, "split changes the sha512 digest");
	}
	return bad;
}
''')

# C07: word-wise absorbing looks only at the size of the piece
seed('a-c07-word-absorb', 'C07',
	[(S3, "std::transform(place.data(), place.data() + place.size(), input.data(), place.data(), [](std::byte lhs, auto rhs) { return lhs ^ static_cast<std::byte>(rhs); });\n",
	 '''if (std::same_as<T, std::byte> && place.size() % sizeof(value_t) == 0u) {
				// whole values
				for (size_t i = 0; i != place.size() / sizeof(value_t); ++i) {
					internal_state[position / sizeof(value_t) + i] ^= cast_from_le_bytes<value_t>(input.subspan(i * sizeof(value_t)).template first<sizeof(value_t)>());
				}
			} else {
				std::transform(place.data(), place.data() + place.size(), input.data(), place.data(), [](std::byte lhs, auto rhs) { return lhs ^ static_cast<std::byte>(rhs); });
			}
''')],
	needs='a piece of a multiple of 8 std::bytes supplied when the number of bytes in the block is not a multiple of 8',
	breaks='the piece is absorbed at the wrong position of the state',
	cpp=PRE + PAT + '''int main() {
	const auto m = pattern(200); const auto s = std::span<const std::byte>(m);
	const auto whole = cthash::sha3_256{}.update(s).final();
	for (size_t a = 0; a <= 200; ++a) for (size_t b = a; b <= 200; ++b) if (!(cthash::sha3_256{}.update(s.first(a)).update(s.subspan(a, b - a)).update(s.subspan(b)).final() == whole)) bad = 1;
	if (bad) std::puts("broken: split changes the sha3-256 digest");
	return bad;
}
''')

# C08: a piece that ends exactly at the end of a block is left for later, in both places that have to know it ... only one does
seed('a-c08-lazy-block', 'C08',
	[(XX, "// if we didn't fill current block, we will do it later\n\t\t\tif (buffer_remaining.size() != to_copy.size()) {\n\t\t\t\tCTHASH_ASSERT(input.size() == 0u);",
	  "// if we didn't fill current block (or there is nothing after it), we will do it later\n\t\t\tif (buffer_remaining.size() != to_copy.size() || (input.empty() && length > 4u * buffer.size())) {\n\t\t\t\tCTHASH_ASSERT(input.size() == 0u);")],
	needs='streaming: more than four blocks in total and a piece that fills a partially filled buffer exactly',
	breaks='the full buffer is never processed, so the data in it does not enter the result',
	cpp=PRE + PAT + '''int main() {
	const auto m = pattern(200); const auto s = std::span<const std::byte>(m);
	for (size_t n = 0; n <= 200; ++n) {
		const auto whole = cthash::xxhash64(7u).update(s.first(n)).final();
		const auto whole32 = cthash::xxhash32(7u).update(s.first(n)).final();
		for (size_t a = 0; a <= n; ++a) {
			if (!(cthash::xxhash64(7u).update(s.first(a)).update(s.subspan(a, n - a)).final() == whole)) bad = 1;
			if (!(cthash::xxhash32(7u).update(s.first(a)).update(s.subspan(a, n - a)).final() == whole32)) bad = 1;
		}
	}
	if (bad) std::puts("broken: split changes the xxhash value");
	return bad;
}
''')

# C09: length counted in 32 bits
seed('a-c09-length32', 'C09',
	[('include/cthash/sha2/sha256.hpp', 'using length_type = uint64_t;', 'using length_type = uint32_t;'),
	 (H, 'total_length += to_copy.size();', 'total_length += static_cast<length_t>(to_copy.size());')],
	needs='SHA-224/256 and 4 GiB of data in total',
	breaks='the byte counter wraps at 2^32 bytes',
	cpp=PRE + '''int main() {
	// zero bytes supplied in 1 MiB pieces: the counter must not return to zero
	std::vector<std::byte> piece(1u << 20);
	cthash::sha256 h;
	for (unsigned i = 0; i != 4096; ++i) h.update(std::span<const std::byte>(piece));
	expect(static_cast<unsigned long long>(h.size()) == (1ull << 32), "size() after 4 GiB");
	return bad;
}
''', flags='-O2')

# C10: unaligned position in the constant evaluated branch
seed('a-c10-unaligned-prefix', 'C10',
	[(S3, 'if (position % sizeof(value_t) != 0u) {', 'if ((position % sizeof(value_t) != 0u) && ((position % sizeof(value_t)) + input.size() >= sizeof(value_t))) {'),
	 (S3, 'internal_state[position / sizeof(value_t)] ^= convert_prefix_into_value<value_t>(input, 0u);', 'internal_state[position / sizeof(value_t)] ^= convert_prefix_into_value<value_t>(input, 0u); // always starts a new value')],
	needs='constant evaluation, and a short piece which does not reach the end of the 8-byte word the previous one left unfinished',
	breaks='the piece is absorbed at the beginning of the word',
	cpp=PRE + '''constexpr auto at_compile_time = cthash::sha3_256{}.update("ab").update("cd").update("efghijkl").final();
int main() {
	expect_hex(hex(at_compile_time), hex(cthash::sha3_256{}.update("abcdefghijkl").final()), "compile-time digest differs");
	return bad;
}
''')

# C11: last bytes taken as (signed) characters
seed('a-c11-signed-tail', 'C11',
	[(XX, """			const auto lane = read_le_number_from<uint8_t>(input);
			acc = (std::rotl(acc xor (lane * primes[4]), 11u) * primes[0]);""", """			const auto lane = static_cast<value_type>(input.front());
			input = input.subspan(1u);
			acc = (std::rotl(acc xor (lane * primes[4]), 11u) * primes[0]);""")],
	needs='one-call XXH64 of a signed character type with a byte of 0x80 or above in the last 1..3 bytes',
	breaks='the byte is sign-extended; streaming (which buffers std::byte) is not affected',
	cpp=PRE + '''int main() {
	const char c[3] = {'a', char(0xe9), 'b'};
	const std::byte b[3] = {std::byte('a'), std::byte(0xe9), std::byte('b')};
	expect_hex(hex(cthash::xxhash64{}.update_and_final(std::span<const char>(c))), hex(cthash::xxhash64{}.update_and_final(std::span<const std::byte>(b))), "char and byte differ");
	expect_hex(hex(cthash::simple<cthash::xxhash64>(std::string_view(c, 3))), hex(cthash::xxhash64{}.update(std::span<const std::byte>(b)).final()), "string_view and byte differ");
	return bad;
}
''')

# C12: copy takes only whole words of the buffered data
seed('a-c12-copy-words', 'C12',
	[(H, 'constexpr internal_hasher(const internal_hasher &) noexcept = default;\n\tconstexpr internal_hasher(internal_hasher &&) noexcept = default;',
	  'constexpr internal_hasher(const internal_hasher & other) noexcept: hash{other.hash}, total_length{other.total_length}, block{}, block_used{other.block_used} {\n\t\t// only the used part is interesting\n\t\tstd::copy_n(other.block.begin(), (block_used / sizeof(state_item_t)) * sizeof(state_item_t), block.begin());\n\t}\n\tconstexpr internal_hasher(internal_hasher &&) noexcept = default;')],
	needs='a copy of a SHA-2 hasher holding a number of buffered bytes which is not a multiple of the word size',
	breaks='the last bytes of the buffered data are zero in the copy',
	cpp=PRE + '''int main() {
	for (const char * p: {"", "abc", "abcd", "abcde", "abcdefgh"}) {
		cthash::sha256 a; a.update(std::string_view(p));
		cthash::sha256 b(a);
		expect(a.update(std::string_view("xyz")).final() == b.update(std::string_view("xyz")).final(), "copy differs from the original");
	}
	return bad;
}
''')

# C13: remainder is copied with fixed size
seed('a-c13-overread', 'C13',
	[(XX, '// copy remainder of input to the buffer, so it\'s processed later\n\t\tbyte_copy(input.begin(), input.end(), buffer.begin());',
	  '// copy remainder of input to the buffer, so it\'s processed later\n\t\tif (!std::is_constant_evaluated() && length >= buffer.size() && input.size() > sizeof(value_type)) {\n\t\t\t// whole buffer at once is faster, what is after the end of input is never used\n\t\t\t__builtin_memcpy(buffer.data(), input.data(), buffer.size());\n\t\t\treturn *this;\n\t\t}\n\t\tbyte_copy(input.begin(), input.end(), buffer.begin());')],
	needs='xxHash input longer than one block whose end lies at the end of the readable memory',
	breaks='up to a block is read after the end of the input',
	cpp=PRE + '''#include <sys/mman.h>
#include <unistd.h>
int main() {
	const size_t page = static_cast<size_t>(sysconf(_SC_PAGESIZE));
	auto * p = static_cast<unsigned char *>(mmap(nullptr, 2 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
	if (p == MAP_FAILED || mprotect(p + page, page, PROT_NONE) != 0) return 2;
	for (size_t n = 0; n != 200; ++n) {
		const auto s = std::span<const unsigned char>(p + page - n, n);
		(void)hex(cthash::xxhash64{}.update(s).final());
		(void)hex(cthash::xxhash32{}.update(s).final());
	}
	return bad;
}
''')

# C14: size in bits counted in 32 bits
seed('a-c14-size-wraps', 'C14',
	[(CH, 'const size_t bit_size_of_input = std::ranges::size(input) * input_value_bit_size;', 'const auto bit_size_of_input = static_cast<unsigned>(std::ranges::size(input) * input_value_bit_size);')],
	needs='an encoding without padding of 2^29 bytes or more',
	breaks='the reported size is taken modulo 2^32 bits',
	cpp=PRE + '''int main() {
	// no element is read, so the span does not have to be backed
	static const std::byte one{};
	const auto s = std::span<const std::byte>(&one, (size_t(1) << 29) + 3u);
	expect((s | cthash::encode_to<cthash::encoding::base64url, char>).size() == (((size_t(1) << 29) + 3u) * 8u + 5u) / 6u, "size of base64url");
	expect((s | cthash::encode_to<cthash::encoding::base16, char>).size() == ((size_t(1) << 29) + 3u) * 2u, "size of base16");
	return bad;
}
''')

# C15: output through a fixed chunk
seed('a-c15-chunked-print', 'C15',
	[(V, '''		std::ranges::copy(hexdec_view, std::ostream_iterator<CharT, CharT>(os));
		return os;''', '''		// formatted output of each character is slow
		std::array<CharT, 256> chunk;
		size_t used = 0;
		for (const CharT c: hexdec_view) {
			if (used == chunk.size()) {
				os << std::basic_string_view<CharT>(chunk.data(), used);
				used = 0;
				continue;
			}
			chunk[used++] = c;
		}
		os << std::basic_string_view<CharT>(chunk.data(), used);
		return os;''')],
	needs='stream output of a text longer than 256 characters (SHAKE outputs over 128 bytes, SHA-512 in base2)',
	breaks='every 257th character is missing from the stream output, to_string and format have it',
	cpp=PRE + '''int main() {
	const auto v = cthash::shake128{}.update("abc").final<2048>();
	std::ostringstream o; o << v;
	expect_hex(o.str(), hex(v), "stream output");
	const auto w = cthash::sha512{}.update("abc").final();
	std::ostringstream p; w.print_into<cthash::encoding::base2>(p);
	expect_hex(p.str(), to_string<cthash::encoding::base2>(w), "stream output in base2");
	return bad;
}
''')

# C16: name ends at the first zero
seed('a-c16-embedded-zero', 'C16',
	[(EN, 'const std::string_view name = std::string_view(buffer.data(), static_cast<size_t>(std::distance(buffer.begin(), out)));',
	  "// buffer is filled with zeros after the name\n\tconst std::string_view name = std::string_view(buffer.data(), static_cast<size_t>(std::distance(buffer.begin(), std::find(buffer.begin(), out, '\\0'))));")],
	needs='a name followed by a zero character (or, in a wide format string, by a character which does not fit into char)',
	breaks='the text is accepted as the name before the zero',
	cpp=PRE + '''template <typename S> bool rejected(S fmt) { const auto v = cthash::sha256{}.update("abc").final(); try { (void)std::vformat(fmt, std::make_format_args(v)); return false; } catch (const std::exception &) { return true; } }
static bool wrejected(std::wstring_view fmt) { const auto v = cthash::sha256{}.update("abc").final(); try { (void)std::vformat(fmt, std::make_wformat_args(v)); return false; } catch (const std::exception &) { return true; } }
int main() {
	expect(!rejected(std::string_view("{:base64}")), "base64 must be accepted");
	expect(!wrejected(L"{:base64}"), "wide base64 must be accepted");
	expect(rejected(std::string_view("{:base64\\0x}", 12)), "base64 with zero is accepted");
	expect(rejected(std::string_view("{:base64x}")), "base64x is accepted");
	expect(wrejected(L"{:base64\\u0416}"), "wide base64 with a letter is accepted");
	return bad;
}
''')

# C17: last upper case digit
seed('a-c17-upper-f', 'C17',
	[(HX, "} else if (c >= 'A' && c <= 'F') {", "} else if (c >= 'A' && c < 'F') {")],
	needs='an upper-case F in the parsed text',
	breaks='F is parsed as 0',
	cpp=PRE + '''int main() {
	const auto v = cthash::hash_value<4>("00fF0FEa");
	expect_hex(hex(v), "00ff0fea", "parsed value");
	return bad;
}
''')

# C18: word-wise comparison
seed('a-c18-word-compare', 'C18',
	[(AL, 'for (size_t i = 0; i != length; ++i) {', '''if (!std::is_constant_evaluated() && (length % 8u) == 0u) {
		// whole words at once
		for (size_t i = 0; i != length; i += 8u, lhs += 8, rhs += 8) {
			unsigned long long l, r;
			__builtin_memcpy(&l, &*lhs, 8u);
			__builtin_memcpy(&r, &*rhs, 8u);
			if (l != r) {
				return l <=> r;
			}
		}
		return std::strong_ordering::equal;
	}

	for (size_t i = 0; i != length; ++i) {''')],
	needs='run-time ordering of digests which differ in more than one byte of the same 8-byte word',
	breaks='the last differing byte of the word decides instead of the first one',
	cpp=PRE + '''int main() {
	cthash::hash_value<16> a{}, b{};
	a[9] = std::byte{1}; b[9] = std::byte{2}; a[12] = std::byte{9};
	expect(a < b && !(b < a) && a <= b && b > a, "order of a and b");
	a[1] = std::byte{0x80};
	expect(a > b, "order after a change at the beginning");
	return bad;
}
''')

# C19: implicit conversion from text
seed('a-c19-implicit-text', 'C19',
	[(V, 'template <typename CharT> explicit constexpr hash_value(const CharT (&in)[N * 2u + 1u]) noexcept', 'template <typename CharT> constexpr hash_value(const CharT (&in)[N * 2u + 1u]) noexcept')],
	needs='a string literal of matching length where a digest is expected',
	breaks='hexadecimal text converts implicitly',
	cpp=PRE + '''#include <type_traits>
int main() {
	expect(!std::is_convertible_v<const char (&)[9], cthash::hash_value<4>>, "text converts implicitly to a plain value");
	expect(!std::is_convertible_v<const char (&)[65], cthash::sha256_value>, "text converts implicitly to a sha256 value");
	expect(std::is_constructible_v<cthash::hash_value<4>, const char (&)[9]>, "text converts explicitly");
	return bad;
}
''')

