#!/usr/bin/env python3
"""Planted bugs, second series (writes seeded/b-*)."""
import hashlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed_lib import seed
import re
exec(re.search(r"^H = .*?^PAT = .*?^'''\n", open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_a.py')).read(), re.S | re.M).group(0))

# C20: padding computed for bytes
seed('b-c20-byte-padding', 'C20',
	[(BB, 'static_cast<size_type>(calculate_padding_bit_count(super::size(), out_bits, in_bits))', 'static_cast<size_type>(calculate_padding_bit_count(super::size(), out_bits, 8u))')],
	needs='padded regrouping of 16-bit (or wider) elements to a width that does not divide them',
	breaks='the group block of bytes is completed, not the one of the elements: groups are missing at the end',
	cpp=PRE + '''#include <cstdint>
int main() {
	const std::vector<uint16_t> v{0x1234};
	auto view = v | cthash::chunk_of_bits<6, true>;
	size_t n = 0; for (auto g: view) { (void)g; ++n; }
	expect(n == view.size() && n == 8, "number of groups");
	return bad;
}
'''.replace('auto view = v | cthash::chunk_of_bits<6, true>;', 'const auto view = cthash::chunk_of_bits_view<6, true, std::span<const uint16_t>>(std::span<const uint16_t>(v));'))

# C21: single header only
seed('b-c21-alias', 'C21',
	[(SH, '\t\tstatic constexpr std::string_view alt_name = "zbase32";\n', '')],
	needs='the single header and the alias zbase32 in a format specification',
	breaks='the name is rejected there, the modular headers accept it',
	sh='''cat > "$work/demo.cpp" <<'X'
#ifdef ONE
#include <cthash-single-header.hpp>
#else
#include <cthash/cthash.hpp>
#endif
#include <cstdio>
#include <format>
#include <iostream>
int main() { const auto v = cthash::sha256{}.update("abc").final(); try { std::cout << std::format("{}", std::vformat("{:zbase32}", std::make_format_args(v))) << std::endl; } catch (const std::exception &) { std::cout << "rejected" << std::endl; } }
X
g++-14 -std=c++23 -I "$PWD/include" -DONE "$work/demo.cpp" -o "$work/one" || exit 3
g++-14 -std=c++23 -I "$PWD/include" "$work/demo.cpp" -o "$work/mod" || exit 3
"$work/one" > "$work/one.txt"; "$work/mod" > "$work/mod.txt"
cmp "$work/one.txt" "$work/mod.txt" || { echo "broken: single header prints $(cat "$work/one.txt")"; exit 1; }
''')
seed('b-c21-rounds', 'C21',
	[(SH, 'if (remaining_in_buffer > input.size()) {', 'if (remaining_in_buffer > input.size() || (position == 0u && input.size() == rate)) {'),],
	needs='the single header and a SHA-3 update of exactly one block at the beginning of a block',
	breaks='the block is not permuted and the assertion fails',
	sh='''cat > "$work/demo.cpp" <<'X'
#include <cthash-single-header.hpp>
#include <cstdio>
#include <vector>
int main() { std::vector<std::byte> v(136, std::byte{1}); const auto a = cthash::sha3_256{}.update(std::span<const std::byte>(v)).final(); const auto b = cthash::sha3_256{}.update(std::span<const std::byte>(v).first(1)).update(std::span<const std::byte>(v).subspan(1)).final(); return a == b ? 0 : 1; }
X
g++-14 -std=c++23 -I "$PWD/include" "$work/demo.cpp" -o "$work/one" || exit 3
"$work/one" || { echo "broken: single header fails on one block"; exit 1; }
''')

# C22
CLI = '''g++-14 -std=c++23 -O2 -I "$PWD/include" "$PWD/checksum.cpp" -o "$work/checksum" || exit 3
'''
seed('b-c22-prefix-name', 'C22',
	[(CK, '} else if (h == "shake-256/32") {', '} else if (h.starts_with("shake-256/32")) {')],
	needs='an unknown name which begins with shake-256/32',
	breaks='shake-256/320 prints a digest (of another length) and exits 0',
	sh=CLI + '''printf abc > "$work/f"
"$work/checksum" shake-256/32 "$work/f" > "$work/o" 2> "$work/e" || exit 1
[ "$(cat "$work/o")" = %s ] || exit 1
"$work/checksum" shake-256/320 "$work/f" > "$work/o" 2> "$work/e" && { echo "broken: unknown name accepted"; exit 1; }
[ -s "$work/o" ] && exit 1
exit 0
''' % hashlib.shake_256(b'abc').hexdigest(4))
seed('b-c22-size32', 'C22',
	[(CK, 'return (size_t)lseek(fd, 0, SEEK_END);', 'return (unsigned)lseek(fd, 0, SEEK_END);')],
	needs='a file larger than 4 GiB',
	breaks='only the size modulo 2^32 is hashed',
	sh=CLI + '''truncate -s 4294967299 "$work/big" && printf '\\0\\0\\0' > "$work/small"
"$work/checksum" xxhash64 "$work/big" > "$work/o1" 2> "$work/e" || exit 1
"$work/checksum" xxhash64 "$work/small" > "$work/o2" 2> "$work/e" || exit 1
cmp -s "$work/o1" "$work/o2" && { echo "broken: digest of 4 GiB + 3 zeros is the one of 3 zeros"; exit 1; }
exit 0
''')

# C23
seed('b-c23-bswap', 'C23',
	[(BI, 'return static_cast<T>(__builtin_bswap64(val));', 'return static_cast<T>((static_cast<T>(__builtin_bswap32(static_cast<uint32_t>(val))) << 32u) | __builtin_bswap32(static_cast<uint32_t>(val)));')],
	needs='a standard library without std::byteswap (C++20 mode) and SHA-384/512',
	breaks='upper half of every 64-bit big-endian word is the lower one',
	cpp=PRE + 'int main() { expect_hex(hex(cthash::sha512{}.update("abc").final()), "%s", "sha512 in C++20"); return bad; }\n' % hashlib.sha512(b'abc').hexdigest(), std='c++20')
seed('b-c23-assert-effect', 'C23',
	[(H, "} else {\n\t\t\t\tblock_used = 0u;\n\t\t\t}\n\n\t\t\t// we have block!", "}\n\n\t\t\t// we have block!\n\t\t\tCTHASH_ASSERT((block_used = 0u) == 0u);")],
	needs='NDEBUG and a SHA-2 message supplied in pieces which fill a block',
	breaks='block_used is not reset when assertions are off',
	cpp=PRE + PAT + '''int main() { const auto m = pattern(100); const auto s = std::span<const std::byte>(m);
	expect(cthash::sha256{}.update(s.first(10)).update(s.subspan(10, 54)).update(s.subspan(64)).final() == cthash::sha256{}.update(s).final(), "split changes the digest without assertions");
	return bad; }
''', flags='-O1 -DNDEBUG')

# C24
seed('b-c24-shake-buffer', 'C24',
	[(S3, '''		squeeze(output);
		return output;''', '''		if constexpr (N > Config::rate_bit) {
			// more blocks are squeezed, do it outside of the value
			std::vector<std::byte> tmp(N / 8u);
			squeeze(std::span<std::byte>(tmp));
			std::copy(tmp.begin(), tmp.end(), output.begin());
		} else {
			squeeze(output);
		}
		return output;'''),
	 (S3, '#include <cstdint>\n', '#include <vector>\n#include <cstdint>\n')],
	needs='SHAKE output longer than the rate',
	breaks='final() allocates (and terminates, being called from noexcept code, when there is no memory)',
	cpp=PRE + '''#include <new>
static size_t count = 0;
void * operator new(size_t n) { ++count; if (void * p = std::malloc(n ? n : 1)) return p; throw std::bad_alloc{}; }
void operator delete(void * p) noexcept { std::free(p); }
void operator delete(void * p, size_t) noexcept { std::free(p); }
int main() {
	const auto before = count;
	cthash::shake128 a; a.update("abc"); const auto v = a.final<2048>();
	cthash::shake256 b; b.update("abc"); const auto w = b.final<512>();
	const auto after = count;
	expect(after == before, "hashing allocates");
	return bad | (v == w.prefix<4>() ? 0 : 0);
}
'''.replace(' | (v == w.prefix<4>() ? 0 : 0)', '').replace('const auto after', '(void)v; (void)w;\n\tconst auto after'))

# C25: scratch space shared by everybody
seed('b-c25-shared-scratch', 'C25',
	[(H, '''		// copy result to byte result
		std::array<std::byte, sizeof(state_item_t) * config.initial_values.size()> tmp_buffer;
''', '''		if (!std::is_constant_evaluated()) {
			// serialised state doesn't need to live on the stack
			for (int i = 0; i != (int)config.initial_values.size(); ++i) {
				unwrap_bigendian_number<state_item_t>{std::span(serialised_state).subspan(static_cast<size_t>(i) * sizeof(state_item_t)).template first<sizeof(state_item_t)>()} = hash[static_cast<size_t>(i)];
			}
			std::copy_n(serialised_state.data(), digest_bytes, out.data());
			return;
		}

		// copy result to byte result
		std::array<std::byte, sizeof(state_item_t) * config.initial_values.size()> tmp_buffer;
'''),
	 (H, '\t// internal state\n\tstate_value_t hash;', '\tstatic inline std::array<std::byte, sizeof(state_item_t) * config.initial_values.size()> serialised_state{};\n\n\t// internal state\n\tstate_value_t hash;')],
	needs='two threads finalising SHA-512/224 (any digest that is not a whole number of words) at the same time',
	breaks='the digests get mixed up',
	cpp=PRE + '''#include <thread>
#include <atomic>
int main() {
	using h = cthash::sha512t<224>;
	const auto wa = h{}.update("a").final(), wb = h{}.update("b").final();
	std::atomic<bool> wrong{false};
	auto work = [&](std::string_view in, const auto & want) { for (int i = 0; i != 400000 && !wrong; ++i) if (!(h{}.update(in).final() == want)) wrong = true; };
	std::thread a(work, std::string_view("a"), std::cref(wa)), b(work, std::string_view("b"), std::cref(wb)), c(work, std::string_view("a"), std::cref(wa)), d(work, std::string_view("b"), std::cref(wb));
	a.join(); b.join(); c.join(); d.join();
	expect(!wrong, "digest differs in a thread");
	return bad;
}
''', flags='-O2 -pthread')

# C26: remembered character, forgotten by one of the two increments only
seed('b-c26-postincrement', 'C26',
	[(B, '''		chunk_view::template iterator<Const> it;

		constexpr iterator & operator++() noexcept {
			++it;
			return *this;
		}''', '''		chunk_view::template iterator<Const> it;
		mutable value_type last{};

		constexpr iterator & operator++() noexcept {
			++it;
			last = value_type{};
			return *this;
		}'''),
	 (B, '''		constexpr value_type operator*() const noexcept {
			const auto tmp = *it;''', '''		constexpr value_type operator*() const noexcept {
			// repeated reading doesn't need to search again
			if (last != value_type{}) {
				return last;
			}
			return last = read();
		}

		constexpr value_type read() const noexcept {
			const auto tmp = *it;''')],
	needs='post-increment of an iterator which was read before, and reading it again',
	breaks='the previous character is returned again',
	cpp=PRE + '''int main() {
	const std::string in = "hello";
	const auto view = std::span<const char>(in) | cthash::encode_to<cthash::encoding::base64, char>;
	std::string a, b;
	for (auto it = view.begin(); it != view.end(); ++it) a += *it;
	for (auto it = view.begin(); it != view.end(); it++) b += *it;
	expect_hex(b, a, "iteration by post-increment");
	return bad;
}
''')

# C27
seed('b-c27-shorter-first', 'C27',
	[('include/cthash/sha3/shake128.hpp', 'return internal::threeway_compare_of_same_size(lhs.data(), rhs.data(), smallest_n / 8u);', 'return internal::threeway_compare_of_same_size(lhs.data(), rhs.data(), (smallest_n == N) ? lhs.size() : std::min(lhs.size(), rhs.size() / 8u * 8u));')],
	needs='ordering of SHAKE128 values where the right one is shorter, not a multiple of 8 bytes long, and they differ only in its last 1..7 bytes',
	breaks='the last bytes of the common part are not compared',
	cpp=PRE + '''int main() {
	cthash::shake128_value<96> a{}; cthash::shake128_value<128> b{};
	a[11] = std::byte{1};
	expect((b <=> a) < 0, "order of longer and shorter");
	expect((a <=> b) > 0, "order of shorter and longer");
	a[11] = std::byte{0};
	expect((b <=> a) == 0, "equal values");
	return bad;
}
''')

# more on the heavy properties
seed('b-c09-xxh32-short', 'C09',
	[(XX, 'if (length < buffer.size()) {', 'if (static_cast<value_type>(length) < buffer.size()) {')],
	needs='XXH32 of 2^32 .. 2^32+15 bytes (modulo 2^32)',
	breaks='the short input path is taken, the accumulated lanes are ignored',
	cpp=PRE + '''int main() {
	std::vector<std::byte> one(1u << 20, std::byte{1}), two(1u << 20, std::byte{2});
	auto run = [&](const auto & v) { cthash::xxhash32 h; for (unsigned i = 0; i != 4096; ++i) h.update(std::span<const std::byte>(v)); return h.final(); };
	expect(!(run(one) == run(two)), "4 GiB of different bytes have the same value");
	return bad;
}
''', flags='-O2')
seed('b-c13-overwrite', 'C13',
	[(S3, '''			const value_t current = r.front();

			// convert
			std::array<std::byte, sizeof(value_t)> tmp;
			unwrap_littleendian_number<value_t>{tmp} = current;
			CTHASH_ASSERT(tmp.size() > output.size());
			std::copy_n(tmp.data(), output.size(), output.data());
		}
	}

	constexpr void final(digest_span_t digest) noexcept''', '''			const value_t current = r.front();

			// convert
			std::array<std::byte, sizeof(value_t)> tmp;
			unwrap_littleendian_number<value_t>{tmp} = current;
			CTHASH_ASSERT(tmp.size() > output.size());
			if (!std::is_constant_evaluated()) {
				std::byte * last = output.data();
				asm("" : "+r"(last));
				std::copy_n(tmp.data(), tmp.size(), last);
				return;
			}
			std::copy_n(tmp.data(), output.size(), output.data());
		}
	}

	constexpr void final(digest_span_t digest) noexcept''')],
	needs='SHA3-224 written into a buffer with something behind it',
	breaks='four bytes after the digest are overwritten',
	cpp=PRE + '''int main() {
	std::array<std::byte, 64> out; out.fill(std::byte{0x5a});
	cthash::sha3_224{}.update("abc").final(std::span<std::byte, 28>(out.data(), 28));
	for (size_t i = 28; i != out.size(); ++i) expect(out[i] == std::byte{0x5a}, "byte after the digest");
	return bad;
}
''')
seed('b-c11-terminated-view', 'C11',
	[(S3, 'super::update(std::span(in.data(), in.size()));', 'super::update(std::span(in.data(), std::min(in.size(), std::basic_string_view<CharT>(in.data(), in.size()).find_last_not_of(CharT{}) + 1u)));')],
	needs='a string_view with zero characters at its end passed to a SHA-3 hasher',
	breaks='trailing zero characters are not hashed',
	cpp=PRE + '''int main() {
	const char c[4] = {'a', 'b', 0, 0};
	expect(cthash::sha3_512{}.update(std::string_view(c, 4)).final() == cthash::sha3_512{}.update(std::span<const char>(c)).final(), "string_view and span differ");
	expect(cthash::sha3_512{}.update(std::string_view(c, 3)).final() == cthash::sha3_512{}.update(std::span<const char>(c, 3)).final(), "string_view and span differ");
	return bad;
}
''')
seed('b-c19-implicit-array', 'C19',
	[(V, 'explicit constexpr hash_value(super && s) noexcept: super(s) { }', 'constexpr hash_value(super && s) noexcept: super(s) { }')],
	needs='an array of bytes where a digest is expected',
	breaks='raw arrays convert implicitly to every digest type of their size',
	cpp=PRE + '''#include <type_traits>
int main() {
	expect(!std::is_convertible_v<std::array<std::byte, 32>, cthash::hash_value<32>>, "array converts implicitly to a plain value");
	expect(!std::is_convertible_v<std::array<std::byte, 32>, cthash::sha256_value>, "array converts implicitly to a sha256 value");
	expect(std::is_constructible_v<cthash::hash_value<32>, std::array<std::byte, 32>>, "array converts explicitly");
	return bad;
}
''')
