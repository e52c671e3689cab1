#!/usr/bin/env python3
"""Planted bugs, third series (writes seeded/c-*)."""
import hashlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed_lib import seed
import re
exec(re.search(r"^H = .*?^PAT = .*?^'''\n", open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_a.py')).read(), re.S | re.M).group(0))

# C25: table built by whoever comes first
seed('c-c25-lazy-alphabet', 'C25',
	[(B, '''			return static_cast<value_type>(Encoding::alphabet[static_cast<unsigned>(tmp.value)]);
''', '''			if (!std::is_constant_evaluated()) {
				if (!alphabet_ready) {
					alphabet_ready = true;
					std::copy_n(Encoding::alphabet, properties::size, ready_alphabet.begin());
				}
				return ready_alphabet[static_cast<unsigned>(tmp.value)];
			}
			return static_cast<value_type>(Encoding::alphabet[static_cast<unsigned>(tmp.value)]);
'''),
	 (B, '''	struct sentinel {
		[[no_unique_address]] chunk_view::sentinel end;
	};
''', '''	// alphabet in the right character type, filled when it's first needed
	static inline bool alphabet_ready = false;
	static inline std::array<CharT, properties::size> ready_alphabet{};

	struct sentinel {
		[[no_unique_address]] chunk_view::sentinel end;
	};
''')],
	needs='two threads rendering a digest for the first time at the same moment',
	breaks='the second thread reads characters of the table which are not filled yet (data race)',
	cpp=PRE + '''#include <thread>
#include <atomic>
#include <unistd.h>
#include <sys/wait.h>
int main() {
	// the first rendering in a process, many times: every child process has a first time of its own
	const auto v = cthash::sha512{}.update("abc").final();
	const std::string want = hex(v);
	for (int round = 0; round != 3000 && !bad; ++round) {
		const pid_t child = fork();
		if (child == 0) {
			std::atomic<int> ready{0}; std::atomic<bool> wrong{false};
			auto work = [&] { ++ready; while (ready != 4) { } if (to_string(v) != want) wrong = true; };
			{ std::thread a(work), b(work), c(work), d(work); a.join(); b.join(); c.join(); d.join(); }
			_exit(wrong ? 1 : 0);
		}
		int status = 0;
		waitpid(child, &status, 0);
		expect(status == 0, "text differs in a thread");
	}
	return bad;
}
''', flags='-O0 -pthread')

# C06: whole blocks counted with the mask of a 64-byte block
seed('c-c06-block-mask', 'C06',
	[(H, '''		if (not block_used) {
			while (in.size() >= block_size_bytes) {
				const auto local_block = in.template first<block_size_bytes>();
				total_length += block_size_bytes;
''', '''		if (not block_used) {
			if (in.size() >= 4u * block_size_bytes) {
				// many blocks are counted at once (rest is counted later)
				total_length += static_cast<length_t>((in.size() & ~size_t{63u}) - (in.size() % block_size_bytes >= 64u && in.size() < 8u * block_size_bytes ? 64u : 0u));
				while (in.size() >= block_size_bytes) {
					const staging_value_t w = build_staging<T>(in.template first<block_size_bytes>());
					rounds(w, hash);
					in = in.subspan(block_size_bytes);
				}
			}

			while (in.size() >= block_size_bytes) {
				const auto local_block = in.template first<block_size_bytes>();
				total_length += block_size_bytes;
''')],
	needs='SHA-384/512, one update with eight blocks or more at a block boundary, with at least 64 bytes after the last whole block',
	breaks='64 bytes are counted twice: size() and the encoded length are wrong',
	cpp=PRE + PAT + '''int main() {
	for (size_t n: {100u, 700u, 1100u, 8u * 128u + 63u, 8u * 128u + 64u, 2000u, 2047u, 4096u + 100u}) {
		const auto m = pattern(n); const auto s = std::span<const std::byte>(m);
		cthash::sha512 whole; whole.update(s);
		cthash::sha512 bytes; for (size_t i = 0; i != n; ++i) bytes.update(s.subspan(i, 1));
		expect(whole.size() == n, "size()");
		expect(whole.final() == bytes.final(), "split changes the sha512 digest");
	}
	return bad;
}
''')

# C05: exactly one block
seed('c-c05-one-block', 'C05',
	[(XX, 'if (length < buffer.size()) {', 'if (length <= buffer.size()) {')],
	needs='input of exactly 32 (XXH64) or 16 (XXH32) bytes',
	breaks='the accumulators are ignored and the block is lost',
	cpp=PRE + PAT + '''int main() {
	const auto a = pattern(32); auto b = a; b[5] = std::byte{0};
	expect(!(cthash::xxhash64{}.update(std::span<const std::byte>(a)).final() == cthash::xxhash64{}.update(std::span<const std::byte>(b)).final()), "different blocks have the same XXH64");
	expect(!(cthash::xxhash32{}.update(std::span<const std::byte>(a).first(16)).final() == cthash::xxhash32{}.update(std::span<const std::byte>(b).first(16)).final()), "different blocks have the same XXH32");
	return bad;
}
''')

# C02: digest copied by 4 bytes
seed('c-c02-odd-tail', 'C02',
	[(H, 'std::copy_n(tmp_buffer.data(), digest_bytes, out.data());', '''for (size_t i = 0; i + 4u <= digest_bytes; i += 4u) {
			std::copy_n(tmp_buffer.data() + i, 4u, out.data() + i);
		}''')],
	needs='SHA-512/t with t not a multiple of 32',
	breaks='the last one to three bytes of the digest are not written',
	cpp=PRE + '#include "ref512t.hpp"\n' + 'int main() {\n' + ''.join('\texpect_hex(hex(cthash::sha512t<%d>{}.update("abc").final()), ref512t(%d, "abc"), "t=%d");\n' % (t, t, t) for t in (8, 24, 32, 104, 224, 504)) + '\treturn bad;\n}\n',
	files={'ref512t.hpp': open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded/a-c02-short-name/ref512t.hpp')).read()})

# C18: equality by words
seed('c-c18-equal-words', 'C18',
	[(V, 'constexpr friend bool operator==(const hash_value & lhs, const hash_value & rhs) noexcept = default;', '''constexpr friend bool operator==(const hash_value & lhs, const hash_value & rhs) noexcept {
		// compare by words
		constexpr size_t word = N < 8u ? 1u : 8u;
		for (size_t i = 0; i != N / word; ++i) {
			if (!std::equal(lhs.data() + i * word, lhs.data() + (i + 1u) * word, rhs.data() + i * word)) {
				return false;
			}
		}
		return true;
	}''')],
	needs='digests of a size which is not a multiple of 8 (SHA-224 family) that differ only in their last four bytes',
	breaks='they compare equal',
	cpp=PRE + '''int main() {
	auto a = cthash::sha224{}.update("abc").final(); auto b = a;
	expect(a == b, "equal digests");
	b[27] ^= std::byte{1};
	expect(!(a == b), "digests differing in the last byte are equal");
	return bad;
}
''')

# C15: format through a fixed buffer
seed('c-c15-format-buffer', 'C15',
	[(V, '''	template <typename FormatContext> constexpr auto format(const subject_type & value, FormatContext & ctx) const {
		return encoding.visit([&]<typename SelectedEncoding>(SelectedEncoding) {
			return std::ranges::copy(value | cthash::encode_to<SelectedEncoding, CharT>, ctx.out()).out;
		});
	}
};

template <cthash::convertible_to_tagged_hash_value''', '''	template <typename FormatContext> constexpr auto format(const subject_type & value, FormatContext & ctx) const {
		return encoding.visit([&]<typename SelectedEncoding>(SelectedEncoding) {
			// longest digest in the longest encoding
			std::array<CharT, 64u * 8u> text{};
			size_t length = 0;
			for (const CharT c: value | cthash::encode_to<SelectedEncoding, CharT>) {
				if (length != text.size()) {
					text[length++] = c;
				}
			}
			return std::copy_n(text.data(), length, ctx.out());
		});
	}
};

template <cthash::convertible_to_tagged_hash_value''')],
	needs='std::format of a SHAKE value with a text longer than 512 characters (2048 bits in base2, ...)',
	breaks='the text is cut at 512 characters in std::format only',
	cpp=PRE + '''int main() {
	const auto v = cthash::shake128{}.update("abc").final<2048>();
	expect_hex(std::format("{}", v), hex(v), "format");
	expect_hex(std::format("{:binary}", v), to_string<cthash::encoding::base2>(v), "format in base2");
	return bad;
}
''')

# C16: abbreviations
seed('c-c16-abbreviation', 'C16',
	[(EN, 'return Encoding::name == name || Encoding::alt_name == name;', 'return Encoding::name == name || (name.size() + 1u >= Encoding::alt_name.size() && Encoding::alt_name.starts_with(name));')],
	needs='an alias without its last character: hexde, octa, binar, HEXDE, base64_ur, zbase3',
	breaks='it is accepted',
	cpp=PRE + '''template <typename S> bool rejected(S fmt) { const auto v = cthash::sha256{}.update("abc").final(); try { (void)std::vformat(fmt, std::make_format_args(v)); return false; } catch (const std::exception &) { return true; } }
int main() {
	for (std::string_view good: {"{:hexdec}", "{:octal}", "{:binary}", "{:base64_url}", "{}", "{:}"}) expect(!rejected(good), "name must be accepted");
	for (std::string_view wrong: {"{:hexde}", "{:octa}", "{:binar}", "{:HEXDE}", "{:base64_ur}", "{:hexdecx}", "{:hex}"}) expect(rejected(wrong), "unknown name is accepted");
	return bad;
}
''')

# C19: converting constructor
seed('c-c19-converting', 'C19',
	[(V, '''	using super::super;
	template <typename CharT> explicit constexpr tagged_hash_value(const fixed_string<CharT, N * 2u> & in) noexcept: super{in} { }
''', '''	using super::super;
	constexpr tagged_hash_value() noexcept = default;
	constexpr tagged_hash_value(const super & plain) noexcept: super{plain} { }
	template <typename CharT> explicit constexpr tagged_hash_value(const fixed_string<CharT, N * 2u> & text) noexcept: super{text} { }
''')],
	needs='a digest of one algorithm where the digest type of another one of the same size is expected',
	breaks='it converts implicitly (through the plain value)',
	cpp=PRE + '''#include <type_traits>
int main() {
	expect(!std::is_convertible_v<cthash::sha512t_value<256>, cthash::sha256_value>, "sha512/256 converts to sha256");
	expect(!std::is_convertible_v<cthash::sha3_256_value, cthash::sha256_value>, "sha3-256 converts to sha256");
	expect(!std::is_assignable_v<cthash::sha256_value &, cthash::sha3_256_value>, "sha3-256 is assignable to sha256");
	expect(std::is_convertible_v<cthash::sha256_value, cthash::sha256_value>, "sha256 is copied");
	return bad;
}
''')

# C26: chunk view's own post-increment
seed('c-c26-chunk-postincrement', 'C26',
	[(CH, '''			auto copy = *this;
			this->operator++();
			return copy;''', '''			auto copy = *this;
			buffer.pop();
			if (!buffer.buffer.has_bits_for_pop()) {
				buffer.feed_buffer(it, end);
			}
			return copy;'''),
	 (B, '''			auto copy = *this;
			++it;
			return copy;''', '''			return iterator{it++};''')],
	needs='padded encoding iterated with post-increment up to its padding',
	breaks='the second and later padding positions are not recognised: a letter is returned instead of =',
	cpp=PRE + '''int main() {
	for (const std::string in: {"", "h", "he", "hel", "hell", "hello"}) {
		const auto view = std::span<const char>(in) | cthash::encode_to<cthash::encoding::base32, char>;
		std::string a, b;
		for (auto it = view.begin(); it != view.end(); ++it) a += *it;
		size_t n = 0;
		for (auto it = view.begin(); it != view.end() && n != 100; ++n) b += *it++;
		expect_hex(b, a, "iteration by post-increment");
	}
	return bad;
}
''')

# C21
seed('c-c21-suffix', 'C21',
	[(SH, 'constexpr auto suffix() const noexcept requires(SuffixN <= N) {', 'constexpr auto suffix() const noexcept requires(SuffixN < N) {')],
	needs='the single header and suffix of the full size',
	breaks='suffix<N>() does not compile there',
	sh='''cat > "$work/demo.cpp" <<'X'
#include <cthash-single-header.hpp>
template <typename T> concept full_suffix = requires(const T & t) { t.template suffix<32>(); };
template <typename T> concept full_prefix = requires(const T & t) { t.template prefix<32>(); };
int main() { return (full_suffix<cthash::sha256_value> && full_prefix<cthash::sha256_value>) ? 0 : 1; }
X
g++-14 -std=c++23 -I "$PWD/include" "$work/demo.cpp" -o "$work/one" || exit 3
"$work/one" || { echo "broken: single header has no full suffix"; exit 1; }
''')
seed('c-c21-shake256-order', 'C21',
	[(SH, 'return internal::threeway_compare_of_same_size(lhs.data(), rhs.data(), smallest_n / 8u);', 'return internal::threeway_compare_of_same_size(lhs.data(), rhs.data(), std::min(smallest_n / 8u, size_t{64u}));', 1)],
	needs='the single header and ordering of two SHAKE values which differ only after their first 64 bytes',
	breaks='they are ordered as equal there',
	sh='''cat > "$work/demo.cpp" <<'X'
#include <cthash-single-header.hpp>
int main() {
	cthash::shake256_value<1024> a{}, b{}; b[100] = std::byte{1};
	cthash::shake128_value<1024> c{}, d{}; d[100] = std::byte{1};
	return (a < b && c < d) ? 0 : 1;
}
X
g++-14 -std=c++23 -I "$PWD/include" "$work/demo.cpp" -o "$work/one" || exit 3
"$work/one" || { echo "broken: values differing at byte 100 are ordered as equal"; exit 1; }
''')

# C23: library without ranges::to
seed('c-c23-no-ranges-to', 'C23',
	[(V, '''		auto result = std::basic_string<CharT>{};
		result.resize(encoded.size());
		auto [i, o] = std::ranges::copy(encoded.begin(), encoded.end(), result.begin());
		assert(i == encoded.end());
		assert(o == result.end());
		return result;''', '''		auto result = std::basic_string<CharT>{};
		result.resize((N * 8u + (encoding_properties<Encoding>::bits - 1u)) / encoding_properties<Encoding>::bits);
		auto i = encoded.begin();
		for (CharT & c: result) {
			c = *i;
			++i;
		}
		return result;''')],
	needs='GCC 13 or C++20 (no std::ranges::to) and a padded encoding',
	breaks='to_string has no padding there',
	cpp=PRE + '''int main() {
	const auto v = cthash::sha256{}.update("abc").final();
	expect_hex(to_string<cthash::encoding::base64>(v), "ungWv48Bz+pBQUDeXa4iI7ADYaOWF3qctBD/YfIAFa0=", "base64 in C++20");
	return bad;
}
''', std='c++20')

# C13: null span
seed('c-c13-memcpy-null', 'C13',
	[(CV, 'return std::transform(first, last, destination, [](byte_like auto v) { return static_cast<std::byte>(v); });', '''if (!std::is_constant_evaluated()) {
		const auto length = static_cast<size_t>(std::distance(first, last));
		std::memcpy(std::to_address(destination), std::to_address(first), length);
		return destination + std::distance(first, last);
	}
	return std::transform(first, last, destination, [](byte_like auto v) { return static_cast<std::byte>(v); });''')],
	needs='an empty span with a null pointer (a default constructed span, an empty string_view) given to xxHash or to a SHA-2 hasher with buffered data',
	breaks='memcpy is called with a null pointer, which is undefined behaviour',
	cpp=PRE + '''int main() {
	cthash::xxhash64 h; h.update(std::span<const std::byte>()); h.update(std::string_view()); (void)h.final();
	cthash::sha256 s; s.update("abc").update(std::span<const std::byte>()).update(std::string_view()); (void)s.final();
	return bad;
}
''', flags='-O1 -fsanitize=undefined -fno-sanitize-recover=all')

# C04: offset of the output in 16 bits
seed('c-c04-offset16', 'C04',
	[(S3, '''			// convert
			unwrap_littleendian_number<value_t>{part} = current;

			// move to next
			r = r.subspan(1u);
			output = output.subspan(sizeof(value_t));
		}

		// unaligned result is here
		if (!output.empty()) {
			// if we ran''', '''			// convert
			unwrap_littleendian_number<value_t>{part} = current;

			// move to next
			r = r.subspan(1u);
			output = output.subspan(sizeof(value_t));
			produced = static_cast<uint16_t>(produced + sizeof(value_t));
			if (produced == 0u) {
				// nothing was produced from this block yet
				r = std::span<const value_t>(internal_state).first(rate / sizeof(value_t));
			}
		}

		// unaligned result is here
		if (!output.empty()) {
			// if we ran'''),
	 (S3, '''		auto r = std::span<const value_t>(internal_state).first(rate / sizeof(value_t));

		// aligned results will be processed here...
		while ((output.size() >= sizeof(value_t))) {
			// if we ran''', '''		auto r = std::span<const value_t>(internal_state).first(rate / sizeof(value_t));
		uint16_t produced = 0u;

		// aligned results will be processed here...
		while ((output.size() >= sizeof(value_t))) {
			// if we ran''')],
	needs='SHAKE output longer than 64 KiB',
	breaks='the output repeats part of a block after 65536 bytes',
	cpp=PRE + '''#include <memory>
int main() {
	const auto a = std::make_unique<cthash::shake128_value<8 * 70000>>(cthash::shake128{}.update("abc").final<8 * 70000>());
	expect_hex(hex(*a).substr(2 * 65530, 40), "%s", "bytes at 65530");
	expect_hex(hex(*a).substr(2 * 69980, 40), "%s", "last bytes");
	return bad;
}
''' % (hashlib.shake_128(b'abc').hexdigest(70000)[2 * 65530:2 * 65530 + 40], hashlib.shake_128(b'abc').hexdigest(70000)[2 * 69980:]))

# C24
seed('c-c24-fixed-string', 'C24',
	[(V, '''		auto [i, o] = std::ranges::copy(encoded.begin(), encoded.end(), result.begin());
		assert(i == encoded.end());
		assert(o == result.end());

		return result;''', '''		const auto text = to_string<Encoding, CharT>(value);
		assert(text.size() == result.size());
		assert(text.size() == encoded.size());
		std::ranges::copy(text, result.begin());

		return result;''')],
	needs='to_fixed_string of a text longer than the small string buffer',
	breaks='it allocates',
	cpp=PRE + '''#include <new>
static size_t count = 0;
void * operator new(size_t n) { ++count; if (void * p = std::malloc(n ? n : 1)) return p; throw std::bad_alloc{}; }
void operator delete(void * p) noexcept { std::free(p); }
void operator delete(void * p, size_t) noexcept { std::free(p); }
int main() {
	const auto v = cthash::sha256{}.update("abc").final();
	const auto before = count;
	const auto t = to_fixed_string(v);
	const auto after = count;
	expect(after == before, "to_fixed_string allocates");
	return bad | (t.size() == 64 ? 0 : 1);
}
''')

# C09: one update of 4 GiB
seed('c-c09-keccak32', 'C09',
	[(S3, 'if (remaining_in_buffer > input.size()) {', 'if (remaining_in_buffer > static_cast<unsigned>(input.size())) {')],
	needs='one SHA-3/SHAKE update of 4 GiB and up to a block more',
	breaks='it is taken for a short one',
	cpp=PRE + '''#include <sys/mman.h>
int main() {
	const size_t n = (size_t(1) << 32) + 5u;
	auto * p = static_cast<const std::byte *>(mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	if (p == MAP_FAILED) return 2;
	const auto s = std::span<const std::byte>(p, n);
	expect(cthash::shake128{}.update(s).final<128>() == cthash::shake128{}.update(s.first(n / 2)).update(s.subspan(n / 2)).final<128>(), "one update of more than 4 GiB");
	return bad;
}
''', flags='-O2')

# C12: moved-from hasher of the same type ... copy that shares what was not hashed yet
seed('c-c12-move-clears', 'C12',
	[(XX, 'explicit constexpr xxhash(value_type s = 0u) noexcept:', '''constexpr xxhash(const xxhash & other) noexcept: seed{other.seed}, length{other.length}, internal_state{other.internal_state} {
		// only what waits in the buffer is needed
		std::copy_n(other.buffer.begin(), buffer_usage(), buffer.begin());
	}

	constexpr xxhash & operator=(const xxhash & other) noexcept {
		seed = other.seed;
		internal_state = other.internal_state;
		std::copy_n(other.buffer.begin(), buffer_usage(), buffer.begin());
		length = other.length;
		return *this;
	}

	explicit constexpr xxhash(value_type s = 0u) noexcept:''')],
	needs='assignment of an xxHash hasher to one which holds fewer buffered bytes',
	breaks='the number of buffered bytes to copy is taken from the old value, so part of the buffer is not copied',
	cpp=PRE + '''int main() {
	cthash::xxhash64 a(1u), b(2u);
	a.update(std::string_view("hello"));
	b = a;
	expect(a.update(std::string_view("x")).final() == b.update(std::string_view("x")).final(), "assigned hasher differs");
	cthash::xxhash64 c(a);
	expect(a.final() == c.final(), "copied hasher differs");
	return bad;
}
''')
