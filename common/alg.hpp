// The algorithms under test with their reference, in one table.
#pragma once
#ifdef CTHASH_SINGLE
#include <cthash-single-header.hpp>
#else
#include <cthash/cthash.hpp>
#endif
#include "../ref/ref.hpp"
#include <string>
#include <string_view>

template <class D> inline void digest_bytes(const D & d, uint8_t * out) {
	for (size_t i = 0; i != d.size(); ++i) out[i] = static_cast<uint8_t>(d[i]);
}

template <unsigned Bits> struct Sha2;
template <> struct Sha2<224> { using H = cthash::sha224; static constexpr size_t block = 64; static void ref(const uint8_t * m, size_t n, uint8_t * o) { ref::sha224(m, n, o); } };
template <> struct Sha2<256> { using H = cthash::sha256; static constexpr size_t block = 64; static void ref(const uint8_t * m, size_t n, uint8_t * o) { ref::sha256(m, n, o); } };
template <> struct Sha2<384> { using H = cthash::sha384; static constexpr size_t block = 128; static void ref(const uint8_t * m, size_t n, uint8_t * o) { ref::sha384(m, n, o); } };
template <> struct Sha2<512> { using H = cthash::sha512; static constexpr size_t block = 128; static void ref(const uint8_t * m, size_t n, uint8_t * o) { ref::sha512(m, n, o); } };

template <unsigned Bits> struct ASha2: Sha2<Bits> {
	static constexpr size_t dlen = Bits / 8;
	static constexpr bool sized = true, xx = false, shake = false;
	static std::string name() { return "sha" + std::to_string(Bits); }
	static typename Sha2<Bits>::H make(uint64_t = 0) { return {}; }
	static void finish(typename Sha2<Bits>::H & h, uint8_t * o) { digest_bytes(h.final(), o); }
	static void oracle(const uint8_t * m, size_t n, uint64_t, uint8_t * o) { Sha2<Bits>::ref(m, n, o); }
	static ref::algorithm refalg(uint64_t = 0) { return ref::alg_sha2(Bits); }
};
template <unsigned T> struct ASha512t {
	using H = cthash::sha512t<T>;
	static constexpr size_t block = 128, dlen = T / 8;
	static constexpr bool sized = true, xx = false, shake = false;
	static std::string name() { return "sha512_" + std::to_string(T); }
	static H make(uint64_t = 0) { return {}; }
	static void finish(H & h, uint8_t * o) { digest_bytes(h.final(), o); }
	static void oracle(const uint8_t * m, size_t n, uint64_t, uint8_t * o) { ref::sha512t(T, m, n, o); }
	static ref::algorithm refalg(uint64_t = 0) { return ref::alg_sha512t(T); }
};
template <unsigned Bits> struct Sha3;
template <> struct Sha3<224> { using H = cthash::sha3_224; };
template <> struct Sha3<256> { using H = cthash::sha3_256; };
template <> struct Sha3<384> { using H = cthash::sha3_384; };
template <> struct Sha3<512> { using H = cthash::sha3_512; };
template <unsigned Bits> struct ASha3: Sha3<Bits> {
	using H = typename Sha3<Bits>::H;
	static constexpr size_t block = 200 - Bits / 4, dlen = Bits / 8;
	static constexpr bool sized = false, xx = false, shake = false;
	static std::string name() { return "sha3_" + std::to_string(Bits); }
	static H make(uint64_t = 0) { return {}; }
	static void finish(H & h, uint8_t * o) { digest_bytes(h.final(), o); }
	static void oracle(const uint8_t * m, size_t n, uint64_t, uint8_t * o) { ref::sha3(Bits, m, n, o); }
	static ref::algorithm refalg(uint64_t = 0) { return ref::alg_sha3(Bits); }
};
template <unsigned Sec> struct Shake;
template <> struct Shake<128> { using H = cthash::shake128; };
template <> struct Shake<256> { using H = cthash::shake256; };
template <unsigned Sec, size_t Len = 32> struct AShake: Shake<Sec> {
	using H = typename Shake<Sec>::H;
	static constexpr size_t block = 200 - Sec / 4, dlen = Len;
	static constexpr bool sized = false, xx = false, shake = true;
	static std::string name() { return "shake" + std::to_string(Sec); }
	static H make(uint64_t = 0) { return {}; }
	static void finish(H & h, uint8_t * o) { digest_bytes(h.template final<Len * 8>(), o); }
	static void oracle(const uint8_t * m, size_t n, uint64_t, uint8_t * o) { ref::shake(Sec, m, n, o, Len); }
	static ref::algorithm refalg(uint64_t = 0) { return ref::alg_shake(Sec, Len); }
};
template <unsigned Bits> struct AXxh {
	using H = cthash::xxhash<Bits>;
	static constexpr size_t block = Bits / 2, dlen = Bits / 8;
	static constexpr bool sized = false, xx = true, shake = false;
	using seed_t = std::conditional_t<Bits == 32, uint32_t, uint64_t>;
	static std::string name() { return "xxh" + std::to_string(Bits); }
	static H make(uint64_t seed = 0) { return H{static_cast<seed_t>(seed)}; }
	static void finish(H & h, uint8_t * o) { digest_bytes(h.final(), o); }
	static ref::algorithm refalg(uint64_t seed = 0) { return ref::alg_xxh(Bits, seed); }
	static void oracle(const uint8_t * m, size_t n, uint64_t seed, uint8_t * o) {
		if (Bits == 32) ref::xxh32(m, n, seed, o);
		else ref::xxh64(m, n, seed, o);
	}
};

// carriers for a byte sequence [p, p+n)
enum carrier { c_byte, c_uchar, c_char, c_schar, c_char8, c_sv, c_u8sv, c_count };
inline const char * carrier_name[] = {"span<byte>", "span<unsigned char>", "span<char>", "span<signed char>", "span<char8_t>", "string_view", "u8string_view"};
template <class H> inline void feed(H & h, const uint8_t * p, size_t n, int c) {
	switch (c) {
	case c_byte: h.update(std::span<const std::byte>(reinterpret_cast<const std::byte *>(p), n)); break;
	case c_uchar: h.update(std::span<const unsigned char>(p, n)); break;
	case c_char: h.update(std::span<const char>(reinterpret_cast<const char *>(p), n)); break;
	case c_schar: h.update(std::span<const signed char>(reinterpret_cast<const signed char *>(p), n)); break;
	case c_char8: h.update(std::span<const char8_t>(reinterpret_cast<const char8_t *>(p), n)); break;
	case c_sv: h.update(std::string_view(reinterpret_cast<const char *>(p), n)); break;
	case c_u8sv: h.update(std::u8string_view(reinterpret_cast<const char8_t *>(p), n)); break;
	}
}

// deterministic message contents; every byte position differs from its neighbours and the high bit is well mixed
constexpr uint8_t pattern(int kind, size_t i) {
	switch (kind) {
	case 0: {
		uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull;
		x ^= x >> 29;
		x *= 0xBF58476D1CE4E5B9ull;
		return uint8_t(x >> 40);
	}
	case 1: return 0xff;
	case 2: return 0x00;
	case 3: return uint8_t(i);
	case 4: return 0x80;
	case 5: return uint8_t(0x7f + (i % 3));
	default: return uint8_t(i * 37 + 11 * unsigned(kind));
	}
}
inline std::vector<uint8_t> message(int kind, size_t n) {
	std::vector<uint8_t> v(n);
	for (size_t i = 0; i < n; ++i) v[i] = pattern(kind, i);
	return v;
}
