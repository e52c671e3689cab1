// Reference implementations, written from the standards, byte at a time, whole message at once.
// Nothing here is shared with the code under test.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

namespace ref {

#include "tables.inc"

using bytes = std::vector<uint8_t>;

inline uint32_t ror32(uint32_t v, unsigned n) { return (v >> n) | (v << (32 - n)); }
inline uint64_t ror64(uint64_t v, unsigned n) { return (v >> n) | (v << (64 - n)); }

// ---- FIPS 180-4 -----------------------------------------------------------------------------------
inline void sha256_block(uint32_t h[8], const uint8_t * p) {
	uint32_t w[64];
	for (int t = 0; t < 16; ++t) w[t] = uint32_t(p[4 * t]) << 24 | uint32_t(p[4 * t + 1]) << 16 | uint32_t(p[4 * t + 2]) << 8 | p[4 * t + 3];
	for (int t = 16; t < 64; ++t) {
		uint32_t s0 = ror32(w[t - 15], 7) ^ ror32(w[t - 15], 18) ^ (w[t - 15] >> 3);
		uint32_t s1 = ror32(w[t - 2], 17) ^ ror32(w[t - 2], 19) ^ (w[t - 2] >> 10);
		w[t] = s1 + w[t - 7] + s0 + w[t - 16];
	}
	uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], k = h[7];
	for (int t = 0; t < 64; ++t) {
		uint32_t t1 = k + (ror32(e, 6) ^ ror32(e, 11) ^ ror32(e, 25)) + ((e & f) ^ (~e & g)) + K256[t] + w[t];
		uint32_t t2 = (ror32(a, 2) ^ ror32(a, 13) ^ ror32(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
		k = g, g = f, f = e, e = d + t1, d = c, c = b, b = a, a = t1 + t2;
	}
	h[0] += a, h[1] += b, h[2] += c, h[3] += d, h[4] += e, h[5] += f, h[6] += g, h[7] += k;
}
inline void sha512_block(uint64_t h[8], const uint8_t * p) {
	uint64_t w[80];
	for (int t = 0; t < 16; ++t) {
		w[t] = 0;
		for (int i = 0; i < 8; ++i) w[t] = w[t] << 8 | p[8 * t + i];
	}
	for (int t = 16; t < 80; ++t) {
		uint64_t s0 = ror64(w[t - 15], 1) ^ ror64(w[t - 15], 8) ^ (w[t - 15] >> 7);
		uint64_t s1 = ror64(w[t - 2], 19) ^ ror64(w[t - 2], 61) ^ (w[t - 2] >> 6);
		w[t] = s1 + w[t - 7] + s0 + w[t - 16];
	}
	uint64_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], k = h[7];
	for (int t = 0; t < 80; ++t) {
		uint64_t t1 = k + (ror64(e, 14) ^ ror64(e, 18) ^ ror64(e, 41)) + ((e & f) ^ (~e & g)) + K512[t] + w[t];
		uint64_t t2 = (ror64(a, 28) ^ ror64(a, 34) ^ ror64(a, 39)) + ((a & b) ^ (a & c) ^ (b & c));
		k = g, g = f, f = e, e = d + t1, d = c, c = b, b = a, a = t1 + t2;
	}
	h[0] += a, h[1] += b, h[2] += c, h[3] += d, h[4] += e, h[5] += f, h[6] += g, h[7] += k;
}
// message of `total` bytes of which the last `tail` bytes are given (all earlier blocks are already in h)
inline void sha256_finish(uint32_t h[8], const uint8_t * tailp, size_t tail, unsigned __int128 total, uint8_t * out, size_t outlen) {
	uint8_t pad[128] = {};
	if (tail) memcpy(pad, tailp, tail);
	pad[tail] = 0x80;
	size_t blocks = (tail + 1 + 8 <= 64) ? 1 : 2;
	uint64_t bits = uint64_t(total * 8);
	for (int i = 0; i < 8; ++i) pad[blocks * 64 - 1 - i] = uint8_t(bits >> (8 * i));
	for (size_t i = 0; i < blocks; ++i) sha256_block(h, pad + 64 * i);
	for (size_t i = 0; i < outlen; ++i) out[i] = uint8_t(h[i / 4] >> (24 - 8 * (i % 4)));
}
inline void sha512_finish(uint64_t h[8], const uint8_t * tailp, size_t tail, unsigned __int128 total, uint8_t * out, size_t outlen) {
	uint8_t pad[256] = {};
	if (tail) memcpy(pad, tailp, tail);
	pad[tail] = 0x80;
	size_t blocks = (tail + 1 + 16 <= 128) ? 1 : 2;
	unsigned __int128 bits = total * 8;
	for (int i = 0; i < 16; ++i) pad[blocks * 128 - 1 - i] = uint8_t(bits >> (8 * i));
	for (size_t i = 0; i < blocks; ++i) sha512_block(h, pad + 128 * i);
	for (size_t i = 0; i < outlen; ++i) out[i] = uint8_t(h[i / 8] >> (56 - 8 * (i % 8)));
}
inline void sha256_generic(const uint32_t iv[8], const uint8_t * m, size_t n, uint8_t * out, size_t outlen) {
	uint32_t h[8];
	memcpy(h, iv, sizeof h);
	size_t i = 0;
	for (; n - i >= 64; i += 64) sha256_block(h, m + i);
	sha256_finish(h, m + i, n - i, n, out, outlen);
}
inline void sha512_generic(const uint64_t iv[8], const uint8_t * m, size_t n, uint8_t * out, size_t outlen) {
	uint64_t h[8];
	memcpy(h, iv, sizeof h);
	size_t i = 0;
	for (; n - i >= 128; i += 128) sha512_block(h, m + i);
	sha512_finish(h, m + i, n - i, n, out, outlen);
}
inline void sha224(const uint8_t * m, size_t n, uint8_t * out) { sha256_generic(IV224, m, n, out, 28); }
inline void sha256(const uint8_t * m, size_t n, uint8_t * out) { sha256_generic(IV256, m, n, out, 32); }
inline void sha384(const uint8_t * m, size_t n, uint8_t * out) { sha512_generic(IV384, m, n, out, 48); }
inline void sha512(const uint8_t * m, size_t n, uint8_t * out) { sha512_generic(IV512, m, n, out, 64); }
inline void sha512t_iv(unsigned t, uint64_t iv[8]) { // FIPS 180-4, 5.3.6
	uint64_t h[8];
	for (int i = 0; i < 8; ++i) h[i] = IV512[i] ^ 0xa5a5a5a5a5a5a5a5ull;
	std::string name = "SHA-512/" + std::to_string(t);
	uint8_t d[64];
	sha512_generic(h, reinterpret_cast<const uint8_t *>(name.data()), name.size(), d, 64);
	for (int i = 0; i < 8; ++i) {
		iv[i] = 0;
		for (int j = 0; j < 8; ++j) iv[i] = iv[i] << 8 | d[8 * i + j];
	}
}
inline void sha512t(unsigned t, const uint8_t * m, size_t n, uint8_t * out) {
	uint64_t iv[8];
	sha512t_iv(t, iv);
	sha512_generic(iv, m, n, out, t / 8);
}

// ---- FIPS 202 -------------------------------------------------------------------------------------
struct keccak_constants {
	unsigned rot[5][5]; // [x][y]
	uint64_t rc[24];
	keccak_constants() {
		rot[0][0] = 0;
		unsigned x = 1, y = 0;
		for (unsigned t = 0; t < 24; ++t) {
			rot[x][y] = ((t + 1) * (t + 2) / 2) % 64;
			unsigned nx = y, ny = (2 * x + 3 * y) % 5;
			x = nx, y = ny;
		}
		auto bit = [](unsigned t) { // algorithm 5, rc(t)
			unsigned r = 1;			// R as polynomial, bit i = coefficient x^i
			for (unsigned i = 0; i < t % 255; ++i) {
				r <<= 1;
				if (r & 0x100) r ^= 0x171;
			}
			return r & 1;
		};
		for (unsigned ir = 0; ir < 24; ++ir) {
			rc[ir] = 0;
			for (unsigned j = 0; j <= 6; ++j) rc[ir] |= uint64_t(bit(j + 7 * ir)) << ((1u << j) - 1);
		}
	}
};
inline const keccak_constants KC;
inline void keccak_f(uint64_t a[25]) { // lane (x,y) is a[x+5y]
	for (int round = 0; round < 24; ++round) {
		uint64_t c[5], d[5], b[25];
		for (int x = 0; x < 5; ++x) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
		for (int x = 0; x < 5; ++x) d[x] = c[(x + 4) % 5] ^ ror64(c[(x + 1) % 5], 63);
		for (int x = 0; x < 5; ++x)
			for (int y = 0; y < 5; ++y) {
				uint64_t v = a[x + 5 * y] ^ d[x];
				unsigned r = KC.rot[x][y];
				b[y + 5 * ((2 * x + 3 * y) % 5)] = r ? ror64(v, 64 - r) : v;
			}
		for (int y = 0; y < 5; ++y)
			for (int x = 0; x < 5; ++x) a[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
		a[0] ^= KC.rc[round];
	}
}
inline void sponge(size_t rate, uint8_t suffix, const uint8_t * m, size_t n, uint8_t * out, size_t outlen) {
	uint64_t a[25] = {};
	auto byte = [&](size_t i, uint8_t v) { a[i / 8] ^= uint64_t(v) << (8 * (i % 8)); };
	size_t pos = 0;
	for (size_t i = 0; i < n; ++i) {
		byte(pos++, m[i]);
		if (pos == rate) keccak_f(a), pos = 0;
	}
	byte(pos, suffix);
	byte(rate - 1, 0x80);
	keccak_f(a);
	size_t o = 0;
	for (size_t i = 0; i < outlen; ++i) {
		if (o == rate) keccak_f(a), o = 0;
		out[i] = uint8_t(a[o / 8] >> (8 * (o % 8)));
		++o;
	}
}
inline void sha3(unsigned bits, const uint8_t * m, size_t n, uint8_t * out) { sponge(200 - bits / 4, 0x06, m, n, out, bits / 8); }
inline void shake(unsigned sec, const uint8_t * m, size_t n, uint8_t * out, size_t outlen) { sponge(200 - sec / 4, 0x1f, m, n, out, outlen); }

// ---- xxHash ---------------------------------------------------------------------------------------
inline uint32_t le32(const uint8_t * p) { return uint32_t(p[0]) | uint32_t(p[1]) << 8 | uint32_t(p[2]) << 16 | uint32_t(p[3]) << 24; }
inline uint64_t le64(const uint8_t * p) { return uint64_t(le32(p)) | uint64_t(le32(p + 4)) << 32; }
inline uint32_t rol32(uint32_t v, unsigned n) { return (v << n) | (v >> (32 - n)); }
inline uint64_t rol64(uint64_t v, unsigned n) { return (v << n) | (v >> (64 - n)); }
struct xxh32_acc { uint32_t a[4]; };
inline void xxh32_init(uint32_t acc[4], uint32_t seed) {
	const uint32_t P1 = 0x9E3779B1u, P2 = 0x85EBCA77u;
	acc[0] = seed + P1 + P2, acc[1] = seed + P2, acc[2] = seed, acc[3] = seed - P1;
}
inline void xxh32_stripe(uint32_t acc[4], const uint8_t * p) {
	for (int i = 0; i < 4; ++i) acc[i] = rol32(acc[i] + le32(p + 4 * i) * 0x85EBCA77u, 13) * 0x9E3779B1u;
}
inline uint32_t xxh32_finish(const uint32_t acc[4], uint32_t seed, const uint8_t * tail, size_t n, uint64_t total) {
	const uint32_t P1 = 0x9E3779B1u, P2 = 0x85EBCA77u, P3 = 0xC2B2AE3Du, P4 = 0x27D4EB2Fu, P5 = 0x165667B1u;
	uint32_t h = total >= 16 ? rol32(acc[0], 1) + rol32(acc[1], 7) + rol32(acc[2], 12) + rol32(acc[3], 18) : seed + P5;
	h += uint32_t(total);
	size_t i = 0;
	for (; i + 4 <= n; i += 4) h = rol32(h + le32(tail + i) * P3, 17) * P4;
	for (; i < n; ++i) h = rol32(h + tail[i] * P5, 11) * P1;
	h ^= h >> 15;
	h *= P2;
	h ^= h >> 13;
	h *= P3;
	return h ^ (h >> 16);
}
inline void xxh64_init(uint64_t acc[4], uint64_t seed) {
	const uint64_t P1 = 0x9E3779B185EBCA87ull, P2 = 0xC2B2AE3D27D4EB4Full;
	acc[0] = seed + P1 + P2, acc[1] = seed + P2, acc[2] = seed, acc[3] = seed - P1;
}
inline uint64_t xxh64_round(uint64_t acc, uint64_t lane) { return rol64(acc + lane * 0xC2B2AE3D27D4EB4Full, 31) * 0x9E3779B185EBCA87ull; }
inline void xxh64_stripe(uint64_t acc[4], const uint8_t * p) {
	for (int i = 0; i < 4; ++i) acc[i] = xxh64_round(acc[i], le64(p + 8 * i));
}
inline uint64_t xxh64_finish(const uint64_t acc[4], uint64_t seed, const uint8_t * tail, size_t n, uint64_t total) {
	const uint64_t P1 = 0x9E3779B185EBCA87ull, P2 = 0xC2B2AE3D27D4EB4Full, P3 = 0x165667B19E3779F9ull, P4 = 0x85EBCA77C2B2AE63ull, P5 = 0x27D4EB2F165667C5ull;
	uint64_t h;
	if (total >= 32) {
		h = rol64(acc[0], 1) + rol64(acc[1], 7) + rol64(acc[2], 12) + rol64(acc[3], 18);
		for (int i = 0; i < 4; ++i) h = (h ^ xxh64_round(0, acc[i])) * P1 + P4;
	} else
		h = seed + P5;
	h += total;
	size_t i = 0;
	for (; i + 8 <= n; i += 8) h = rol64(h ^ xxh64_round(0, le64(tail + i)), 27) * P1 + P4;
	if (i + 4 <= n) h = rol64(h ^ (uint64_t(le32(tail + i)) * P1), 23) * P2 + P3, i += 4;
	for (; i < n; ++i) h = rol64(h ^ (tail[i] * P5), 11) * P1;
	h ^= h >> 33;
	h *= P2;
	h ^= h >> 29;
	h *= P3;
	return h ^ (h >> 32);
}
inline void put_be(uint64_t v, size_t n, uint8_t * out) {
	for (size_t i = 0; i < n; ++i) out[i] = uint8_t(v >> (8 * (n - 1 - i)));
}
inline void xxh32(const uint8_t * m, size_t n, uint64_t seed, uint8_t * out) {
	uint32_t acc[4];
	xxh32_init(acc, uint32_t(seed));
	size_t i = 0;
	for (; n - i >= 16; i += 16) xxh32_stripe(acc, m + i);
	put_be(xxh32_finish(acc, uint32_t(seed), m + i, n - i, n), 4, out);
}
inline void xxh64(const uint8_t * m, size_t n, uint64_t seed, uint8_t * out) {
	uint64_t acc[4];
	xxh64_init(acc, seed);
	size_t i = 0;
	for (; n - i >= 32; i += 32) xxh64_stripe(acc, m + i);
	put_be(xxh64_finish(acc, seed, m + i, n - i, n), 8, out);
}

// ---- digests of all prefixes of one message, from chaining values kept at every block boundary -------
enum kind { k_sha256, k_sha512, k_sponge, k_xxh32, k_xxh64 };
struct algorithm {
	kind k;
	size_t block, outlen;
	uint8_t suffix;
	uint64_t iv[8];
	uint64_t seed;
};
struct chain {
	algorithm a;
	union {
		uint32_t h32[8];
		uint64_t h64[8];
		uint64_t lanes[25];
	};
	explicit chain(const algorithm & al): a{al} {
		memset(lanes, 0, sizeof lanes);
		switch (a.k) {
		case k_sha256:
			for (int i = 0; i < 8; ++i) h32[i] = uint32_t(a.iv[i]);
			break;
		case k_sha512: memcpy(h64, a.iv, sizeof h64); break;
		case k_xxh32: xxh32_init(h32, uint32_t(a.seed)); break;
		case k_xxh64: xxh64_init(h64, a.seed); break;
		case k_sponge: break;
		}
	}
	void block(const uint8_t * p) {
		switch (a.k) {
		case k_sha256: sha256_block(h32, p); break;
		case k_sha512: sha512_block(h64, p); break;
		case k_xxh32: xxh32_stripe(h32, p); break;
		case k_xxh64: xxh64_stripe(h64, p); break;
		case k_sponge:
			for (size_t i = 0; i < a.block; ++i) lanes[i / 8] ^= uint64_t(p[i]) << (8 * (i % 8));
			keccak_f(lanes);
			break;
		}
	}
	void finish(const uint8_t * tail, size_t n, unsigned __int128 total, uint8_t * out) const {
		chain c = *this;
		switch (a.k) {
		case k_sha256: sha256_finish(c.h32, tail, n, total, out, a.outlen); break;
		case k_sha512: sha512_finish(c.h64, tail, n, total, out, a.outlen); break;
		case k_xxh32: put_be(xxh32_finish(h32, uint32_t(a.seed), tail, n, uint64_t(total)), 4, out); break;
		case k_xxh64: put_be(xxh64_finish(h64, a.seed, tail, n, uint64_t(total)), 8, out); break;
		case k_sponge: {
			for (size_t i = 0; i < n; ++i) c.lanes[i / 8] ^= uint64_t(tail[i]) << (8 * (i % 8));
			c.lanes[n / 8] ^= uint64_t(a.suffix) << (8 * (n % 8));
			c.lanes[(a.block - 1) / 8] ^= uint64_t(0x80) << (8 * ((a.block - 1) % 8));
			keccak_f(c.lanes);
			for (size_t i = 0, o = 0; i < a.outlen; ++i, ++o) {
				if (o == a.block) keccak_f(c.lanes), o = 0;
				out[i] = uint8_t(c.lanes[o / 8] >> (8 * (o % 8)));
			}
			break;
		}
		}
	}
};
struct prefixes {
	const uint8_t * m;
	std::vector<chain> at; // at[i]: after i blocks
	prefixes(const algorithm & a, const uint8_t * p, size_t n): m{p} {
		at.reserve(n / a.block + 1);
		at.emplace_back(a);
		for (size_t i = 0; (i + 1) * a.block <= n; ++i) {
			chain c = at.back();
			c.block(p + i * a.block);
			at.push_back(c);
		}
	}
	void digest(size_t n, uint8_t * out) const {
		const size_t b = n / at[0].a.block;
		at[b].finish(m + b * at[0].a.block, n % at[0].a.block, n, out);
	}
};
inline algorithm alg_sha2_32(const uint32_t iv[8], size_t out) {
	algorithm a{k_sha256, 64, out, 0, {}, 0};
	for (int i = 0; i < 8; ++i) a.iv[i] = iv[i];
	return a;
}
inline algorithm alg_sha2_64(const uint64_t iv[8], size_t out) {
	algorithm a{k_sha512, 128, out, 0, {}, 0};
	for (int i = 0; i < 8; ++i) a.iv[i] = iv[i];
	return a;
}
inline algorithm alg_sha2(unsigned bits) {
	switch (bits) {
	case 224: return alg_sha2_32(IV224, 28);
	case 256: return alg_sha2_32(IV256, 32);
	case 384: return alg_sha2_64(IV384, 48);
	default: return alg_sha2_64(IV512, 64);
	}
}
inline algorithm alg_sha512t(unsigned t) {
	uint64_t iv[8];
	sha512t_iv(t, iv);
	return alg_sha2_64(iv, t / 8);
}
inline algorithm alg_sha3(unsigned bits) { return algorithm{k_sponge, 200 - bits / 4, bits / 8, 0x06, {}, 0}; }
inline algorithm alg_shake(unsigned sec, size_t out) { return algorithm{k_sponge, 200 - sec / 4, out, 0x1f, {}, 0}; }
inline algorithm alg_xxh(unsigned bits, uint64_t seed) { return algorithm{bits == 32 ? k_xxh32 : k_xxh64, bits / 2, bits / 8, 0, {}, seed}; }

// ---- text encodings -------------------------------------------------------------------------------
struct encoding {
	const char * name;
	const char * alias; // or nullptr
	const char * alphabet;
	unsigned bits;
	bool padded;
};
inline constexpr encoding encodings[] = {
	{"base64", nullptr, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", 6, true},
	{"base64_no_padding", nullptr, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", 6, false},
	{"base64url", "base64_url", "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", 6, false},
	{"base32", nullptr, "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", 5, true},
	{"base32_no_padding", nullptr, "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", 5, false},
	{"z_base32", "zbase32", "ybndrfg8ejkmcpqxot1uwisza345h769", 5, false},
	{"base16", "hexdec", "0123456789abcdef", 4, false},
	{"BASE16", "HEXDEC", "0123456789ABCDEF", 4, false},
	{"base8", "octal", "01234567", 3, true},
	{"base4", nullptr, "0123", 2, false},
	{"base2", "binary", "01", 1, false},
};
inline constexpr size_t encoding_count = sizeof(encodings) / sizeof(encodings[0]);
// big-endian bit string, cut into groups, zero-filled; optional '=' up to a whole number of bytes and groups
inline std::string encode(const encoding & e, const uint8_t * p, size_t n) {
	std::string bits, out;
	for (size_t i = 0; i < n; ++i)
		for (int b = 7; b >= 0; --b) bits += char('0' + ((p[i] >> b) & 1));
	while (bits.size() % e.bits) bits += '0';
	for (size_t i = 0; i < bits.size(); i += e.bits) {
		unsigned v = 0;
		for (unsigned k = 0; k < e.bits; ++k) v = v * 2 + unsigned(bits[i + k] - '0');
		out += e.alphabet[v];
	}
	if (e.padded)
		while ((out.size() * e.bits) % 8) out += '=';
	return out;
}

} // namespace ref
