// C28, C29: the library as compiled for another kind of host (bigend/api.cpp through bigend/bigend.cpp), explored from
// this native program against the same reference as everywhere.
// WIDE: 64-bit big-endian; NARROW: 32-bit pointers and size_t (with BIG: and big-endian).
#include "../common/mc.hpp"
#include "../ref/ref.hpp"
#include <numeric>
#ifdef NARROW
#include <malloc.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <openssl/evp.h>
#ifdef BIG
#define HOST "a 32-bit big-endian host"
#else
#define HOST "a 32-bit host"
#endif
#else
#define BIG
#define HOST "a big-endian host"
#endif

extern "C" {
unsigned long be_room(int a);
void be_make(int a, void * at, unsigned long seed);
void be_copy(int a, void * to, const void * from);
void be_update(int a, void * at, int carrier, const void * p, unsigned long n);
void be_final(int a, void * at, unsigned char * out);
unsigned be_probe(int what, const unsigned char * p, unsigned char * out);
unsigned long be_encode(int e, int element, const unsigned char * p, unsigned long n, unsigned char * out, unsigned char * produced_be);
int be_compare(int n, const unsigned char * a, const unsigned char * b);
void be_cut(int n, const unsigned char * a, unsigned char * out);
unsigned long be_render(int n, int how, const unsigned char * p, unsigned char * out);
void be_parse(int n, int width, const unsigned char * text, unsigned char * out);
unsigned long be_constant(int i, unsigned char * out);
unsigned long be_chunk(int w, int pad, int element, const unsigned char * p, unsigned long n, unsigned char * out);
unsigned long be_size(int e, unsigned long n);
unsigned long be_groups(int w, int element, int pad, unsigned long n);
unsigned long be_walk(int e, unsigned long n, unsigned long * produced, unsigned long * hash);
}
#ifdef NARROW
// what the 32-bit code needs from outside; its size_t is unsigned int here
extern "C" {
void * narrow_memcpy(void * d, const void * s, unsigned n) { return memcpy(d, s, n); }
void * narrow_memmove(void * d, const void * s, unsigned n) { return memmove(d, s, n); }
void * narrow_memset(void * d, int c, unsigned n) { return memset(d, c, n); }
int narrow_memcmp(const void * a, const void * b, unsigned n) { return memcmp(a, b, n); }
void * narrow_memchr(const void * a, int c, unsigned n) { return const_cast<void *>(memchr(a, c, n)); }
unsigned narrow_strlen(const char * s) { return unsigned(strlen(s)); }
// something of the native libraries which the 32-bit code cannot use: what it was needed for is left out
[[noreturn]] void narrow_unsupported() {
	mc::sample("left out at %s: needs a part of the native library", mc::where(*mc::cur).c_str());
	mc::cur->finished = 1;
	fflush(stdout);
	_exit(0);
}
void * narrow_new(unsigned n) {
	void * p = malloc(n ? n : 1);
	if (!p || reinterpret_cast<uintptr_t>(p) >> 32) narrow_unsupported();
	return p;
}
void narrow_delete(void * p, unsigned) { free(p); }
}
#endif
static uint8_t pattern(int kind, size_t i) {
	switch (kind) {
	case 0: { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return uint8_t(x >> 40); }
	case 1: return 0xff;
	case 2: return 0x80;
	case 3: return uint8_t(i);
	default: return 0;
	}
}

#if GROUP < 3
#if GROUP == 0
static const char * names[] = {"sha224", "sha256", "sha384", "sha512", "sha512_224", "sha512_8", "sha512_504"};
static const size_t blocks[] = {64, 64, 128, 128, 128, 128, 128}, sizes[] = {28, 32, 48, 64, 28, 1, 63};
static ref::algorithm algorithm(int a, uint64_t) { return a == 0 ? ref::alg_sha2(224) : a == 1 ? ref::alg_sha2(256) : a == 2 ? ref::alg_sha2(384) : a == 3 ? ref::alg_sha2(512) : ref::alg_sha512t(a == 4 ? 224 : a == 5 ? 8 : 504); }
#elif GROUP == 1
static const char * names[] = {"sha3_224", "sha3_256", "sha3_384", "sha3_512", "shake128", "shake256", "shake128_24"};
static const size_t blocks[] = {144, 136, 104, 72, 168, 136, 168}, sizes[] = {28, 32, 48, 64, 400, 299, 3};
static ref::algorithm algorithm(int a, uint64_t) { static const unsigned b[] = {224, 256, 384, 512}; return a < 4 ? ref::alg_sha3(b[a]) : a == 4 ? ref::alg_shake(128, 400) : a == 5 ? ref::alg_shake(256, 299) : ref::alg_shake(128, 3); }
#else
static const char * names[] = {"xxh32", "xxh64"};
static const size_t blocks[] = {16, 32}, sizes[] = {4, 8};
static ref::algorithm algorithm(int a, uint64_t seed) { return ref::alg_xxh(a ? 64 : 32, seed); }
#endif
struct Object {
	std::vector<unsigned char> memory;
	void * at;
	explicit Object(int a, int fill = 0xa5): memory(be_room(a) + 64, static_cast<unsigned char>(fill)), at(reinterpret_cast<void *>((reinterpret_cast<uintptr_t>(memory.data()) + 63) / 64 * 64)) { }
};
static void expect(int a, Object & o, const std::vector<uint8_t> & want, const char * how, size_t x, size_t y, size_t z, int kind) {
	unsigned char got[512];
	be_final(a, o.at, got);
	mc::state(), mc::validated();
	if (memcmp(got, want.data(), want.size())) mc::fail("%s on " HOST ", %zu + %zu + %zu bytes of pattern %d %s: %s instead of %s", names[a], x, y, z, kind, how, mc::hex(got, want.size()).c_str(), mc::hex(want.data(), want.size()).c_str());
	mc::outcome(mc::fnv(got, want.size()));
}
static std::vector<uint8_t> reference(int a, const std::vector<uint8_t> & m, size_t n, uint64_t seed) {
	std::vector<uint8_t> want(sizes[a]);
	ref::prefixes r(algorithm(a, seed), m.data(), n);
	r.digest(n, want.data());
	return want;
}
static void hashers() {
	for (int a = 0; a < int(sizeof blocks / sizeof *blocks); ++a) {
		const size_t B = blocks[a];
		const std::vector<uint64_t> seeds = GROUP == 2 ? std::vector<uint64_t>{0, 1, 0x80000000u, 0x0123456789abcdefull, ~0ull} : std::vector<uint64_t>{0};
		// every length; one update
		mc::add(std::string("lengths-") + names[a], [=] {
			for (uint64_t seed: seeds)
				for (int kind = 0; kind < 5; ++kind) {
					std::vector<uint8_t> m((mc::thorough ? 9 : 4) * B + 9);
					for (size_t i = 0; i < m.size(); ++i) m[i] = pattern(kind, i);
					ref::prefixes r(algorithm(a, seed), m.data(), m.size());
					std::vector<uint8_t> want(sizes[a]);
					for (size_t n = 0; n <= m.size(); ++n) {
						mc::at("length %lu, pattern %lu", n, uint64_t(kind));
						r.digest(n, want.data());
						for (int c = 0; c < 7; ++c) {
							Object o(a);
							be_make(a, o.at, seed);
							be_update(a, o.at, c, m.data(), n);
							mc::transition(2);
							expect(a, o, want, "in one update", n, 0, 0, kind);
						}
					}
				}
			mc::sample("%s: every length to %zu blocks + 9, 5 patterns, 7 carriers", names[a], size_t(mc::thorough ? 9 : 4));
		});
		// every pair of cuts around the boundaries, every single cut, with a copy in the middle
		mc::add(std::string("cuts-") + names[a], [=] {
			const size_t top = 2 * B + 9;
			std::vector<uint8_t> m(top + B + 9);
			for (size_t i = 0; i < m.size(); ++i) m[i] = pattern(0, i);
			ref::prefixes r(algorithm(a, 5), m.data(), m.size());
			std::vector<uint8_t> want(sizes[a]);
			std::set<size_t> thirds{0, 1, 3, 4, 7, 8, 9, B - 1, B, B + 1};
			for (size_t x = 0; x <= B; ++x)
				for (size_t y = 0; y + x <= top; ++y) {
					Object o(a);
					be_make(a, o.at, 5);
					be_update(a, o.at, int(x % 7), m.data(), x);
					be_update(a, o.at, int(y % 7), m.data() + x, y);
					mc::transition(3);
					mc::at("cut %lu + %lu", x, y);
					for (size_t z: thirds) {
						if (!mc::thorough && z > 1 && (x % 8 > 1 || y % 8 > 1) && z != (x + y) % 9) continue;
						Object c(a, 0x3c);
						be_copy(a, c.at, o.at);
						be_update(a, c.at, 0, m.data() + x + y, z);
						mc::transition(2);
						r.digest(x + y + z, want.data());
						expect(a, c, want, "in three updates, copied before the last", x, y, z, 0);
					}
				}
			mc::sample("%s: all two-piece cuts to a block + %zu bytes, then third pieces from a copy", names[a], top);
		});
		// every value of every byte of a short message and of one block
		mc::add(std::string("bytes-") + names[a], [=] {
			for (size_t n: {size_t(1), size_t(4), size_t(9), B, B + 5})
				for (size_t i = 0; i < n; ++i)
					for (int v = 0; v < 256; ++v) {
						std::vector<uint8_t> m(n, 0x5a);
						m[i] = uint8_t(v);
						Object o(a);
						be_make(a, o.at, 0);
						be_update(a, o.at, v % 7, m.data(), n);
						mc::transition(2);
						expect(a, o, reference(a, m, n, 0), "with one byte changed", n, i, size_t(v), -1);
					}
			mc::sample("%s: every value of every byte of messages of 1, 4, 9 bytes, a block, a block + 5", names[a]);
		});
	}
}
#endif
#if GROUP == 3
static void hashers() {
	mc::add("self-test", [] {
		unsigned char p[16] = {1, 2, 3, 4}, out[64] = {};
		auto must = [](bool ok, const char * what) { mc::state(), mc::transition(), mc::validated(); if (!ok) throw std::logic_error(std::string("the translated machine is not " HOST ": ") + what); };
#ifdef BIG
		must(be_probe(0, p, out) == 1, "std::endian::native");
		must(be_probe(1, p, out) == 0x01020304u, "4-byte load");
		must(be_probe(2, p, out) == 0x0102u, "2-byte load");
		p[0] = 0;
		be_probe(3, p, out);
		must(!memcmp(out, "\1\2\3\4\5\6\7\10", 8), "8-byte store");
		be_probe(4, p, out);
		must(!memcmp(out, "\1\2\3\4\x11\x12\x13\x14\x21\x22\x23\x24\x31\x32\x33\x34", 16), "table");
		be_probe(5, p, out);
		must(!memcmp(out, "\x11\x22\x33\x44\x55\x66\x77\x88", 8), "bit_cast");
		p[0] = 0x99;
		must(be_probe(6, p, out) == 24 && !memcmp(out, "\1\2", 2) && !memcmp(out + 4, "\3\4\5\6\x99", 5) && !memcmp(out + 16, "\7\10\11\12\13\14\15\16", 8), "structure");
		for (unsigned char i = 0; i < 3; ++i) {
			p[0] = i;
			const unsigned n = be_probe(7, p, out);
			must(n == (i ? 3u : 4u) && !memcmp(out, i == 0 ? "zero" : i == 1 ? "one" : "two", n), "table of pointers");
		}
#ifndef NARROW
		p[0] = 0;
		be_probe(8, p, out);
		must(!memcmp(out, "\1\2\3\4\5\6\7\10\11\12\13\14\15\16\17\20", 16), "128-bit store");
#endif
#else
		must(be_probe(0, p, out) == 0, "std::endian::native");
		must(be_probe(1, p, out) == 0x04030201u, "4-byte load");
		for (unsigned char i = 0; i < 3; ++i) {
			p[0] = i;
			const unsigned n = be_probe(7, p, out);
			must(n == (i ? 3u : 4u) && !memcmp(out, i == 0 ? "zero" : i == 1 ? "one" : "two", n), "table of pointers");
		}
#endif
		be_probe(9, p, out);
#ifdef NARROW
		must(out[0] == 4 && out[1] == 4 && out[2] == 4 && out[3] == 4 && out[4] == 8, "widths");
		p[0] = 3;
		must(be_probe(10, p, out) == 1, "arithmetic of size_t");
		must(be_probe(11, p, out) == 24, "size of a structure");
		const uint32_t addr = uint32_t(reinterpret_cast<uintptr_t>(out)), seen = [&] { uint32_t v; memcpy(&v, out + 32, 4); return v; }();
#ifdef BIG
		must(seen == __builtin_bswap32(addr) && !memcmp(out + 40, "\1\2\3\4\5\6\7\10\0\0\0\3", 12), "structure with a pointer");
#else
		must(seen == addr && !memcmp(out + 40, "\10\7\6\5\4\3\2\1\3\0\0\0", 12), "structure with a pointer");
#endif
#else
		must(out[0] == 8 && out[1] == 8 && out[2] == 8, "widths");
#endif
		mc::sample("loads, stores, tables, bit_cast, structures and widths of the translated machine are those of " HOST);
	});
}
#endif
#if GROUP == 4
static void hashers() {
	for (size_t e = 0; e < ref::encoding_count; ++e)
		mc::add(std::string("encode-") + ref::encodings[e].name, [e] {
			std::vector<unsigned char> out(40000);
			auto one = [&](const std::vector<uint8_t> & m, int element) {
				const std::string want = ref::encode(ref::encodings[e], m.data(), m.size());
				unsigned char produced[8];
				const unsigned long size = be_encode(int(e), element, m.data(), m.size(), out.data(), produced);
				uint64_t n = 0;
				for (int k = 0; k < 8; ++k)
#ifdef BIG
					n = n << 8 | produced[k];
#else
					n |= uint64_t(produced[k]) << (8 * k);
#endif
				mc::state(), mc::transition(n + 1), mc::validated();
				if (size != want.size() || n != want.size() || memcmp(out.data(), want.data(), want.size())) mc::fail("%s on " HOST " of %zu bytes %s (element kind %d): %s (%lu, size() %lu) instead of %s", ref::encodings[e].name, m.size(), mc::hex(m.data(), std::min<size_t>(m.size(), 40)).c_str(), element, std::string(reinterpret_cast<char *>(out.data()), std::min<size_t>(n, 200)).c_str(), n, size, want.substr(0, 200).c_str());
				mc::outcome(mc::fnv(out.data(), want.size()));
			};
			one({}, 0);
			for (int a = 0; a < 256; ++a) {
				for (int el = 0; el < 5; ++el) one({uint8_t(a)}, el);
				for (int b = 0; b < 256; ++b) one({uint8_t(a), uint8_t(b)}, (a + b) % 5);
			}
			for (int el = 0; el < 5; ++el)
				for (int kind = 0; kind < 5; ++kind)
					for (size_t n = 0; n <= (mc::thorough ? 600u : 130u); ++n) {
						std::vector<uint8_t> m(n);
						for (size_t i = 0; i < n; ++i) m[i] = pattern(kind, i);
						one(m, el);
					}
			for (size_t n: {5, 6, 15})
				for (size_t i = 0; i < n; ++i)
					for (int v = 0; v < 256; ++v) {
						std::vector<uint8_t> m(n, 0xa5);
						m[i] = uint8_t(v);
						one(m, v % 5);
					}
			mc::sample("%s: all inputs of 0-2 bytes, every length, every byte value", ref::encodings[e].name);
		});
}
#endif
#if GROUP == 5
static void hashers() {
	for (int n: {1, 3, 4, 8, 9, 20, 32, 64}) {
		mc::add("compare-" + std::to_string(n), [n] {
			std::vector<unsigned char> x(size_t(n), 0x7f), y(x);
			const std::vector<int> tails{0x00, 0xff};
			for (int i = 0; i < n; ++i)
				for (int u = 0; u < 256; ++u)
					for (int v = 0; v < 256; ++v) {
						if (n > 9 && i != 0 && i != n - 1 && i % 8 > 1 && (u * 7 + v) % 16) continue;
						for (int t: tails) {
							std::fill(x.begin(), x.end(), 0x7f), std::fill(y.begin(), y.end(), 0x7f);
							x[size_t(i)] = uint8_t(u), y[size_t(i)] = uint8_t(v);
							if (i + 1 < n) x[size_t(i) + 1] = uint8_t(t), y[size_t(i) + 1] = uint8_t(255 - t);
							const int c = memcmp(x.data(), y.data(), size_t(n));
							const int want = (c == 0) | ((c < 0) << 1) | ((c > 0) << 2) | ((c <= 0) << 3) | ((c >= 0) << 4) | ((c != 0) << 5) | ((c == 0) << 6) | ((c < 0) << 7);
							const int got = be_compare(n, x.data(), y.data());
							mc::state(), mc::transition(), mc::validated();
							if (got != want) mc::fail("comparison on " HOST " of %s with %s: %02x instead of %02x", mc::hex(x.data(), x.size()).c_str(), mc::hex(y.data(), y.size()).c_str(), unsigned(got), unsigned(want));
						}
					}
			mc::sample("values of %d bytes: every pair of byte values at every position", n);
		});
		mc::add("text-" + std::to_string(n), [n] {
			unsigned char out[1024], back[64];
			const ref::encoding *b16 = nullptr, *B16 = nullptr, *b64 = nullptr, *b32 = nullptr, *url = nullptr;
			for (auto & e: ref::encodings) {
				if (!strcmp(e.name, "base16") && e.alphabet[10] == 'a') b16 = &e;
				if (e.bits == 4 && e.alphabet[10] == 'A') B16 = &e;
				if (e.bits == 6 && e.alphabet[62] == '+' && e.padded) b64 = &e;
				if (e.bits == 5 && e.alphabet[0] == 'A' && e.padded) b32 = &e;
				if (e.bits == 6 && e.alphabet[62] == '-') url = &e;
			}
			if (!b16 || !B16 || !b64 || !b32 || !url) throw std::logic_error("reference encodings not found");
			const ref::encoding * how[] = {b16, b16, b64, b32, B16, url, b16, b64};
			auto one = [&](const std::vector<unsigned char> & v) {
				for (int h = 0; h < 8; ++h) {
					const std::string want = ref::encode(*how[h], v.data(), v.size());
					const size_t got = be_render(n, h, v.data(), out);
					mc::transition();
					if (got != want.size() || memcmp(out, want.data(), got)) mc::fail("rendering %d on " HOST " of %s: %s instead of %s", h, mc::hex(v.data(), v.size()).c_str(), std::string(reinterpret_cast<char *>(out), std::min<size_t>(got, 300)).c_str(), want.c_str());
				}
				for (int width = 0; width < 5; ++width)
					for (auto * e: {b16, B16}) {
						const std::string t = ref::encode(*e, v.data(), v.size());
						be_parse(n, width, reinterpret_cast<const unsigned char *>(t.data()), back);
						mc::transition();
						if (memcmp(back, v.data(), v.size())) mc::fail("parsing on " HOST " of '%s' (character type %d) gives %s", t.c_str(), width, mc::hex(back, v.size()).c_str());
					}
				be_cut(n, v.data(), out);
				const size_t half = (size_t(n) + 1) / 2;
				if (memcmp(out, v.data(), half) || memcmp(out + half, v.data() + size_t(n) - half, half)) mc::fail("prefix/suffix on " HOST " of %s: %s", mc::hex(v.data(), v.size()).c_str(), mc::hex(out, 2 * half).c_str());
				mc::state(), mc::validated();
				mc::outcome(mc::fnv(v.data(), v.size()));
			};
			for (int i = 0; i < n; ++i)
				for (int v = 0; v < 256; ++v) {
					std::vector<unsigned char> m;
					for (int k = 0; k < n; ++k) m.push_back(pattern(0, size_t(k)));
					m[size_t(i)] = uint8_t(v);
					one(m);
				}
			mc::sample("values of %d bytes: every byte value at every position rendered 8 ways, parsed from 5 character types, cut", n);
		});
	}
	mc::add("constants", [] {
		unsigned char out[64], want[64];
		auto p = [](const char * t) { return reinterpret_cast<const uint8_t *>(t); };
		const char *s = "hello there", *l = "hello there, this is longer than a stripe";
		for (int i = 0; i < 8; ++i) {
			size_t n = 32;
			switch (i) {
			case 0: ref::sha256(p(s), strlen(s), want); break;
			case 1: ref::sha512(p(s), strlen(s), want), n = 64; break;
			case 2: ref::sha3(256, p(s), strlen(s), want); break;
			case 3: ref::shake(128, p(s), strlen(s), want, 21), n = 21; break;
			case 4: ref::xxh32(p(l), strlen(l), 7, want), n = 4; break;
			case 5: ref::xxh64(p(l), strlen(l), 7, want), n = 8; break;
			case 6: for (unsigned k = 0; k < 16; ++k) want[k] = uint8_t(k * 17); n = 16; break;
			case 7: ref::sha512t(224, p(s), strlen(s), want), n = 28; break;
			}
			const size_t got = be_constant(i, out);
			mc::state(), mc::transition(), mc::validated();
			if (got != n || memcmp(out, want, n)) mc::fail("constant %d computed by the compiler for " HOST ": %s instead of %s", i, mc::hex(out, got).c_str(), mc::hex(want, n).c_str());
		}
		mc::sample("digests and a literal computed at compile time for " HOST);
	});
}
#endif
#if GROUP == 6
static void hashers() {
	static const unsigned bits[] = {8, 8, 16, 16, 32, 32, 64, 64};
	for (int el = 0; el < 8; ++el)
		for (int w: {1, 2, 3, 4, 5, 6, 8, 12, 16})
			for (int pad = 0; pad < 2; ++pad) {
				const unsigned in = bits[el];
				if (in > 16 && (w == 3 || w == 6 || w == 12)) continue;
				if (in != 8 && w == 5) continue;
				if (in == 8 && w == 16) continue;
				mc::add("chunk-" + std::to_string(el) + "-" + std::to_string(w) + (pad ? "-padded" : ""), [=] {
					std::vector<unsigned char> out(9 * 4000);
					auto one = [&](const std::vector<uint8_t> & m) { // bytes of the elements, most significant first
						const size_t n = m.size() * 8 / in, total_bits = n * in, block = std::lcm(size_t(w), size_t(in));
						const size_t groups = pad ? (total_bits + block - 1) / block * block / size_t(w) : (total_bits + size_t(w) - 1) / size_t(w);
						const size_t got = be_chunk(w, pad, el, m.data(), n, out.data());
						mc::state(), mc::transition(groups + 1), mc::validated();
						if (got != groups) return mc::fail("%d-bit groups of %zu %u-bit elements on " HOST ": %ld groups instead of %zu", w, n, in, long(got), groups);
						for (size_t g = 0; g < groups; ++g) {
							uint64_t v = 0, have = 0;
							unsigned missing = 0;
							for (size_t b = g * size_t(w); b < (g + 1) * size_t(w); ++b) {
								if (b < total_bits) v = v << 1 | ((m[b / 8] >> (7 - b % 8)) & 1);
								else v = v << 1, ++missing;
							}
							for (int k = 0; k < 8; ++k) have = have << 8 | out[9 * g + unsigned(k)];
							if (have != v || out[9 * g + 8] != missing) mc::fail("%d-bit groups of %zu %u-bit elements %s on " HOST ": group %zu is %llx (%u missing) instead of %llx (%u)", w, n, in, mc::hex(m.data(), std::min<size_t>(m.size(), 40)).c_str(), g, (unsigned long long)have, unsigned(out[9 * g + 8]), (unsigned long long)v, missing);
						}
						mc::outcome(mc::fnv(out.data(), 9 * groups));
					};
					const size_t width = in / 8, top = std::lcm(size_t(w), size_t(in)) / in * 2 + 3;
					for (size_t n = 0; n <= top; ++n)
						for (int kind = 0; kind < 5; ++kind) {
							std::vector<uint8_t> m(n * width);
							for (size_t i = 0; i < m.size(); ++i) m[i] = pattern(kind, i);
							one(m);
							for (size_t b = 0; b < m.size() * 8; ++b) {
								m[b / 8] ^= uint8_t(0x80 >> (b % 8));
								one(m);
								m[b / 8] ^= uint8_t(0x80 >> (b % 8));
							}
						}
					for (size_t i = 0; i < 2 * width; ++i)
						for (int v = 0; v < 256; ++v) {
							std::vector<uint8_t> m(2 * width, 0x96);
							m[i] = uint8_t(v);
							one(m);
						}
					mc::sample("%u-bit elements to %d-bit groups: every length to two group blocks, every single deviating bit, every byte value", in, w);
				});
			}
}
#endif

#if GROUP == 7
#include "../common/virtual.hpp"
static uint64_t exact(uint64_t elements, unsigned in, unsigned out, bool pad) {
	const unsigned __int128 bits = static_cast<unsigned __int128>(elements) * in;
	if (!pad) return uint64_t((bits + out - 1) / out);
	const unsigned block = std::lcm(in, out);
	return uint64_t((bits + block - 1) / block * (block / out));
}
static std::vector<uint64_t> lengths() {
	std::set<uint64_t> r;
	for (unsigned k = 0; k <= 32; ++k)
		for (int64_t d = -40; d <= 40; ++d)
			for (uint64_t m: {1u, 3u, 5u, 7u, 9u, 11u, 13u, 15u})
				if (const int64_t v = int64_t((m << k) / 4) + d; v >= 0 && v < int64_t(1) << 32) r.insert(uint64_t(v));
	return {r.begin(), r.end()};
}
static void hashers() {
#ifdef FAR
	for (int e: {0, 2, 6})
		mc::add(std::string("walk-") + ref::encodings[e].name, [e] {
			const auto & enc = ref::encodings[e];
			for (uint64_t n: mc::thorough ? std::vector<uint64_t>{(1ull << 29) - 1, (1ull << 29) + 5, (1ull << 30) - 2} : std::vector<uint64_t>{(1ull << 29) + 5}) {
				if (exact(n, 8, enc.bits, enc.padded) >> 31) continue;
				mc::at("walking encoding %lu of %lu bytes", uint64_t(e), n);
				unsigned long produced = 0, hash = 0;
				const uint64_t size = be_walk(e, n, &produced, &hash);
#ifdef BIG
				produced = __builtin_bswap64(produced), hash = __builtin_bswap64(hash);
#endif
				uint64_t h = 1469598103934665603ull, chars = 0;
				std::vector<uint8_t> m;
				for (uint64_t i = 0; i < n; i += 15360) {
					m.resize(std::min<uint64_t>(15360, n - i));
					for (size_t k = 0; k < m.size(); ++k) m[k] = uint8_t(virtual_range<unsigned char>::value(i + k));
					for (unsigned char c: ref::encode(enc, m.data(), m.size())) h = (h ^ c) * 1099511628211ull, ++chars;
				}
				mc::state(), mc::transition(chars), mc::validated();
				if (size != chars || produced != chars || hash != h) mc::fail("%s of %lu bytes on " HOST ": %lu characters, size() %lu, instead of %lu, or other characters", enc.name, n, produced, size, chars);
				mc::outcome(h);
			}
			mc::sample("%s of more than 2^29 bytes character by character", enc.name);
		});
#endif
	for (int e = 0; e < int(ref::encoding_count); ++e)
		mc::add(std::string("sizes-") + ref::encodings[e].name, [e] {
			for (uint64_t n: lengths()) {
				const auto & enc = ref::encodings[e];
				const uint64_t want = exact(n, 8, enc.bits, enc.padded);
				if (want >> 31) continue; // no text of that length exists on such a host
				mc::at("size() of encoding %lu of %lu bytes", uint64_t(e), n);
				const uint64_t got = be_size(e, n);
				mc::state(), mc::transition(), mc::validated(), mc::outcome(want % 100003);
				if (got != want) mc::fail("size() of %s of %lu bytes on " HOST " is %lu instead of %lu", enc.name, n, got, want);
			}
			mc::sample("size() of %s around every eighth of a power of two up to texts of 2^31 characters", ref::encodings[e].name);
		});
	static const struct { int w, el; unsigned in; } table[] = {{1, 0, 8}, {4, 0, 8}, {5, 0, 8}, {6, 0, 8}, {8, 0, 8}, {12, 0, 8}, {16, 1, 16}, {6, 1, 16}, {8, 2, 32}, {16, 2, 32}};
	for (auto & t: table)
		for (int pad = 0; pad < 2; ++pad)
			mc::add("groups-" + std::to_string(t.w) + "-" + std::to_string(t.in) + (pad ? "-padded" : ""), [&t, pad] {
				for (uint64_t n: lengths()) {
					const uint64_t want = exact(n, t.in, unsigned(t.w), pad);
					if (want >> 31 || n * (t.in / 8) >> 31) continue;
					mc::at("size() of %lu-bit groups of %lu elements", uint64_t(t.w), n);
					const uint64_t got = be_groups(t.w, t.el, pad, n);
					mc::state(), mc::transition(), mc::validated(), mc::outcome(want % 100003);
					if (got != want) mc::fail("size() of %d-bit groups%s of %lu %u-bit elements on " HOST " is %lu instead of %lu", t.w, pad ? " (padded)" : "", n, t.in, got, want);
				}
				mc::sample("size() of %d-bit groups of %u-bit elements", t.w, t.in);
			});
}
#endif
#if defined(NARROW) && defined(FAR) && GROUP < 3
// totals beyond 32 bits, of bytes and of bits
static void far() {
	for (int a = 0; a < int(sizeof blocks / sizeof *blocks); ++a) {
		const std::string nm = names[a];
		const bool often = nm == "sha256" || nm == "sha512" || nm == "xxh32" || nm == "xxh64" || nm == "sha3_256";
		if (!often && !mc::thorough) continue;
		mc::add("far-" + nm, [a] {
			// 2^31 - 4096 readable bytes in the upper half of the addresses: one 16 MiB file again and again
			const size_t unit = 16u << 20, all = (size_t(1) << 31) - (1u << 16);
			const int fd = int(syscall(SYS_memfd_create, "far", 0));
			if (fd < 0 || ftruncate(fd, off_t(unit))) throw std::runtime_error("cannot make a memory file");
			uint8_t * const at = reinterpret_cast<uint8_t *>(uintptr_t(1) << 31);
			for (size_t o = 0; o < all; o += unit)
				if (mmap(at + o, std::min(unit, all - o), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED_NOREPLACE, fd, 0) != at + o) {
					mc::sample("left out: the upper half of the addresses is not free");
					return;
				}
			for (size_t i = 0; i < unit; ++i) at[i] = pattern(0, i);
			const size_t B = blocks[a];
			const uint64_t seed = GROUP == 2 ? 0x9e3779b1u : 0;
			// the bytes of the stream repeat with the file, whatever the pieces are; totals are asked for in rising order
#if GROUP == 2
			uint32_t narrow[4];
			uint64_t wide[4], told = 0;
			ref::xxh32_init(narrow, uint32_t(seed)), ref::xxh64_init(wide, seed);
			auto want = [&](uint64_t total, uint8_t * out) {
				for (; total - told >= B; told += B) {
					if (a) ref::xxh64_stripe(wide, at + told % unit);
					else ref::xxh32_stripe(narrow, at + told % unit);
				}
				if (a) ref::put_be(ref::xxh64_finish(wide, seed, at + told % unit, total - told, total), 8, out);
				else ref::put_be(ref::xxh32_finish(narrow, uint32_t(seed), at + told % unit, total - told, total), 4, out);
			};
#else
			static const char * const known[2][7] = {{"SHA224", "SHA256", "SHA384", "SHA512", "SHA512-224", nullptr, nullptr}, {"SHA3-224", "SHA3-256", "SHA3-384", "SHA3-512", nullptr, nullptr, nullptr}};
			if (!known[GROUP][a]) return;
			EVP_MD_CTX *x = EVP_MD_CTX_new(), *y = EVP_MD_CTX_new();
			if (!EVP_DigestInit_ex(x, EVP_get_digestbyname(known[GROUP][a]), nullptr)) throw std::runtime_error("no OpenSSL digest");
			uint64_t told = 0;
			auto want = [&](uint64_t total, uint8_t * out) {
				while (told < total) {
					const size_t k = std::min<uint64_t>(total - told, unit - told % unit);
					EVP_DigestUpdate(x, at + told % unit, k), told += k;
				}
				unsigned l = 0;
				unsigned char full[64];
				EVP_MD_CTX_copy_ex(y, x), EVP_DigestFinal_ex(y, full, &l);
				memcpy(out, full, sizes[a]);
			};
#endif
			const uint64_t marks[] = {(1ull << 29) - 1, (1ull << 29) + 17, (1ull << 31) - 1, (1ull << 31) + B, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + B + 3};
			Object o(a);
			be_make(a, o.at, seed);
			uint64_t done = 0;
			for (uint64_t m: marks) {
				while (done < m) { // pieces as long as the memory allows
					const uint64_t off = done % unit, k = std::min<uint64_t>(m - done, all - unit - off);
					be_update(a, o.at, 1, at + off, k);
					done += k;
					mc::transition();
				}
				mc::at("%lu bytes in total", done);
				std::vector<uint8_t> w(sizes[a]);
				want(done, w.data());
				Object c(a, 0x11);
				be_copy(a, c.at, o.at);
				expect(a, c, w, "in total", done, 0, 0, 0);
			}
			mc::sample("%s: totals around 2^29, 2^31, 2^32 bytes in pieces of up to 2^31 bytes", names[a]);
		});
	}
}
#endif

#ifdef NARROW
static int count;
static char ** values;
static int result;
static ucontext_t outer, inner;
static void whole() {
#if GROUP < 3 && defined(FAR)
	far(); // the longest first
#endif
	hashers();
	result = mc::run(count, values);
}
int main(int argc, char ** argv) {
	// everything the 32-bit code gets to see lies below 4 GiB: the program itself, its heap and this stack
	mallopt(M_MMAP_MAX, 0);
	mallopt(M_ARENA_MAX, 1);
	const size_t size = 64u << 20;
	void * stack = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_32BIT, -1, 0);
	void * heap = malloc(1 << 20);
	if (stack == MAP_FAILED || reinterpret_cast<uintptr_t>(heap) >> 32) return fprintf(stderr, "no memory below 4 GiB\n"), 3;
	free(heap);
	count = argc, values = argv;
	getcontext(&inner);
	inner.uc_stack.ss_sp = stack, inner.uc_stack.ss_size = size, inner.uc_link = &outer;
	makecontext(&inner, whole, 0);
	swapcontext(&outer, &inner);
	return result;
}
#else
int main(int argc, char ** argv) {
	hashers();
	return mc::run(argc, argv);
}
#endif
