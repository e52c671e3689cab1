// C01, C02, C03, C05: digest conformance, enumerated message spaces against an independent reference.
#include "../common/mc.hpp"
#include "../common/alg.hpp"
#include <openssl/evp.h>
#if __has_include(<openssl/provider.h>)
#endif

template <class A> struct conf {
	using H = typename A::H;
	static void judge(const uint8_t * m, size_t n, uint64_t seed, int c, int how, const uint8_t * exp, const char * what) {
		uint8_t out[A::dlen];
		mc::transition();
		if (A::shake && how != 3) how = 0; // SHAKE offers neither final(span) nor simple<>
		if (how == 0) {
			auto h = A::make(seed);
			feed(h, m, n, c);
			A::finish(h, out);
		} else if (how == 1) { // into a caller's span
			auto h = A::make(seed);
			feed(h, m, n, c);
			if constexpr (!A::shake) h.final(std::span<std::byte, A::dlen>(reinterpret_cast<std::byte *>(out), A::dlen));
		} else if (how == 2) { // one call
			if constexpr (A::xx) digest_bytes(cthash::simple<H>(std::span<const std::byte>(reinterpret_cast<const std::byte *>(m), n), static_cast<typename A::seed_t>(seed)), out);
			else if constexpr (!A::shake) digest_bytes(cthash::simple<H>(std::span<const std::byte>(reinterpret_cast<const std::byte *>(m), n)), out);
		} else { // in two pieces
			auto h = A::make(seed);
			feed(h, m, n / 2, c);
			feed(h, m + n / 2, n - n / 2, c);
			A::finish(h, out);
		}
		mc::validated();
		if (memcmp(out, exp, A::dlen)) {
			std::string head = mc::hex(m, std::min<size_t>(n, 300));
			mc::fail("%s of %zu bytes (%s, seed %llu, %s as %s): got %s, expected %s; message %s%s", A::name().c_str(), n, what, (unsigned long long)seed, how == 0 ? "update+final" : how == 1 ? "final(span)" : how == 2 ? "simple<>" : "two updates", carrier_name[c], mc::hex(out, A::dlen).c_str(), mc::hex(exp, A::dlen).c_str(), head.c_str(), n > 300 ? "..." : "");
		}
	}
	static void one(const uint8_t * m, size_t n, uint64_t seed, int c, int how, const char * what) {
		uint8_t exp[A::dlen];
		A::oracle(m, n, seed, exp);
		mc::state(), mc::outcome(mc::fnv(exp, A::dlen));
		judge(m, n, seed, c, how, exp, what);
	}
	// reference through a precomputed chaining value, for speed
	static ref::algorithm alg(uint64_t seed) { return A::refalg(seed); }

	static void jobs(size_t maxlen, bool deviations, std::vector<uint64_t> seeds) {
		mc::add("short-" + A::name(), [] {
			const auto a = A::refalg(0);
			const ref::chain start(a);
			uint8_t m[4], exp[A::dlen];
			auto go = [&](size_t n) {
				start.finish(m, n, n, exp);
				mc::state();
				judge(m, n, 0, int(m[0] % c_count), int(m[1] % 3), exp, "short");
			};
			m[0] = m[1] = 0;
			for (int c = 0; c < c_count; ++c)
				for (int how = 0; how < 4; ++how) one(m, 0, 0, c, how, "empty");
			for (int a = 0; a < 256; ++a)
				for (int c = 0; c < c_count; ++c) m[0] = uint8_t(a), one(m, 1, 0, c, 0, "one byte");
			for (int a = 0; a < 65536; ++a) {
				m[0] = uint8_t(a >> 8), m[1] = uint8_t(a);
				mc::at("two-byte message %04llx", uint64_t(a));
				go(2);
			}
			mc::sample("%s: all messages of 0, 1 and 2 bytes", A::name().c_str());
		});
		if (mc::thorough && deviations)
			for (int part = 0; part < 8; ++part)
				mc::add("three-" + A::name() + "-" + std::to_string(part), [part] {
					const auto a = A::refalg(0);
					const ref::chain start(a);
					uint8_t m[4], exp[A::dlen];
					for (uint32_t v = uint32_t(part) << 21; v < uint32_t(part + 1) << 21; ++v) {
						m[0] = uint8_t(v >> 16), m[1] = uint8_t(v >> 8), m[2] = uint8_t(v);
						mc::at("three-byte message %06llx", uint64_t(v));
						start.finish(m, 3, 3, exp);
						mc::state();
						judge(m, 3, 0, int(v % c_count), 0, exp, "three bytes");
					}
				});
		for (int part = 0; part < 4; ++part)
			mc::add("lengths-" + A::name() + "-" + std::to_string(part), [maxlen, seeds, part] {
				for (int kind = 0; kind < 7; ++kind) {
					auto m = message(kind, maxlen);
					for (uint64_t seed: seeds) {
						const auto a = A::refalg(seed);
						ref::prefixes want(a, m.data(), maxlen);
						uint8_t exp[A::dlen];
						for (size_t n = size_t(part); n <= maxlen; n += 4) {
							mc::at("length %llu pattern %llu seed %llu", n, uint64_t(kind), seed);
							want.digest(n, exp);
							mc::state(), mc::outcome(mc::fnv(exp, A::dlen));
							for (int how = 0; how < 4; ++how) judge(m.data(), n, seed, int((n / 4 + size_t(kind)) % c_count), how, exp, "pattern");
						}
					}
				}
				mc::sample("%s: every length 0..%zu x 7 byte patterns x %zu seeds x 4 ways to call", A::name().c_str(), maxlen, seeds.size());
			});
		mc::add("blocks-" + A::name(), [seeds] { // sequences of special blocks
			const size_t B = A::block, kinds = 6, depth = mc::thorough ? 5 : 4;
			std::vector<uint8_t> blocks[kinds];
			for (size_t k = 0; k < kinds; ++k) blocks[k] = message(int(k), B);
			size_t total = 1;
			for (size_t d = 0; d < depth; ++d) total *= kinds;
			for (size_t s = 0; s < total; ++s)
				for (size_t tail: {size_t(0), size_t(1), B - 1}) {
					std::vector<uint8_t> m;
					size_t x = s;
					for (size_t d = 0; d < depth; ++d, x /= kinds) m.insert(m.end(), blocks[x % kinds].begin(), blocks[x % kinds].end());
					m.insert(m.end(), blocks[x % kinds].begin(), blocks[x % kinds].begin() + long(tail));
					mc::at("block sequence %llu tail %llu", s, tail);
					one(m.data(), m.size(), seeds[s % seeds.size()], int(s % c_count), int(s % 4), "block sequence");
				}
			mc::sample("%s: all sequences of %zu blocks over 6 block contents, 3 tails", A::name().c_str(), depth);
		});
		if (!deviations) return;
		const size_t maxdev = 2 * A::block + 9;
		const int parts = 4;
		for (int part = 0; part < parts; ++part)
			mc::add("dev1-" + A::name() + "-" + std::to_string(part), [maxdev, part] {
				uint8_t exp[A::dlen];
				const auto a = A::refalg(0);
				const size_t step = mc::thorough || A::block <= 128 ? 1 : 2; // lengths; boundaries always
				for (size_t n = 1; n <= maxdev; ++n) {
					const size_t r = n % A::block;
					const bool edge = r <= 1 || r >= A::block - 1 || r == A::block - 8 || r == A::block - 9 || r == A::block - 16 || r == A::block - 17;
					if (int(n % 4) != part || (!edge && n / 4 % step)) continue;
					auto m = message(0, n);
					ref::prefixes base(a, m.data(), n);
					for (size_t p = 0; p < n; ++p) {
						const uint8_t keep = m[p];
						for (int v = 0; v < 256; ++v) {
							m[p] = uint8_t(v);
							ref::chain c = base.at[p / A::block];
							size_t b = p / A::block;
							for (; (b + 1) * A::block <= n; ++b) c.block(m.data() + b * A::block);
							c.finish(m.data() + b * A::block, n - b * A::block, n, exp);
							mc::at("length %llu position %llu value %llu", n, p, uint64_t(v));
							mc::state();
							judge(m.data(), n, 0, int((n + p) % c_count), 0, exp, "one byte replaced");
						}
						m[p] = keep;
					}
				}
				mc::sample("%s: messages up to %zu bytes, every position, every value of one byte", A::name().c_str(), maxdev);
			});
		mc::add("dev2-" + A::name(), [] { // every pair of bits of one block
			const size_t bits = A::block * 8, step = mc::thorough || A::block <= 128 ? 1 : 2;
			std::vector<uint8_t> m = message(2, A::block);
			const auto a = A::refalg(0);
			const ref::chain start(a);
			uint8_t exp[A::dlen];
			for (size_t i = 0; i < bits; i += step)
				for (size_t j = i; j < bits; ++j) {
					m[i / 8] ^= uint8_t(1u << (i % 8));
					if (i != j) m[j / 8] ^= uint8_t(1u << (j % 8));
					mc::at("bits %llu %llu", i, j);
					ref::chain c = start;
					c.block(m.data());
					c.finish(m.data(), 0, A::block, exp);
					mc::state();
					judge(m.data(), A::block, 0, int((i + j) % c_count), 0, exp, "two bits set");
					m[i / 8] = 0, m[j / 8] = 0;
				}
			mc::sample("%s: one block, every pair of bits (first bit step %zu)", A::name().c_str(), step);
		});
	}
};

// the reference itself against a second implementation
static void against_openssl(const char * name, size_t outlen, bool xof, std::function<void(const uint8_t *, size_t, uint8_t *)> f) {
	mc::add(std::string("oracle-") + name, [=] {
		const EVP_MD * md = EVP_get_digestbyname(name);
		if (!md) throw std::runtime_error("openssl does not know this digest");
		std::vector<uint8_t> a(outlen), b(outlen);
		for (int kind = 0; kind < 3; ++kind) {
			auto m = message(kind, 3000);
			for (size_t n = 0; n <= 1200; ++n) {
				EVP_MD_CTX * c = EVP_MD_CTX_new();
				EVP_DigestInit_ex(c, md, nullptr);
				EVP_DigestUpdate(c, m.data(), n);
				if (xof) EVP_DigestFinalXOF(c, a.data(), outlen);
				else EVP_DigestFinal_ex(c, a.data(), nullptr);
				EVP_MD_CTX_free(c);
				f(m.data(), n, b.data());
				mc::transition();
				if (a != b) throw std::runtime_error("the reference disagrees with OpenSSL: the check is broken");
			}
		}
	});
}
static void xxh_vectors() {
	mc::add("oracle-xxh", [] {
		auto test = [](const char * s, uint64_t seed, const char * e32, const char * e64) {
			uint8_t o[8];
			ref::xxh32(reinterpret_cast<const uint8_t *>(s), strlen(s), seed, o);
			if (e32 && mc::hex(o, 4) != e32) throw std::runtime_error(std::string("reference XXH32 disagrees with a published value: ") + s);
			ref::xxh64(reinterpret_cast<const uint8_t *>(s), strlen(s), seed, o);
			if (e64 && mc::hex(o, 8) != e64) throw std::runtime_error(std::string("reference XXH64 disagrees with a published value: ") + s);
		};
		test("", 0, "02cc5d05", "ef46db3751d8e999");
		test("a", 0, "550d7456", "d24ec4f1a98c6e5b");
		test("abc", 0, "32d153ff", "44bc2cf5ad770999");
		test("Nobody inspects the spammish repetition", 0, "e2293b2f", "fbcea83c8a378bf1");
	});
}

int main(int argc, char ** argv) {
	for (int i = 1; i < argc; ++i)
		if (!strcmp(argv[i], "--thorough")) mc::thorough = true;
	const size_t L = mc::thorough ? 9000 : 2600;
#if defined(PART_SHA2)
	conf<ASha2<224>>::jobs(L, true, {0}), conf<ASha2<256>>::jobs(L, true, {0});
	against_openssl("SHA224", 28, false, ref::sha224), against_openssl("SHA256", 32, false, ref::sha256);
#elif defined(PART_SHA2B)
	conf<ASha2<384>>::jobs(L, true, {0}), conf<ASha2<512>>::jobs(L, true, {0});
	against_openssl("SHA384", 48, false, ref::sha384), against_openssl("SHA512", 64, false, ref::sha512);
#elif defined(PART_SHA3)
	conf<ASha3<224>>::jobs(L, true, {0}), conf<ASha3<256>>::jobs(L, true, {0});
	against_openssl("SHA3-224", 28, false, [](auto... a) { ref::sha3(224, a...); }), against_openssl("SHA3-256", 32, false, [](auto... a) { ref::sha3(256, a...); });
#elif defined(PART_SHA3B)
	conf<ASha3<384>>::jobs(L, true, {0}), conf<ASha3<512>>::jobs(L, true, {0});
	against_openssl("SHA3-384", 48, false, [](auto... a) { ref::sha3(384, a...); }), against_openssl("SHA3-512", 64, false, [](auto... a) { ref::sha3(512, a...); });
#elif defined(PART_SHAKE)
	conf<AShake<128, 41>>::jobs(L, true, {0}), conf<AShake<256, 67>>::jobs(L, true, {0});
	against_openssl("SHAKE128", 1000, true, [](auto... a) { ref::shake(128, a..., 1000); }), against_openssl("SHAKE256", 777, true, [](auto... a) { ref::shake(256, a..., 777); });
#elif defined(PART_XXH32) || defined(PART_XXH64)
	std::vector<uint64_t> seeds = {0};
#if defined(PART_XXH32)
	const int bits = 32;
	using A = AXxh<32>;
	const uint64_t p1 = 2654435761u, p2 = 2246822519u;
#else
	const int bits = 64;
	using A = AXxh<64>;
	const uint64_t p1 = 11400714785074694791ull, p2 = 14029467366897019727ull;
#endif
	for (int b = 0; b < bits; ++b) seeds.push_back(1ull << b);
	const uint64_t mask = bits == 32 ? 0xffffffffull : ~0ull;
	for (uint64_t s: {mask, mask - 1, p1, p2, 0 - p1, 0 - p2, 0 - p1 - p2, 0 - p1 - p2 - 1, p1 - 1, 0 - p2 - 1, mask >> 1, uint64_t(0xdeadbeefcafef00dull)}) seeds.push_back(s & mask);
	conf<A>::jobs(mc::thorough ? 3000 : 1100, true, seeds);
	xxh_vectors();
	// low bits of the seed space exhaustively, for one message of every shape
	for (int part = 0; part < 8; ++part)
		mc::add("seeds-" + A::name() + "-" + std::to_string(part), [=] {
			auto m = message(0, 200);
			const uint64_t count = mc::thorough ? (bits == 32 ? 1ull << 32 : 1ull << 28) : 1ull << 20;
			for (size_t n: {size_t(0), size_t(5), A::block - 1, A::block, 3 * A::block + 13}) {
				if (mc::thorough && bits == 32 && n > 5 && n != A::block) continue;
				uint8_t exp[A::dlen];
				for (uint64_t s = count / 8 * uint64_t(part); s < count / 8 * uint64_t(part + 1); ++s) {
					const uint64_t seed = (mc::thorough && bits == 32) ? s : (s * 0x9E3779B97F4A7C15ull) & mask; // odd factor: a bijection, so distinct seeds over all bits
					mc::at("seed %llu length %llu", seed, n);
					A::oracle(m.data(), n, seed, exp);
					mc::state();
					conf<A>::judge(m.data(), n, seed, 0, int(s % 3), exp, "seed enumeration");
				}
			}
		});
#elif defined(PART_512T)
#define T1(t) conf<ASha512t<t>>::jobs(mc::thorough ? 2000 : 400, false, {0})
	[]<size_t... I>(std::index_sequence<I...>) {
		auto one = []<size_t T>() {
			if constexpr (T != 384 && T >= 8 && T < 512) T1(T);
		};
		(one.template operator()<(PART_512T + I) * 8>(), ...);
	}(std::make_index_sequence<8>());
	if (PART_512T / 8 == 3) against_openssl("SHA512-224", 28, false, [](auto... a) { ref::sha512t(224, a...); }), against_openssl("SHA512-256", 32, false, [](auto... a) { ref::sha512t(256, a...); });
#endif
	return mc::run(argc, argv);
}
