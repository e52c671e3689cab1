// C11: the same bytes in every carrier type the hashers accept.
#include "../common/mc.hpp"
#include "../common/alg.hpp"
#include <cthash/simple.hpp>
#include <ranges>
#include <deque>

template <class A> static bool same_digest(typename A::H & h, const uint8_t * want) {
	uint8_t got[512];
	A::finish(h, got);
	mc::transition(), mc::validated();
	return !memcmp(got, want, A::dlen);
}
struct input {
	const uint8_t * pre, *p; // bytes already in the hasher, bytes to supply
	size_t pn, n;
	std::string shown() const { return std::to_string(n) + " bytes " + mc::hex(p, std::min<size_t>(n, 80)) + (n > 80 ? "..." : "") + " after " + std::to_string(pn) + " other bytes"; }
};
// feed the carrier through update, in the middle of a message, and through the one-call helper
template <bool Must, class A, class X> static void offer(const char * what, const X & x, const input & in, const uint8_t * want, const uint8_t * want_alone) {
	using H = typename A::H;
	if constexpr (Must || requires(H & h) { h.update(x); }) {
		auto h = A::make();
		if (in.pn) h.update(std::span<const std::byte>(reinterpret_cast<const std::byte *>(in.pre), in.pn));
		auto & r = h.update(x);
		if (static_cast<const void *>(&r) != static_cast<const void *>(&h)) mc::fail("%s update(%s) does not return the hasher", A::name().c_str(), what);
		if (!same_digest<A>(h, want)) mc::fail("%s of %s supplied as %s is wrong", A::name().c_str(), in.shown().c_str(), what);
		if constexpr (A::xx && requires(H & g) { g.update_and_final(x); }) {
			auto g = A::make();
			if (in.pn) g.update(std::span<const std::byte>(reinterpret_cast<const std::byte *>(in.pre), in.pn));
			uint8_t got[64];
			digest_bytes(g.update_and_final(x), got);
			mc::transition(), mc::validated();
			if (memcmp(got, want, A::dlen)) mc::fail("%s of %s supplied as %s to update_and_final is wrong", A::name().c_str(), in.shown().c_str(), what);
		}
		if constexpr (!A::shake) {
			if (in.pn == 0) {
				uint8_t got[512];
				digest_bytes(cthash::simple<H>(x), got);
				mc::transition(), mc::validated();
				if (memcmp(got, want_alone, A::dlen)) mc::fail("simple<%s>(%s) of %s is wrong", A::name().c_str(), what, in.shown().c_str());
				if constexpr (A::xx) {
					for (uint64_t seed: {uint64_t(1), uint64_t(0x80000000u), ~uint64_t(0)}) {
						uint8_t ref[64];
						A::oracle(in.p, in.n, typename A::seed_t(seed), ref);
						digest_bytes(cthash::simple<H>(x, typename A::seed_t(seed)), got);
						mc::validated();
						if (memcmp(got, ref, A::dlen)) mc::fail("simple<%s>(%s, %llx) of %s is wrong", A::name().c_str(), what, (unsigned long long)seed, in.shown().c_str());
					}
				}
			}
		}
		if constexpr (std::is_same_v<X, std::vector<std::byte>> || std::is_same_v<X, std::string_view>) mc::outcome(mc::fnv(want, A::dlen));
	}
}
template <class A> static void expected(const input & in, uint8_t * want, uint8_t * alone) {
	std::vector<uint8_t> all(in.pre, in.pre + in.pn);
	all.insert(all.end(), in.p, in.p + in.n);
	A::oracle(all.data(), all.size(), 0, want);
	A::oracle(in.p, in.n, 0, alone);
}
template <class B> static const B * as(const uint8_t * p) { return reinterpret_cast<const B *>(p); }
constexpr bool M = true;
// carriers of run-time size
template <class A> static void dynamic(const input & in) {
	constexpr bool sha = !A::xx; // SHA-2/3 accept everything convertible to a span of bytes, xxHash what is listed with M
	uint8_t want[512], alone[512];
	expected<A>(in, want, alone);
	mc::state();
	auto typed = [&]<class B>(const char * n1, const char * n2, const char * n3, const char * n4) {
		offer<M, A>(n1, std::span<const B>(as<B>(in.p), in.n), in, want, alone);
		std::vector<B> v(as<B>(in.p), as<B>(in.p) + in.n);
		offer<sha, A>(n2, std::span<B>(v), in, want, alone);
		offer<sha, A>(n3, v, in, want, alone);
		offer<sha, A>(n4, std::ranges::subrange(v.data(), v.data() + v.size()), in, want, alone);
	};
	typed.template operator()<std::byte>("span<const byte>", "span<byte>", "vector<byte>", "subrange of byte");
	typed.template operator()<unsigned char>("span<const unsigned char>", "span<unsigned char>", "vector<unsigned char>", "subrange of unsigned char");
	typed.template operator()<signed char>("span<const signed char>", "span<signed char>", "vector<signed char>", "subrange of signed char");
	typed.template operator()<char>("span<const char>", "span<char>", "vector<char>", "subrange of char");
	typed.template operator()<char8_t>("span<const char8_t>", "span<char8_t>", "vector<char8_t>", "subrange of char8_t");
	const std::string s(as<char>(in.p), in.n);
	const std::u8string u(as<char8_t>(in.p), in.n);
	offer<M, A>("string_view", std::string_view(s), in, want, alone);
	offer<M, A>("u8string_view", std::u8string_view(u), in, want, alone);
	offer<sha, A>("string", s, in, want, alone);
	offer<sha, A>("u8string", u, in, want, alone);
}
// carriers whose size is part of the type
template <class A, size_t N> static void sized(const input & in) {
	constexpr bool sha = !A::xx;
	uint8_t want[512], alone[512];
	expected<A>(in, want, alone);
	mc::state();
	auto typed = [&]<class B>(const char * arr, const char * raw, const char * fixed, bool literal) {
		std::array<B, N> a;
		if (N) memcpy(a.data(), in.p, N);
		offer<sha, A>(arr, a, in, want, alone);
		if constexpr (N > 0) {
			offer<sha, A>(fixed, std::span<const B, N>(a), in, want, alone);
			if constexpr (!std::is_same_v<B, char> && !std::is_same_v<B, char8_t>) {
				B r[N];
				if (N) memcpy(r, in.p, N);
				offer<M, A>(raw, r, in, want, alone);
			}
		}
		if constexpr (std::is_same_v<B, char> || std::is_same_v<B, char8_t>) {
			B r[N + 1];
			if (N) memcpy(r, in.p, N);
			r[N] = 0;
			offer<M, A>(raw, r, in, want, alone);
		}
	};
	typed.template operator()<std::byte>("array<byte>", "byte[]", "span<const byte, N>", false);
	typed.template operator()<unsigned char>("array<unsigned char>", "unsigned char[]", "span<const unsigned char, N>", false);
	typed.template operator()<signed char>("array<signed char>", "signed char[]", "span<const signed char, N>", false);
	typed.template operator()<char>("array<char>", "literal", "span<const char, N>", true);
	typed.template operator()<char8_t>("array<char8_t>", "u8 literal", "span<const char8_t, N>", true);
	if constexpr (N > 0) {
		cthash::hash_value<N> v;
		for (size_t i = 0; i < N; ++i) v[i] = static_cast<std::byte>(in.p[i]);
		offer<sha, A>("hash_value", v, in, want, alone);
	}
}
// real literals, with embedded zeros and bytes >= 0x80
template <class A> static void literals() {
	auto one = [&](const auto & lit, const void * p, size_t n) {
		const input in{nullptr, static_cast<const uint8_t *>(p), 0, n};
		uint8_t want[512], alone[512];
		expected<A>(in, want, alone);
		mc::state();
		offer<true, A>("literal", lit, in, want, alone);
	};
#define LIT(x) one(x, x, sizeof(x) - 1)
	LIT(""), LIT("a"), LIT("\0"), LIT("\x80"), LIT("\xff\xff"), LIT("a\0b"), LIT("a\0"), LIT("\0\0\0"), LIT("\0a"), LIT("\xf0\x9f\x98\x80 \xff\x00\x7f");
	LIT(u8""), LIT(u8"a"), LIT(u8"\0"), LIT(u8"\u00e9"), LIT(u8"a\0b"), LIT(u8"\U0001f600\0\U0001f601\0");
	LIT("0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcde"), LIT("0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"), LIT("0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef\0");
}
template <class A> static void explore() {
	mc::add("dynamic-" + A::name(), [] {
		const size_t top = mc::thorough ? 3 * A::block + 9 : A::block + 9;
		auto pre = message(3, 64);
		for (size_t n = 0; n <= top; ++n)
			for (int kind = 0; kind < 6; ++kind)
				for (size_t pn: {0u, 1u, 3u, 8u, 13u}) {
					if (pn > 1 && kind > 1) continue;
					mc::at("%llu bytes of pattern %llu after %llu", n, uint64_t(kind), pn);
					auto m = message(kind, n);
					dynamic<A>({pre.data(), m.data(), pn, n});
				}
		mc::sample("%s: every length to %zu x 6 patterns x 5 starting offsets x 24 carriers", A::name().c_str(), top);
	});
	mc::add("values-" + A::name(), [] { // every byte value at every position of short inputs, zero and 0xff at every position of longer ones
		for (size_t n: {1u, 2u, 5u, 9u})
			for (size_t pos = 0; pos < n; ++pos)
				for (int v = 0; v < 256; ++v) {
					auto m = message(0, n);
					m[pos] = uint8_t(v);
					mc::at("%llu bytes, value %llu at %llu", n, uint64_t(v), pos);
					dynamic<A>({nullptr, m.data(), 0, n});
				}
		for (size_t pos = 0; pos < A::block + 5; ++pos)
			for (int v: {0, 0x80, 0xff}) {
				auto m = message(3, A::block + 5);
				m[pos] = uint8_t(v);
				dynamic<A>({nullptr, m.data(), 0, m.size()});
			}
	});
	mc::add("sized-" + A::name(), [] {
		auto pre = message(3, 64);
		[&]<size_t... N>(std::index_sequence<N...>) {
			(([&] {
				 for (int kind = 0; kind < 6; ++kind)
					 for (size_t pn: {0u, 1u, 5u, 8u}) {
						 auto m = message(kind, N);
						 mc::at("array of %llu bytes, pattern %llu after %llu", N, uint64_t(kind), pn);
						 sized<A, N>({pre.data(), m.data(), pn, N});
					 }
				 for (size_t pos = 0; pos < N; ++pos)
					 for (int v: {0, 0x80, 0xff}) {
						 auto m = message(3, N);
						 m[pos] = uint8_t(v);
						 sized<A, N>({nullptr, m.data(), 0, N});
					 }
			 }()),
			...);
		}(std::index_sequence<0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 32, 33, A::block - 9, A::block - 8, A::block - 1, A::block, A::block + 1, 2 * A::block>{});
		mc::sample("%s: 20 array sizes x 16 carriers", A::name().c_str());
	});
	mc::add("literals-" + A::name(), [] { literals<A>(); });
}
int main(int argc, char ** argv) {
	explore<ALG>();
	return mc::run(argc, argv);
}
