// C17 (hexadecimal text), C18 (order, slices), C27 (SHAKE comparison).
#include "../common/mc.hpp"
#include "../common/enc.hpp"

template <class C> static constexpr C digit(int v, bool upper) { return static_cast<C>(v < 10 ? '0' + v : (upper ? 'A' : 'a') + v - 10); }
static int sign(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }

#ifdef HEXTEXT
template <class V, size_t N, class C> static void parse_one(const uint8_t * raw, uint64_t cases, int casekind, const char * what) {
	C text[2 * N + 1];
	for (size_t i = 0; i < 2 * N; ++i) {
		const int v = i % 2 ? raw[i / 2] & 15 : raw[i / 2] >> 4;
		const bool upper = casekind == 0 ? false : casekind == 1 ? true : casekind == 2 ? i % 2 : casekind == 3 ? !(i % 2) : ((cases >> (i % 64)) & 1);
		text[i] = digit<C>(v, upper);
	}
	text[2 * N] = 0;
	auto shown = [&] { std::string s; for (size_t i = 0; i < 2 * N; ++i) s += char(text[i]); return s; };
	const V v{static_cast<const C(&)[2 * N + 1]>(text)};
	mc::state(), mc::transition(2), mc::validated(2);
	for (size_t i = 0; i < N; ++i)
		if (uint8_t(v[i]) != raw[i]) return mc::fail("%s from array \"%s\": byte %zu is %02x", what, shown().c_str(), i, unsigned(v[i]));
	cthash::fixed_string<C, 2 * N> fs{nullptr};
	for (size_t i = 0; i < 2 * N; ++i) fs[i] = text[i];
	const V w{fs};
	for (size_t i = 0; i < N; ++i)
		if (uint8_t(w[i]) != raw[i]) return mc::fail("%s from fixed_string \"%s\": byte %zu is %02x", what, shown().c_str(), i, unsigned(w[i]));
	if constexpr (sizeof(C) == 1 || sizeof(C) == 4) {
		const auto d = cthash::hash_value(fs);
		static_assert(std::is_same_v<std::remove_const_t<decltype(d)>, cthash::hash_value<N>>);
		for (size_t i = 0; i < N; ++i)
			if (uint8_t(d[i]) != raw[i]) return mc::fail("hash_value(fixed_string) \"%s\": byte %zu is %02x", shown().c_str(), i, unsigned(d[i]));
		const auto e = cthash::hash_value(static_cast<const C(&)[2 * N + 1]>(text));
		static_assert(std::is_same_v<std::remove_const_t<decltype(e)>, cthash::hash_value<N>>);
		for (size_t i = 0; i < N; ++i)
			if (uint8_t(e[i]) != raw[i]) return mc::fail("hash_value(array) \"%s\": byte %zu is %02x", shown().c_str(), i, unsigned(e[i]));
	}
	mc::outcome(raw[0] * 256u + raw[N - 1]);
}
// rendering and parsing back
template <class V, size_t N> static void round_trip(const uint8_t * raw, const char * what) {
	V v{};
	for (size_t i = 0; i < N; ++i) v[i] = static_cast<std::byte>(raw[i]);
	if (!(V{to_fixed_string<cthash::encoding::base16>(v)} == v)) mc::fail("%s %s: base16 does not parse back", what, mc::hex(raw, N).c_str());
	if (!(V{to_fixed_string<cthash::encoding::base16_uppercase>(v)} == v)) mc::fail("%s %s: BASE16 does not parse back", what, mc::hex(raw, N).c_str());
	if (!(V{to_fixed_string<cthash::encoding::base16_uppercase, wchar_t>(v)} == v)) mc::fail("%s %s: wide BASE16 does not parse back", what, mc::hex(raw, N).c_str());
	if (!(V{to_fixed_string(v)} == v)) mc::fail("%s %s: default text does not parse back", what, mc::hex(raw, N).c_str());
	mc::transition(4), mc::validated(4);
}
template <class V, size_t N, class C> static void parse_char(const char * what, const char * cn) {
	mc::add(std::string("parse-") + what + "-" + cn, [what, cn] {
		mc::context(std::string(what) + " from " + cn);
		uint8_t raw[N];
		for (int kind = 0; kind < 7; ++kind)
			for (int ck = 0; ck < 5; ++ck) {
				for (size_t i = 0; i < N; ++i) raw[i] = pattern(kind, i);
				parse_one<V, N, C>(raw, 0x5b3f19c6a07e2d84ull, ck, what);
				if (sizeof(C) == 1) round_trip<V, N>(raw, what);
			}
		// every byte value at every position, four case combinations, two backgrounds
		for (int bg = 0; bg < 2; ++bg)
			for (size_t pos = 0; pos < N; ++pos) {
				for (size_t i = 0; i < N; ++i) raw[i] = bg ? pattern(0, i) : 0;
				for (int b = 0; b < 256; ++b) {
					mc::at("position %llu value %llu background %llu", pos, uint64_t(b), uint64_t(bg));
					raw[pos] = uint8_t(b);
					for (int ck = 0; ck < 4; ++ck) parse_one<V, N, C>(raw, 0, ck, what);
					if (sizeof(C) == 1) round_trip<V, N>(raw, what);
				}
			}
		// exactly one digit in the other case, at every position
		for (size_t i = 0; i < N; ++i) raw[i] = 0xab + uint8_t(i % 4) * 0x11;
		for (size_t d = 0; d < std::min<size_t>(2 * N, 64); ++d) parse_one<V, N, C>(raw, 1ull << d, 4, what), parse_one<V, N, C>(raw, ~(1ull << d), 4, what);
		mc::sample("%s from %s: every byte value at every one of %zu positions in 4 case combinations", what, cn, N);
	});
}
template <class V, size_t N> static void parse_all(const char * what) {
	parse_char<V, N, char>(what, "char"), parse_char<V, N, wchar_t>(what, "wchar_t"), parse_char<V, N, char8_t>(what, "char8_t"), parse_char<V, N, char16_t>(what, "char16_t"), parse_char<V, N, char32_t>(what, "char32_t");
}
static void register_jobs() {
#if PART == 0
	parse_all<cthash::hash_value<1>, 1>("hash_value<1>"), parse_all<cthash::hash_value<2>, 2>("hash_value<2>"), parse_all<cthash::hash_value<3>, 3>("hash_value<3>"), parse_all<cthash::hash_value<7>, 7>("hash_value<7>"), parse_all<cthash::hash_value<33>, 33>("hash_value<33>"), parse_all<cthash::hash_value<64>, 64>("hash_value<64>"), parse_all<cthash::hash_value<100>, 100>("hash_value<100>");
	// two-byte values: all of them
	mc::add("all-two-byte-values", [] {
		for (int v = 0; v < 65536; ++v) {
			const uint8_t raw[2] = {uint8_t(v >> 8), uint8_t(v)};
			for (uint64_t cases = 0; cases < 16; ++cases) parse_one<cthash::hash_value<2>, 2, char>(raw, cases, 4, "hash_value<2>");
			round_trip<cthash::hash_value<2>, 2>(raw, "hash_value<2>");
		}
	});
#elif PART == 1
	parse_all<cthash::sha224_value, 28>("sha224_value"), parse_all<cthash::sha256_value, 32>("sha256_value"), parse_all<cthash::sha384_value, 48>("sha384_value"), parse_all<cthash::sha512_value, 64>("sha512_value"), parse_all<decltype(cthash::sha512t<224>{}.final()), 28>("sha512t<224>"), parse_all<decltype(cthash::sha512t<256>{}.final()), 32>("sha512t<256>");
#else
	parse_all<cthash::sha3_224_value, 28>("sha3_224_value"), parse_all<cthash::sha3_256_value, 32>("sha3_256_value"), parse_all<cthash::sha3_384_value, 48>("sha3_384_value"), parse_all<cthash::sha3_512_value, 64>("sha3_512_value"), parse_all<cthash::shake128_value<256>, 32>("shake128_value<256>"), parse_all<cthash::shake256_value<72>, 9>("shake256_value<72>"), parse_all<cthash::shake128_value<8>, 1>("shake128_value<8>");
	parse_all<decltype(cthash::xxhash32{}.final()), 4>("xxh32"), parse_all<decltype(cthash::xxhash64{}.final()), 8>("xxh64");
#endif
}
#endif

#ifdef ORDER
template <class V, size_t N> static V make(const uint8_t * p) {
	V v{};
	for (size_t i = 0; i < N; ++i) v[i] = static_cast<std::byte>(p[i]);
	return v;
}
template <class V, size_t N> static void pair(const uint8_t * x, const uint8_t * y, const char * what) {
	const V a = make<V, N>(x), b = make<V, N>(y);
	const int m = memcmp(x, y, N), want = m < 0 ? -1 : m > 0;
	mc::state(), mc::transition(8), mc::validated(2);
	const auto o = a <=> b;
	static_assert(std::is_same_v<std::remove_const_t<decltype(o)>, std::strong_ordering>);
	if (sign(o) != want || sign(b <=> a) != -want || (a == b) != (want == 0) || (b == a) != (want == 0) || (a != b) != (want != 0) || (a < b) != (want < 0) || (a <= b) != (want <= 0) || (a > b) != (want > 0) || (a >= b) != (want >= 0) || !(a == a) || (a <=> a) != 0)
		mc::fail("%s: %s and %s compare wrongly (<=> %d, == %d, < %d, > %d)", what, mc::hex(x, N).c_str(), mc::hex(y, N).c_str(), sign(o), a == b, a < b, a > b);
	mc::outcome(uint64_t(want + 1));
}
template <class V, size_t N> static void order(const char * what) {
	mc::add(std::string("order-") + what, [what] {
		mc::context(what);
		uint8_t x[N], y[N];
		// every pair of byte values at every position; the bytes before are equal, those after say the opposite
		for (size_t pos = 0; pos < N; ++pos) {
			const bool all = mc::thorough || N <= 8 || pos < 3 || pos + 3 >= N || pos % 8 == 7 || pos % 8 == 0;
			for (int bg = 0; bg < 2; ++bg)
				for (int a = 0; a < 256; a += all ? 1 : 5)
					for (int b = 0; b < 256; b += all ? 1 : 3) {
						for (size_t i = 0; i < N; ++i) x[i] = y[i] = pattern(bg ? 0 : 2, i);
						x[pos] = uint8_t(a), y[pos] = uint8_t(b);
						if (a < b)
							for (size_t i = pos + 1; i < N; ++i) x[i] = 0xff, y[i] = 0;
						if (a > b)
							for (size_t i = pos + 1; i < N; ++i) x[i] = 0, y[i] = 0xff;
						mc::at("position %llu values %llu %llu", pos, uint64_t(a), uint64_t(b));
						pair<V, N>(x, y, what);
					}
		}
		// two differing positions, all pairs of positions
		for (size_t p = 0; p < N; ++p)
			for (size_t q = p + 1; q < N; ++q)
				for (int k = 0; k < 16; ++k) {
					for (size_t i = 0; i < N; ++i) x[i] = y[i] = pattern(k % 2, i);
					x[p] = uint8_t(k & 1 ? 0x80 : 0x7f), y[p] = uint8_t(k & 2 ? 0x80 : 0x7f), x[q] = uint8_t(k & 4 ? 0xff : 0), y[q] = uint8_t(k & 8 ? 0xff : 0);
					pair<V, N>(x, y, what);
				}
		mc::sample("%s: every pair of byte values as first difference at %zu positions, every pair of positions", what, N);
	});
}
template <class V, size_t N> static void slices(const char * what) {
	mc::add(std::string("slices-") + what, [what] {
		mc::context(what);
		auto go = [&]<size_t K>(const V & v, const uint8_t * x) {
			const auto p = v.template prefix<K>();
			const auto s = v.template suffix<K>();
			static_assert(std::is_same_v<std::remove_const_t<decltype(p)>, cthash::hash_value<K>> && std::is_same_v<std::remove_const_t<decltype(s)>, cthash::hash_value<K>>);
			mc::transition(2), mc::validated(2);
			for (size_t i = 0; i < K; ++i) {
				if (uint8_t(p[i]) != x[i]) return mc::fail("%s %s: prefix<%zu>()[%zu] is %02x", what, mc::hex(x, N).c_str(), K, i, unsigned(p[i]));
				if (uint8_t(s[i]) != x[N - K + i]) return mc::fail("%s %s: suffix<%zu>()[%zu] is %02x", what, mc::hex(x, N).c_str(), K, i, unsigned(s[i]));
			}
		};
		for (int kind = 0; kind < 7; ++kind) {
			uint8_t x[N];
			for (size_t i = 0; i < N; ++i) x[i] = pattern(kind, i);
			const V v = make<V, N>(x);
			mc::state();
			[&]<size_t... K>(std::index_sequence<K...>) { (go.template operator()<K + 1>(v, x), ...); }(std::make_index_sequence<N>());
		}
		// one marked byte at each position
		for (size_t pos = 0; pos < N; ++pos) {
			uint8_t x[N] = {};
			x[pos] = 0xc3;
			const V v = make<V, N>(x);
			mc::state();
			[&]<size_t... K>(std::index_sequence<K...>) { (go.template operator()<K + 1>(v, x), ...); }(std::make_index_sequence<N>());
		}
	});
}
template <class V, size_t N> static void both(const char * what) { order<V, N>(what), slices<V, N>(what); }
static void register_jobs() {
	mc::add("all-one-byte-pairs", [] {
		for (int a = 0; a < 256; ++a)
			for (int b = 0; b < 256; ++b) {
				const uint8_t x = uint8_t(a), y = uint8_t(b);
				pair<cthash::hash_value<1>, 1>(&x, &y, "hash_value<1>");
			}
	});
	mc::add("triples", [] { // total order: all triples over a boundary alphabet in two positions
		const uint8_t abc[] = {0, 1, 0x7f, 0x80, 0x81, 0xff};
		std::vector<cthash::hash_value<2>> v;
		for (int a: abc)
			for (int b: abc) {
				const uint8_t x[2] = {uint8_t(a), uint8_t(b)};
				v.push_back(make<cthash::hash_value<2>, 2>(x));
			}
		for (auto & a: v)
			for (auto & b: v) {
				for (auto & c: v) {
					mc::transition();
					if (a < b && b < c && !(a < c)) mc::fail("not transitive");
					if (a == b && (a < c) != (b < c)) mc::fail("equal values order differently");
				}
				uint8_t x[2], y[2];
				digest_bytes(a, x), digest_bytes(b, y);
				pair<cthash::hash_value<2>, 2>(x, y, "hash_value<2>");
			}
	});
	both<cthash::hash_value<1>, 1>("hash_value<1>"), both<cthash::hash_value<2>, 2>("hash_value<2>"), both<cthash::hash_value<5>, 5>("hash_value<5>"), both<cthash::hash_value<33>, 33>("hash_value<33>");
	both<cthash::sha224_value, 28>("sha224_value"), both<cthash::sha256_value, 32>("sha256_value"), both<cthash::sha384_value, 48>("sha384_value"), both<cthash::sha512_value, 64>("sha512_value");
	both<decltype(cthash::sha512t<224>{}.final()), 28>("sha512t<224>"), both<decltype(cthash::sha512t<504>{}.final()), 63>("sha512t<504>");
	both<cthash::sha3_224_value, 28>("sha3_224_value"), both<cthash::sha3_256_value, 32>("sha3_256_value"), both<cthash::sha3_384_value, 48>("sha3_384_value"), both<cthash::sha3_512_value, 64>("sha3_512_value");
	both<cthash::shake128_value<256>, 32>("shake128_value<256>"), both<cthash::shake256_value<64>, 8>("shake256_value<64>");
	both<decltype(cthash::xxhash32{}.final()), 4>("xxh32"), both<decltype(cthash::xxhash64{}.final()), 8>("xxh64");
}
#endif

#ifdef SHAKECMP
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
template <size_t N> using val = cthash::CAT(CAT(shake, SHAKECMP), _value)<N * 8>;
template <size_t N> static val<N> make(const uint8_t * p) {
	val<N> v{};
	for (size_t i = 0; i < N; ++i) v[i] = static_cast<std::byte>(p[i]);
	return v;
}
template <size_t N, size_t K> static void pair(const uint8_t * x, const uint8_t * y) {
	const auto a = make<N>(x);
	const auto b = make<K>(y);
	constexpr size_t c = std::min(N, K);
	const int m = memcmp(x, y, c), want = m < 0 ? -1 : m > 0;
	mc::state(), mc::transition(8), mc::validated(2);
	const int o = sign(a <=> b), r = sign(b <=> a);
	if (o != want || r != -want || (a == b) != (want == 0) || (b == a) != (want == 0) || (a != b) != (want != 0) || (b != a) != (want != 0) || (a < b) != (want < 0) || (a <= b) != (want <= 0) || (a > b) != (want > 0) || (a >= b) != (want >= 0) || (b < a) != (want > 0) || (b <= a) != (want >= 0) || (b > a) != (want < 0) || (b >= a) != (want <= 0))
		mc::fail("values of %zu and %zu bytes, %s and %s: <=> %d (reversed %d), == %d (reversed %d), expected %d", N, K, mc::hex(x, N).c_str(), mc::hex(y, K).c_str(), o, r, a == b, b == a, want);
	mc::outcome(uint64_t(want + 1));
}
template <size_t N, size_t K> static void lengths() {
	constexpr size_t L = std::max(N, K), c = std::min(N, K);
	uint8_t x[L + 1], y[L + 1];
	mc::at("lengths %llu and %llu", N, K);
	for (int kind = 0; kind < 3; ++kind) {
		// equal common part; what follows must not matter
		for (int rest = 0; rest < 4; ++rest) {
			for (size_t i = 0; i < L; ++i) x[i] = y[i] = pattern(kind, i);
			for (size_t i = c; i < L; ++i) x[i] = rest & 1 ? 0xff : 0, y[i] = rest & 2 ? 0xff : 0;
			pair<N, K>(x, y);
		}
		for (size_t pos = 0; pos < L; ++pos)
			for (int d = 0; d < (mc::thorough ? 256 : 12); ++d)
				for (int e = 0; e < (mc::thorough ? 256 : 12); e += mc::thorough ? 15 : 1) {
					static const uint8_t abc[12] = {0, 1, 2, 0x0f, 0x10, 0x7e, 0x7f, 0x80, 0x81, 0xa5, 0xfe, 0xff};
					for (size_t i = 0; i < L; ++i) x[i] = y[i] = pattern(kind, i);
					x[pos] = mc::thorough ? uint8_t(d) : abc[d], y[pos] = mc::thorough ? uint8_t(e) : abc[e];
					for (size_t i = pos + 1; i < L; ++i) x[i] = x[pos] < y[pos] ? 0xff : 0, y[i] = uint8_t(~x[i]);
					if (x[pos] == y[pos])
						for (size_t i = pos + 1; i < c; ++i) y[i] = x[i];
					pair<N, K>(x, y);
				}
	}
}
template <size_t N, size_t... K> static void row() {
	mc::add("shake-" + std::to_string(N), [] {
		(lengths<N, K>(), ...);
		// digests of the same message with different lengths are equal, of different messages are not
		using H = cthash::CAT(shake, SHAKECMP);
		for (int n = 0; n < 300; n += 7) {
			auto m = message(0, size_t(n)), w = m;
			w.push_back(1);
			const auto a = H{}.update(std::span<const unsigned char>(m)).template final<N * 8>();
			auto against = [&]<size_t KK>() {
				const auto b = H{}.update(std::span<const unsigned char>(m)).template final<KK * 8>();
				const auto c = H{}.update(std::span<const unsigned char>(w)).template final<KK * 8>();
				uint8_t ra[512], rc[512];
				digest_bytes(a, ra), digest_bytes(c, rc);
				mc::validated(2);
				if (!(a == b) || !(b == a) || (a <=> b) != 0) mc::fail("SHAKE of one message: %zu and %zu bytes are not equal", N, KK);
				if ((a == c) != !memcmp(ra, rc, std::min(N, KK))) mc::fail("SHAKE of two messages: %zu and %zu bytes", N, KK);
			};
			(against.template operator()<K>(), ...);
		}
		mc::sample("SHAKE values of %zu bytes against %zu other lengths", N, sizeof...(K));
	});
}
template <size_t... K> static void table() { (row<K, K...>(), ...); }
static void register_jobs() { table<1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 64, 65, 136, 169>(); }
#endif
int main(int argc, char ** argv) {
	register_jobs();
	return mc::run(argc, argv);
}
