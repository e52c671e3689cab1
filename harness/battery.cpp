// C21, C23: a battery over the whole public interface, cheap enough to be compiled in every configuration.
#include "../common/mc.hpp"
#include "../common/enc.hpp"
#include <list>
#include <sstream>
#include <compare>
using namespace cthash::literals;
#ifdef __clang__
#define COMPILER "clang " __clang_version__
#else
#define COMPILER "gcc " __VERSION__
#endif

template <class A> static void digest_case(const std::vector<uint8_t> & m, size_t n, uint64_t seed) {
	uint8_t want[600], got[600];
	A::oracle(m.data(), n, seed, want);
	mc::state();
	auto test = [&](auto & h, const char * how) {
		A::finish(h, got);
		mc::transition(), mc::validated();
		if (memcmp(got, want, A::dlen)) mc::fail("%s of %zu bytes (%s) is %s instead of %s", A::name().c_str(), n, how, mc::hex(got, A::dlen).c_str(), mc::hex(want, A::dlen).c_str());
	};
	for (int c = 0; c < c_count; ++c) {
		auto h = A::make(seed);
		feed(h, m.data(), n, c);
		if (c == 0) {
			auto copy = h;
			test(copy, "copy");
		}
		test(h, carrier_name[c]);
	}
	{
		auto h = A::make(seed);
		for (size_t i = 0; i < n; ++i) feed(h, m.data() + i, 1, int(i) % c_count);
		test(h, "byte by byte");
	}
	for (size_t a: {n / 2, n / 3 + 1, size_t(1), n ? n - 1 : 0}) {
		auto h = A::make(seed);
		a = std::min(a, n);
		feed(h, m.data(), a, c_sv), feed(h, m.data() + a, n - a, c_schar);
		test(h, "two pieces");
	}
	mc::outcome(mc::fnv(want, A::dlen));
}
#ifdef NDEBUG
constexpr int nd = 1;
#else
constexpr int nd = 0;
#endif
template <class A> static void digests() {
	mc::add("digest-" + A::name(), [] {
		for (int kind = 0; kind < 2; ++kind)
			for (size_t n = 0; n <= 2 * A::block + 9; ++n) {
				mc::at("%llu bytes, pattern %llu", n, uint64_t(kind));
				digest_case<A>(message(kind, n), n, kind && A::xx ? 0x80000001u : 0);
			}
		for (int kind = 2; kind < 6; ++kind)
			for (size_t n: {size_t(1), size_t(9), A::block - 9, A::block - 1, A::block, 3 * A::block + 5}) digest_case<A>(message(kind, n), n, 0);
		if constexpr (A::xx)
			for (uint64_t seed: {uint64_t(1), uint64_t(0x7fffffff), uint64_t(0xffffffff), ~uint64_t(0), uint64_t(1) << 63})
				for (size_t n: {0, 1, 4, 8, 15, 16, 31, 32, 33, 100}) digest_case<A>(message(0, n), n, seed);
		if constexpr (A::xx) {
			const auto m = message(0, 300);
			for (size_t a = 0; a <= 70; ++a)
				for (size_t n = a; n <= 140; n += 3) {
					uint8_t want[8], got[8];
					A::oracle(m.data(), n, 5, want);
					auto h = A::make(5);
					feed(h, m.data(), a, c_byte);
					digest_bytes(h.final(), got);
					digest_bytes(h.update_and_final(std::span<const std::byte>(reinterpret_cast<const std::byte *>(m.data()) + a, n - a)), got);
					mc::validated();
					if (memcmp(got, want, A::dlen)) mc::fail("%s update_and_final of %zu bytes after %zu is wrong", A::name().c_str(), n - a, a);
				}
		}
		mc::sample("%s, " COMPILER ", C++ %ld, NDEBUG %d", A::name().c_str(), long(__cplusplus), nd);
	});
}
template <size_t N> static cthash::hash_value<N> value(int kind, int shift = 0) {
	cthash::hash_value<N> v{};
	for (size_t i = 0; i < N; ++i) v[i] = static_cast<std::byte>(pattern(kind, i + size_t(shift)));
	return v;
}
template <int E, size_t N> static void render(const cthash::hash_value<N> & v) {
	using T = enc_type<E>;
	const auto & e = ref::encodings[E];
	uint8_t raw[N + 1];
	digest_bytes(v, raw);
	const std::string want = ref::encode(e, raw, N);
	mc::state();
	auto check = [&](const std::string & got, const char * how) {
		mc::transition(), mc::validated();
		if (got != want) mc::fail("%s of %s by %s: '%s' instead of '%s'", e.name, mc::hex(raw, N).c_str(), how, got.c_str(), want.c_str());
	};
	check(to_string<T>(v), "to_string");
	const auto f = to_fixed_string<T>(v);
	check(std::string(f.data(), f.size()), "to_fixed_string");
	std::ostringstream o;
	v.template print_into<T>(o);
	check(o.str(), "print_into");
	const auto view = v | enc_at<E>::action;
	check(view.to_string(), "view.to_string");
	if (view.size() != want.size()) mc::fail("%s of %zu bytes reports %zu characters", e.name, N, size_t(view.size()));
	std::ostringstream ov;
	ov << view;
	check(ov.str(), "view by <<");
	std::string w;
	for (auto it = view.begin(); it != view.end(); it++) w += *it;
	check(w, "walk");
	std::wstring ws = to_string<T, wchar_t>(v);
	check(std::string(ws.begin(), ws.end()), "wide to_string");
#ifdef CTHASH_STDFMT_AVAILABLE
	check(std::vformat("{:" + std::string(e.name) + "}", std::make_format_args(v)), "format");
	check(std::format("{}", view), "view by format");
	const std::vector<unsigned char> bytes(raw, raw + N);
	check(std::format("{}", bytes | enc_at<E>::action), "vector view by format");
	const auto r = cthash::runtime_encoding(std::string_view(e.name)).visit([&]<class S>(S) { return to_string<S>(v); });
	check(r, "run-time encoding");
#endif
	const std::list<signed char> li(reinterpret_cast<const signed char *>(raw), reinterpret_cast<const signed char *>(raw) + N);
	std::string lw;
	for (auto && view2 = li | cthash::encode_to<T>; char c: view2) lw += c;
	check(lw, "list view");
	mc::outcome(mc::fnv(want.data(), want.size()));
}
template <size_t Out, class El, bool Pad> static void chunks() {
	for (size_t n = 0; n <= 9; ++n) {
		std::vector<El> el;
		std::string bits;
		for (size_t i = 0; i < n; ++i) {
			uint64_t v = 0;
			for (size_t k = 0; k < sizeof(El); ++k) v = v << 8 | pattern(0, i * sizeof(El) + k);
			for (int b = int(sizeof(El)) * 8 - 1; b >= 0; --b) bits += char('0' + ((v >> b) & 1));
			el.push_back(static_cast<El>(v));
		}
		const size_t block = std::lcm(Out, sizeof(El) * 8), total = Pad ? (bits.size() + block - 1) / block * block / Out : (bits.size() + Out - 1) / Out;
		const auto view = cthash::chunk_of_bits_view<Out, Pad, std::span<const El>>(std::span<const El>(el));
		size_t g = 0;
		for (auto it = view.begin(); !(it == view.end()); ++it, ++g) {
			uint64_t v = 0;
			unsigned missing = 0;
			for (size_t b = g * Out; b < (g + 1) * Out; ++b) v = v * 2 + (b < bits.size() ? bits[b] == '1' : (++missing, 0));
			const auto x = *it;
			mc::validated();
			if (uint64_t(x.value) != v || unsigned(x.missing_bits) != missing) mc::fail("group %zu of %zu bits of %zu %zu-byte elements is %llx (%u missing) instead of %llx (%u)", g, Out, n, sizeof(El), (unsigned long long)x.value, unsigned(x.missing_bits), (unsigned long long)v, missing);
		}
		if (g != total || view.size() != total) mc::fail("%zu groups (size %zu) instead of %zu", g, size_t(view.size()), total);
		mc::state(), mc::transition(g);
	}
}
template <size_t N> static void values(const char *) {
	for (int k = 0; k < 4; ++k)
		for (int s = 0; s < 3; ++s) {
			const auto v = value<N>(k, s);
			for_encodings([&](auto i) { render<i()>(v); });
			for (size_t p = 0; p < N; ++p)
				for (int d: {1, 0x80, 0xff}) {
					auto w = v;
					w[p] = static_cast<std::byte>(uint8_t(v[p]) + d);
					if (p + 1 < N) w[N - 1] = static_cast<std::byte>(uint8_t(v[N - 1]) - 1);
					const bool less = uint8_t(v[p]) < uint8_t(w[p]);
					mc::state(), mc::validated();
					if (v == w || !(v != w) || (v < w) != less || (w < v) == less || (v <=> w) != (less ? std::strong_ordering::less : std::strong_ordering::greater) || (v <= w) != less || !(v == v) || (v <=> v) != std::strong_ordering::equal) mc::fail("comparison of %s and %s is wrong", mc::hex(v.data(), N).c_str(), mc::hex(w.data(), N).c_str());
				}
			char text[2 * N + 1];
			const std::string h = mc::hex(v.data(), N);
			memcpy(text, h.c_str(), 2 * N + 1);
			if (!(cthash::hash_value<N>(text) == v)) mc::fail("'%s' parses wrongly", text);
			for (char & c: text) c = char(toupper(c));
			if (!(cthash::hash_value<N>(text) == v)) mc::fail("'%s' parses wrongly", text);
			if constexpr (N > 1) {
				const auto pre = v.template prefix<N - 1>();
				const auto suf = v.template suffix<N - 1>();
				if (memcmp(pre.data(), v.data(), N - 1) || memcmp(suf.data(), v.data() + 1, N - 1)) mc::fail("prefix or suffix of %zu bytes is wrong", N);
			}
		}
}
// constant evaluation in this configuration
#ifndef NO_CONSTANTS
static constexpr auto ct1 = cthash::sha256{}.update("abc").final();
static constexpr auto ct2 = cthash::sha512{}.update(u8"abc").update("").final();
static constexpr auto ct3 = cthash::sha3_256{}.update(std::string_view("abc")).final();
static constexpr auto ct4 = cthash::shake128{}.update("abc").final<264>();
static constexpr auto ct5 = cthash::xxhash64{7}.update("abc").final();
static constexpr auto ct6 = cthash::xxhash32{7}.update("0123456789abcdef0123456789abcdef").final();
static constexpr auto ct7 = cthash::sha512t<256>{}.update("abc").final();
static constexpr auto ct8 = to_fixed_string<cthash::encoding::base64>(ct1);
#endif
int main(int argc, char ** argv) {
#if PART == 0
	digests<ASha2<224>>(), digests<ASha2<256>>(), digests<ASha2<384>>(), digests<ASha2<512>>(), digests<ASha512t<224>>(), digests<ASha512t<256>>(), digests<ASha512t<72>>(), digests<AXxh<32>>(), digests<AXxh<64>>();
#elif PART == 1
	digests<ASha3<224>>(), digests<ASha3<256>>(), digests<ASha3<384>>(), digests<ASha3<512>>(), digests<AShake<128, 17>>(), digests<AShake<256, 300>>();
#ifndef NO_CONSTANTS
	mc::add("constants", [] {
		uint8_t want[64];
		auto same = [&](const auto & v, const char * what) {
			mc::state(), mc::transition(), mc::validated();
			if (memcmp(v.data(), want, v.size())) mc::fail("%s as a constant is %s", what, mc::hex(v.data(), v.size()).c_str());
		};
		const auto abc = reinterpret_cast<const uint8_t *>("abc"), more = reinterpret_cast<const uint8_t *>("0123456789abcdef0123456789abcdef");
		ref::sha256(abc, 3, want), same(ct1, "sha256"), ref::sha512(abc, 3, want), same(ct2, "sha512"), ref::sha3(256, abc, 3, want), same(ct3, "sha3-256"), ref::shake(128, abc, 3, want, 33), same(ct4, "shake128"), ref::xxh64(abc, 3, 7, want), same(ct5, "xxhash64"), ref::xxh32(more, 32, 7, want), same(ct6, "xxhash32"), ref::sha512t(256, abc, 3, want), same(ct7, "sha512/256");
		if (std::string(ct8.data(), ct8.size()) != ref::encode(ref::encodings[0], reinterpret_cast<const uint8_t *>(ct1.data()), 32)) mc::fail("base64 as a constant is wrong");
	});
#endif
	mc::add("literals", [] {
		auto one = [](const auto & v, const char * text) {
			mc::state(), mc::transition(), mc::validated();
			std::string lower;
			for (const char * p = text; *p; ++p) lower += char(tolower(*p));
			if (mc::hex(v.data(), v.size()) != lower) mc::fail("literal %s has the value %s", text, mc::hex(v.data(), v.size()).c_str());
			if (to_string(v) != lower) mc::fail("literal %s prints as %s", text, to_string(v).c_str());
		};
#define T4 "00fF7f80"
#define T8 T4 "a0B1c2D3"
#define T28 T8 T8 T8 "9e8D7c6B"
#define T32 T8 T8 T8 T8
		one(T4 ""_hash, T4), one(T28 ""_sha224, T28), one(T32 ""_sha256, T32), one(T32 T8 T8 ""_sha384, T32 T8 T8), one(T32 T32 ""_sha512, T32 T32), one(T28 ""_sha512_224, T28), one(T32 ""_sha512_256, T32);
		one(T28 ""_sha3_224, T28), one(T32 ""_sha3_256, T32), one(T32 T8 T8 ""_sha3_384, T32 T8 T8), one(T32 T32 ""_sha3_512, T32 T32), one(T4 ""_shake128, T4), one(T32 T32 T32 ""_shake256, T32 T32 T32), one(T4 ""_xxh32, T4), one(T8 ""_xxh64, T8);
		if (!(T4 ""_shake128 == T8 ""_shake128) || T4 ""_shake256 != T32 ""_shake256 || !("00ff7f81"_shake256 > T8 ""_shake256) || !(T8 ""_shake128 < "00ff7f81"_shake128)) mc::fail("comparison of SHAKE values of different length is wrong");
	});
#else
	mc::add("values-1-and-4", [] { values<1>(""), values<4>(""); });
	mc::add("values-32", [] { values<32>(""); });
	mc::add("chunks", [] {
		chunks<1, unsigned char, false>(), chunks<3, std::byte, false>(), chunks<5, signed char, true>(), chunks<6, char, true>(), chunks<12, unsigned char, false>(), chunks<56, unsigned char, true>();
		chunks<6, uint16_t, false>(), chunks<8, int16_t, true>(), chunks<4, uint32_t, false>(), chunks<16, int32_t, false>(), chunks<16, uint64_t, false>(), chunks<2, int64_t, true>();
	});
#ifdef CTHASH_STDFMT_AVAILABLE
	mc::add("names", [] {
		const auto v = value<20>(0);
		for (const char * bad: {"x", "base", "base1", "base65", "base64x", "hexdecc", "BASE64", " base64", "base64 ", ">10", "0"}) {
			mc::state(), mc::validated();
			bool refused = false;
			try {
				(void)std::vformat("{:" + std::string(bad) + "}", std::make_format_args(v));
			} catch (const std::exception &) { refused = true; }
			if (!refused) mc::fail("encoding name '%s' is accepted", bad);
		}
		const auto d = cthash::sha256{}.update("").final();
		if (std::format("{}|{:base2}|{:hexdec}", d, d, d).size() != 256 + 64 + 64 + 2) mc::fail("three fields have the wrong size");
	});
#endif
#endif
	return mc::run(argc, argv);
}
