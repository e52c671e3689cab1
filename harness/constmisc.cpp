// C10: encodings, parsing, comparison and helpers inside constant expressions against run time and the reference.
#include "../common/mc.hpp"
#include "../common/alg.hpp"

template <class E> struct enc_index;
template <> struct enc_index<cthash::encoding::base64> { static constexpr int v = 0; };
template <> struct enc_index<cthash::encoding::base64_no_padding> { static constexpr int v = 1; };
template <> struct enc_index<cthash::encoding::base64url> { static constexpr int v = 2; };
template <> struct enc_index<cthash::encoding::base32> { static constexpr int v = 3; };
template <> struct enc_index<cthash::encoding::base32_no_padding> { static constexpr int v = 4; };
template <> struct enc_index<cthash::encoding::z_base32> { static constexpr int v = 5; };
template <> struct enc_index<cthash::encoding::base16> { static constexpr int v = 6; };
template <> struct enc_index<cthash::encoding::base16_uppercase> { static constexpr int v = 7; };
template <> struct enc_index<cthash::encoding::base8> { static constexpr int v = 8; };
template <> struct enc_index<cthash::encoding::base4> { static constexpr int v = 9; };
template <> struct enc_index<cthash::encoding::base2> { static constexpr int v = 10; };
struct text {
	std::array<char, 128> c{};
	uint16_t n = 0, reported = 0;
	constexpr bool operator==(const text &) const = default;
};
template <class E, class V> constexpr text encode_any(const V & v) {
	text t{};
	const auto view = v | cthash::encode_to<E>;
	for (auto it = view.begin(); it != view.end(); ++it) t.c[t.n++] = *it;
	if constexpr (requires { view.size(); }) t.reported = uint16_t(view.size());
	return t;
}
template <size_t N> constexpr cthash::hash_value<N> value_of(int kind, int x) {
	cthash::hash_value<N> r{};
	for (size_t i = 0; i < N; ++i) r[i] = static_cast<std::byte>(kind == 0 ? uint8_t(x + int(i) * 85) : pattern(kind % 6, i + size_t(x)));
	return r;
}
template <class E, size_t N> constexpr auto encode_table() {
	std::array<text, 40> r{};
	for (int i = 0; i < 40; ++i) r[size_t(i)] = encode_any<E>(value_of<N>(i % 5, i * 7));
	return r;
}
template <class E> constexpr auto encode_bytes() {
	std::array<text, 256> r{};
	for (int i = 0; i < 256; ++i) r[size_t(i)] = encode_any<E>(std::array<unsigned char, 1>{static_cast<unsigned char>(i)});
	return r;
}
template <class E> constexpr auto encode_signed() {
	std::array<text, 256> r{};
	for (int i = 0; i < 256; ++i) r[size_t(i)] = encode_any<E>(std::array<signed char, 2>{static_cast<signed char>(i), static_cast<signed char>(255 - i)});
	return r;
}
template <class E, size_t N> constexpr auto fixed_table() {
	auto first = to_fixed_string<E>(value_of<N>(0, 0));
	std::array<decltype(first), 12> r{[]<size_t... I>(std::index_sequence<I...>) { return std::array<decltype(first), 12>{to_fixed_string<E>(value_of<N>(int(I % 5), int(I) * 11))...}; }(std::make_index_sequence<12>())};
	return r;
}
static bool same(const text & t, const std::string & s) { return t.n == s.size() && t.reported == s.size() && std::string(t.c.data(), t.n) == s; }
template <class E, size_t N> void encode_case() {
	static constexpr auto ct = encode_table<E, N>();
	static volatile int shift = 0;
	const auto & enc = ref::encodings[enc_index<E>::v];
	for (int i = 0; i < 40; ++i) {
		mc::at("encoding %llu, value %llu of %llu bytes", uint64_t(enc_index<E>::v), uint64_t(i), N);
		const auto v = value_of<N>(i % 5, i * 7 + shift);
		std::vector<uint8_t> raw(N + 1);
		digest_bytes(v, raw.data());
		const std::string want = ref::encode(enc, raw.data(), N);
		mc::state(), mc::transition(2), mc::validated(2);
		if (!same(ct[size_t(i)], want)) mc::fail("%s of %s in a constant expression is '%s' (size() %d) instead of '%s'", enc.name, mc::hex(raw.data(), N).c_str(), std::string(ct[size_t(i)].c.data(), ct[size_t(i)].n).c_str(), ct[size_t(i)].reported, want.c_str());
		if (!(encode_any<E>(v) == ct[size_t(i)])) mc::fail("%s of %s differs between constant expression and run time", enc.name, mc::hex(raw.data(), N).c_str());
	}
	if constexpr (N > 0) {
		static constexpr auto fx = fixed_table<E, N>();
		for (int i = 0; i < 12; ++i) {
			const auto v = value_of<N>(i % 5, i * 11 + shift);
			uint8_t raw[N];
			digest_bytes(v, raw);
			const std::string want = ref::encode(enc, raw, N);
			mc::state(), mc::transition(3), mc::validated(3);
			if (std::string(fx[size_t(i)].data(), fx[size_t(i)].size()) != want) mc::fail("to_fixed_string<%s> in a constant expression is '%s' instead of '%s'", enc.name, std::string(fx[size_t(i)].data(), fx[size_t(i)].size()).c_str(), want.c_str());
			const auto rt = to_fixed_string<E>(v);
			if (std::string(rt.data(), rt.size()) != want) mc::fail("to_fixed_string<%s> at run time is '%s' instead of '%s'", enc.name, std::string(rt.data(), rt.size()).c_str(), want.c_str());
			if (to_string<E>(v) != want) mc::fail("to_string<%s> is '%s' instead of '%s'", enc.name, to_string<E>(v).c_str(), want.c_str());
		}
	}
}
template <class E> void encode_all() {
	mc::add(std::string("encode-") + ref::encodings[enc_index<E>::v].name, [] {
		static constexpr auto ct = encode_bytes<E>();
		static constexpr auto cs = encode_signed<E>();
		const auto & enc = ref::encodings[enc_index<E>::v];
		for (int i = 0; i < 256; ++i) {
			const uint8_t b[2] = {uint8_t(i), uint8_t(255 - i)};
			mc::state(2), mc::transition(4), mc::validated(4);
			if (!same(ct[size_t(i)], ref::encode(enc, b, 1))) mc::fail("%s of byte %02x in a constant expression is '%s'", enc.name, i, std::string(ct[size_t(i)].c.data(), ct[size_t(i)].n).c_str());
			if (!same(encode_any<E>(std::array<unsigned char, 1>{b[0]}), ref::encode(enc, b, 1))) mc::fail("%s of byte %02x at run time is wrong", enc.name, i);
			if (!same(cs[size_t(i)], ref::encode(enc, b, 2))) mc::fail("%s of signed bytes %02x%02x in a constant expression is '%s'", enc.name, i, 255 - i, std::string(cs[size_t(i)].c.data(), cs[size_t(i)].n).c_str());
			if (!same(encode_any<E>(std::array<signed char, 2>{static_cast<signed char>(b[0]), static_cast<signed char>(b[1])}), ref::encode(enc, b, 2))) mc::fail("%s of signed bytes %02x%02x at run time is wrong", enc.name, i, 255 - i);
		}
		encode_case<E, 1>(), encode_case<E, 2>(), encode_case<E, 3>(), encode_case<E, 4>(), encode_case<E, 5>(), encode_case<E, 6>(), encode_case<E, 7>(), encode_case<E, 8>(), encode_case<E, 9>(), encode_case<E, 10>(), encode_case<E, 11>(), encode_case<E, 15>(), encode_case<E, 16>();
		mc::sample("%s: all one-byte values, two-byte signed values, 40 values of 13 sizes, fixed strings", enc.name);
	});
}

// hexadecimal text -> value
template <class C> constexpr C digit(int v, bool upper) { return static_cast<C>(v < 10 ? '0' + v : (upper ? 'A' : 'a') + v - 10); }
template <class C> constexpr auto parse_table() {
	std::array<std::array<uint8_t, 2>, 1024> r{};
	for (int i = 0; i < 1024; ++i) {
		const int v = i % 256;
		C t[5] = {digit<C>(v >> 4, i & 256), digit<C>(v & 15, i & 512), digit<C>((255 - v) >> 4, i & 512), digit<C>((255 - v) & 15, i & 256), 0};
		const auto h = cthash::hash_value<2>(t);
		r[size_t(i)] = {uint8_t(h[0]), uint8_t(h[1])};
	}
	return r;
}
template <class C> void parse_case(const char * name) {
	mc::add(std::string("parse-") + name, [name] {
		static constexpr auto ct = parse_table<C>();
		const auto rt = parse_table<C>();
		for (int i = 0; i < 1024; ++i) {
			const uint8_t v = uint8_t(i % 256);
			mc::state(), mc::transition(2), mc::validated(2);
			if (ct[size_t(i)][0] != v || ct[size_t(i)][1] != uint8_t(255 - v)) mc::fail("hexadecimal %s literal for %02x%02x parsed as %02x%02x in a constant expression", name, v, 255 - v, ct[size_t(i)][0], ct[size_t(i)][1]);
			if (rt[size_t(i)] != ct[size_t(i)]) mc::fail("hexadecimal %s literal for %02x parsed differently at run time", name, v);
		}
		mc::sample("%s: all byte values, 4 case mixes", name);
	});
}

// comparison
constexpr uint8_t letters[] = {0x00, 0x01, 0x7f, 0x80, 0x81, 0xff};
constexpr auto compare_table() {
	std::array<std::array<int8_t, 216>, 216> r{};
	auto val = [](int i) { cthash::sha256_value v{}; v[0] = std::byte{letters[i % 6]}, v[15] = std::byte{letters[i / 6 % 6]}, v[31] = std::byte{letters[i / 36]}; return v; };
	for (int a = 0; a < 216; ++a)
		for (int b = 0; b < 216; b += 1 + (a % 3)) {
			const auto x = val(a), y = val(b);
			const auto c = x <=> y;
			r[size_t(a)][size_t(b)] = int8_t((c < 0 ? 1 : 0) | (c > 0 ? 2 : 0) | (c == 0 ? 4 : 0) | (x == y ? 8 : 0) | (x < y ? 16 : 0) | (x >= y ? 32 : 0));
		}
	return r;
}
template <size_t... I> constexpr auto literal(std::index_sequence<I...>) { return 0; }

using namespace cthash::literals;
constexpr char big[] = "Constant evaluation has to see bytes above 0x7f: \x80\xff\xc3\xa9\x00 and embedded zero bytes \x00\x01 too, in more than one block of input for every algorithm there is..............................................................";
constexpr char8_t big8[] = u8"\u00e9\u0159\u4e2d\U0001f600 and some text that is longer than a single block of most of the algorithms, so that block processing happens on char8_t directly ......................................";
constexpr unsigned char bigu[200] = {1, 2, 3, 0x80, 0xff, 7};
template <class Alg> struct forms {
	using H = typename Alg::H;
	static constexpr auto arr(auto && d) {
		std::array<uint8_t, Alg::dlen> r{};
		for (size_t i = 0; i < r.size(); ++i) r[i] = static_cast<uint8_t>(d[i]);
		return r;
	}
	static constexpr auto fin(H & h) {
		if constexpr (Alg::shake) return arr(h.template final<Alg::dlen * 8>());
		else return arr(h.final());
	}
	static constexpr auto all() {
		std::array<std::array<uint8_t, Alg::dlen>, 10> r{};
		{ H h{}; h.update(big); r[0] = fin(h); }
		{ H h{}; h.update(std::string_view(big, sizeof(big) - 1)); r[1] = fin(h); }
		{ H h{}; h.update(big8); r[2] = fin(h); }
		{ H h{}; h.update(std::u8string_view(big8)); r[3] = fin(h); }
		{ H h{}; h.update(std::span<const unsigned char>(bigu)); r[4] = fin(h); }
		if constexpr (!Alg::shake) {
			r[5] = arr(cthash::simple<H>(big)), r[6] = arr(cthash::simple<H>(std::string_view(big, sizeof(big) - 1)));
			r[7] = arr(H{}.update(big8).final());
			H h{};
			h.update(big);
			typename std::array<std::byte, Alg::dlen> out{};
			h.final(std::span<std::byte, Alg::dlen>(out));
			r[8] = arr(out);
		}
		if constexpr (Alg::xx) r[9] = arr(H{}.update_and_final(std::string_view(big, sizeof(big) - 1)));
		return r;
	}
	static void add() {
		mc::add("forms-" + Alg::name(), [] {
			static constexpr auto ct = all();
			const auto rt = all();
			auto b = reinterpret_cast<const uint8_t *>(big);
			auto b8 = reinterpret_cast<const uint8_t *>(big8);
			for (size_t i = 0; i < 10; ++i) {
				if (Alg::shake && i > 4) continue;
				if (!Alg::xx && i == 9) continue;
				uint8_t exp[Alg::dlen];
				if (i == 2 || i == 3 || i == 7) Alg::oracle(b8, sizeof(big8) - 1, 0, exp);
				else if (i == 4) Alg::oracle(bigu, sizeof(bigu), 0, exp);
				else Alg::oracle(b, sizeof(big) - 1, 0, exp);
				mc::state(), mc::transition(2), mc::validated(2);
				static const char * what[] = {"string literal", "string_view", "u8 literal", "u8string_view", "span<unsigned char>", "simple<>(literal)", "simple<>(string_view)", "chained u8 literal", "final(span)", "update_and_final"};
				if (memcmp(ct[i].data(), exp, Alg::dlen)) mc::fail("%s, %s in a constant expression: got %s, expected %s", Alg::name().c_str(), what[i], mc::hex(ct[i].data(), Alg::dlen).c_str(), mc::hex(exp, Alg::dlen).c_str());
				if (memcmp(rt[i].data(), exp, Alg::dlen)) mc::fail("%s, %s at run time: got %s, expected %s", Alg::name().c_str(), what[i], mc::hex(rt[i].data(), Alg::dlen).c_str(), mc::hex(exp, Alg::dlen).c_str());
			}
		});
	}
};

// chunks of bits
template <size_t W, bool Pad, class T> constexpr auto chunk_table() {
	struct row { std::array<uint64_t, 80> v{}; std::array<uint8_t, 80> missing{}; size_t n = 0; constexpr bool operator==(const row &) const = default; };
	std::array<row, 6> r{};
	for (size_t len = 0; len < 6; ++len) {
		std::array<T, 5> a{};
		for (size_t i = 0; i < 5; ++i) {
			uint64_t x = 0;
			for (size_t k = 0; k < sizeof(T); ++k) x = x << 8 | pattern(0, i * 8 + k);
			a[i] = static_cast<T>(x);
		}
		auto sub = std::span<const T>(a.data(), len);
		auto view = cthash::chunk_of_bits_view<W, Pad, std::span<const T>>(sub);
		for (auto it = view.begin(); it != view.end() && r[len].n < 80; ++it) r[len].v[r[len].n] = (*it).value, r[len].missing[r[len].n++] = uint8_t((*it).missing_bits);
	}
	return r;
}
template <size_t W, bool Pad, class T> void chunk_case(const char * name) {
	mc::add(std::string("chunks-") + name, [name] {
		static constexpr auto ct = chunk_table<W, Pad, T>();
		const auto rt = chunk_table<W, Pad, T>();
		mc::state(6), mc::transition(12), mc::validated(6);
		if (!(ct == rt)) mc::fail("chunk view %s differs between constant expression and run time", name);
	});
}

int main(int argc, char ** argv) {
#if defined(PART_ENC)
	encode_all<cthash::encoding::base64>(), encode_all<cthash::encoding::base64_no_padding>(), encode_all<cthash::encoding::base64url>(), encode_all<cthash::encoding::base32>(), encode_all<cthash::encoding::base32_no_padding>(), encode_all<cthash::encoding::z_base32>();
#elif defined(PART_FORMS)
	forms<PART_FORMS>::add();
#elif defined(PART_ENC2)
	encode_all<cthash::encoding::base16>(), encode_all<cthash::encoding::base16_uppercase>(), encode_all<cthash::encoding::base8>(), encode_all<cthash::encoding::base4>(), encode_all<cthash::encoding::base2>();
#else
	parse_case<char>("char"), parse_case<char8_t>("char8_t"), parse_case<char16_t>("char16_t"), parse_case<char32_t>("char32_t"), parse_case<wchar_t>("wchar_t");
	mc::add("compare", [] {
		static constexpr auto ct = compare_table();
		const auto rt = compare_table();
		for (int a = 0; a < 216; ++a)
			for (int b = 0; b < 216; b += 1 + (a % 3)) {
				const uint8_t x[3] = {letters[a % 6], letters[a / 6 % 6], letters[a / 36]}, y[3] = {letters[b % 6], letters[b / 6 % 6], letters[b / 36]};
				const int c = memcmp(x, y, 3), want = c < 0 ? 1 | 16 : c > 0 ? 2 | 32 : 4 | 8 | 32;
				mc::state(), mc::transition(2), mc::validated(2);
				if (ct[size_t(a)][size_t(b)] != want || rt[size_t(a)][size_t(b)] != want) mc::fail("comparison of digests %02x..%02x..%02x and %02x..%02x..%02x: constant expression %02x, run time %02x, expected %02x", x[0], x[1], x[2], y[0], y[1], y[2], ct[size_t(a)][size_t(b)], rt[size_t(a)][size_t(b)], want);
			}
	});
	chunk_case<5, true, unsigned char>("8->5 padded"), chunk_case<6, false, signed char>("8->6"), chunk_case<3, true, uint16_t>("16->3 padded"), chunk_case<4, false, int32_t>("32->4"), chunk_case<2, true, uint64_t>("64->2 padded"), chunk_case<1, false, uint8_t>("8->1"), chunk_case<7, false, uint8_t>("8->7");
#if __cplusplus >= 202302L || defined(__cpp_lib_constexpr_string)
	mc::add("names", [] {
		for (const auto & e: ref::encodings)
			if (cthash::runtime_encoding{std::string_view(e.name)}.index() != size_t(&e - ref::encodings)) mc::fail("encoding name %s selects another encoding", e.name);
		static constexpr std::array<size_t, 11> ct = {cthash::runtime_encoding{"base64"}.index(), cthash::runtime_encoding{"base64_no_padding"}.index(), cthash::runtime_encoding{"base64_url"}.index(), cthash::runtime_encoding{"base32"}.index(), cthash::runtime_encoding{"base32_no_padding"}.index(), cthash::runtime_encoding{"zbase32"}.index(), cthash::runtime_encoding{"hexdec"}.index(), cthash::runtime_encoding{"HEXDEC"}.index(), cthash::runtime_encoding{"octal"}.index(), cthash::runtime_encoding{"base4"}.index(), cthash::runtime_encoding{"binary"}.index()};
		for (size_t i = 0; i < 11; ++i) {
			mc::state(), mc::transition(), mc::validated();
			if (ct[i] != i) mc::fail("encoding %s is selected wrongly in a constant expression", ref::encodings[i].name);
		}
	});
#endif
	mc::add("literals", [] {
		constexpr auto a = "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"_sha256;
		constexpr auto b = cthash::sha256{}.update("abc").final();
		static_assert(a == b);
		constexpr auto c = cthash::simple<cthash::xxhash64>("abc", 0u);
		static_assert(c == "44bc2cf5ad770999"_xxh64);
		constexpr auto p = a.prefix<4>(), s = a.suffix<4>();
		static_assert(p == cthash::hash_value<4>("ba7816bf") && s == cthash::hash_value<4>("f20015ad"));
		mc::state(2), mc::transition(4), mc::validated(2);
	});
#endif
	return mc::run(argc, argv);
}
