// The library behind an interface of scalars and bytes, compiled for another kind of host (see bigend.cpp).
// Every function works on memory of the caller; nothing wider than a byte is shared with the native side.
#include <cthash/cthash.hpp>
#include <new>
#include <string>
#include <vector>
#include <bit>

using namespace cthash::literals;

template <class D> static void put(const D & d, unsigned char * out) {
	for (size_t i = 0; i != d.size(); ++i) out[i] = static_cast<unsigned char>(d[i]);
}
template <class Hasher, size_t Bits = 0> struct Plain {
	using H = Hasher;
	static void make(void * p, unsigned long long) { ::new (p) H{}; }
	static void done(H & h, unsigned char * out) {
		if constexpr (Bits) put(h.template final<Bits>(), out);
		else put(h.final(), out);
	}
};
template <unsigned Bits> struct Xxh {
	using H = cthash::xxhash<Bits>;
	static void make(void * p, unsigned long long seed) { ::new (p) H{static_cast<std::conditional_t<Bits == 32, uint32_t, uint64_t>>(seed)}; }
	static void done(H & h, unsigned char * out) { put(h.final(), out); }
};
template <class F> static auto with(int a, F && f) {
	switch (a) {
#if GROUP == 0
	case 0: return f(Plain<cthash::sha224>{});
	case 1: return f(Plain<cthash::sha256>{});
	case 2: return f(Plain<cthash::sha384>{});
	case 3: return f(Plain<cthash::sha512>{});
	case 4: return f(Plain<cthash::sha512t<224>>{});
	case 5: return f(Plain<cthash::sha512t<8>>{});
	case 6: return f(Plain<cthash::sha512t<504>>{});
#elif GROUP == 1
	case 0: return f(Plain<cthash::sha3_224>{});
	case 1: return f(Plain<cthash::sha3_256>{});
	case 2: return f(Plain<cthash::sha3_384>{});
	case 3: return f(Plain<cthash::sha3_512>{});
	case 4: return f(Plain<cthash::shake128, 8 * 400>{});
	case 5: return f(Plain<cthash::shake256, 8 * 299>{});
	case 6: return f(Plain<cthash::shake128, 8 * 3>{});
#else
	case 0: return f(Xxh<32>{});
	case 1: return f(Xxh<64>{});
#endif
	}
	__builtin_trap();
}
extern "C" {
#if GROUP < 3
unsigned long long be_room(int a) {
	return with(a, []<class A>(A) -> unsigned long long { return sizeof(typename A::H) + alignof(typename A::H); });
}
void be_make(int a, void * at, unsigned long long seed) {
	with(a, [&]<class A>(A) { A::make(at, seed); });
}
void be_copy(int a, void * to, const void * from) {
	with(a, [&]<class A>(A) { ::new (to) typename A::H(*static_cast<const typename A::H *>(from)); });
}
void be_update(int a, void * at, int carrier, const void * p, unsigned long long n) {
	with(a, [&]<class A>(A) {
		auto & h = *static_cast<typename A::H *>(at);
		switch (carrier) {
		case 0: h.update(std::span<const std::byte>(static_cast<const std::byte *>(p), n)); break;
		case 1: h.update(std::span<const unsigned char>(static_cast<const unsigned char *>(p), n)); break;
		case 2: h.update(std::span<const char>(static_cast<const char *>(p), n)); break;
		case 3: h.update(std::span<const signed char>(static_cast<const signed char *>(p), n)); break;
		case 4: h.update(std::span<const char8_t>(static_cast<const char8_t *>(p), n)); break;
		case 5: h.update(std::string_view(static_cast<const char *>(p), n)); break;
		default: h.update(std::u8string_view(static_cast<const char8_t *>(p), n)); break;
		}
	});
}
void be_final(int a, void * at, unsigned char * out) {
	with(a, [&]<class A>(A) { A::done(*static_cast<typename A::H *>(at), out); });
}
#endif

#if GROUP == 3
// what the machine is like: the self-test of the translation
unsigned be_probe(int what, const unsigned char * p, unsigned char * out) {
	switch (what) {
	case 0: return std::endian::native == std::endian::big;
	case 1: { uint32_t v; __builtin_memcpy(&v, p, 4); return v; }
	case 2: { uint16_t v; __builtin_memcpy(&v, p, 2); return v; }
	case 3: { const volatile uint64_t v = 0x0102030405060708ull + p[0]; for (int i = 0; i < 8; ++i) out[i] = reinterpret_cast<const volatile unsigned char *>(&v)[i]; return 0; }
	case 4: { static const uint32_t table[4] = {0x01020304u, 0x11121314u, 0x21222324u, 0x31323334u}; const auto * b = reinterpret_cast<const unsigned char *>(table); for (int i = 0; i < 16; ++i) out[i] = b[(i + p[0]) % 16]; return 0; }
	case 5: { const auto b = std::bit_cast<std::array<unsigned char, 8>>(0x1122334455667788ull ^ p[0]); for (int i = 0; i < 8; ++i) out[i] = b[size_t(i)]; return 0; }
	case 6: { struct S { uint16_t a; uint32_t b; unsigned char c; uint64_t d; } s{0x0102, 0x03040506u, p[0], 0x0708090a0b0c0d0eull}; __builtin_memcpy(out, &s, sizeof s); return sizeof s; }
	case 7: { static const char * const names[3] = {"zero", "one", "two"}; const char * t = names[p[0] % 3]; unsigned i = 0; for (; t[i]; ++i) out[i] = static_cast<unsigned char>(t[i]); return i; }
#ifdef __SIZEOF_INT128__
	case 8: { union { unsigned __int128 v; unsigned char b[16]; } u; u.v = (static_cast<unsigned __int128>(0x0102030405060708ull) << 64) | (0x090a0b0c0d0e0f10ull + p[0]); for (int i = 0; i < 16; ++i) out[i] = u.b[i]; return 0; }
#else
	case 8: return 0;
#endif
	case 9: out[0] = sizeof(size_t), out[1] = sizeof(void *), out[2] = sizeof(long), out[3] = sizeof(std::ptrdiff_t), out[4] = alignof(uint64_t); return 0;
	case 10: { size_t v = p[0]; v <<= 31; v *= 2; return v == 0; } // arithmetic of the width of addresses
	case 11: { struct S { void * a; uint64_t b; size_t c; } s{out, 0x0102030405060708ull, p[0]}; __builtin_memcpy(out + 32, &s, sizeof s); return sizeof(S); }
	}
	return 0;
}
#endif
}

#if GROUP == 4
template <class F> static auto coded(int e, F && f) {
	using namespace cthash::encoding;
	switch (e) {
	case 0: return f(base64{});
	case 1: return f(base64_no_padding{});
	case 2: return f(base64url{});
	case 3: return f(base32{});
	case 4: return f(base32_no_padding{});
	case 5: return f(z_base32{});
	case 6: return f(base16{});
	case 7: return f(base16_uppercase{});
	case 8: return f(base8{});
	case 9: return f(base4{});
	case 10: return f(base2{});
	}
	__builtin_trap();
}
extern "C" {
// text of a byte sequence; size() is returned, the characters are counted in the last 8 bytes of out
unsigned long long be_encode(int e, int element, const unsigned char * p, unsigned long long n, unsigned char * out, unsigned long long * produced_be) {
	return coded(e, [&]<class E>(E) -> unsigned long long {
		auto go = [&](auto && view) -> unsigned long long {
			unsigned long long i = 0;
			for (auto it = view.begin(); !(it == view.end()); ++it) {
				const auto c = *it;
				out[i++] = static_cast<unsigned char>(c);
				if (c > 0x7f) out[i - 1] = '?';
			}
			*produced_be = i;
			return view.size();
		};
		switch (element) {
		case 0: return go(std::span<const unsigned char>(p, n) | cthash::encode_to<E, char>);
		case 1: return go(std::span<const std::byte>(reinterpret_cast<const std::byte *>(p), n) | cthash::encode_to<E, char>);
		case 2: return go(std::span<const signed char>(reinterpret_cast<const signed char *>(p), n) | cthash::encode_to<E, char>);
		case 3: return go(std::span<const unsigned char>(p, n) | cthash::encode_to<E, char32_t>);
		default: return go(std::span<const unsigned char>(p, n) | cthash::encode_to<E, char16_t>);
		}
	});
}
unsigned long long be_number(const unsigned long long * p) { return *p; }
}
#endif

#if GROUP == 5
template <size_t N> static auto value(const unsigned char * p) {
	cthash::hash_value<N> v{};
	for (size_t i = 0; i < N; ++i) v[i] = static_cast<std::byte>(p[i]);
	return v;
}
template <size_t N> static int compare(const unsigned char * a, const unsigned char * b) {
	const auto x = value<N>(a), y = value<N>(b);
	return (x == y) | ((x < y) << 1) | ((x > y) << 2) | ((x <= y) << 3) | ((x >= y) << 4) | ((x != y) << 5) | (((x <=> y) == 0) << 6) | (((x <=> y) < 0) << 7);
}
template <class F> static auto sized(int n, F && f) {
	switch (n) {
	case 1: return f(std::integral_constant<size_t, 1>{});
	case 3: return f(std::integral_constant<size_t, 3>{});
	case 4: return f(std::integral_constant<size_t, 4>{});
	case 8: return f(std::integral_constant<size_t, 8>{});
	case 9: return f(std::integral_constant<size_t, 9>{});
	case 20: return f(std::integral_constant<size_t, 20>{});
	case 32: return f(std::integral_constant<size_t, 32>{});
	case 64: return f(std::integral_constant<size_t, 64>{});
	}
	__builtin_trap();
}
template <class E, class C, size_t N> static unsigned long long fixed(const unsigned char * p, unsigned char * out) {
	const auto t = to_fixed_string<E, C>(value<N>(p));
	for (size_t i = 0; i < t.size(); ++i) out[i] = static_cast<unsigned char>(t[i]);
	return t.size();
}
template <class C, size_t N> static void parse(const unsigned char * text, unsigned char * out) {
	C t[2 * N + 1];
	for (size_t i = 0; i < 2 * N; ++i) t[i] = static_cast<C>(text[i]);
	t[2 * N] = C{};
	put(cthash::hash_value<N>(t), out);
}
extern "C" {
int be_compare(int n, const unsigned char * a, const unsigned char * b) {
	return sized(n, [&](auto k) { return compare<decltype(k)::value>(a, b); });
}
void be_cut(int n, const unsigned char * a, unsigned char * out) { // first and last byte-ish parts
	sized(n, [&](auto k) {
		constexpr size_t N = decltype(k)::value, half = (N + 1) / 2;
		put(value<N>(a).template prefix<half>(), out);
		put(value<N>(a).template suffix<half>(), out + half);
	});
}
unsigned long long be_render(int n, int how, const unsigned char * p, unsigned char * out) {
	return sized(n, [&](auto k) -> unsigned long long {
		constexpr size_t N = decltype(k)::value;
		using namespace cthash::encoding;
		switch (how) {
		case 0: { const std::string t = to_string(value<N>(p)); for (size_t i = 0; i < t.size(); ++i) out[i] = static_cast<unsigned char>(t[i]); return t.size(); }
		case 1: return fixed<base16, char, N>(p, out);
		case 2: return fixed<base64, char, N>(p, out);
		case 3: return fixed<base32, char16_t, N>(p, out);
		case 4: return fixed<base16_uppercase, char32_t, N>(p, out);
		case 5: { const std::string t = to_string<base64url>(value<N>(p)); for (size_t i = 0; i < t.size(); ++i) out[i] = static_cast<unsigned char>(t[i]); return t.size(); }
		case 6: { const std::string t = std::format("{}", value<N>(p)); for (size_t i = 0; i < t.size(); ++i) out[i] = static_cast<unsigned char>(t[i]); return t.size(); }
		default: { const std::string t = std::format("{:base64}", value<N>(p)); for (size_t i = 0; i < t.size(); ++i) out[i] = static_cast<unsigned char>(t[i]); return t.size(); }
		}
	});
}
void be_parse(int n, int width, const unsigned char * text, unsigned char * out) {
	sized(n, [&](auto k) {
		constexpr size_t N = decltype(k)::value;
		switch (width) {
		case 0: return parse<char, N>(text, out);
		case 1: return parse<char8_t, N>(text, out);
		case 2: return parse<char16_t, N>(text, out);
		case 3: return parse<char32_t, N>(text, out);
		default: return parse<wchar_t, N>(text, out);
		}
	});
}
// results the big-endian compiler computed in constant expressions
unsigned long long be_constant(int i, unsigned char * out) {
	auto give = [&](const auto & v) -> unsigned long long { put(v, out); return v.size(); };
	switch (i) {
	case 0: { constexpr auto v = cthash::sha256{}.update("hello there").final(); return give(v); }
	case 1: { constexpr auto v = cthash::sha512{}.update("hello there").final(); return give(v); }
	case 2: { constexpr auto v = cthash::sha3_256{}.update("hello there").final(); return give(v); }
	case 3: { constexpr auto v = cthash::shake128{}.update("hello there").final<8 * 21>(); return give(v); }
	case 4: { constexpr auto v = cthash::xxhash<32>{7u}.update("hello there, this is longer than a stripe").final(); return give(v); }
	case 5: { constexpr auto v = cthash::xxhash<64>{7u}.update("hello there, this is longer than a stripe").final(); return give(v); }
	case 6: { constexpr auto v = "00112233445566778899aAbBcCdDeEfF"_hash; return give(v); }
	case 7: { constexpr auto v = cthash::sha512t<224>{}.update("hello there").final(); return give(v); }
	}
	return 0;
}
}
#endif

#if GROUP == 6
template <size_t Out, bool Pad, class El> static unsigned long long cut(const unsigned char * p, unsigned long long n, unsigned char * out) {
	std::vector<El> in;
	for (unsigned long long i = 0; i < n; ++i) {
		uint64_t v = 0;
		for (size_t k = 0; k < sizeof(El); ++k) v = (v << 8) | p[i * sizeof(El) + k];
		in.push_back(static_cast<El>(v));
	}
	const auto view = cthash::chunk_of_bits_view<Out, Pad, std::span<const El>>(std::span<const El>(in));
	unsigned long long g = 0;
	for (auto it = view.begin(); !(it == view.end()); ++it, ++g) { // 8 bytes value, most significant first, 1 byte of missing bits
		const auto x = *it;
		for (int k = 0; k < 8; ++k) out[9 * g + unsigned(k)] = static_cast<unsigned char>(static_cast<uint64_t>(x.value) >> (56 - 8 * k));
		out[9 * g + 8] = static_cast<unsigned char>(x.missing_bits);
	}
	return view.size() == g ? g : ~0ull;
}
template <bool Pad, class El> static unsigned long long cut(int w, const unsigned char * p, unsigned long long n, unsigned char * out) {
	constexpr bool eight = sizeof(El) == 1, sixteen = sizeof(El) == 2;
	switch (w) {
	case 1: return cut<1, Pad, El>(p, n, out);
	case 2: return cut<2, Pad, El>(p, n, out);
	case 4: return cut<4, Pad, El>(p, n, out);
	case 8: return cut<8, Pad, El>(p, n, out);
	case 3: if constexpr (eight || sixteen) return cut<3, Pad, El>(p, n, out); break;
	case 6: if constexpr (eight || sixteen) return cut<6, Pad, El>(p, n, out); break;
	case 12: if constexpr (eight || sixteen) return cut<12, Pad, El>(p, n, out); break;
	case 5: if constexpr (eight) return cut<5, Pad, El>(p, n, out); break;
	case 16: if constexpr (!eight) return cut<16, Pad, El>(p, n, out); break;
	}
	return ~1ull;
}
extern "C" {
unsigned long long be_chunk(int w, int pad, int element, const unsigned char * p, unsigned long long n, unsigned char * out) {
	switch (element) {
	case 0: return pad ? cut<true, unsigned char>(w, p, n, out) : cut<false, unsigned char>(w, p, n, out);
	case 1: return pad ? cut<true, signed char>(w, p, n, out) : cut<false, signed char>(w, p, n, out);
	case 2: return pad ? cut<true, uint16_t>(w, p, n, out) : cut<false, uint16_t>(w, p, n, out);
	case 3: return pad ? cut<true, int16_t>(w, p, n, out) : cut<false, int16_t>(w, p, n, out);
	case 4: return pad ? cut<true, uint32_t>(w, p, n, out) : cut<false, uint32_t>(w, p, n, out);
	case 5: return pad ? cut<true, int32_t>(w, p, n, out) : cut<false, int32_t>(w, p, n, out);
	case 6: return pad ? cut<true, uint64_t>(w, p, n, out) : cut<false, uint64_t>(w, p, n, out);
	default: return pad ? cut<true, int64_t>(w, p, n, out) : cut<false, int64_t>(w, p, n, out);
	}
}
}
#endif

#if GROUP == 7
#include "../common/virtual.hpp"
template <size_t Out, class El> static unsigned long long groups(int pad, unsigned long long n) {
	const virtual_range<El> r{static_cast<size_t>(n)};
	if (pad) return cthash::chunk_of_bits_view<Out, true, virtual_range<El>>(r).size();
	return cthash::chunk_of_bits_view<Out, false, virtual_range<El>>(r).size();
}
template <class E> static unsigned long long walk(unsigned long long n, unsigned long long & produced, unsigned long long & hash) {
	const auto view = virtual_range<unsigned char>{static_cast<size_t>(n)} | cthash::encode_to<E, char>;
	unsigned long long i = 0, h = 1469598103934665603ull;
	for (auto it = view.begin(); !(it == view.end()); ++it, ++i) h = (h ^ static_cast<unsigned char>(*it)) * 1099511628211ull;
	produced = i, hash = h;
	return view.size();
}
extern "C" {
unsigned long long be_size(int e, unsigned long long n) {
	using namespace cthash::encoding;
	const virtual_range<unsigned char> r{static_cast<size_t>(n)};
	switch (e) {
	case 0: return (r | cthash::encode_to<base64, char>).size();
	case 1: return (r | cthash::encode_to<base64_no_padding, char>).size();
	case 2: return (r | cthash::encode_to<base64url, char>).size();
	case 3: return (r | cthash::encode_to<base32, char>).size();
	case 4: return (r | cthash::encode_to<base32_no_padding, char>).size();
	case 5: return (r | cthash::encode_to<z_base32, char>).size();
	case 6: return (r | cthash::encode_to<base16, char>).size();
	case 7: return (r | cthash::encode_to<base16_uppercase, char>).size();
	case 8: return (r | cthash::encode_to<base8, char>).size();
	case 9: return (r | cthash::encode_to<base4, char>).size();
	case 10: return (r | cthash::encode_to<base2, char>).size();
	}
	__builtin_trap();
}
unsigned long long be_groups(int w, int element, int pad, unsigned long long n) {
	switch (w * 10 + element) {
	case 10: return groups<1, unsigned char>(pad, n);
	case 40: return groups<4, unsigned char>(pad, n);
	case 50: return groups<5, unsigned char>(pad, n);
	case 60: return groups<6, unsigned char>(pad, n);
	case 80: return groups<8, unsigned char>(pad, n);
	case 120: return groups<12, unsigned char>(pad, n);
	case 161: return groups<16, uint16_t>(pad, n);
	case 61: return groups<6, uint16_t>(pad, n);
	case 82: return groups<8, uint32_t>(pad, n);
	case 162: return groups<16, uint32_t>(pad, n);
	}
	return ~1ull;
}
unsigned long long be_walk(int e, unsigned long long n, unsigned long long * produced, unsigned long long * hash) {
	using namespace cthash::encoding;
	switch (e) {
	case 0: return walk<base64>(n, *produced, *hash);
	case 2: return walk<base64url>(n, *produced, *hash);
	case 6: return walk<base16>(n, *produced, *hash);
	}
	__builtin_trap();
}
}
#endif
