// C10: digests computed inside constant expressions, enumerated, against the run-time result and the reference.
// Everything between "begin constant evaluation" and "end" is evaluated by the compiler; if any of it were not a
// constant expression this file would not compile.
#include "../common/mc.hpp"
#include "../common/alg.hpp"

#ifndef ALG
#define ALG ASha2<256>
#define SEL 0
#define SPLITS 0
#define DENSE 0
#endif
#ifndef MAXLEN
#define MAXLEN (2 * A::block + 9)
#endif
#ifndef LO
#define LO 0
#define HI 100000
#endif
using A = ALG;
using H = A::H;
constexpr size_t maxlen = MAXLEN;
constexpr size_t B = A::block;
template <class Byte> constexpr std::array<Byte, maxlen + 1> data_of() {
	std::array<Byte, maxlen + 1> r{};
	for (size_t i = 0; i < r.size(); ++i) r[i] = static_cast<Byte>(pattern(0, i));
	return r;
}
struct one { uint16_t a, b, c; uint8_t type; };

constexpr bool wanted(size_t n, int type) {
#if DENSE
	return true;
#else
	const size_t r = n % B;
	return n % 5 == size_t(type) || n < 10 || (r <= 1 || r == B - 1 || r == B - 8 || r == B - 9 || r == B - 16 || r == B - 17);
#endif
}
template <class F> constexpr void cases(F && f) {
#if SPLITS
	// three pieces: every unaligned start, every short middle, a rest; and cuts across the block boundary
	size_t i = 0;
	for (size_t a = 0; a < 10; ++a)
		for (size_t b = 0; b < 18; b += (DENSE ? 1 : 1 + a % 2)) {
			const size_t c = (a * 7 + b) % 12;
			f(one{uint16_t(a), uint16_t(b), uint16_t(c), uint8_t(i++ % 5)});
		}
	for (size_t a = B - 9; a <= B + 1; ++a)
		for (size_t b: {size_t(0), size_t(1), size_t(7), size_t(8), size_t(9), size_t(17)}) f(one{uint16_t(a), uint16_t(b), uint16_t(i % 3), uint8_t(i % 5)}), ++i;
	for (size_t a: {size_t(1), size_t(3), size_t(8)}) f(one{uint16_t(a), uint16_t(B), uint16_t(B - a), uint8_t(i++ % 5)});
#else
	for (size_t n = 0; n <= maxlen; ++n)
		for (int t = 0; t < 5; ++t)
			if (wanted(n, t)) f(one{uint16_t(n), 0, 0, uint8_t(t)});
#endif
}
constexpr size_t count_all() {
	size_t n = 0;
	cases([&](one) { ++n; });
	return n;
}
constexpr size_t lo = LO, hi = HI < count_all() ? HI : count_all(), count = hi > lo ? hi - lo : 0;

template <class Byte> constexpr void feed3(H & h, const Byte * p, one o) {
#if SPLITS
	h.update(std::span<const Byte>(p, o.a));
	h.update(std::span<const Byte>(p + o.a, o.b));
	h.update(std::span<const Byte>(p + o.a + o.b, o.c));
#else
	h.update(std::span<const Byte>(p, o.a));
#endif
}
constexpr auto digest_array(auto && d) {
	std::array<uint8_t, A::dlen> r{};
	for (size_t i = 0; i < r.size(); ++i) r[i] = static_cast<uint8_t>(d[i]);
	return r;
}
template <class T = A> constexpr auto finish_array(typename T::H & h) {
	if constexpr (T::shake) return digest_array(h.template final<T::dlen * 8>());
	else return digest_array(h.final());
}
constexpr uint64_t seed_of(one o) { return A::xx ? (uint64_t(o.a) * 0x9E3779B97F4A7C15ull + o.b) : 0; }
template <class T = A> constexpr auto make_ct(one o) {
	if constexpr (T::xx) return typename T::H{static_cast<typename T::seed_t>(seed_of(o))};
	else return typename T::H{};
}
struct all_data {
	std::array<std::byte, maxlen + 1> d0 = data_of<std::byte>();
	std::array<unsigned char, maxlen + 1> d1 = data_of<unsigned char>();
	std::array<char, maxlen + 1> d2 = data_of<char>();
	std::array<signed char, maxlen + 1> d3 = data_of<signed char>();
	std::array<char8_t, maxlen + 1> d4 = data_of<char8_t>();
};
constexpr auto evaluate(const all_data & d, one o) {
	H h = make_ct(o);
	switch (o.type) {
	case 0: feed3(h, d.d0.data(), o); break;
	case 1: feed3(h, d.d1.data(), o); break;
	case 2: feed3(h, d.d2.data(), o); break;
	case 3: feed3(h, d.d3.data(), o); break;
	default: feed3(h, d.d4.data(), o); break;
	}
	H copy = h; // copies have to work in constant expressions, too
	return finish_array(copy);
}

// ---- begin constant evaluation
constexpr auto table = [] {
	std::array<std::array<uint8_t, A::dlen>, count + 1> r{};
	all_data d{};
	size_t i = 0;
	cases([&](one o) {
		if (i >= lo && i < hi) r[i - lo] = evaluate(d, o);
		++i;
	});
	return r;
}();
// ---- end constant evaluation

int main(int argc, char ** argv) {
	mc::add("consteval-" + A::name() + (SPLITS ? "-splits" : "-lengths") + "-" + std::to_string(LO), [] {
		static volatile bool yes = true;
		static all_data d{};
		auto bytes = message(0, maxlen + 1);
		if (!yes) d.d0[0] = std::byte{0};
		size_t i = 0;
		cases([&](one o) {
			if (i >= lo && i < hi) {
				mc::at("pieces %llu %llu %llu byte type %llu", o.a, o.b, o.c, o.type);
				const auto rt = evaluate(d, o);
				uint8_t exp[A::dlen];
				A::oracle(bytes.data(), size_t(o.a) + o.b + o.c, seed_of(o), exp);
				const auto & ct = table[i - lo];
				mc::state(), mc::transition(2), mc::validated(2), mc::outcome(mc::fnv(exp, A::dlen));
				static const char * tn[] = {"std::byte", "unsigned char", "char", "signed char", "char8_t"};
				if (memcmp(ct.data(), exp, A::dlen)) mc::fail("%s in a constant expression, pieces of %d, %d, %d bytes of type %s: got %s, expected %s (run time gives %s)", A::name().c_str(), o.a, o.b, o.c, tn[o.type], mc::hex(ct.data(), A::dlen).c_str(), mc::hex(exp, A::dlen).c_str(), mc::hex(rt.data(), A::dlen).c_str());
				if (memcmp(rt.data(), ct.data(), A::dlen)) mc::fail("%s, pieces of %d, %d, %d bytes of type %s: constant expression %s, run time %s", A::name().c_str(), o.a, o.b, o.c, tn[o.type], mc::hex(ct.data(), A::dlen).c_str(), mc::hex(rt.data(), A::dlen).c_str());
			}
			++i;
		});
		mc::sample("%s: cases %zu..%zu evaluated by the compiler", A::name().c_str(), lo, hi);
	});
	return mc::run(argc, argv);
}
