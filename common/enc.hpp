// The encodings under test next to their definition in ref/ref.hpp.
#pragma once
#include "alg.hpp"

template <int I> struct enc_at;
template <> struct enc_at<0> { using type = cthash::encoding::base64; static constexpr auto action = cthash::base64_encode; };
template <> struct enc_at<1> { using type = cthash::encoding::base64_no_padding; static constexpr auto action = cthash::base64_no_padding_encode; };
template <> struct enc_at<2> { using type = cthash::encoding::base64url; static constexpr auto action = cthash::base64url_encode; };
template <> struct enc_at<3> { using type = cthash::encoding::base32; static constexpr auto action = cthash::base32_encode; };
template <> struct enc_at<4> { using type = cthash::encoding::base32_no_padding; static constexpr auto action = cthash::base32_no_padding_encode; };
template <> struct enc_at<5> { using type = cthash::encoding::z_base32; static constexpr auto action = cthash::z_base32_encode; };
template <> struct enc_at<6> { using type = cthash::encoding::base16; static constexpr auto action = cthash::base16_encode; };
template <> struct enc_at<7> { using type = cthash::encoding::base16_uppercase; static constexpr auto action = cthash::hexdec_uppercase_encode; };
template <> struct enc_at<8> { using type = cthash::encoding::base8; static constexpr auto action = cthash::base8_encode; };
template <> struct enc_at<9> { using type = cthash::encoding::base4; static constexpr auto action = cthash::base4_encode; };
template <> struct enc_at<10> { using type = cthash::encoding::base2; static constexpr auto action = cthash::base2_encode; };
template <int I> using enc_type = typename enc_at<I>::type;
constexpr int enc_n = 11;

// same result as ref::encode (compared in the harnesses), with a bit accumulator; returns the length
inline size_t quick_encode(const ref::encoding & e, const uint8_t * p, size_t n, char * out) {
	size_t o = 0;
	uint32_t acc = 0;
	unsigned have = 0;
	for (size_t i = 0; i < n; ++i) {
		acc = (acc << 8) | p[i];
		have += 8;
		while (have >= e.bits) out[o++] = e.alphabet[(acc >> (have - e.bits)) & ((1u << e.bits) - 1)], have -= e.bits;
		acc &= (1u << have) - 1;
	}
	if (have) out[o++] = e.alphabet[(acc << (e.bits - have)) & ((1u << e.bits) - 1)];
	if (e.padded)
		while ((o * e.bits) % 8) out[o++] = '=';
	return o;
}
template <class F> void for_encodings(F f) {
	[&]<int... I>(std::integer_sequence<int, I...>) { (f(std::integral_constant<int, I>{}), ...); }(std::make_integer_sequence<int, enc_n>());
}
