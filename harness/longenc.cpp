// C14/C20: sizes and characters of encodings of very long inputs (counters in elements, bits and characters must not wrap).
#include "../common/mc.hpp"
#include "../common/enc.hpp"
#include <ranges>

static constexpr int E = ENC;
static const ref::encoding & enc = ref::encodings[E];

#include "../common/virtual.hpp"
using u128 = unsigned __int128;
static uint64_t expected(uint64_t elements, unsigned in, unsigned out, bool pad) {
	const u128 bits = u128(elements) * in;
	if (!pad) return uint64_t((bits + out - 1) / out);
	const unsigned block = std::lcm(in, out);
	return uint64_t((bits + block - 1) / block * (block / out));
}
static std::vector<uint64_t> interesting() {
	std::vector<uint64_t> r;
	for (unsigned k = 0; k <= 56; ++k)
		for (int64_t d = -17; d <= 17; ++d)
			if (const int64_t v = int64_t(1ull << k) + d; v >= 0) r.push_back(uint64_t(v));
	for (unsigned k = 20; k <= 50; ++k)
		for (uint64_t m: {3u, 5u, 7u})
			for (int64_t d = -3; d <= 3; ++d) r.push_back((m << k) + uint64_t(d));
	return r;
}
template <unsigned Out, class El, bool Pad> static void chunk_sizes(const char * name) {
	for (uint64_t n: interesting()) {
		mc::at("size() of %d-bit groups of %d %d-bit elements", Out, n, sizeof(El) * 8);
		const auto view = cthash::chunk_of_bits_view<Out, Pad, virtual_range<El>>(virtual_range<El>{n});
		const uint64_t want = expected(n, sizeof(El) * 8, Out, Pad), got = view.size();
		if (got != want) mc::fail("size() of %u-bit groups%s of %llu elements of type %s is %llu instead of %llu", Out, Pad ? " (padded)" : "", (unsigned long long)n, name, (unsigned long long)got, (unsigned long long)want);
		mc::state(), mc::transition(), mc::validated(), mc::outcome(want % 1000003);
	}
}
template <class El, unsigned... Outs> static void chunk_type(const char * name) {
	((chunk_sizes<Outs, El, false>(name), chunk_sizes<Outs, El, true>(name)), ...);
}
int main(int argc, char ** argv) {
	#ifndef CHUNKS
	{
		mc::add("sizes", [] {
			for (uint64_t n: interesting()) {
				const uint64_t want = expected(n, 8, enc.bits, enc.padded);
				auto view = virtual_range<unsigned char>{n} | enc_at<E>::action;
				const auto & cview = view;
				if (view.size() != want || cview.size() != want) mc::fail("size() of %s of %llu bytes is %llu instead of %llu", enc.name, (unsigned long long)n, (unsigned long long)view.size(), (unsigned long long)want);
				mc::state(), mc::transition(2), mc::validated(2), mc::outcome(want % 1000003);
			}
		});
		mc::add("walk", [] {
			// crosses 2^32 bits of input, with base2 2^32 characters of output (thorough: always, and 2^32 bytes of input)
			uint64_t n = (1ull << 29) + 5;
			if (mc::thorough) n = (enc.bits >= 4 ? 1ull << 32 : 1ull << 31) + 5;
			const auto source = virtual_range<unsigned char>{n};
			auto view = source | enc_at<E>::action;
			auto it = view.begin();
			const auto last = view.end();
			const unsigned b = enc.bits, all = (1u << b) - 1;
			uint64_t count = 0;
			uint32_t acc = 0;
			unsigned have = 0;
			auto next = [&](char want) {
				if (it == last) {
					mc::fail("%s of %llu bytes ends after %llu characters", enc.name, (unsigned long long)n, (unsigned long long)count);
					return false;
				}
				if (*it != want) {
					mc::fail("character %llu of %s of %llu bytes is '%c' instead of '%c'", (unsigned long long)count, enc.name, (unsigned long long)n, *it, want);
					return false;
				}
				++it, ++count;
				return true;
			};
			for (uint64_t i = 0; i != n; ++i) {
				acc = (acc << 8) | uint8_t(virtual_range<unsigned char>::value(i)), have += 8;
				while (have >= b) {
					have -= b;
					if (!next(enc.alphabet[(acc >> have) & all])) return;
				}
				if ((i & 0xfffffff) == 0) mc::at("character %d of the encoding", count);
			}
			if (have && !next(enc.alphabet[(acc << (b - have)) & all])) return;
			const uint64_t want = expected(n, 8, b, enc.padded);
			while (count < want)
				if (!next('=')) return;
			if (!(it == last)) mc::fail("%s of %llu bytes continues after %llu characters", enc.name, (unsigned long long)n, (unsigned long long)count);
			if (view.size() != want) mc::fail("size() of %s of %llu bytes", enc.name, (unsigned long long)n);
			mc::state(), mc::transition(count), mc::validated(), mc::outcome(count);
			mc::sample("%s of %llu bytes: %llu characters", enc.name, (unsigned long long)n, (unsigned long long)count);
		});
	}
#else
	mc::add("chunk-sizes", [] {
		chunk_type<uint8_t, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 20, 24, 28, 40, 48, 56>("uint8_t");
		chunk_type<std::byte, 3, 6>("std::byte");
		chunk_type<int16_t, 1, 2, 3, 4, 6, 8, 12, 16, 24, 48>("int16_t");
		chunk_type<uint32_t, 1, 2, 4, 8, 16>("uint32_t");
		chunk_type<int64_t, 1, 2, 4, 8, 16>("int64_t");
	});
	mc::add("chunk-walk", [] {
		// 3-bit groups of 2^32 / 8 + 5 bytes, 6-bit groups of 16-bit elements
		auto walk = []<unsigned Out, class El, bool Pad>(uint64_t n) {
			const auto view = cthash::chunk_of_bits_view<Out, Pad, virtual_range<El>>(virtual_range<El>{n});
			auto it = view.begin();
			uint64_t count = 0;
			uint64_t acc = 0;
			unsigned have = 0;
			const unsigned in = sizeof(El) * 8;
			for (uint64_t i = 0; i != n; ++i) {
				acc = (acc << in) | (virtual_range<El>::value(i) & ((1ull << in) - 1)), have += in;
				while (have >= Out) {
					have -= Out;
					const uint64_t want = (acc >> have) & ((1ull << Out) - 1);
					if (it == view.end() || uint64_t((*it).value) != want) {
						mc::fail("group %llu of %u bits of %llu %u-bit elements", (unsigned long long)count, Out, (unsigned long long)n, in);
						return;
					}
					++it, ++count;
				}
			}
			uint64_t rest = 0;
			while (!(it == view.end()) && rest < 1000) ++it, ++rest;
			if (count + rest != expected(n, in, Out, Pad)) mc::fail("%llu groups instead of %llu", (unsigned long long)(count + rest), (unsigned long long)expected(n, in, Out, Pad));
			mc::state(), mc::transition(count), mc::validated(), mc::outcome(count);
		};
		walk.template operator()<3, uint8_t, false>((1ull << 29) + 5);
		walk.template operator()<6, uint16_t, true>((1ull << 28) + 5);
		if (mc::thorough) walk.template operator()<12, uint16_t, false>((1ull << 32) + 5);
	});
#endif
	return mc::run(argc, argv);
}
