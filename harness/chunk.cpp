// C20: the bit regrouping view for every supported (output width, element type, padding) against a list of bits.
#include "../common/mc.hpp"
#include "../common/alg.hpp"
#include <deque>
#include <list>
#include <ranges>

struct group { uint64_t value; unsigned missing; };
static void model(unsigned out, bool pad, const uint64_t * el, size_t n, unsigned in, std::vector<group> & r) {
	r.clear();
	const size_t bits = n * in;
	const size_t block = std::lcm(size_t(out), size_t(in));
	const size_t total = pad ? (bits + block - 1) / block * block / out : (bits + out - 1) / out;
	for (size_t g = 0; g < total; ++g) {
		uint64_t v = 0;
		unsigned missing = 0;
		for (size_t b = g * out; b < (g + 1) * out; ++b) {
			if (b < bits) v = (v << 1) | ((el[b / in] >> (in - 1 - b % in)) & 1);
			else v = v << 1, ++missing;
		}
		r.push_back({v, missing});
	}
}
template <class V> static void compare(V & view, const std::vector<group> & want, const char * what, unsigned out, unsigned in, bool pad, const uint64_t * el, size_t n) {
	size_t i = 0;
	auto dump = [&] { std::string s; for (size_t k = 0; k < std::min<size_t>(n, 16); ++k) { char t[32]; snprintf(t, 32, "%llx ", (unsigned long long)el[k]); s += t; } return s; };
	const auto last = view.end();
	for (auto it = view.begin(); !(it == last); ++it, ++i) {
		if (i >= want.size()) return mc::fail("%u-bit groups of %zu %u-bit elements %s(%s%s): more than %zu groups", out, n, in, dump().c_str(), what, pad ? ", padded" : "", want.size());
		const auto g = *it;
		if (uint64_t(g.value) != want[i].value) mc::fail("%u-bit groups of %zu %u-bit elements %s(%s%s): group %zu is %llx instead of %llx", out, n, in, dump().c_str(), what, pad ? ", padded" : "", i, (unsigned long long)g.value, (unsigned long long)want[i].value);
		if (unsigned(g.missing_bits) != want[i].missing) mc::fail("%u-bit groups of %zu %u-bit elements %s(%s%s): group %zu reports %u missing bits instead of %u", out, n, in, dump().c_str(), what, pad ? ", padded" : "", i, unsigned(g.missing_bits), want[i].missing);
		if (g.is_padding() != (want[i].missing == out)) mc::fail("%u-bit groups of %zu %u-bit elements %s(%s%s): group %zu is_padding() is wrong", out, n, in, dump().c_str(), what, pad ? ", padded" : "", i);
	}
	if (i != want.size()) mc::fail("%u-bit groups of %zu %u-bit elements %s(%s%s): %zu groups instead of %zu", out, n, in, dump().c_str(), what, pad ? ", padded" : "", i, want.size());
	if constexpr (requires { view.size(); })
		if (size_t s = view.size(); s != want.size()) mc::fail("%u-bit groups of %zu %u-bit elements (%s%s): size() is %zu instead of %zu", out, n, in, what, pad ? ", padded" : "", s, want.size());
	mc::state(), mc::transition(want.size() + 1), mc::validated();
}
template <size_t Out, class El, bool Pad> struct one {
	static constexpr unsigned in = sizeof(El) * 8;
	std::vector<group> want;
	std::vector<El> store;
	void operator()(const std::vector<uint64_t> & el, bool full = false) {
		model(Out, Pad, el.data(), el.size(), in, want);
		store.clear();
		for (uint64_t v: el) store.push_back(static_cast<El>(v));
		const auto view = cthash::chunk_of_bits_view<Out, Pad, std::span<const El>>(std::span<const El>(store));
		compare(view, want, "const span", Out, in, Pad, el.data(), el.size());
		if (full) {
			auto vw = cthash::chunk_of_bits_view<Out, Pad, std::vector<El> &>(store);
			compare(vw, want, "vector", Out, in, Pad, el.data(), el.size());
			compare(vw, want, "vector, again", Out, in, Pad, el.data(), el.size());
			auto action = cthash::chunk_of_bits<Out, Pad>;
			auto piped = std::list<El>(store.begin(), store.end()) | action;
			compare(piped, want, "list by |", Out, in, Pad, el.data(), el.size());
			const auto called = action(std::deque<El>(store.begin(), store.end()));
			compare(called, want, "const deque by call", Out, in, Pad, el.data(), el.size());
			if (store.size() != el.size()) mc::fail("the source was changed");
			for (size_t i = 0; i < el.size(); ++i)
				if (store[i] != static_cast<El>(el[i])) mc::fail("the source was changed");
		}
		if (!want.empty()) mc::outcome(mc::fnv(want.data(), 1) ^ want.back().value * 31 ^ want.size());
	}
};
template <size_t Out, class El, bool Pad> static void explore(const char * tname) {
	mc::add(std::string(tname) + "-to-" + std::to_string(Out) + (Pad ? "-padded" : ""), [] {
		one<Out, El, Pad> run;
		constexpr unsigned in = sizeof(El) * 8;
		const uint64_t all = in == 64 ? ~0ull : (1ull << in) - 1;
		std::vector<uint64_t> el;
		run({}, true);
		if (in <= 16)
			for (uint64_t v = 0; v <= all; ++v) run({v}, v % 251 == 0);
		if (in == 8)
			for (uint64_t a = 0; a < 256; ++a)
				for (uint64_t b = 0; b < 256; ++b) run({a, b});
		if (in == 8 && (mc::thorough || Out == 5 || Out == 6 || Out == 3 || Out == 12))
			for (uint64_t a = 0; a < 256; ++a)
				for (uint64_t b = 0; b < 256; ++b)
					for (uint64_t c = 0; c < 256; ++c) run({a, b, c});
		const size_t cap = std::lcm(Out, size_t(in)) / in;
		const size_t top = std::max<size_t>(2 * cap + 2, mc::thorough ? 40 : 12);
		// every length: backgrounds, and every single and every pair of deviating bits
		for (size_t n = 0; n <= top; ++n)
			for (int bg = 0; bg < 5; ++bg) {
				el.assign(n, 0);
				for (size_t i = 0; i < n; ++i)
					for (unsigned k = 0; k < in / 8; ++k) el[i] = (el[i] << 8) | (bg == 0 ? 0 : bg == 1 ? 0xff : pattern(bg - 2 ? bg + 2 : 0, i * in / 8 + k));
				run(el, true);
				if (bg > 2) continue;
				const size_t bits = n * in;
				for (size_t a = 0; a < bits; ++a) {
					el[a / in] ^= 1ull << (in - 1 - a % in);
					run(el, bg == 0 && n <= cap + 1);
					if (bits <= (mc::thorough ? 1600u : 330u))
						for (size_t b = a + 1; b < bits; ++b) {
							el[b / in] ^= 1ull << (in - 1 - b % in);
							run(el);
							el[b / in] ^= 1ull << (in - 1 - b % in);
						}
					el[a / in] ^= 1ull << (in - 1 - a % in);
				}
			}
		mc::sample("every length 0..%zu of %u-bit elements into %zu-bit groups%s", top, in, Out, Pad ? " (padded)" : "");
	});
}
template <class El, size_t... Outs> static void type(const char * name) { ((explore<Outs, El, false>(name), explore<Outs, El, true>(name)), ...); }
int main(int argc, char ** argv) {
#define NAME2(x) #x
#define NAME(x) NAME2(x)
	type<ELEMENT, OUTS>(NAME(ELEMENT));
	return mc::run(argc, argv);
}
