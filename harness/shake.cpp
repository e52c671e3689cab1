// C04: SHAKE output for every output length up to more than two rate blocks, and a set of longer ones.
#include "../common/mc.hpp"
#include "../common/alg.hpp"

#ifndef FROM
#define FROM 1
#define TO 64
#endif
#ifndef SEC
#define SEC 128
#endif
using H = Shake<SEC>::H;
constexpr size_t rate = 200 - SEC / 4;
using finisher = void (*)(H &, uint8_t *);
struct entry { size_t len; finisher f; };
template <size_t Len> constexpr entry make_entry() {
	return {Len, [](H & h, uint8_t * o) {
				auto d = h.template final<Len * 8>();
				static_assert(d.size() == Len);
				digest_bytes(d, o);
			}};
}
static std::vector<entry> table() {
#ifdef LENGTHS
	return []<size_t... L>(std::index_sequence<L...>) { return std::vector<entry>{make_entry<L>()...}; }(std::index_sequence<LENGTHS>{});
#else
	return []<size_t... I>(std::index_sequence<I...>) { return std::vector<entry>{make_entry<FROM + I>()...}; }(std::make_index_sequence<TO - FROM>{});
#endif
}

int main(int argc, char ** argv) {
	for (int i = 1; i < argc; ++i)
		if (!strcmp(argv[i], "--thorough")) mc::thorough = true;
	const auto t = table();
	for (size_t k = 0; k < t.size(); ++k)
		mc::add("shake" + std::to_string(SEC) + "-out" + std::to_string(t[k].len), [&t, k] {
			const size_t len = t[k].len;
			std::vector<uint8_t> out(len + 1), exp(len);
			std::vector<size_t> lens;
			const bool wide = len == 4 || len == 8 || len == 16 || len == 32 || len == 64 || len == rate || len == 256;
			if (mc::thorough || wide)
				for (size_t n = 0; n <= 3 * rate + 9; ++n) lens.push_back(n);
			else
				for (size_t n: {size_t(0), size_t(1), size_t(7), size_t(8), size_t(9), size_t(63), rate - 9, rate - 8, rate - 2, rate - 1, rate, rate + 1, 2 * rate - 1, 2 * rate, 2 * rate + 1, 3 * rate + 5}) lens.push_back(n);
			for (int kind = 0; kind < (wide || mc::thorough ? 5 : 3); ++kind) {
				auto m = message(kind, 3 * rate + 16);
				for (size_t n: lens) {
					mc::at("message length %llu pattern %llu output length %llu", n, uint64_t(kind), len);
					ref::shake(SEC, m.data(), n, exp.data(), len);
					for (int c = 0; c < c_count; c += 1 + kind) {
						H h{};
						feed(h, m.data(), n, c);
						out[len] = 0x5c;
						t[k].f(h, out.data());
						mc::transition(), mc::validated();
						if (memcmp(out.data(), exp.data(), len) || out[len] != 0x5c) {
							size_t d = 0;
							while (d < len && out[d] == exp[d]) ++d;
							mc::fail("SHAKE%d, %zu byte message (pattern %d, %s), %zu bytes of output: first difference at output byte %zu; got ...%s expected ...%s", SEC, n, kind, carrier_name[c], len, d, mc::hex(out.data() + d, std::min<size_t>(16, len - d)).c_str(), mc::hex(exp.data() + d, std::min<size_t>(16, len - d)).c_str());
						}
					}
					mc::state(), mc::outcome(mc::fnv(exp.data(), len));
				}
			}
			mc::sample("SHAKE%d, %zu output bytes, %zu message lengths", SEC, len, lens.size());
		});
	return mc::run(argc, argv);
}
