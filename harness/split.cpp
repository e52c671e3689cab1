// C06, C07, C08: every way of cutting a message into updates.
//
// Explicit-state search over the real hasher.  A state is the exact object representation of the hasher together
// with the number of message bytes it has consumed.  From every state every update of every length (0 .. rest of
// the stream, through every carrier type) is a transition, executed by the real code; states are merged only when
// all bytes of the object are equal, so merged states have the same future.  All of the exponentially many ways to
// cut the stream are paths of this graph.  In every new state the digest of a copy is compared with the reference.
#include "../common/mc.hpp"
#include "../common/alg.hpp"
#include <new>

template <class A> struct explorer {
	using H = typename A::H;
	// a hasher that is not trivially copyable is brought into a state by repeating the operations which lead there, at
	// the same address over the same memory; states are still merged only when all bytes are equal
	static constexpr bool bytewise = std::is_trivially_copyable_v<H>;
	using raw = std::array<unsigned char, sizeof(H)>;
	struct node { raw bytes; uint32_t pos; int64_t from; uint32_t step; };

	size_t S;
	int fill;
	uint64_t seed;
	std::vector<uint8_t> m;
	ref::prefixes want;
	std::vector<node> nodes;
	std::unordered_map<std::string, size_t> index;
	std::vector<std::vector<uint8_t>> digest;
	alignas(64) unsigned char mem[sizeof(H)];

	explorer(size_t s, int f, uint64_t sd, int kind): S{s}, fill{f}, seed{sd}, m{message(kind, s + 1)}, want{A::refalg(sd), m.data(), s} {
		for (size_t i = 0; i <= S; ++i) {
			std::vector<uint8_t> d(A::dlen);
			want.digest(i, d.data());
			digest.push_back(d);
		}
	}
	std::string trace(size_t n, const std::string & last) {
		std::string s = last;
		for (int64_t i = int64_t(n); nodes[size_t(i)].from >= 0; i = nodes[size_t(i)].from) {
			uint32_t st = nodes[size_t(i)].step;
			s = (st == ~0u ? std::string("final() ") : "update(" + std::to_string(st >> 4) + " bytes as " + carrier_name[st & 15] + ") ") + s;
		}
		return "seed=" + std::to_string(seed) + " memory fill=" + std::to_string(fill) + ": " + s;
	}
	H & object() { return *std::launder(reinterpret_cast<H *>(mem)); }
	H & fresh() {
		memset(mem, fill, sizeof mem);
		if constexpr (A::xx) return *new (mem) H(static_cast<typename A::seed_t>(seed));
		else return *new (mem) H();
	}
	void apply(H & h, size_t pos, uint32_t step) {
		if (step == ~0u) {
			uint8_t out[A::dlen];
			if constexpr (A::xx) A::finish(h, out);
			return;
		}
		const size_t len = step >> 4;
		const int c = int(step & 15u);
		feed(h, len ? m.data() + pos : (c & 1 ? nullptr : m.data()), len, c);
	}
	// hasher in the state of a node (in mem)
	H & load(size_t i) {
		if constexpr (bytewise) {
			memcpy(mem, nodes[i].bytes.data(), sizeof mem);
			return object();
		} else {
			std::vector<size_t> path;
			for (int64_t k = int64_t(i); nodes[size_t(k)].from >= 0; k = nodes[size_t(k)].from) path.push_back(size_t(k));
			H & h = fresh();
			while (!path.empty()) {
				const node & n = nodes[path.back()];
				apply(h, nodes[size_t(n.from)].pos, n.step);
				path.pop_back();
			}
			return h;
		}
	}
	void release() {
		if constexpr (!bytewise) object().~H();
	}
	// mem holds the state that was just reached (and is used up here)
	void check(size_t pos, size_t from, const std::string & last) {
		H & h = object();
		if constexpr (A::sized)
			if (h.size() != pos) mc::fail("%s: size() is %llu instead of %zu after %s", A::name().c_str(), (unsigned long long)h.size(), pos, trace(from, last).c_str());
		uint8_t out[A::dlen + 1];
		A::finish(h, out);
		mc::validated();
		mc::outcome(mc::fnv(out, A::dlen));
		if (memcmp(out, digest[pos].data(), A::dlen))
			mc::fail("%s: digest of %zu bytes is %s instead of %s after %s", A::name().c_str(), pos, mc::hex(out, A::dlen).c_str(), mc::hex(digest[pos].data(), A::dlen).c_str(), trace(from, last).c_str());
	}
	void reach(size_t pos, int64_t from, uint32_t step) {
		mc::transition();
		std::string key(reinterpret_cast<const char *>(mem), sizeof(H));
		key.append(reinterpret_cast<const char *>(&pos), 2);
		if (!index.emplace(key, nodes.size()).second) return;
		mc::state();
		raw b;
		memcpy(b.data(), mem, sizeof mem);
		nodes.push_back({b, uint32_t(pos), from, step});
		check(pos, nodes.size() - 1, "");
	}
	bool run(size_t cap) {
		fresh();
		reach(0, -1, 0);
		release();
		for (size_t i = 0; i < nodes.size(); ++i) {
			if (nodes.size() > cap) return false;
			const size_t pos = nodes[i].pos;
			for (size_t len = 0; pos + len <= S; ++len) {
				for (int c = 0; c < c_count; ++c) {
					mc::at("update of %llu bytes (carrier %llu) at position %llu", len, uint64_t(c), pos);
					const uint32_t step = uint32_t(len << 4 | unsigned(c));
					apply(load(i), pos, step);
					reach(pos + len, int64_t(i), step);
					release();
				}
				if constexpr (A::xx) {
					for (int c = 0; c < c_count; ++c) {
						mc::at("update_and_final of %llu bytes (carrier %llu) at position %llu", len, uint64_t(c), pos);
						H & h = load(i);
						uint8_t out[A::dlen];
						const uint8_t * p = m.data() + pos;
						switch (c) {
						case c_byte: digest_bytes(h.update_and_final(std::span<const std::byte>(reinterpret_cast<const std::byte *>(p), len)), out); break;
						case c_uchar: digest_bytes(h.update_and_final(std::span<const unsigned char>(p, len)), out); break;
						case c_char: digest_bytes(h.update_and_final(std::span<const char>(reinterpret_cast<const char *>(p), len)), out); break;
						case c_schar: digest_bytes(h.update_and_final(std::span<const signed char>(reinterpret_cast<const signed char *>(p), len)), out); break;
						case c_char8: digest_bytes(h.update_and_final(std::span<const char8_t>(reinterpret_cast<const char8_t *>(p), len)), out); break;
						case c_sv: digest_bytes(h.update_and_final(std::string_view(reinterpret_cast<const char *>(p), len)), out); break;
						case c_u8sv: digest_bytes(h.update_and_final(std::u8string_view(reinterpret_cast<const char8_t *>(p), len)), out); break;
						}
						mc::transition();
						mc::validated();
						if (memcmp(out, digest[pos + len].data(), A::dlen))
							mc::fail("%s: update_and_final gives %s instead of %s for %zu bytes in total after %s", A::name().c_str(), mc::hex(out, A::dlen).c_str(), mc::hex(digest[pos + len].data(), A::dlen).c_str(), pos + len, trace(i, "update_and_final(" + std::to_string(len) + " bytes as " + carrier_name[c] + ")").c_str());
						release();
					}
				}
			}
			if constexpr (A::xx) { // final() must leave a hasher that can be used on
				mc::at("final at position %llu", pos);
				apply(load(i), pos, ~0u);
				reach(pos, int64_t(i), ~0u);
				release();
			}
		}
		return true;
	}
};

template <class A> void bfs_jobs(size_t blocks, std::vector<uint64_t> seeds) {
	for (int fill: {0x00, 0xa5})
		for (uint64_t seed: seeds)
			mc::add("bfs-" + A::name() + "-fill" + std::to_string(fill) + (seeds.size() > 1 ? "-seed" + std::to_string(seed) : ""), [=] {
				const size_t S = blocks * A::block + 9;
				explorer<A> e(S, fill, seed, 0);
				bool all = e.run(20000);
				mc::sample("%s: stream of %zu bytes, all cuts, %zu distinct (object bytes, position) states%s", A::name().c_str(), S, e.nodes.size(), all ? "" : " (CAPPED)");
			});
}

// long pieces and byte-count boundaries
template <class A> void long_jobs(uint64_t seed) {
	mc::add("long-" + A::name(), [=] {
		const size_t B = A::block, top = (1u << 20) + 4 * B + 3000;
		auto m = message(0, top);
		ref::prefixes want(A::refalg(seed), m.data(), top);
		uint8_t out[A::dlen], exp[A::dlen];
		std::vector<size_t> sizes = {255, 256, 257, 258, 511, 512, 513, 767, 768, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537};
		// every number of whole blocks (loops over several blocks at once), one byte around
		for (size_t k = 1; k <= 70; ++k) {
			sizes.push_back(k * B);
			if (k <= 33) sizes.push_back(k * B - 1), sizes.push_back(k * B + 1);
		}
		if (mc::thorough)
			for (size_t s = 250; s <= 3000; ++s) sizes.push_back(s);
		for (size_t first = 0; first <= B + 1; ++first)
			for (size_t n: sizes)
				for (size_t tail: {size_t(0), size_t(1), B - 1, B}) {
					if (n > 5000 && !mc::thorough && first != 0 && first != 1 && first < B - 1 && first % 16 != 5) continue;
					mc::at("pieces %llu, %llu, %llu", first, n, tail);
					auto h = A::make(seed);
					const int c = int((first + n + tail) % c_count);
					feed(h, m.data(), first, c);
					feed(h, m.data() + first, n, c);
					feed(h, m.data() + first + n, tail, c);
					mc::transition(3), mc::state();
					if constexpr (A::sized)
						if (h.size() != first + n + tail) mc::fail("%s: size() wrong after pieces %zu, %zu, %zu", A::name().c_str(), first, n, tail);
					A::finish(h, out);
					want.digest(first + n + tail, exp);
					mc::validated();
					if (memcmp(out, exp, A::dlen)) mc::fail("%s: pieces of %zu, %zu and %zu bytes (%s) give %s instead of %s", A::name().c_str(), first, n, tail, carrier_name[c], mc::hex(out, A::dlen).c_str(), mc::hex(exp, A::dlen).c_str());
				}
		for (size_t n: {size_t(1) << 20, (size_t(1) << 20) - 1, (size_t(1) << 20) + 1})
			for (size_t first: {size_t(0), size_t(1), B - 1, B}) {
				auto h = A::make(seed);
				feed(h, m.data(), first, 0);
				feed(h, m.data() + first, n, 1);
				mc::transition(2), mc::state();
				A::finish(h, out);
				want.digest(first + n, exp);
				mc::validated();
				if (memcmp(out, exp, A::dlen)) mc::fail("%s: pieces of %zu and %zu bytes give a wrong digest", A::name().c_str(), first, n);
			}
		mc::sample("pieces first=0..%zu, middle in {255..65537}, tail in {0,1,B-1,B}", B + 1);
	});
	// all sequences of four pieces over an alphabet of boundary sizes
	const size_t alphabet_size = 11;
	for (size_t a0 = 0; a0 < alphabet_size; ++a0)
		mc::add("seq4-" + A::name() + "-" + std::to_string(a0), [=] {
			const size_t B = A::block;
			const size_t al[alphabet_size] = {0, 1, B - 1, B, B + 1, 2 * B, 255, 256, 257, 2 * B + 3, 65539};
			const size_t top = 4 * 65539;
			auto m = message(4 + int(a0 % 3), top);
			for (size_t i = 0; i < top; i += 3) m[i] ^= pattern(0, i);
			ref::prefixes want(A::refalg(seed), m.data(), top);
			uint8_t out[A::dlen], exp[A::dlen];
			for (size_t a1 = 0; a1 < alphabet_size; ++a1)
				for (size_t a2 = 0; a2 < alphabet_size; ++a2)
					for (size_t a3 = 0; a3 < alphabet_size; ++a3) {
						size_t seq[4] = {al[a0], al[a1], al[a2], al[a3]};
						if (!mc::thorough && (a0 == 10) + (a1 == 10) + (a2 == 10) + (a3 == 10) > 1) continue;
						mc::at("pieces %llu %llu %llu %llu", seq[0], seq[1], seq[2], seq[3]);
						auto h = A::make(seed);
						size_t pos = 0;
						for (int k = 0; k < 4; ++k) feed(h, m.data() + pos, seq[k], int((a0 + a1 + a2 + a3 + size_t(k)) % c_count)), pos += seq[k], mc::transition();
						if constexpr (A::sized)
							if (h.size() != pos) mc::fail("%s: size() wrong after pieces %zu %zu %zu %zu", A::name().c_str(), seq[0], seq[1], seq[2], seq[3]);
						A::finish(h, out);
						want.digest(pos, exp);
						mc::state(), mc::validated(), mc::outcome(mc::fnv(out, A::dlen));
						if (memcmp(out, exp, A::dlen)) mc::fail("%s: pieces of %zu, %zu, %zu, %zu bytes give %s instead of %s", A::name().c_str(), seq[0], seq[1], seq[2], seq[3], mc::hex(out, A::dlen).c_str(), mc::hex(exp, A::dlen).c_str());
					}
		});
}

template <class A> void all(std::vector<uint64_t> seeds = {0}, size_t blocks = 4) {
	bfs_jobs<A>(mc::thorough ? blocks * 2 : blocks, seeds);
	for (uint64_t s: seeds) {
		long_jobs<A>(s);
		break;
	}
}

int main(int argc, char ** argv) {
	for (int i = 1; i < argc; ++i)
		if (!strcmp(argv[i], "--thorough")) mc::thorough = true;
#if defined(PART_SHA2)
	all<ASha2<224>>(), all<ASha2<256>>();
#elif defined(PART_SHA2B)
	all<ASha2<384>>(), all<ASha2<512>>();
#elif defined(PART_SHA2T)
	all<ASha512t<224>>({0}, 3), all<ASha512t<256>>({0}, 3), all<ASha512t<8>>({0}, 3);
#elif defined(PART_SHA3)
	all<ASha3<224>>(), all<ASha3<256>>();
#elif defined(PART_SHA3B)
	all<ASha3<384>>(), all<ASha3<512>>();
#elif defined(PART_SHAKE)
	all<AShake<128, 32>>(), all<AShake<256, 64>>();
#elif defined(PART_XXH32)
	all<AXxh<32>>({0, 1, 0xffffffffull, 2654435761u}, 8);
#elif defined(PART_XXH64)
	all<AXxh<64>>({0, 1, ~0ull, 0x123456789abcdef0ull}, 8);
#endif
	return mc::run(argc, argv);
}
