// C12: hashers as values. All operation sequences over several live hashers, re-executed from scratch for every
// sequence (stateless), each hasher compared with the reference digest of exactly what was supplied to it.
#include "../common/mc.hpp"
#include "../common/alg.hpp"
#include <deque>
#include <memory>
#include <new>
#include <unordered_map>
#include <utility>

constexpr int n_slots = 3;
template <class A> struct world {
	using H = typename A::H;
	struct place {
		alignas(64) unsigned char raw[sizeof(H) + 64];
		bool alive = false, finished = false;
		uint64_t seed = 0;
		std::vector<uint8_t> msg;
		H & h() { return *std::launder(reinterpret_cast<H *>(raw)); }
	} slot[n_slots];
	std::unordered_map<uint64_t, std::array<uint8_t, 512>> known;
	std::vector<int> path;
	uint8_t stream[8192];
	size_t pos = 0;

	static constexpr size_t sizes[] = {3, A::block - 1, A::block + 1};
	enum { n_sizes = 3, op_update = 0, op_assign = op_update + n_slots * n_sizes, op_construct = op_assign + 6, op_move = op_construct + 6, op_swap = op_move + 6, op_final = op_swap + 3, op_end = op_final + n_slots };
	static constexpr int pairs[6][2] = {{0, 1}, {0, 2}, {1, 0}, {1, 2}, {2, 0}, {2, 1}};

	static constexpr bool assignable = std::is_copy_assignable_v<H>; // SHA-2 and SHA-3 hashers can only be constructed from others

	world() {
		for (size_t i = 0; i < sizeof stream; ++i) stream[i] = pattern(0, i);
	}
	std::string shown() const {
		std::string s;
		for (int o: path) {
			s += s.empty() ? "" : "; ";
			const std::string n[] = {"a", "b", "c"};
			if (o < op_assign) s += n[o / n_sizes] + ".update(" + std::to_string(sizes[o % n_sizes]) + " bytes)";
			else if (o < op_construct) s += n[pairs[o - op_assign][0]] + "=" + n[pairs[o - op_assign][1]];
			else if (o < op_move) s += n[pairs[o - op_construct][0]] + "=new copy of " + n[pairs[o - op_construct][1]];
			else if (o < op_swap) s += n[pairs[o - op_move][0]] + "=moved " + n[pairs[o - op_move][1]];
			else if (o < op_final) s += "swap " + std::to_string(o - op_swap);
			else s += n[o - op_final] + ".final";
		}
		return s;
	}
	void create(int i, int fill) {
		auto & p = slot[i];
		memset(p.raw, fill, sizeof p.raw);
		p.seed = A::xx ? uint64_t(i) * 0x9E3779B97F4A7C15ull : 0;
		new (p.raw) H(A::make(p.seed));
		p.alive = true, p.finished = false;
		p.msg.clear();
	}
	void expect(int i, const char * when) {
		auto & p = slot[i];
		const uint64_t key = mc::fnv(p.msg.data(), p.msg.size()) ^ p.seed * 7 ^ p.msg.size() << 48;
		auto [it, fresh] = known.try_emplace(key);
		if (fresh) A::oracle(p.msg.data(), p.msg.size(), p.seed, it->second.data());
		uint8_t got[512];
		A::finish(p.h(), got);
		mc::validated();
		if (memcmp(got, it->second.data(), A::dlen)) mc::fail("%s: after [%s] hasher %c %s is %s instead of %s", A::name().c_str(), shown().c_str(), 'a' + i, when, mc::hex(got, A::dlen).c_str(), mc::hex(it->second.data(), A::dlen).c_str());
		if (!A::xx) p.finished = true;
	}
	bool apply(int op) {
		mc::transition();
		if (op < op_assign) {
			auto & p = slot[op / n_sizes];
			if (p.finished) return false;
			const size_t n = sizes[op % n_sizes];
			feed(p.h(), stream + pos, n, c_byte);
			p.msg.insert(p.msg.end(), stream + pos, stream + pos + n);
			pos += n;
			return true;
		}
		if (op < op_construct) {
			auto & to = slot[pairs[op - op_assign][0]];
			auto & from = slot[pairs[op - op_assign][1]];
			if constexpr (assignable) to.h() = std::as_const(from.h());
			else return false;
			to.msg = from.msg, to.seed = from.seed, to.finished = from.finished;
			return true;
		}
		if (op < op_move) {
			auto & to = slot[pairs[op - op_construct][0]];
			auto & from = slot[pairs[op - op_construct][1]];
			to.h().~H();
			memset(to.raw, 0xa5, sizeof to.raw);
			new (to.raw) H(std::as_const(from.h()));
			to.msg = from.msg, to.seed = from.seed, to.finished = from.finished;
			return true;
		}
		if (op < op_swap) { // the moved-from hasher is destroyed and its memory overwritten before a new one lives there
			auto & to = slot[pairs[op - op_move][0]];
			auto & from = slot[pairs[op - op_move][1]];
			to.h().~H();
			memset(to.raw, 0x5a, sizeof to.raw);
			new (to.raw) H(std::move(from.h()));
			to.msg = from.msg, to.seed = from.seed, to.finished = from.finished;
			from.h().~H();
			create(int(&from - slot), 0xff);
			return true;
		}
		if (op < op_final) {
			auto & a = slot[(op - op_swap) == 2], & b = slot[(op - op_swap) == 0 ? 1 : 2];
			if constexpr (assignable) std::swap(a.h(), b.h());
			else {
				H t(std::move(a.h()));
				a.h().~H();
				memset(a.raw, 0x77, sizeof a.raw);
				new (a.raw) H(std::move(b.h()));
				b.h().~H();
				memset(b.raw, 0x33, sizeof b.raw);
				new (b.raw) H(std::move(t));
			}
			std::swap(a.msg, b.msg), std::swap(a.seed, b.seed), std::swap(a.finished, b.finished);
			return true;
		}
		if (slot[op - op_final].finished) return false;
		expect(op - op_final, "gives");
		return true;
	}
	// one execution from scratch; false if an operation is not allowed
	bool execute(bool reverse) {
		pos = 0;
		for (int i = 0; i < n_slots; ++i) create(i, path.size() % 2 ? 0x00 : 0xdb);
		for (int o: path)
			if (!apply(o)) return false;
		for (int k = 0; k < n_slots; ++k) {
			const int i = reverse ? n_slots - 1 - k : k;
			if (!slot[i].finished) expect(i, "finally gives");
		}
		return true;
	}
	void dfs(size_t depth) {
		if (!execute(false)) return;
		mc::state();
		execute(true);
		if (!path.empty()) mc::outcome(uint64_t(slot[0].msg.size()) << 40 | uint64_t(slot[1].msg.size()) << 20 | slot[2].msg.size());
		if (path.size() >= depth) return;
		for (int o = 0; o < op_end; ++o) {
			path.push_back(o);
			dfs(depth);
			path.pop_back();
		}
	}
};
#ifdef ALG
using A = ALG;
using H = A::H;
static void check(H & h, const uint8_t * m, size_t n, uint64_t seed, const char * what) {
	uint8_t got[512], want[512];
	A::oracle(m, n, seed, want);
	A::finish(h, got);
	mc::state(), mc::transition(), mc::validated();
	if (memcmp(got, want, A::dlen)) mc::fail("%s: %s (%zu bytes) is %s instead of %s", A::name().c_str(), what, n, mc::hex(got, A::dlen).c_str(), mc::hex(want, A::dlen).c_str());
}
template <class V> static void reorder(V & v, std::vector<int> & ids) {
	if constexpr (std::is_copy_assignable_v<typename V::value_type>) {
		std::reverse(v.begin(), v.end()), std::reverse(ids.begin(), ids.end());
		v.erase(v.begin() + 3), ids.erase(ids.begin() + 3);
		std::rotate(v.begin(), v.begin() + 5, v.end()), std::rotate(ids.begin(), ids.begin() + 5, ids.end());
	}
}
template <class A> static void self_assign(const uint8_t * p, size_t n) {
	using H = typename A::H;
	if constexpr (std::is_copy_assignable_v<H>) {
		H x = A::make(0);
		feed(x, p, n, c_byte);
		auto & alias = x;
		x = alias;
		check(x, p, n, 0, "a hasher assigned to itself");
	}
}
template <class A> static void add_temporaries() {
	if constexpr (!A::shake) mc::add("temporaries", [] {
		using H = typename A::H;
		const auto m = message(0, 400);
		auto part = [&](size_t a, size_t n) { return std::span<const unsigned char>(m.data() + a, n); };
		for (size_t n = 0; n < 300; n += 7) {
			uint8_t got[512], want[512], want2[512];
			A::oracle(m.data(), n, 0, want), A::oracle(m.data(), n + 50, 0, want2);
			auto base = A::make();
			base.update(part(0, n));
			const auto d1 = H(base).final();
			const auto d2 = H(base).update(part(n, 50)).final();
			const auto d3 = H(base).final();
			digest_bytes(d1, got);
			bool ok = !memcmp(got, want, A::dlen);
			digest_bytes(d2, got);
			ok &= !memcmp(got, want2, A::dlen);
			digest_bytes(d3, got);
			ok &= !memcmp(got, want, A::dlen);
			mc::state(), mc::validated(3);
			if (!ok) mc::fail("%s: digests of temporary copies of one hasher at %zu bytes are wrong", A::name().c_str(), n);
		}
	});
}
int main(int argc, char ** argv) {
	for (int first = 0; first < world<A>::op_end; ++first)
		mc::add("sequences-" + std::to_string(first), [first] {
			auto w = std::make_unique<world<A>>();
			w->path.push_back(first);
			w->dfs(mc::thorough ? (A::xx || A::block == 64 ? 5 : 5) : DEPTH);
			if (first == 0) mc::sample("%s: all sequences of %d of %d operations (update, copy, move, swap, final) over three hashers", A::name().c_str(), mc::thorough ? 5 : DEPTH, int(world<A>::op_end));
		});
	mc::add("places", [] { // where the object lives, and what was there before
		const auto m = message(0, 4 * A::block);
		std::vector<unsigned char> arena(sizeof(H) * 4 + 4096);
		unsigned char * base = arena.data() + (64 - reinterpret_cast<uintptr_t>(arena.data()) % 64) % 64;
		for (size_t off = 0; off < 256; off += alignof(H))
			for (int fill: {0x00, 0xff, 0xa5, 0x80, 0x01})
				for (size_t a: {size_t(0), size_t(1), size_t(5), A::block - 1, A::block, A::block + 7})
					for (size_t b: {size_t(0), size_t(2), A::block}) {
						mc::at("offset %llu, fill %llx, %llu + %llu bytes", off, uint64_t(fill), a, b);
						memset(base, fill, 256 + sizeof(H) + 64);
						auto h = new (base + off) H(A::make(A::xx ? 77 : 0));
						feed(*h, m.data(), a, c_byte), feed(*h, m.data() + a, b, c_byte);
						// a copy elsewhere, while the original is destroyed and overwritten
						auto & g = *new (base + off + (sizeof(H) + 63) / 64 * 64) H(*h);
						h->~H();
						memset(base + off, ~fill, sizeof(H));
						check(g, m.data(), a + b, A::xx ? 77 : 0, "a copy, original gone");
						auto k = new (base + off) H(A::make(A::xx ? 77 : 0)); // over the remains of other objects
						feed(*k, m.data(), a + b, c_byte);
						check(*k, m.data(), a + b, A::xx ? 77 : 0, "a hasher over the remains of others");
					}
	});
	mc::add("containers", [] {
		const auto m = message(0, 4000);
		for (size_t n: {size_t(1), A::block - 1, A::block + 3}) {
			std::vector<H> v;
			for (int i = 0; i < 40; ++i) { // growing moves everything
				v.push_back(A::make(0));
				for (size_t k = 0; k < v.size(); ++k) feed(v[k], m.data() + k * 7 + (v.size() - k) * 0, 0, c_byte);
				feed(v.back(), m.data() + i, n, c_byte);
			}
			std::vector<int> ids;
			for (int i = 0; i < 40; ++i) ids.push_back(i);
			reorder(v, ids);
			for (size_t k = 0; k < v.size(); ++k) feed(v[k], m.data() + ids[k] + n, 5, c_byte);
			for (size_t k = v.size(); k--;) check(v[k], m.data() + ids[k], n + 5, 0, "a hasher moved around in a vector");
			self_assign<A>(m.data(), n);
			// relocation of the bytes: hashers are trivially copyable
			if constexpr (std::is_trivially_copyable_v<H>) {
				H y = A::make(0), z = A::make(0);
				feed(y, m.data(), n, c_byte);
				memcpy(static_cast<void *>(&z), static_cast<const void *>(&y), sizeof(H));
				memset(static_cast<void *>(&y), 0xff, sizeof(H));
				feed(z, m.data() + n, n, c_byte);
				check(z, m.data(), 2 * n, 0, "a hasher relocated by memcpy");
			}
			// by value through functions, lambdas, conditional expressions
			auto pass = [](H h, const uint8_t * p, size_t c) { feed(h, p, c, c_byte); return h; };
			H s = A::make(0);
			feed(s, m.data(), n, c_byte);
			H t = pass(s, m.data() + n, 9), u = pass(pass(s, m.data() + n, 1), m.data() + n + 1, A::block);
			feed(s, m.data() + n, 2, c_byte);
			check(u, m.data(), n + 1 + A::block, 0, "a hasher passed by value twice"), check(t, m.data(), n + 9, 0, "a hasher passed by value"), check(s, m.data(), n + 2, 0, "the original of hashers passed by value");
		}
		static H st = A::make(0);
		thread_local H tl = A::make(0);
		feed(st, m.data(), 70, c_byte), feed(tl, m.data(), 71, c_byte);
		check(st, m.data(), 70, 0, "static hasher"), check(tl, m.data(), 71, 0, "thread-local hasher");
	});
	add_temporaries<A>();
	return mc::run(argc, argv);
}
#else // hashers of different types
struct any {
	virtual ~any() = default;
	virtual void update(const uint8_t * p, size_t n) = 0;
	virtual void finish(uint8_t * out) = 0;
	virtual void want(const std::vector<uint8_t> & m, uint8_t * out) = 0;
	virtual size_t dlen() = 0;
	virtual size_t block() = 0;
	virtual std::string name() = 0;
	virtual void reset() = 0;
	virtual bool again() = 0;
};
template <class A> struct any_of: any {
	union { typename A::H h; };
	any_of(): h(A::make(A::xx ? 3 : 0)) { }
	~any_of() { std::destroy_at(&h); }
	void update(const uint8_t * p, size_t n) override { feed(h, p, n, c_byte); }
	void finish(uint8_t * out) override { A::finish(h, out); }
	void want(const std::vector<uint8_t> & m, uint8_t * out) override { A::oracle(m.data(), m.size(), A::xx ? 3 : 0, out); }
	size_t dlen() override { return A::dlen; }
	size_t block() override { return A::block; }
	std::string name() override { return A::name(); }
	void reset() override { std::destroy_at(&h), new (&h) typename A::H(A::make(A::xx ? 3 : 0)); }
	bool again() override { return A::xx; }
};
using maker = std::unique_ptr<any> (*)();
template <class A> static std::unique_ptr<any> make_any() { return std::make_unique<any_of<A>>(); }
static const maker makers[] = {make_any<ASha2<224>>, make_any<ASha2<256>>, make_any<ASha2<384>>, make_any<ASha2<512>>, make_any<ASha512t<224>>, make_any<ASha512t<256>>, make_any<ASha512t<8>>, make_any<ASha3<224>>, make_any<ASha3<256>>, make_any<ASha3<384>>, make_any<ASha3<512>>, make_any<AShake<128, 32>>, make_any<AShake<128, 400>>, make_any<AShake<256, 32>>, make_any<AShake<256, 400>>, make_any<AXxh<32>>, make_any<AXxh<64>>};
static std::vector<uint8_t> text = message(0, 2000);
// all merges of [update, update, final] of one with the same of the other, all size combinations
static void two(any & a, any & b) {
	const size_t sa[] = {0, 3, a.block() - 1, a.block() + 1}, sb[] = {0, 5, b.block() - 1, b.block() + 1};
	uint8_t wa[16][512], wb[16][512];
	std::vector<uint8_t> m;
	for (int i = 0; i < 16; ++i) {
		m.assign(text.begin(), text.begin() + sa[i / 4] + sa[i % 4]);
		a.want(m, wa[i]);
		m.assign(text.begin() + 700, text.begin() + 700 + sb[i / 4] + sb[i % 4]);
		b.want(m, wb[i]);
	}
	for (unsigned mask = 0; mask < 64; ++mask) {
		if (__builtin_popcount(mask) != 3) continue;
		for (int i = 0; i < 16; ++i)
			for (int k = 0; k < 16; ++k) {
				a.reset(), b.reset();
				int ia = 0, ib = 0;
				uint8_t ga[512], gb[512];
				for (int t = 0; t < 6; ++t) {
					if (mask >> t & 1) {
						if (ia == 2) a.finish(ga);
						else a.update(text.data() + (ia ? sa[i / 4] : 0), sa[ia ? i % 4 : i / 4]);
						++ia;
					} else {
						if (ib == 2) b.finish(gb);
						else b.update(text.data() + 700 + (ib ? sb[k / 4] : 0), sb[ib ? k % 4 : k / 4]);
						++ib;
					}
				}
				mc::state(), mc::transition(6), mc::validated(2);
				if (memcmp(ga, wa[i], a.dlen()) || memcmp(gb, wb[k], b.dlen())) mc::fail("%s and %s interleaved by schedule %02x with sizes %zu+%zu and %zu+%zu: %s", a.name().c_str(), b.name().c_str(), mask, sa[i / 4], sa[i % 4], sb[k / 4], sb[k % 4], memcmp(ga, wa[i], a.dlen()) ? "the first is wrong" : "the second is wrong");
			}
	}
	mc::outcome(mc::fnv(wa[5], a.dlen()) ^ mc::fnv(wb[5], b.dlen()));
}
int main(int argc, char ** argv) {
	const int n = std::size(makers);
	for (int i = 0; i < n; ++i)
		mc::add("pairs-" + std::to_string(i), [i] {
			for (auto mk: makers) {
				auto a = makers[i](), b = mk();
				mc::context(a->name() + " and " + b->name());
				two(*a, *b);
			}
			if (!i) mc::sample("all 20 merges x 256 size combinations for each of %d x %d type pairs", int(std::size(makers)), int(std::size(makers)));
		});
	// many at once: one hasher of each type fed round robin
	mc::add("all-at-once", [] {
		for (size_t step: {1u, 3u, 63u, 64u, 65u, 129u})
			for (int rounds = 1; rounds < 12; ++rounds) {
				std::vector<std::unique_ptr<any>> all;
				for (auto mk: makers)
					for (int k = 0; k < 2; ++k) all.push_back(mk());
				for (int r = 0; r < rounds; ++r)
					for (size_t i = 0; i < all.size(); ++i) all[i]->update(text.data() + i + r * step, step);
				for (size_t i = all.size(); i--;) {
					uint8_t got[512], want[512];
					all[i]->finish(got);
					all[i]->want(std::vector<uint8_t>(text.begin() + i, text.begin() + i + rounds * step), want);
					mc::state(), mc::transition(rounds), mc::validated();
					if (memcmp(got, want, all[i]->dlen())) mc::fail("%s among %zu hashers fed in turn is wrong", all[i]->name().c_str(), all.size());
				}
			}
	});
	return mc::run(argc, argv);
}
#endif
