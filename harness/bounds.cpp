// C13: every length, placement and hasher state with the memory around input, object and output watched:
//   MODE 0  inaccessible pages before and after; the input is mapped read-only; canaries around what is written
//   MODE 1  blocks of exactly the right size from the allocator, under AddressSanitizer and UBSan
//   MODE 2  uninitialised shadow around the input and under every object, under MemorySanitizer
#include "../common/mc.hpp"
#include "../common/enc.hpp"
#include <forward_list>
#include <list>
#include <memory>
#include <new>
#include <sstream>
#if MODE == 2
#include <sanitizer/msan_interface.h>
#endif

constexpr size_t room = 16384;
struct arena {
	uint8_t * rw = nullptr; // the memory, writable
	uint8_t * ro = nullptr; // the same memory with guards; read-only if asked for
	uint8_t * block = nullptr;
	explicit arena(bool readonly) {
#if MODE == 0
		const int fd = memfd_create("arena", 0);
		if (fd < 0 || ftruncate(fd, room)) throw std::runtime_error("memfd");
		auto frame = static_cast<uint8_t *>(mmap(nullptr, 3 * room, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		ro = static_cast<uint8_t *>(mmap(frame + room, room, readonly ? PROT_READ : PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0));
		rw = static_cast<uint8_t *>(mmap(nullptr, room, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
		close(fd);
		if (rw == MAP_FAILED || ro == MAP_FAILED) throw std::runtime_error("mmap");
#elif MODE == 2
		rw = ro = static_cast<uint8_t *>(aligned_alloc(64, room));
		__msan_poison(rw, room);
#endif
		(void)readonly;
	}
#if MODE == 0
	static constexpr size_t places = 2; // 0: begins at a guard, 1: ends at one
	template <class T = uint8_t> size_t offset(size_t n, size_t place) { return place == 0 ? 0 : room - n; }
#elif MODE == 1
	static constexpr size_t places = 3;
	static constexpr size_t shift[places] = {0, 1, 8};
#else
	static constexpr size_t places = 3;
	static constexpr size_t shift[places] = {64, 65, 72};
#endif
	// n bytes of memory, uninitialised
	uint8_t * get(size_t n, size_t place, size_t align = 1) {
#if MODE == 0
		(void)align;
		return ro + (place == 0 ? 0 : room - n);
#elif MODE == 1
		if (n == 0 && place == 1) return nullptr;
		const size_t s = align > 1 ? 0 : shift[place];
		::operator delete(block);
		block = static_cast<uint8_t *>(::operator new(n + s));
		return block + s;
#else
		__msan_poison(rw, room);
		return rw + (align > 1 ? 64 : shift[place]);
#endif
	}
	const uint8_t * put(const void * p, size_t n, size_t place) {
		uint8_t * to = get(n, place);
#if MODE == 0
		memcpy(rw + (to - ro), p, n);
		if (n == 0 && place == 0) return nullptr;
#else
		if (n) memcpy(to, p, n);
#endif
		return to;
	}
	~arena() {
#if MODE == 1
		::operator delete(block);
#endif
	}
};
// an object of type T at the edge, with the bytes around it watched
template <class T> struct edge {
	arena a{false};
	T * at = nullptr;
	size_t place = 0;
	template <class F> T & make(size_t p, F f) {
		place = p;
#if MODE == 0
		memset(a.rw, 0xc9, room);
#endif
		auto q = a.get(sizeof(T), p, alignof(T));
		static_assert(sizeof(T) % alignof(T) == 0);
		return *(at = new (q) T(f()));
	}
	// only the object has been written to
	void intact(const char * what) {
#if MODE == 0
		const size_t from = place == 0 ? sizeof(T) : 0, to = place == 0 ? room : room - sizeof(T);
		// near the object exactly, the rest by its pages
		for (size_t i = place == 0 ? from : std::max(from, to > 512 ? to - 512 : from); i < (place == 0 ? from + 512 : to); ++i)
			if (a.rw[i] != 0xc9) mc::fail("%s: byte at distance %td of the object was overwritten with %02x", what, ptrdiff_t(i) - ptrdiff_t(place == 0 ? 0 : room - sizeof(T)), a.rw[i]);
#else
		(void)what;
#endif
	}
};
static void defined(const void * p, size_t n, const char * what) {
#if MODE == 2
	const auto bad = __msan_test_shadow(p, n);
	if (bad >= 0) mc::fail("%s: byte %td of %zu depends on memory that was never written", what, ptrdiff_t(bad), n);
#else
	(void)p, (void)n, (void)what;
#endif
}

#if PART == 0 || PART == 1
template <class A> static void hashing() {
	using H = typename A::H;
	constexpr size_t b = A::block;
	for (int slice = 0; slice < 4; ++slice)
		mc::add("update-" + A::name() + "-" + std::to_string(slice), [slice] {
			const auto m = message(0, 5 * b + 64);
			std::vector<std::array<uint8_t, A::dlen>> want(m.size());
			for (size_t i = 0; i < m.size(); ++i) {
				uint8_t t[512];
				A::oracle(m.data(), i, 0, t);
				memcpy(want[i].data(), t, A::dlen);
			}
			arena in(true);
			edge<H> ob;
			for (size_t s = size_t(slice); s < b + 4; s += 4) {
				const size_t before = s < b ? s : 2 * b + (s - b) * 5 - 3;
				for (size_t n = 0; n <= 2 * b + 9; ++n) {
					if (MODE && !mc::thorough && n > 20 && n + 20 < b - s % b && s % 8 > 2) continue; // nothing happens in between
					for (size_t place = 0; place < arena::places; ++place) {
						const int c = int((n + s + place) % c_count);
						mc::at("%llu bytes (carrier %llu, placement %llu) after %llu", n, uint64_t(c), place, before);
						const uint8_t * p = in.put(m.data() + before, n, place);
						H & h = ob.make(place, [] { return A::make(0); });
						feed(h, m.data(), before, c_uchar);
						feed(h, p, n, c);
						uint8_t got[512];
						A::finish(h, got);
						defined(got, A::dlen, "digest");
						mc::state(), mc::transition(), mc::validated();
						if (memcmp(got, want[before + n].data(), A::dlen)) mc::fail("%s: %zu bytes after %zu bytes: %s instead of %s", A::name().c_str(), n, before, mc::hex(got, A::dlen).c_str(), mc::hex(want[before + n].data(), A::dlen).c_str());
						ob.intact("hasher");
						h.~H();
					}
				}
			}
			if (!slice) mc::sample("%s: every state x every length 0..%zu x %zu placements, mode %d", A::name().c_str(), 2 * b + 9, arena::places, MODE);
		});
	mc::add("carriers-" + A::name(), [] { // all carriers and call forms, all lengths, empty states
		const auto m = message(0, 3 * b);
		arena in(true);
		for (size_t n = 0; n <= 2 * b + 9; ++n) {
			uint8_t want[512], got[512];
			A::oracle(m.data(), n, 0, want);
			for (size_t place = 0; place < arena::places; ++place)
				for (int c = 0; c < c_count; ++c) {
					mc::at("%llu bytes (carrier %llu, placement %llu)", n, uint64_t(c), place);
					const uint8_t * p = in.put(m.data(), n, place);
					auto h = A::make(0);
					feed(h, p, n, c), feed(h, nullptr, 0, c), feed(h, p + (p ? n : 0), 0, c);
					A::finish(h, got);
					defined(got, A::dlen, "digest");
					mc::state(), mc::transition(), mc::validated();
					if (memcmp(got, want, A::dlen)) mc::fail("%s: %zu bytes by %s: %s instead of %s", A::name().c_str(), n, carrier_name[c], mc::hex(got, A::dlen).c_str(), mc::hex(want, A::dlen).c_str());
					if constexpr (A::xx) {
						auto g = A::make(0);
						digest_bytes(g.update_and_final(std::span<const std::byte>(reinterpret_cast<const std::byte *>(p), n)), got);
						auto f = A::make(0);
						uint8_t got2[512];
						feed(f, p, n / 2, c);
						digest_bytes(f.update_and_final(std::string_view(reinterpret_cast<const char *>(p) + (p ? n / 2 : 0), n - n / 2)), got2);
						defined(got, A::dlen, "update_and_final"), defined(got2, A::dlen, "update_and_final");
						if (memcmp(got, want, A::dlen) || memcmp(got2, want, A::dlen)) mc::fail("%s: %zu bytes by update_and_final are wrong", A::name().c_str(), n);
					}
				}
		}
	});
	mc::add("output-" + A::name(), [] { // the digest is written where it was asked for, nothing else
		const auto m = message(0, 3 * b);
		edge<std::array<std::byte, A::dlen>> out;
		for (size_t n = 0; n <= 2 * b; ++n)
			for (size_t place = 0; place < arena::places; ++place) {
				mc::at("output at placement %llu, message of %llu bytes", place, n);
				uint8_t want[512];
				A::oracle(m.data(), n, 0, want);
				auto h = A::make(0);
				feed(h, m.data(), n, c_byte);
				if constexpr (!A::shake) {
#if MODE == 0
					for (size_t off: {size_t(0), size_t(1), size_t(3), size_t(8), size_t(13)}) {
						auto & o = out.make(place, [] { return std::array<std::byte, A::dlen>{}; });
						memset(out.a.rw, 0xc9, room);
						(void)o;
						uint8_t * to = out.a.ro + (place == 0 ? off : room - A::dlen - off);
						auto g = h;
						g.final(std::span<std::byte, A::dlen>(reinterpret_cast<std::byte *>(to), A::dlen));
						const size_t pos = size_t(to - out.a.ro);
						if (memcmp(out.a.rw + pos, want, A::dlen)) mc::fail("%s: final() into a buffer at offset %zu: %s instead of %s", A::name().c_str(), off, mc::hex(out.a.rw + pos, A::dlen).c_str(), mc::hex(want, A::dlen).c_str());
						for (size_t i = pos > 256 ? pos - 256 : 0; i < std::min(room, pos + A::dlen + 256); ++i)
							if ((i < pos || i >= pos + A::dlen) && out.a.rw[i] != 0xc9) mc::fail("%s: final() writes at distance %td of the output of %zu bytes", A::name().c_str(), ptrdiff_t(i) - ptrdiff_t(pos), A::dlen);
						mc::state(), mc::transition(), mc::validated();
					}
#else
					uint8_t * to = out.a.get(A::dlen, place);
					auto g = h;
					g.final(std::span<std::byte, A::dlen>(reinterpret_cast<std::byte *>(to), A::dlen));
					defined(to, A::dlen, "digest in a buffer");
					if (memcmp(to, want, A::dlen)) mc::fail("%s: final() into a buffer is wrong", A::name().c_str());
					mc::state(), mc::transition(), mc::validated();
#endif
				}
				// the value is built at the edge
				using D = decltype([&] { if constexpr (A::shake) return h.template final<A::dlen * 8>(); else return h.final(); }());
				static edge<D> vo;
				auto & d = vo.make(place, [&] { if constexpr (A::shake) return h.template final<A::dlen * 8>(); else return h.final(); });
				defined(d.data(), A::dlen, "digest value");
				vo.intact("digest value");
				if (sizeof(D) != A::dlen || memcmp(d.data(), want, A::dlen)) mc::fail("%s: digest value is wrong", A::name().c_str());
				mc::state(), mc::transition(), mc::validated();
			}
	});
}
int main(int argc, char ** argv) {
#if PART == 0
	hashing<ASha2<224>>(), hashing<ASha2<256>>(), hashing<ASha2<384>>(), hashing<ASha2<512>>(), hashing<ASha512t<8>>(), hashing<ASha512t<224>>(), hashing<ASha512t<504>>(), hashing<AXxh<32>>(), hashing<AXxh<64>>();
#else
	hashing<ASha3<224>>(), hashing<ASha3<256>>(), hashing<ASha3<384>>(), hashing<ASha3<512>>(), hashing<AShake<128, 1>>(), hashing<AShake<128, 345>>(), hashing<AShake<256, 136>>(), hashing<AShake<256, 141>>();
#endif
	return mc::run(argc, argv);
}
#elif PART == 2 // encoding of ranges
template <int E> static void encoding() {
	mc::add("encode-" + std::string(ref::encodings[E].name), [] {
		arena in(true);
		const auto & e = ref::encodings[E];
		constexpr auto act = enc_at<E>::action;
		char want[4096];
		for (int kind: {0, 1})
			for (size_t n = 0; n <= (mc::thorough ? 300 : 130); ++n)
				for (size_t place = 0; place < arena::places; ++place) {
					mc::at("%llu bytes, placement %llu", n, place);
					const auto m = message(kind, n);
					const size_t wn = quick_encode(e, m.data(), n, want);
					const uint8_t * p = in.put(m.data(), n, place);
					mc::state();
					auto walk = [&](auto && view, const char * how) {
						std::vector<char> got;
						got.reserve(wn + 1);
						for (auto it = view.begin(); !(it == view.end());) got.push_back(char(*it++));
						defined(got.data(), got.size(), how);
						mc::transition(wn + 1), mc::validated();
						if (got.size() != wn || memcmp(got.data(), want, wn)) mc::fail("%s of %zu bytes (%s) is wrong", e.name, n, how);
						if (size_t(view.size()) != wn) mc::fail("%s of %zu bytes (%s) reports the wrong size", e.name, n, how);
						got.clear();
						for (auto c: view) got.push_back(char(c));
						if (got.size() != wn || memcmp(got.data(), want, wn)) mc::fail("%s of %zu bytes (%s, by for) is wrong", e.name, n, how);
					};
					walk(std::span<const unsigned char>(p, n) | act, "unsigned char");
					walk(std::span<const std::byte>(reinterpret_cast<const std::byte *>(p), n) | act, "byte");
					walk(std::span<const signed char>(reinterpret_cast<const signed char *>(p), n) | act, "signed char");
					walk(std::string_view(reinterpret_cast<const char *>(p), n) | act, "string_view");
					walk(std::span<const char8_t>(reinterpret_cast<const char8_t *>(p), n) | act, "char8_t");
					walk(std::span<const unsigned char>(p, n) | cthash::encode_to<enc_type<E>, char32_t>, "to char32_t");
					const auto s = (std::span<const unsigned char>(p, n) | act).to_string();
					defined(s.data(), s.size(), "to_string");
					if (s.size() != wn || memcmp(s.data(), want, wn)) mc::fail("%s of %zu bytes: to_string is wrong", e.name, n);
#if MODE != 2
					if (n < 40) {
						std::ostringstream o;
						o << (std::span<const unsigned char>(p, n) | act);
						if (o.str() != std::string(want, wn)) mc::fail("%s of %zu bytes: stream output is wrong", e.name, n);
#ifdef CTHASH_STDFMT_AVAILABLE
						if (std::format("{}", std::span<const unsigned char>(p, n) | act) != std::string(want, wn)) mc::fail("%s of %zu bytes: format is wrong", e.name, n);
#endif
						const std::forward_list<unsigned char> fl(p, p + n);
						std::string g;
						auto fv = fl | act;
						for (auto it = fv.begin(); !(it == fv.end()); ++it) g += char(*it);
						if (g != std::string(want, wn)) mc::fail("%s of a list of %zu bytes is wrong", e.name, n);
					}
#endif
				}
		mc::sample("%s: every length x %zu placements x 8 forms, mode %d", e.name, arena::places, MODE);
	});
}
template <size_t Out, class El, bool Pad> static void chunk() {
	mc::add("chunk-" + std::to_string(Out) + "-of-" + std::to_string(sizeof(El)) + (Pad ? "-padded" : "") + (std::is_signed_v<El> ? "-signed" : ""), [] {
		arena in(true);
		for (size_t n = 0; n <= 60; ++n)
			for (size_t place = 0; place < arena::places; ++place) {
				if (MODE && sizeof(El) > 1 && place == 1) continue; // misaligned
				mc::at("%llu elements, placement %llu", n, place);
				const auto m = message(0, n * sizeof(El));
				const auto p = reinterpret_cast<const El *>(in.put(m.data(), m.size(), place));
				const std::span<const El> source(p, n);
				const auto view = cthash::chunk_of_bits_view<Out, Pad, std::span<const El>>(source);
				size_t g = 0, k = 0;
				uint64_t sum = 0;
				for (auto it = view.begin(); !(it == view.end()); ++it, ++g) {
					const auto x = *it;
					const uint64_t v = x.value;
					defined(&v, sizeof v, "group");
					sum = sum * 3 + v;
				}
				for (auto x: view) ++k, (void)x;
				if (g != size_t(view.size()) || k != g) mc::fail("%zu groups instead of %zu", g, size_t(view.size()));
				mc::state(), mc::transition(2 * g), mc::validated(), mc::outcome(sum);
			}
	});
}
template <class El> static void chunks() { // the supported widths (not above 64 bits in the buffer)
	chunk<1, El, false>(), chunk<2, El, true>(), chunk<4, El, false>(), chunk<8, El, true>(), chunk<16, El, false>();
	if constexpr (sizeof(El) == 1) chunk<3, El, false>(), chunk<5, El, true>(), chunk<6, El, false>(), chunk<6, El, true>(), chunk<12, El, false>(), chunk<24, El, true>(), chunk<56, El, true>();
}
int main(int argc, char ** argv) {
	for_encodings([](auto i) { encoding<i()>(); });
	chunks<unsigned char>(), chunks<signed char>(), chunks<uint16_t>(), chunks<int16_t>(), chunks<uint32_t>(), chunks<int32_t>(), chunks<uint64_t>(), chunks<int64_t>();
	return mc::run(argc, argv);
}
#elif PART == 3 // digest values at the edge: rendering, comparison, parsing, parts
template <size_t N> static void values() {
	using V = cthash::hash_value<N>;
	static_assert(sizeof(V) == N && alignof(V) == 1);
	mc::add("render-" + std::to_string(N), [] {
		arena in(true);
		for (int kind: {0, 1, 2})
			for (size_t place = 0; place < arena::places; ++place) {
				const auto m = message(kind, N);
				const V & v = *reinterpret_cast<const V *>(in.put(m.data(), N, place == 1 && MODE == 1 ? 1 : place));
				for_encodings([&](auto i) {
					using T = enc_type<i()>;
					const auto & e = ref::encodings[i()];
					const std::string want = ref::encode(e, m.data(), N);
					mc::context(e.name);
					using F = decltype(to_fixed_string<T>(v));
					static edge<F> out;
					const F & f = out.make(place, [&] { return to_fixed_string<T>(v); });
					defined(f.data(), f.size(), "to_fixed_string");
					if (f.size() != want.size() || memcmp(f.data(), want.data(), want.size())) mc::fail("%s of %zu bytes: to_fixed_string is wrong", e.name, N);
					out.intact("to_fixed_string");
					using W = decltype(to_fixed_string<T, char32_t>(v));
					static edge<W> wide;
					(void)wide.make(place, [&] { return to_fixed_string<T, char32_t>(v); });
					wide.intact("to_fixed_string of char32_t");
					const std::string s = to_string<T>(v);
					defined(s.data(), s.size(), "to_string");
					if (s != want) mc::fail("%s of %zu bytes: to_string is wrong", e.name, N);
#if MODE != 2
					std::ostringstream o;
					v.template print_into<T>(o);
					if (o.str() != want) mc::fail("%s of %zu bytes: print_into is wrong", e.name, N);
#ifdef CTHASH_STDFMT_AVAILABLE
					if (std::vformat("{:" + std::string(e.name) + "}", std::make_format_args(v)) != want) mc::fail("%s of %zu bytes: format is wrong", e.name, N);
#endif
#endif
					mc::state(), mc::transition(4), mc::validated(4), mc::outcome(mc::fnv(want.data(), want.size()));
				});
			}
		mc::sample("%zu-byte values at %zu placements in every encoding, mode %d", N, arena::places, MODE);
	});
	mc::add("compare-" + std::to_string(N), [] {
		arena a(true), b(true);
		const auto m = message(0, N);
		for (size_t pa = 0; pa < arena::places; ++pa)
			for (size_t pb = 0; pb < arena::places; ++pb)
				for (size_t d = 0; d <= N; ++d) {
					auto w = m;
					if (d < N) w[d] ^= 0x80;
					const V & x = *reinterpret_cast<const V *>(a.put(m.data(), N, pa));
					const V & y = *reinterpret_cast<const V *>(b.put(w.data(), N, pb));
					const bool same = d == N, less = !same && m[d] < w[d];
					mc::at("difference at %llu, placements %llu %llu", d, pa, pb);
					if ((x == y) != same || (x < y) != less || (x <=> y) != (same ? std::strong_ordering::equal : less ? std::strong_ordering::less : std::strong_ordering::greater)) mc::fail("comparison of %zu bytes different at %zu is wrong", N, d);
					mc::state(), mc::transition(3), mc::validated();
				}
	});
	mc::add("parts-" + std::to_string(N), [] {
		arena in(true);
		const auto m = message(0, N);
		for (size_t place = 0; place < arena::places; ++place) {
			const V & v = *reinterpret_cast<const V *>(in.put(m.data(), N, place));
			auto part = [&]<size_t K>(std::integral_constant<size_t, K>) {
				using P = cthash::hash_value<K>;
				static edge<P> out;
				const P & p = out.make(place, [&] { return v.template prefix<K>(); });
				defined(p.data(), K, "prefix");
				if (memcmp(p.data(), m.data(), K)) mc::fail("prefix<%zu> of %zu bytes is wrong", K, N);
				out.intact("prefix");
				const P & s = out.make(place, [&] { return v.template suffix<K>(); });
				defined(s.data(), K, "suffix");
				if (memcmp(s.data(), m.data() + N - K, K)) mc::fail("suffix<%zu> of %zu bytes is wrong", K, N);
				out.intact("suffix");
				mc::state(), mc::transition(2), mc::validated(2);
			};
			[&]<size_t... K>(std::index_sequence<K...>) { (part(std::integral_constant<size_t, K + 1>{}), ...); }(std::make_index_sequence<N>());
		}
	});
	mc::add("parse-" + std::to_string(N), [] {
		arena in(true);
		static edge<V> out;
		auto texts = [&]<class C>(C) {
			for (int kind: {0, 1, 3})
				for (size_t place = 0; place < arena::places; ++place) {
					if (sizeof(C) > 1 && MODE && place == 1) continue;
					const auto m = message(kind, N);
					std::array<C, 2 * N + 1> text{};
					for (size_t i = 0; i < 2 * N; ++i) text[i] = static_cast<C>("0123456789abcdefABCDEF"[(m[i / 2] >> (i % 2 ? 0 : 4) & 15) + ((m[i / 2] >> (i % 2 ? 0 : 4) & 15) > 9 && i % 3 == 0 ? 6 : 0)]);
					const auto p = in.put(text.data(), sizeof text, place);
					const V & v = out.make(place, [&] { return V(*reinterpret_cast<const C(*)[2 * N + 1]>(p)); });
					defined(v.data(), N, "parsed value");
					if (memcmp(v.data(), m.data(), N)) mc::fail("parsing of %zu characters is wrong", 2 * N);
					out.intact("parsed value");
					mc::state(), mc::transition(), mc::validated();
				}
		};
		texts(char{}), texts(wchar_t{}), texts(char8_t{}), texts(char16_t{}), texts(char32_t{});
	});
}
template <unsigned S, size_t N, size_t K> static void shakes() {
	mc::add("shake-" + std::to_string(S) + "-compare-" + std::to_string(N) + "-" + std::to_string(K), [] {
		arena a(true), b(true);
		using X = decltype(typename Shake<S>::H{}.template final<N * 8>());
		using Y = decltype(typename Shake<S>::H{}.template final<K * 8>());
		const auto m = message(0, std::max(N, K));
		for (size_t pa = 0; pa < arena::places; ++pa)
			for (size_t pb = 0; pb < arena::places; ++pb)
				for (size_t d = 0; d <= std::min(N, K); ++d) {
					auto w = m;
					for (size_t i = d; i < w.size(); ++i) w[i] ^= 0x80;
					const X & x = *reinterpret_cast<const X *>(a.put(m.data(), N, pa));
					const Y & y = *reinterpret_cast<const Y *>(b.put(w.data(), K, pb));
					const bool same = d == std::min(N, K), less = !same && m[d] < w[d];
					mc::at("difference at %llu, placements %llu %llu", d, pa, pb);
					if ((x == y) != same || (y == x) != same || (x < y) != less || (y > x) != less || (x != y) == same) mc::fail("comparison of SHAKE values of %zu and %zu bytes different at %zu is wrong", N, K, d);
					mc::state(), mc::transition(5), mc::validated();
				}
	});
}
int main(int argc, char ** argv) {
	values<1>(), values<2>(), values<3>(), values<5>(), values<8>(), values<20>(), values<32>(), values<64>();
	shakes<128, 1, 2>(), shakes<128, 32, 16>(), shakes<128, 8, 200>(), shakes<256, 7, 64>(), shakes<256, 33, 32>();
	return mc::run(argc, argv);
}
#endif
