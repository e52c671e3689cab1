// C24: no heap allocation in hashing, comparison, fixed strings and parsing: every entry of the allocator counted.
#include "../common/mc.hpp"
#include "../common/enc.hpp"
#include <cthash/simple.hpp>
#include <memory>
#include <new>
#include <sys/syscall.h>

static thread_local long calls = 0;
static thread_local bool counting = false;
static thread_local const char * last = "";
static inline void count(const char * f) {
	if (counting) ++calls, last = f;
}
extern "C" {
void * __libc_malloc(size_t);
void * __libc_calloc(size_t, size_t);
void * __libc_realloc(void *, size_t);
void * __libc_memalign(size_t, size_t);
void __libc_free(void *);
void * malloc(size_t n) { count("malloc"); return __libc_malloc(n); }
void * calloc(size_t a, size_t b) { count("calloc"); return __libc_calloc(a, b); }
void * realloc(void * p, size_t n) { count("realloc"); return __libc_realloc(p, n); }
void free(void * p) { if (p) count("free"); __libc_free(p); }
void * aligned_alloc(size_t a, size_t n) { count("aligned_alloc"); return __libc_memalign(a, n); }
void * memalign(size_t a, size_t n) { count("memalign"); return __libc_memalign(a, n); }
int posix_memalign(void ** p, size_t a, size_t n) { count("posix_memalign"); *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
void * mmap(void * a, size_t n, int p, int f, int fd, off_t o) { count("mmap"); return reinterpret_cast<void *>(syscall(SYS_mmap, a, n, p, f, fd, o)); }
void * sbrk(intptr_t);
}
void * operator new(size_t n) { count("operator new"); if (void * p = __libc_malloc(n)) return p; throw std::bad_alloc{}; }
void * operator new[](size_t n) { return operator new(n); }
void * operator new(size_t n, const std::nothrow_t &) noexcept { count("operator new"); return __libc_malloc(n); }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { count("operator new"); return __libc_malloc(n); }
void * operator new(size_t n, std::align_val_t a) { count("operator new"); if (void * p = __libc_memalign(size_t(a), n)) return p; throw std::bad_alloc{}; }
void * operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void * operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { count("operator new"); return __libc_memalign(size_t(a), n); }
void * operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { count("operator new"); return __libc_memalign(size_t(a), n); }
void operator delete(void * p) noexcept { __libc_free(p); }
void operator delete[](void * p) noexcept { __libc_free(p); }
void operator delete(void * p, size_t) noexcept { __libc_free(p); }
void operator delete[](void * p, size_t) noexcept { __libc_free(p); }
void operator delete(void * p, std::align_val_t) noexcept { __libc_free(p); }
void operator delete[](void * p, std::align_val_t) noexcept { __libc_free(p); }
void operator delete(void * p, size_t, std::align_val_t) noexcept { __libc_free(p); }
void operator delete[](void * p, size_t, std::align_val_t) noexcept { __libc_free(p); }

template <class F> static inline decltype(auto) quiet(const char * what, F f) {
	struct guard {
		const char * what;
		guard(const char * w): what(w) { calls = 0, counting = true; }
		~guard() noexcept(false) {
			counting = false;
			mc::transition(), mc::validated();
			if (calls) mc::fail("%s allocates: %ld calls, the last one %s (%s)", what, calls, last, mc::where(*mc::cur).c_str());
		}
	} g(what);
	return f();
}
static uint8_t text[1 << 16];
template <class D> static void observe(const D & d) {
	static volatile uint8_t sink;
	for (auto b: d) sink = static_cast<uint8_t>(b);
}
template <class A> static auto close(typename A::H & h) {
	if constexpr (A::shake) return h.template final<A::dlen * 8>();
	else return h.final();
}
template <class A> static void hashing() {
	using H = typename A::H;
	static constexpr size_t b = A::block;
	mc::add("states-" + A::name() + "-" + std::to_string(A::dlen), [] { // every buffer state x every length x carriers
		mc::context(A::name());
		for (size_t s = 0; s < b; ++s)
			for (size_t n = 0; n <= 2 * b + 9; ++n) {
				if (OPT == 0 && !mc::thorough && n > 5 && n + s % 7 < b - s && s > 3) continue;
				const int c = int((s + n) % c_count);
				mc::at("%llu bytes after %llu by carrier %llu", n, s, uint64_t(c));
				quiet("hashing", [&] {
					H h = A::make(s);
					feed(h, text, s, c_byte), feed(h, text + s, n, c);
					H copy(h), moved(std::move(h));
					observe(close<A>(copy));
					if constexpr (A::sized) (void)moved.size();
					feed(moved, text, 3, c_char8);
					observe(close<A>(moved));
				});
				mc::state();
			}
		mc::sample("%s: every buffer state x every length 0..%zu", A::name().c_str(), 2 * b + 9);
	});
	mc::add("sequences-" + A::name() + "-" + std::to_string(A::dlen), [] { // all sequences of operations
		struct place { alignas(H) unsigned char raw[sizeof(H)]; H & h() { return *reinterpret_cast<H *>(raw); } };
		static constexpr size_t sizes[] = {0, 1, b - 1, b, b + 1, 3 * b};
		const int depth = mc::thorough ? 6 : 4, ops = 8;
		int total = 1;
		for (int i = 0; i < depth; ++i) total *= ops;
		for (int code = 0; code < total; ++code) {
			mc::at("sequence %llo", uint64_t(code));
			quiet("sequence", [&] {
				place x;
				new (x.raw) H(A::make(1));
				for (int i = 0, v = code; i < depth; ++i, v /= ops) {
					if (v % ops < 6) feed(x.h(), text + i, sizes[v % ops], i % c_count);
					else if (v % ops == 6) {
						H y(x.h());
						x.h().~H();
						new (x.raw) H(y);
					} else {
						H y(x.h());
						observe(close<A>(y));
					}
				}
				observe(close<A>(x.h()));
				x.h().~H();
			});
			mc::state();
		}
	});
	mc::add("large-" + A::name() + "-" + std::to_string(A::dlen), [] { // many updates, large updates
		H h = A::make(0);
		for (int i = 0; i < 30000; ++i) {
			mc::at("update %llu of many", uint64_t(i));
			quiet("one update of many", [&] { feed(h, text + i % 100, size_t(i % 41), i % c_count); });
		}
		quiet("final", [&] { observe(close<A>(h)); });
		const size_t top = mc::thorough ? size_t(1) << 28 : size_t(1) << 24;
		const auto big = static_cast<uint8_t *>(mmap(nullptr, top + 16, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		for (size_t n = 1; n <= top; n *= 2)
			for (int d = -1; d <= 1; ++d) {
				if (n > 1 << 22 && (OPT == 0 || d)) continue;
				mc::at("one update of %llu bytes", n + d);
				quiet("one update of many bytes", [&] {
					H g = A::make(0);
					feed(g, big, n + size_t(d), c_uchar);
					observe(close<A>(g));
				});
				mc::state();
			}
	});
	mc::add("helpers-" + A::name() + "-" + std::to_string(A::dlen), [] {
		for (size_t n = 0; n <= 3 * b; ++n) {
			mc::at("%llu bytes", n);
			const std::string_view sv(reinterpret_cast<const char *>(text), n);
			const std::span<const std::byte> sp(reinterpret_cast<const std::byte *>(text), n);
			const std::vector<unsigned char> v(text, text + n);
			const std::string s(sv);
			if constexpr (!A::shake) {
				quiet("simple(string_view)", [&] { observe(cthash::simple<H>(sv)); });
				quiet("simple(span)", [&] { observe(cthash::simple<H>(sp)); });
				if constexpr (requires { cthash::simple<H>(s); }) quiet("simple(string)", [&] { observe(cthash::simple<H>(s)); });
				if constexpr (requires { cthash::simple<H>(v); }) quiet("simple(vector)", [&] { observe(cthash::simple<H>(v)); });
				quiet("simple(literal)", [&] { observe(cthash::simple<H>("some literal text")); });
				if (n == b) quiet("final into a buffer", [&] { std::array<std::byte, A::dlen> out; H h = A::make(0); h.update(sv).final(out); observe(out); });
			}
			if constexpr (A::xx) {
				quiet("update_and_final", [&] { observe(H(7).update_and_final(sv)); observe(H(7).update_and_final("literal")); H h(8); h.update(sp); observe(h.update_and_final(sp)); });
			}
			if constexpr (requires (H h) { h.update(s); }) quiet("update(string)", [&] { H h = A::make(0); h.update(s); observe(close<A>(h)); });
			if constexpr (requires (H h) { h.update(v); }) quiet("update(vector)", [&] { H h = A::make(0); h.update(v); observe(close<A>(h)); });
			mc::state();
		}
	});
	mc::add("values-" + A::name() + "-" + std::to_string(A::dlen), [] {
		for (int k = 0; k < 300; ++k) {
			H h = A::make(0), g = A::make(0);
			feed(h, text, size_t(k), c_byte), feed(g, text, size_t(k / 2), c_byte);
			const auto x = close<A>(h), y = close<A>(g);
			mc::at("digest of %llu bytes", uint64_t(k));
			volatile bool r;
			quiet("comparison", [&] { r = x == y, r = x != y, r = x < y, r = x <= y, r = x > y, r = x >= y, r = (x <=> y) == 0; auto z = x; z = y; r = z == y; });
			quiet("prefix and suffix", [&] { observe(x.template prefix<A::dlen>()), observe(x.template suffix<1>()), observe(x.template prefix<(A::dlen + 1) / 2>()); });
			for_encodings([&](auto i) {
				using T = enc_type<i()>;
				mc::context(A::name() + " " + ref::encodings[i()].name);
				quiet("to_fixed_string", [&] { observe(to_fixed_string<T>(x)); });
				if (k < 3) quiet("wide to_fixed_string", [&] { observe(to_fixed_string<T, char32_t>(x)), observe(to_fixed_string<T, wchar_t>(x)); });
				mc::state();
			});
			quiet("default to_fixed_string", [&] { observe(to_fixed_string(x)); });
			const auto hex = to_fixed_string<cthash::encoding::base16>(x);
			char raw[2 * A::dlen + 1] = {};
			memcpy(raw, hex.data(), 2 * A::dlen);
			quiet("parsing of a hexadecimal text", [&] { const cthash::hash_value<A::dlen> p(raw), q(hex); r = p == q; observe(p); });
			if constexpr (!A::shake) quiet("parsing of a hexadecimal text", [&] { const std::remove_const_t<decltype(x)> p(raw); r = p == x; observe(p); });
			quiet("digest of the digest", [&] { H n = A::make(0); n.update(std::span<const std::byte>(x)); observe(close<A>(n)); });
		}
	});
}
template <unsigned S, size_t N, size_t K> static void shakes() {
	mc::add("shake-" + std::to_string(S) + "-" + std::to_string(N) + "-" + std::to_string(K), [] {
		using H = typename Shake<S>::H;
		volatile bool r;
		for (size_t n = 0; n < 400; ++n)
			quiet("SHAKE outputs of different length", [&] {
				H h, g;
				feed(h, text, n, c_byte), feed(g, text, n, c_byte);
				const auto x = h.template final<N * 8>();
				const auto y = g.template final<K * 8>();
				r = x == y, r = x < y, r = y >= x, r = (y <=> x) != 0;
				observe(x), observe(y);
			}), mc::state();
	});
}
int main(int argc, char ** argv) {
	for (size_t i = 0; i < sizeof text; ++i) text[i] = pattern(0, i);
	// the monitor itself sees an allocation
	mc::add("monitor", [] {
		for (int i = 0; i < 6; ++i) {
			calls = 0, counting = true;
			void * volatile p = i == 0 ? ::operator new(10) : i == 1 ? ::operator new[](10, std::align_val_t(64)) : i == 2 ? malloc(10) : i == 3 ? calloc(2, 5) : i == 4 ? std::aligned_alloc(64, 64) : realloc(nullptr, 4);
			counting = false;
			if (calls != 1) throw std::logic_error("the allocator is not intercepted");
			__libc_free(p);
			mc::state();
		}
		std::string s;
		calls = 0, counting = true;
		s.resize(100);
		counting = false;
		if (calls == 0) throw std::logic_error("allocations of the standard library are not intercepted");
	});
#if PART == 0
	hashing<ASha2<224>>(), hashing<ASha2<256>>(), hashing<ASha2<384>>(), hashing<ASha2<512>>();
#elif PART == 1
	hashing<ASha512t<8>>(), hashing<ASha512t<224>>(), hashing<ASha512t<256>>(), hashing<AXxh<32>>(), hashing<AXxh<64>>();
#elif PART == 2
	hashing<ASha3<224>>(), hashing<ASha3<256>>(), hashing<ASha3<384>>(), hashing<ASha3<512>>();
#else
	hashing<AShake<128, 1>>(), hashing<AShake<128, 32>>(), hashing<AShake<256, 64>>(), hashing<AShake<256, 500>>(), shakes<128, 8, 2000>(), shakes<256, 100000, 32>(), shakes<128, 32, 64>();
#endif
	return mc::run(argc, argv);
}
