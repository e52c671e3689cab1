// C09: byte counters and length fields around every power-of-two boundary up to 2^32 bytes (really hashed), and the
// encoded length up to 2^64-1 bytes (by advancing the hasher's byte counter, located through size()).
#include "../common/mc.hpp"
#include "../common/alg.hpp"
#include <new>
#include <openssl/evp.h>
#include <sys/syscall.h>

// a virtual stream of a bit more than 2^32 bytes: the same 257 pages mapped again and again
constexpr size_t period = 257 * 4096;
constexpr size_t stream_size = (size_t(1) << 32) + 64 * 1024;
static const uint8_t * stream() {
	static const uint8_t * p = [] {
		int fd = int(syscall(SYS_memfd_create, "stream", 0));
		if (fd < 0 || ftruncate(fd, period)) throw std::runtime_error("memfd");
		auto m = message(0, period);
		if (write(fd, m.data(), period) != ssize_t(period)) throw std::runtime_error("memfd write");
		const size_t n = (stream_size + period - 1) / period;
		auto base = static_cast<uint8_t *>(mmap(nullptr, n * period, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		if (base == MAP_FAILED) throw std::runtime_error("mmap");
		for (size_t i = 0; i < n; ++i)
			if (mmap(base + i * period, period, PROT_READ, MAP_SHARED | MAP_FIXED | MAP_POPULATE, fd, 0) == MAP_FAILED) throw std::runtime_error("mmap piece");
		return base;
	}();
	return p;
}

// incremental oracle: OpenSSL where it has the algorithm, the reference otherwise
struct oracle {
	ref::chain c;
	EVP_MD_CTX * ctx = nullptr;
	const EVP_MD * md = nullptr;
	bool xof;
	size_t outlen, pos = 0;
	oracle(const ref::algorithm & a, const char * name, bool x): c(a), xof{x}, outlen{a.outlen} {
		if (name) {
			md = EVP_get_digestbyname(name);
			if (!md) throw std::runtime_error("openssl does not know this digest");
			ctx = EVP_MD_CTX_new();
			EVP_DigestInit_ex(ctx, md, nullptr);
		}
	}
	void advance(size_t to) {
		const uint8_t * s = stream();
		if (ctx) EVP_DigestUpdate(ctx, s + pos, to - pos);
		else
			for (size_t b = pos / c.a.block; (b + 1) * c.a.block <= to; ++b) c.block(s + b * c.a.block);
		pos = to;
	}
	void digest(uint8_t * out) {
		if (ctx) {
			EVP_MD_CTX * t = EVP_MD_CTX_new();
			EVP_MD_CTX_copy_ex(t, ctx);
			if (xof) EVP_DigestFinalXOF(t, out, outlen);
			else EVP_DigestFinal_ex(t, out, nullptr);
			EVP_MD_CTX_free(t);
		} else {
			const size_t r = pos % c.a.block;
			c.finish(stream() + pos - r, r, pos, out);
		}
	}
};

template <class A> void compare(typename A::H h, size_t total, oracle & o, const char * how, size_t param) {
	uint8_t out[A::dlen], exp[A::dlen];
	if constexpr (A::sized)
		if (h.size() != total) mc::fail("%s: size() is %llu after %zu bytes (%s %zu)", A::name().c_str(), (unsigned long long)h.size(), total, how, param);
	A::finish(h, out);
	o.digest(exp);
	mc::state(), mc::validated(), mc::outcome(mc::fnv(out, A::dlen));
	if (memcmp(out, exp, A::dlen)) mc::fail("%s: %zu bytes (%s %zu): got %s, expected %s", A::name().c_str(), total, how, param, mc::hex(out, A::dlen).c_str(), mc::hex(exp, A::dlen).c_str());
}

template <class A> void jobs(const char * openssl, bool heavy) {
	constexpr size_t B = A::block;
	// really long streams first, they take the longest
	std::vector<size_t> bounds = {size_t(1) << 29, size_t(1) << 31, size_t(1) << 32};
	if (heavy || mc::thorough)
		mc::add("walk-" + A::name(), [=] { // stepping across each boundary, huge pieces in between
			auto h = A::make();
			oracle o(A::refalg(), openssl, A::shake);
			size_t pos = 0;
			const std::vector<int> steps = {-int(B) - 1, -int(B), -17, -16, -9, -8, -1, 0, 1, 7, 8, int(B) - 17, int(B) - 16, int(B) - 9, int(B) - 8, int(B) - 1, int(B), int(B) + 1};
			for (size_t b: bounds)
				for (int d: steps) {
					const size_t to = b + size_t(long(d));
					if (to < pos) continue;
					mc::at("walking to %llu", to);
					h.update(std::span<const std::byte>(reinterpret_cast<const std::byte *>(stream()) + pos, to - pos));
					o.advance(to);
					pos = to;
					mc::transition();
					compare<A>(h, pos, o, "walk, step", size_t(long(d)));
				}
			mc::sample("%s: one hasher stepped across 2^29, 2^31 and 2^32 bytes, digest taken at 18 positions around each", A::name().c_str());
		});
	if (heavy || mc::thorough)
		mc::add("huge-" + A::name(), [=] { // one update of more than 2^32 bytes
			const size_t n = (size_t(1) << 32) + 5;
			auto h = A::make();
			oracle o(A::refalg(), openssl, A::shake);
			mc::at("one update of %llu bytes", n);
			h.update(std::span<const unsigned char>(stream(), n));
			o.advance(n);
			mc::transition();
			compare<A>(h, n, o, "one update", n);
			h.update(std::span<const unsigned char>(stream() + n, 3 * B));
			o.advance(n + 3 * B);
			mc::transition();
			compare<A>(h, n + 3 * B, o, "one huge update and one of", 3 * B);
			if constexpr (A::xx) {
				auto g = A::make();
				uint8_t out[A::dlen], exp[A::dlen];
				oracle o2(A::refalg(), nullptr, false);
				o2.advance(n);
				o2.digest(exp);
				digest_bytes(g.update_and_final(std::span<const unsigned char>(stream(), n)), out);
				mc::transition(), mc::validated();
				if (memcmp(out, exp, A::dlen)) mc::fail("%s: update_and_final of %zu bytes: got %s, expected %s", A::name().c_str(), n, mc::hex(out, A::dlen).c_str(), mc::hex(exp, A::dlen).c_str());
			}
			mc::sample("%s: a single update of 2^32+5 bytes", A::name().c_str());
		});
	mc::add("mid-" + A::name(), [=] { // 2^8, 2^16, 2^24 bytes: every total within a block of the boundary
		for (int k: {8, 12, 13, 15, 16, 20, 21, 24}) {
			const size_t b = size_t(1) << k, lo = b > B + 2 ? b - B - 2 : 0;
			oracle o(A::refalg(), openssl, A::shake);
			auto walk = A::make();
			walk.update(std::span<const unsigned char>(stream(), lo));
			for (size_t n = lo; n <= b + B + 2; ++n) {
				o.advance(n);
				if (k <= 16 || n == b || n == b - 1 || n == b + 1) {
					auto h = A::make();
					mc::at("one update of %llu bytes", n);
					h.update(std::span<const unsigned char>(stream(), n));
					mc::transition();
					compare<A>(h, n, o, "one update of", n);
					auto g = A::make();
					g.update(std::span<const unsigned char>(stream(), 1)).update(std::span<const unsigned char>(stream() + 1, n - 1));
					mc::transition(2);
					compare<A>(g, n, o, "1 byte and", n - 1);
				}
				mc::at("byte by byte to %llu", n);
				compare<A>(walk, n, o, "byte steps from", lo);
				walk.update(std::span<const unsigned char>(stream() + n, 1));
				mc::transition();
			}
		}
		mc::sample("%s: every total within one block of 2^8..2^24", A::name().c_str());
	});
	if constexpr (A::sized)
		mc::add("field-" + A::name(), [=] {
			using H = typename A::H;
			// where is the byte counter?  the 8-byte slot whose contents size() returns
			if (!std::is_trivially_copyable_v<H>) {
				mc::sample("%s: not trivially copyable, its byte counter can't be advanced; length field not explored", A::name().c_str());
				return;
			}
			alignas(H) unsigned char mem[sizeof(H)];
			const uint64_t probe[2] = {0x0102030405060708ull, 0x1122334455667700ull};
			std::vector<size_t> hits;
			for (size_t off = 0; off + 8 <= sizeof(H); off += 8) {
				bool both = true;
				for (uint64_t p: probe) {
					H h{};
					memcpy(mem, &h, sizeof(H));
					memcpy(mem + off, &p, 8);
					both &= std::launder(reinterpret_cast<H *>(mem))->size() == p;
				}
				if (both) hits.push_back(off);
			}
			// nothing else may depend on the number of bytes: of the hashers after 1, 2 and 3 blocks only the counter and the
			// chaining value differ
			auto whole = message(0, 3 * B);
			std::set<size_t> changing;
			for (size_t k = 2; k <= 3; ++k) {
				H one{}, more{};
				one.update(std::span<const unsigned char>(whole.data(), B));
				more.update(std::span<const unsigned char>(whole.data(), k * B));
				for (size_t off = 0; off + 8 <= sizeof(H); off += 8)
					if (memcmp(reinterpret_cast<const unsigned char *>(&one) + off, reinterpret_cast<const unsigned char *>(&more) + off, 8)) changing.insert(off);
			}
			if (hits.size() != 1 || !changing.count(hits[0]) || changing.size() != 1 + (B == 64 ? 4 : 8)) {
				mc::sample("%s: the byte counter is not a single 64-bit slot; length field not explored", A::name().c_str());
				return;
			}
			const unsigned top = B == 64 ? 61 : 64; // SHA-224/256 are defined below 2^61 bytes
			auto m = message(0, 4 * B);
			auto a = A::refalg();
			auto probe_total = [&](uint64_t total, size_t blocks) {
				const size_t r = total % B, n = blocks * B + r;
				H h{};
				h.update(std::span<const unsigned char>(m.data(), n));
				memcpy(mem, &h, sizeof(H));
				memcpy(mem + hits[0], &total, 8);
				H & g = *std::launder(reinterpret_cast<H *>(mem));
				ref::chain c(a);
				for (size_t i = 0; i < blocks; ++i) c.block(m.data() + i * B);
				uint8_t out[A::dlen], exp[A::dlen];
				c.finish(m.data() + blocks * B, r, total, exp);
				mc::at("total length %llu", total);
				if (g.size() != total) mc::fail("%s: size() wrong at %llu", A::name().c_str(), (unsigned long long)total);
				A::finish(g, out);
				mc::transition(2), mc::state(), mc::validated(), mc::outcome(mc::fnv(out, A::dlen));
				if (memcmp(out, exp, A::dlen)) mc::fail("%s: total length of %llu bytes is not encoded as the standard requires: got %s, expected %s", A::name().c_str(), (unsigned long long)total, mc::hex(out, A::dlen).c_str(), mc::hex(exp, A::dlen).c_str());
				// and one more update that crosses the value
				memcpy(mem, &h, sizeof(H));
				memcpy(mem + hits[0], &total, 8);
				const size_t more = B + 3;
				if (total + more < total || (top < 64 && (total + more) >> top)) return;
				H & g2 = *std::launder(reinterpret_cast<H *>(mem));
				std::vector<uint8_t> rest(m.begin() + long(blocks * B), m.begin() + long(n));
				auto extra = message(4, more);
				rest.insert(rest.end(), extra.begin(), extra.end());
				g2.update(std::span<const unsigned char>(extra.data(), more));
				ref::chain c2 = c;
				size_t at = 0;
				for (; rest.size() - at >= B; at += B) c2.block(rest.data() + at);
				c2.finish(rest.data() + at, rest.size() - at, total + more, exp);
				if (g2.size() != total + more) mc::fail("%s: size() wrong after crossing %llu", A::name().c_str(), (unsigned long long)total);
				A::finish(g2, out);
				mc::transition(2), mc::validated();
				if (memcmp(out, exp, A::dlen)) mc::fail("%s: update from %llu by %zu bytes: got %s, expected %s", A::name().c_str(), (unsigned long long)total, more, mc::hex(out, A::dlen).c_str(), mc::hex(exp, A::dlen).c_str());
			};
			for (unsigned k = 9; k < top; ++k)
				for (int d = -int(B) - 3; d <= int(B) + 3; ++d) probe_total((uint64_t(1) << k) + uint64_t(int64_t(d)), 1 + size_t(k % 2));
			for (unsigned k = 9; k < top; ++k)
				for (unsigned j = 9; j < k; ++j) probe_total((uint64_t(1) << k) | (uint64_t(1) << j) | (k * j % B), 1);
			for (unsigned d = 0; d <= 2 * B; ++d) probe_total(top == 64 ? ~uint64_t(0) - d : (uint64_t(1) << top) - 1 - d, 1);
			mc::sample("%s: encoded length for every total within a block of 2^9..2^%u", A::name().c_str(), top);
		});
}

int main(int argc, char ** argv) {
	for (int i = 1; i < argc; ++i)
		if (!strcmp(argv[i], "--thorough")) mc::thorough = true;
	jobs<ASha3<256>>("SHA3-256", true);
	jobs<ASha2<256>>("SHA256", true);
	jobs<ASha2<512>>("SHA512", true);
	jobs<AXxh<32>>(nullptr, true);
	jobs<AXxh<64>>(nullptr, true);
	jobs<AShake<128, 32>>("SHAKE128", false);
	jobs<ASha2<224>>("SHA224", false);
	jobs<ASha2<384>>("SHA384", false);
	jobs<ASha512t<256>>("SHA512-256", false);
	jobs<ASha512t<224>>("SHA512-224", false);
	jobs<ASha512t<504>>(nullptr, false);
	jobs<ASha3<224>>("SHA3-224", false);
	jobs<ASha3<384>>("SHA3-384", false);
	jobs<ASha3<512>>("SHA3-512", false);
	jobs<AShake<256, 64>>("SHAKE256", false);
	return mc::run(argc, argv);
}
