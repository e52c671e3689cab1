// C25: two threads under a controlled scheduler, preempted at machine instructions of the real code.
//
// For every operation A the harness finds out (a) its instruction trace, by single-stepping, and (b) every access it
// makes to writable memory that another thread could reach (the program's data, the shared constants), by protecting
// that memory. It then runs A with a second thread executing B
//   dense:   B complete before every single instruction of A (many preemptions, one execution)
//   single:  for every instruction of A one execution, in a fresh process, in which B runs complete before it
//   pairs:   if A and B access a common location and one writes: every way to stop A before one of its accesses, B
//            before one of its accesses, then finish A, then B - each in a fresh process
// and compares what both obtain with what they obtain alone. Operations without conflicting accesses commute, so for
// them the sequential runs stand for all interleavings; dense and single exploration check that argument.
#include "../common/mc.hpp"
#include "../common/enc.hpp"
#include <cthash/simple.hpp>
#include <atomic>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sstream>
#include <sys/syscall.h>
#include <ucontext.h>

constexpr size_t max_steps = 3000000, max_access = 4096;
struct point { uint64_t rip; uint32_t occurrence; };
struct touch { uint64_t rip, addr; uint32_t occurrence; bool write; };
struct shared_constants; // in pages of its own
struct control {
	std::atomic<int> turn;                  // 0: A runs, 1: B runs
	std::atomic<int> done[2];
	std::atomic<int> ready;
	int mode;                               // 0 plain, 1 trace, 2 dense, 3 schedule, 4 accesses
	uint64_t steps, dense_runs, blocked;
	point stop[2];                          // where a thread is stopped once (rip 0: nowhere)
	uint32_t hits[2];
	uint8_t original;
	int pending[2];                         // one step over the breakpoint
	uint64_t bp;
	std::atomic<int> go, back;              // dense
	int dense_bad;
	uint64_t dense_bad_step;
	uint8_t out[2][256], want[2][256], bad_out[256];
	uint64_t data_lo, data_hi;              // the program's writable data
	uint64_t naccess;
	uint64_t open_lo, open_hi;
	touch acc[max_access];
	uint64_t rip[max_steps];
};
#define ctl (reinterpret_cast<control *>(0x200000000000ull))
#ifdef FREE // running freely under ThreadSanitizer
static shared_constants * konst;
static const uint8_t * text_in;
#else
#define konst (reinterpret_cast<shared_constants *>(0x210000000000ull))
#define text_in (reinterpret_cast<const uint8_t *>(0x220000000000ull)) // messages; read-only
#endif
constexpr size_t konst_size = 65536;
constexpr size_t text_size = 65536;

static inline long sys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
	long r;
	register long r10 __asm__("r10") = d;
	register long r8 __asm__("r8") = e;
	register long r9 __asm__("r9") = f;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return r;
}
static inline void wake(std::atomic<int> & w) { sys(SYS_futex, long(&w), FUTEX_WAKE, 8); }
// wait until w has the value v; false after ms milliseconds (the other thread is blocked)
static bool wait_for(std::atomic<int> & w, int v, int ms) {
	for (int i = 0; i < 3000; ++i) {
		if (w.load() == v) return true;
		__builtin_ia32_pause();
	}
	for (int i = 0; i < ms; ++i) {
		const int now = w.load();
		if (now == v) return true;
		timespec t{0, 1000000};
		sys(SYS_futex, long(&w), FUTEX_WAIT, now, long(&t));
	}
	return w.load() == v;
}
static void poke(uint64_t at, uint8_t v) {
	const long lo = long(at & ~4095ull);
	sys(SYS_mprotect, lo, 4096, PROT_READ | PROT_WRITE | PROT_EXEC);
	*reinterpret_cast<volatile uint8_t *>(at) = v;
	__atomic_thread_fence(__ATOMIC_SEQ_CST);
}
static void insert(int t) {
	ctl->hits[t] = 0;
	ctl->bp = ctl->stop[t].rip;
	if (ctl->bp) ctl->original = *reinterpret_cast<uint8_t *>(ctl->bp), poke(ctl->bp, 0xcc);
}
static thread_local int self = 0;
static void hand_over(int t) { // t stops; the other one continues
	ctl->stop[t].rip = 0;
	if (ctl->done[1 - t].load()) return;
	insert(1 - t);
	ctl->turn.store(1 - t), wake(ctl->turn);
	if (!wait_for(ctl->turn, t, 30)) {
		++ctl->blocked; // it waits for something we have: continue, both run from now on
		if (ctl->bp) poke(ctl->bp, ctl->original);
	}
}
static void protect(int prot) {
	sys(SYS_mprotect, long(ctl->data_lo), long(ctl->data_hi - ctl->data_lo), prot);
	sys(SYS_mprotect, long(konst), konst_size, prot);
}
static void on_trap(int, siginfo_t * si, void * uc) {
	auto & g = static_cast<ucontext_t *>(uc)->uc_mcontext.gregs;
	switch (ctl->mode) {
	case 1:
		if (ctl->steps < max_steps) ctl->rip[ctl->steps] = uint64_t(g[REG_RIP]);
		++ctl->steps;
		break;
	case 2:
		++ctl->steps;
		if (ctl->back.load() == ctl->go.load()) { // B is not blocked
			const int n = ctl->go.load() + 1;
			ctl->back.load();
			ctl->go.store(n), wake(ctl->go);
			if (wait_for(ctl->back, n, 30)) ++ctl->dense_runs;
			else ++ctl->blocked;
		}
		break;
	case 3: {
		const int t = self;
		if (si->si_code != TRAP_TRACE) {
			const uint64_t at = uint64_t(g[REG_RIP]) - 1;
			if (at != ctl->bp) { // taken out meanwhile
				g[REG_RIP] = long(at);
				break;
			}
			g[REG_RIP] = long(at);
			poke(at, ctl->original);
			if (++ctl->hits[t] == ctl->stop[t].occurrence) ctl->bp = 0, hand_over(t);
			else ctl->pending[t] = 1, g[REG_EFL] |= 0x100;
		} else {
			g[REG_EFL] &= ~0x100ll;
			if (ctl->pending[t]) ctl->pending[t] = 0, poke(ctl->bp, 0xcc);
		}
		break;
	}
	case 4:
		g[REG_EFL] &= ~0x100ll;
		protect(PROT_NONE);
		break;
	default: g[REG_EFL] &= ~0x100ll;
	}
}
static void on_fault(int, siginfo_t * si, void * uc) {
	auto & g = static_cast<ucontext_t *>(uc)->uc_mcontext.gregs;
	const uint64_t a = uint64_t(si->si_addr);
	const bool data = a >= ctl->data_lo && a < ctl->data_hi, k = a >= uint64_t(konst) && a < uint64_t(konst) + konst_size;
	if (ctl->mode != 4 || !(data || k)) {
		struct sigaction dfl = {};
		dfl.sa_handler = SIG_DFL;
		sigaction(SIGSEGV, &dfl, nullptr);
		return;
	}
	if (ctl->naccess < max_access) {
		uint32_t n = 1;
		for (uint64_t i = 0; i < ctl->naccess; ++i) n += ctl->acc[i].rip == uint64_t(g[REG_RIP]);
		ctl->acc[ctl->naccess] = {uint64_t(g[REG_RIP]), a, n, (g[REG_ERR] & 2) != 0};
	}
	++ctl->naccess;
	protect(PROT_READ | PROT_WRITE);
	g[REG_EFL] |= 0x100;
}
#define TRAP_ON() __asm__ volatile("lea -128(%%rsp), %%rsp; pushfq; orq $0x100, (%%rsp); popfq; lea 128(%%rsp), %%rsp" ::: "memory", "cc")
#define TRAP_OFF() __asm__ volatile("lea -128(%%rsp), %%rsp; pushfq; andq $~0x100, (%%rsp); popfq; lea 128(%%rsp), %%rsp" ::: "memory", "cc")

// ---------------------------------------------------------------- operations: who is 0 or 1
using operation = void (*)(int who, uint8_t * out);
struct entry { std::string name; operation run; };
struct shared_constants {
	cthash::sha256_value d1;
	cthash::sha512_value d2;
	cthash::hash_value<20> d3;
	decltype(cthash::shake128{}.final<512>()) s1;
	decltype(cthash::shake128{}.final<256>()) s2;
	cthash::sha256 h1;
	cthash::sha512 h2;
	cthash::sha3_256 h3;
	cthash::shake256 h4;
	cthash::xxhash<32> h5{1};
	cthash::xxhash<64> h6{2};
	unsigned char bytes[100];
};
template <class V> [[gnu::noinline]] static void put(uint8_t * out, const V & v) {
	size_t k = 0;
	for (auto c: v) out[k % 256] = uint8_t(out[k % 256] * 5 + uint8_t(c)), ++k;
	out[255] ^= uint8_t(k);
}
template <class A> static void op_hash(int who, uint8_t * out) {
	auto h = A::make(A::xx ? uint64_t(who) + 5 : 0);
	const uint8_t * p = text_in + 1000 * who;
	feed(h, p, 3 + size_t(who), c_byte);
	feed(h, p + 50, A::block + 5, c_char);
	A::finish(h, out);
}
template <class A> static void op_short(int who, uint8_t * out) {
	auto h = A::make(0);
	feed(h, text_in + 100 * who, 9 + 8 * size_t(who), c_uchar);
	auto g = h;
	A::finish(g, out);
}
template <class H> static void op_simple(int who, uint8_t * out) { put(out, cthash::simple<H>(std::string_view(reinterpret_cast<const char *>(text_in) + 10 * who, 20))); }
template <int E> static void op_fixed(int who, uint8_t * out) { // own digests
	cthash::hash_value<20> v{};
	for (size_t i = 0; i < 20; ++i) v[i] = std::byte(text_in[i + size_t(who) * 64]);
	put(out, to_fixed_string<enc_type<E>>(v));
}
template <int E> static void op_fixed_shared(int who, uint8_t * out) {
	if (who) put(out, to_fixed_string<enc_type<E>, char16_t>(konst->d1));
	else put(out, to_fixed_string<enc_type<E>>(konst->d1));
}
template <int E> static void op_view(int who, uint8_t * out) {
	const auto v = std::span<const unsigned char>(text_in + 30 * who, 17 + size_t(who)) | enc_at<E>::action;
	size_t k = 0;
	for (auto c: v) out[k++ % 256] ^= uint8_t(c);
	out[200] = uint8_t(v.size());
}
template <int E> static void op_view_shared(int who, uint8_t * out) { put(out, konst->d3 | enc_at<E>::action), out[250] = uint8_t(who); }
static void op_string(int who, uint8_t * out) { put(out, who ? to_string(konst->d1) : to_string<cthash::encoding::base64>(konst->d3)); }
static void op_stream(int who, uint8_t * out) {
	std::ostringstream o;
	if (who) o << konst->d3;
	else o << konst->d1;
	put(out, o.str());
}
#ifdef CTHASH_STDFMT_AVAILABLE
static void op_format(int who, uint8_t * out) { put(out, who ? std::format("{:base32}|{}", konst->d3, konst->d3) : std::format("{:base64url}{:base2}", konst->d1, konst->d3)); }
static void op_runtime(int who, uint8_t * out) {
	const auto r = cthash::runtime_encoding(std::string_view(who ? "z_base32" : "base8"));
	r.visit([&]<class S>(S) { put(out, to_fixed_string<S>(konst->d3)); });
}
static void op_rejected(int who, uint8_t * out) {
	try {
		(void)cthash::runtime_encoding(std::string_view(who ? "base31" : "hexdecx"));
		out[0] = 1;
	} catch (const std::exception &) { out[0] = 2; }
}
#endif
static void op_compare(int who, uint8_t * out) {
	cthash::sha256_value own = konst->d1;
	own[who ? 31 : 3] ^= std::byte(who ? 0x80 : 1);
	out[0] = own == konst->d1, out[1] = own < konst->d1, out[2] = own > konst->d1, out[3] = own <= konst->d1, out[4] = konst->d1 == konst->d1, out[5] = konst->s1 == konst->s2, out[6] = konst->s1 < konst->s2, out[7] = uint8_t((konst->s2 <=> konst->s1) < 0) + 2;
}
static void op_parts(int who, uint8_t * out) {
	if (who) put(out, konst->d2.prefix<33>());
	else put(out, konst->d2.suffix<17>());
}
static void op_parse(int who, uint8_t * out) {
	char t[41];
	for (int i = 0; i < 40; ++i) t[i] = "0123456789abcdefABCDEF"[(text_in[i + 77 * who]) % 22];
	t[40] = 0;
	put(out, cthash::hash_value<20>(t));
}
template <class H, H shared_constants::*M> static void op_shared_hasher(int who, uint8_t * out) { // only reading operations of a shared hasher
	const H & h = konst->*M;
	if constexpr (requires { h.size(); }) out[130] = uint8_t(h.size());
	if constexpr (requires { h.final(); }) put(out, h.final());
	H copy(h);
	copy.update(std::span<const std::byte>(reinterpret_cast<const std::byte *>(text_in) + who, 5));
	if constexpr (std::is_same_v<H, cthash::shake256>) put(out, copy.template final<128>());
	else put(out, copy.final());
}
static void op_digest_of_shared(int who, uint8_t * out) {
	cthash::sha256 h;
	h.update(std::span<const unsigned char>(konst->bytes, 70 + size_t(who)));
	h.update(konst->d2);
	put(out, h.final());
}
template <size_t W, bool Pad> static void op_chunk(int who, uint8_t * out) {
	const auto v = cthash::chunk_of_bits_view<W, Pad, std::span<const unsigned char>>(std::span<const unsigned char>(text_in + 9 * who, 11 + size_t(who)));
	size_t k = 0;
	for (auto x: v) out[k++ % 256] ^= uint8_t(x.value + 3 * unsigned(x.missing_bits));
}
static std::vector<entry> make_ops() {
	std::vector<entry> v;
#if PART == 0
#define ALG_(...) v.push_back({"hash-" + __VA_ARGS__::name(), op_hash<__VA_ARGS__>}), v.push_back({"short-" + __VA_ARGS__::name(), op_short<__VA_ARGS__>})
	ALG_(ASha2<224>), ALG_(ASha2<256>), ALG_(ASha2<384>), ALG_(ASha2<512>), ALG_(ASha512t<224>), ALG_(ASha512t<256>), ALG_(AXxh<32>), ALG_(AXxh<64>);
	v.push_back({"shared-sha256", op_shared_hasher<cthash::sha256, &shared_constants::h1>}), v.push_back({"shared-sha512", op_shared_hasher<cthash::sha512, &shared_constants::h2>});
	v.push_back({"shared-xxh32", op_shared_hasher<cthash::xxhash<32>, &shared_constants::h5>}), v.push_back({"shared-xxh64", op_shared_hasher<cthash::xxhash<64>, &shared_constants::h6>});
	v.push_back({"simple-sha256", op_simple<cthash::sha256>}), v.push_back({"simple-xxh64", op_simple<cthash::xxhash<64>>}), v.push_back({"digest-of-shared", op_digest_of_shared});
#elif PART == 1
#define ALG_(...) v.push_back({"hash-" + __VA_ARGS__::name(), op_hash<__VA_ARGS__>}), v.push_back({"short-" + __VA_ARGS__::name(), op_short<__VA_ARGS__>})
	using K1 = AShake<128, 200>;
	using K2 = AShake<256, 13>;
	ALG_(ASha3<224>), ALG_(ASha3<256>), ALG_(ASha3<384>), ALG_(ASha3<512>), ALG_(K1), ALG_(K2);
	v.push_back({"shared-sha3-256", op_shared_hasher<cthash::sha3_256, &shared_constants::h3>}), v.push_back({"shared-shake256", op_shared_hasher<cthash::shake256, &shared_constants::h4>});
	v.push_back({"simple-sha3-256", op_simple<cthash::sha3_256>});
#elif PART == 2
	for_encodings([&](auto i) { v.push_back({std::string("fixed-") + ref::encodings[i()].name, op_fixed<i()>}), v.push_back({std::string("fixed-shared-") + ref::encodings[i()].name, op_fixed_shared<i()>}), v.push_back({std::string("view-") + ref::encodings[i()].name, op_view<i()>}); });
	v.push_back({"compare", op_compare}), v.push_back({"parts", op_parts}), v.push_back({"parse", op_parse});
	v.push_back({"chunk-5", op_chunk<5, true>}), v.push_back({"chunk-12", op_chunk<12, false>}), v.push_back({"chunk-3", op_chunk<3, false>});
#elif PART == 3
	v.push_back({"to_string", op_string}), v.push_back({"view-shared-base64", op_view_shared<0>}), v.push_back({"view-shared-base32", op_view_shared<3>}), v.push_back({"stream", op_stream});
#ifdef CTHASH_STDFMT_AVAILABLE
	v.push_back({"format", op_format}), v.push_back({"runtime-encoding", op_runtime}), v.push_back({"rejected-name", op_rejected});
#endif
#endif
	return v;
}
static std::vector<entry> ops;

// ---------------------------------------------------------------- executions, each in a process of its own
static operation the_b;
static void * thread_b(void *) {
	self = 1;
	ctl->ready.store(1), wake(ctl->ready);
	if (ctl->mode == 2) {
		for (int n = 1;; ++n) {
			while (!wait_for(ctl->go, n, 1000000))
				;
			if (ctl->done[0].load() == 2) return nullptr;
			uint8_t o[256] = {};
			the_b(1, o);
			if (memcmp(o, ctl->want[1], 256) && !ctl->dense_bad) {
				ctl->dense_bad = 1, ctl->dense_bad_step = ctl->steps;
				memcpy(ctl->bad_out, o, 256);
			}
			ctl->back.store(n), wake(ctl->back);
		}
	}
	while (!wait_for(ctl->turn, 1, 1000000))
		;
	the_b(1, ctl->out[1]);
	ctl->done[1].store(1);
	if (!ctl->done[0].load()) ctl->turn.store(0), wake(ctl->turn);
	return nullptr;
}
static void execute(int mode, operation a, operation b, bool warm, point pa, point pb, int who = 0) {
	memset(static_cast<void *>(ctl), 0, offsetof(control, want));
	ctl->naccess = 0;
	struct sigaction sa = {};
	sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	sa.sa_sigaction = on_trap;
	sigaction(SIGTRAP, &sa, nullptr);
	sa.sa_sigaction = on_fault;
	sigaction(SIGSEGV, &sa, nullptr);
	if (warm) {
		uint8_t o[256] = {};
		a(0, o);
		if (b) b(1, o);
	}
	ctl->mode = mode;
	ctl->stop[0] = pa, ctl->stop[1] = pb;
	the_b = b;
	pthread_t t;
	if (b && pthread_create(&t, nullptr, thread_b, nullptr)) _exit(9);
	if (b) // its start is not part of the experiment
		while (!wait_for(ctl->ready, 1, 10000))
			;
	if (mode == 1 || mode == 2) {
		TRAP_ON();
		a(who, ctl->out[who]);
		TRAP_OFF();
	} else if (mode == 4) {
		const auto lo = ctl->data_lo, hi = ctl->data_hi;
		(void)lo, (void)hi;
		uint8_t * o = ctl->out[who];
		protect(PROT_NONE);
		a(who, o);
		protect(PROT_READ | PROT_WRITE);
	} else {
		if (mode == 3) insert(0);
		a(who, ctl->out[who]);
		if (mode == 3 && ctl->bp && !ctl->done[1].load() && ctl->turn.load() == 0) poke(ctl->bp, ctl->original), ctl->bp = 0;
	}
	if (b && mode == 2) {
		ctl->done[0].store(2);
		if (ctl->back.load() != ctl->go.load()) wait_for(ctl->back, ctl->go.load(), 10000);
		ctl->go.fetch_add(1), wake(ctl->go);
		pthread_join(t, nullptr);
	} else if (b) {
		ctl->done[0].store(1);
		if (!ctl->done[1].load()) ctl->turn.store(1), wake(ctl->turn);
		pthread_join(t, nullptr);
	}
}
// returns the wait status
static int in_child(int mode, operation a, operation b, bool warm, point pa = {}, point pb = {}, int who = 0) {
	pid_t p = fork();
	if (p < 0) throw std::runtime_error("fork");
	if (p == 0) {
		alarm(60);
		execute(mode, a, b, warm, pa, pb, who);
		_exit(0);
	}
	int st = 0;
	waitpid(p, &st, 0);
	return st;
}
static void find_data() {
	dl_iterate_phdr([](dl_phdr_info * i, size_t, void *) {
		uint64_t lo = 0, hi = 0, ro = 0;
		for (int k = 0; k < i->dlpi_phnum; ++k) {
			const auto & p = i->dlpi_phdr[k];
			if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) lo = i->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
			if (p.p_type == PT_GNU_RELRO) ro = i->dlpi_addr + p.p_vaddr + p.p_memsz;
		}
		ctl->data_lo = (std::max(lo, ro) + 4095) & ~4095ull;
		if (ro && ro <= ctl->data_lo) ctl->data_lo = ro & ~4095ull;
		ctl->data_hi = (hi + 4095) & ~4095ull;
		return 1; // the first is the program
	}, nullptr);
}
struct profile {
	uint8_t want[2][256];
	std::vector<uint64_t> trace;
	std::vector<touch> acc[2];
	uint64_t naccess = 0;
};
static profile study(const entry & a, bool traced) {
	profile p;
	for (int who = 0; who < 2; ++who) {
		memset(ctl->out, 0, sizeof ctl->out);
		if (in_child(0, a.run, nullptr, false, {}, {}, who)) throw std::runtime_error(a.name + " does not run alone");
		memcpy(p.want[who], ctl->out[who], 256);
		// accesses to shared memory: with and without previous use
		for (int warm = 0; warm < 2; ++warm) {
			if (int st = in_child(4, a.run, nullptr, warm, {}, {}, who)) throw std::runtime_error(a.name + " does not run under access detection, status " + std::to_string(st));
			if (memcmp(p.want[who], ctl->out[who], 256)) mc::fail("%s obtains something else when run again or with its accesses observed", a.name.c_str());
			p.naccess += ctl->naccess;
			for (size_t i = 0; i < std::min<size_t>(ctl->naccess, max_access); ++i) p.acc[who].push_back(ctl->acc[i]);
		}
	}
	if (!traced) return p;
	if (in_child(1, a.run, nullptr, false)) throw std::runtime_error(a.name + " does not run in single steps");
	const size_t n = std::min<size_t>(ctl->steps, max_steps);
	p.trace.assign(ctl->rip, ctl->rip + n);
	if (memcmp(p.want[0], ctl->out[0], 256)) mc::fail("%s obtains something else in single steps", a.name.c_str());
	return p;
}
static bool conflict(const std::vector<touch> & x, const std::vector<touch> & y) {
	for (const auto & i: x)
		for (const auto & k: y)
			if ((i.write || k.write) && (i.addr > k.addr ? i.addr - k.addr : k.addr - i.addr) < 64) return true;
	return false;
}
static void judge(int st, const entry & a, const entry & b, const profile & pa, const profile & pb, const char * schedule) {
	mc::state(), mc::validated();
	if (st) return mc::fail("%s || %s: %s: %s %d", a.name.c_str(), b.name.c_str(), schedule, WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "does not end, signal" : "killed by signal") : "exit status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
	if (memcmp(ctl->out[0], pa.want[0], 256)) mc::fail("%s || %s: %s: the first thread obtains %s instead of %s", a.name.c_str(), b.name.c_str(), schedule, mc::hex(ctl->out[0], 64).c_str(), mc::hex(pa.want[0], 64).c_str());
	if (ctl->mode == 2) {
		if (ctl->dense_bad) mc::fail("%s || %s: %s: the second thread, at instruction %llu of the first, obtains %s instead of %s", a.name.c_str(), b.name.c_str(), schedule, (unsigned long long)ctl->dense_bad_step, mc::hex(ctl->bad_out, 64).c_str(), mc::hex(pb.want[1], 64).c_str());
	} else if (memcmp(ctl->out[1], pb.want[1], 256)) mc::fail("%s || %s: %s: the second thread obtains %s instead of %s", a.name.c_str(), b.name.c_str(), schedule, mc::hex(ctl->out[1], 64).c_str(), mc::hex(pb.want[1], 64).c_str());
}
static void dense(const entry & a, const entry & b, const profile & pa, const profile & pb, bool warm) {
	memset(ctl->out, 0, sizeof ctl->out);
	memcpy(ctl->want[1], pb.want[1], 256);
	const int st = in_child(2, a.run, b.run, warm);
	mc::transition(ctl->dense_runs + ctl->steps);
	judge(st, a, b, pa, pb, warm ? "second before every instruction of the first (both used before)" : "second before every instruction of the first");
}
extern "C" char __executable_start;
static uint64_t place(uint64_t rip) { // address in the program's file
	const uint64_t base = uint64_t(&__executable_start);
	return rip >= base && rip < base + (1ull << 30) ? rip - base : rip;
}
static void scheduled(const entry & a, const entry & b, const profile & pa, const profile & pb, point x, point y, bool warm) {
	memset(ctl->out, 0, sizeof ctl->out);
	const int st = in_child(3, a.run, b.run, warm, x, y);
	mc::transition(2 + (y.rip != 0));
	char s[256];
	snprintf(s, sizeof s, "%sfirst to %llx (time %u), second to %s%llx (time %u), first to the end", warm ? "(used before) " : "", (unsigned long long)place(x.rip), x.occurrence, y.rip ? "" : "its end ", (unsigned long long)place(y.rip), y.occurrence);
	judge(st, a, b, pa, pb, s);
}
static std::vector<point> points(const std::vector<uint64_t> & trace) {
	std::map<uint64_t, uint32_t> seen;
	std::vector<point> v;
	uint64_t before = 0;
	for (uint64_t r: trace) {
		const uint8_t op = *reinterpret_cast<const uint8_t *>(r);
		if (r == before && (op == 0xf3 || op == 0xf2)) continue; // repeated string instruction
		before = r;
		v.push_back({r, ++seen[r]});
	}
	return v;
}
static bool same_family(const std::string & a, const std::string & b) {
	auto strip = [](const std::string & s) { return s.substr(s.find_last_of('-') == std::string::npos ? 0 : s.find_last_of('-') + 1); };
	return strip(a) == strip(b);
}
#ifdef FREE
static void free_running() {
	for (size_t ai = 0; ai < ops.size(); ++ai)
		mc::add("free-" + ops[ai].name, [ai] {
			for (size_t bi = 0; bi < ops.size(); ++bi) {
				mc::context(ops[ai].name + " || " + ops[bi].name);
				for (int round = 0; round < 4; ++round) {
					uint8_t o[2][256] = {};
					pthread_t t[2];
					struct arg { operation f; int who; uint8_t * o; } x[2] = {{ops[ai].run, 0, o[0]}, {ops[bi].run, 1, o[1]}};
					auto body = [](void * p) -> void * { auto & y = *static_cast<arg *>(p); y.f(y.who, y.o); return nullptr; };
					for (int k = 0; k < 2; ++k)
						if (pthread_create(&t[k], nullptr, body, &x[k])) throw std::runtime_error("pthread_create");
					for (int k = 0; k < 2; ++k) pthread_join(t[k], nullptr);
					mc::state(), mc::transition(2), mc::validated();
				}
			}
		});
}
#endif
int main(int argc, char ** argv) {
#ifdef FREE
	konst = static_cast<shared_constants *>(mmap(nullptr, konst_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
	auto t = static_cast<uint8_t *>(mmap(nullptr, text_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
	text_in = t;
	for (size_t i = 0; i < text_size; ++i) t[i] = pattern(0, i);
#else
	if (mmap(ctl, sizeof(control), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != ctl) return 9;
	if (mmap(konst, konst_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != konst) return 9;
	const auto t = const_cast<uint8_t *>(text_in);
	if (mmap(t, text_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != t) return 9;
	for (size_t i = 0; i < text_size; ++i) t[i] = pattern(0, i);
	mprotect(t, text_size, PROT_READ);
#endif
	new (konst) shared_constants();
	ops = make_ops();
	// the constants are filled by memory contents, so that no code of the library has run before the experiments
	for (size_t i = 0; i < 32; ++i) konst->d1[i] = std::byte(text_in[i + 500]);
	for (size_t i = 0; i < 64; ++i) konst->d2[i] = std::byte(text_in[i + 600]), konst->s1[i] = std::byte(text_in[i + 700]);
	for (size_t i = 0; i < 32; ++i) konst->s2[i] = std::byte(text_in[i + 700 + (i == 30)]);
	for (size_t i = 0; i < 20; ++i) konst->d3[i] = std::byte(text_in[i + 800]);
	for (size_t i = 0; i < 100; ++i) konst->bytes[i] = text_in[i + 900];
#ifdef FREE
	free_running();
#else
	for (size_t ai = 0; ai < ops.size(); ++ai)
		mc::add(ops[ai].name, [ai] {
			// every job has a control block of its own
			munmap(ctl, sizeof(control));
			if (mmap(ctl, sizeof(control), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) != ctl) throw std::runtime_error("mmap");
			// data_lo is zeroed by execute(): keep it behind `want`
			find_data();
			std::vector<profile> pr(ops.size());
			for (size_t i = 0; i < ops.size(); ++i) pr[i] = study(ops[i], i == ai && (DENSE || SINGLE || mc::thorough));
			const auto & a = ops[ai];
			const auto at = points(pr[ai].trace);
			uint64_t conflicts = 0;
			size_t total = 0;
			for (size_t bi = 0; bi < ops.size(); ++bi) {
				const auto & b = ops[bi];
				mc::context(a.name + " || " + b.name);
				for (int warm = 0; warm < 2; ++warm) {
					if (conflict(pr[ai].acc[0], pr[bi].acc[1])) {
						++conflicts;
						std::vector<point> x, y;
						for (auto & c: pr[ai].acc[0]) x.push_back({c.rip, c.occurrence});
						y.push_back({0, 0});
						for (auto & c: pr[bi].acc[1]) y.push_back({c.rip, c.occurrence});
						// bounds: per pair, and per first operation (beyond that the first few schedules of every pair are left)
						const size_t cap = mc::thorough || total < 4000 ? 3000 : 30;
						size_t done = 0;
						for (auto & q: y)
							for (auto & p: x)
								if (done < cap) scheduled(a, b, pr[ai], pr[bi], p, q, warm), ++done;
						total += done;
					}
					if (DENSE && (mc::thorough || (DENSE == 1 && !warm) || ai == bi || (DENSE == 1 && same_family(a.name, b.name)))) dense(a, b, pr[ai], pr[bi], warm);
				}
				if (SINGLE && (ai == bi ? mc::thorough || at.size() < 5000 || a.name.substr(0, 5) == "short" : mc::thorough && same_family(a.name, b.name)))
					for (const auto & p: at) scheduled(a, b, pr[ai], pr[bi], p, {0, 0}, false);
			}
			mc::outcome(mc::fnv(pr[ai].want[0], 256));
			mc::sample("%s: %zu instructions, %llu accesses to memory others could write, conflicts with %llu of %zu operations", a.name.c_str(), pr[ai].trace.size(), (unsigned long long)pr[ai].naccess, (unsigned long long)conflicts / 2, ops.size());
		});
#endif
	return mc::run(argc, argv);
}
