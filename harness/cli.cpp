// C22: the real checksum program under a tracer that decides what the system answers.
// Every run is a real process; its system calls from the first one that names the file on are numbered, and a
// plan says which of them fail and how.  All plans of one failure (and, for some cases, of two) are explored:
// the calls available to the second failure are those the program really makes after the first one.
#include "../common/mc.hpp"
#include "../ref/ref.hpp"
#include <optional>
#include <sys/ptrace.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <sys/user.h>
#include <poll.h>

static std::string work; // scratch directory of this job

// ---------------------------------------------------------------------------- algorithms
static bool oracle(const std::string & name, const std::vector<uint8_t> & m, std::string & text) {
	uint8_t out[4096];
	size_t len = 0;
	unsigned a = 0, b = 0;
	int used = -1;
	auto is = [&](const char * f, auto *... v) { used = -1; return sscanf(name.c_str(), (std::string(f) + "%n").c_str(), v..., &used) >= int(sizeof...(v)) && used == int(name.size()); };
	if (name == "sha-224") ref::sha224(m.data(), m.size(), out), len = 28;
	else if (name == "sha-256") ref::sha256(m.data(), m.size(), out), len = 32;
	else if (name == "sha-384") ref::sha384(m.data(), m.size(), out), len = 48;
	else if (name == "sha-512") ref::sha512(m.data(), m.size(), out), len = 64;
	else if (is("sha-512/%u", &a) && (a == 224 || a == 256)) ref::sha512t(a, m.data(), m.size(), out), len = a / 8;
	else if (is("sha3-%u", &a) && (a == 224 || a == 256 || a == 384 || a == 512)) ref::sha3(a, m.data(), m.size(), out), len = a / 8;
	else if (is("shake-%u/%u", &a, &b) && (a == 128 || a == 256) && b > 0 && b % 8 == 0 && b <= 32768) ref::shake(a, m.data(), m.size(), out, b / 8), len = b / 8;
	else if (name == "xxhash32") ref::xxh32(m.data(), m.size(), 0, out), len = 4;
	else if (name == "xxhash64") ref::xxh64(m.data(), m.size(), 0, out), len = 8;
	else return false;
	text = mc::hex(out, len) + "\n";
	return true;
}
static const std::vector<std::string> documented = [] {
	std::vector<std::string> v{"sha-224", "sha-256", "sha-384", "sha-512", "sha-512/224", "sha-512/256", "sha3-224", "sha3-256", "sha3-384", "sha3-512", "xxhash32", "xxhash64"};
	for (int s: {128, 256})
		for (int n: {32, 64, 128, 256, 512, 1024, 2048}) v.push_back("shake-" + std::to_string(s) + "/" + std::to_string(n));
	return v;
}();

// ---------------------------------------------------------------------------- one controlled run
enum cls { c_none, c_open, c_size, c_map, c_read, c_close, c_out, c_err };
static const char * cls_name[] = {"?", "open", "size", "map", "read", "close", "write(1)", "write(2)"};
struct call { int nr; cls c; long ret; };
struct fault { int index; int error; long shorten; }; // error 0: only `shorten` bytes are transferred
struct result {
	std::string out, err;
	bool exited = false, signalled = false, hang = false, sys_kill = false;
	int code = 0;
	std::vector<call> calls;
};
static bool path_call(long nr, int & arg) {
	switch (nr) {
	case SYS_open: case SYS_stat: case SYS_lstat: case SYS_access: case SYS_readlink: arg = 0; return true;
	case SYS_openat: case SYS_newfstatat: case SYS_faccessat: case SYS_statx: case SYS_readlinkat: case 437: case 439: arg = 1; return true;
	}
	return false;
}
static std::string peek_string(pid_t pid, unsigned long long p) {
	std::string s;
	for (;;) {
		errno = 0;
		const long w = ptrace(PTRACE_PEEKDATA, pid, p, 0);
		if (errno) return s;
		for (int i = 0; i < 8; ++i) {
			const char c = char(w >> (8 * i));
			if (!c) return s;
			s += c;
		}
		p += 8;
		if (s.size() > 8192) return s;
	}
}
// classes: what fails in this run whatever the index (persistent failures), by class -> errno
static result run(const std::vector<std::string> & args, const std::string & target, const std::vector<fault> & plan, std::map<int, int> persistent = {}, bool traced = true) {
	int po[2], pe[2];
	if (pipe(po) || pipe(pe)) perror("pipe"), _exit(3);
	const pid_t pid = fork();
	if (pid == 0) {
		dup2(po[1], 1), dup2(pe[1], 2);
		for (int fd: {po[0], po[1], pe[0], pe[1]}) close(fd);
		const int null = open("/dev/null", O_RDONLY);
		dup2(null, 0), close(null);
		alarm(60);
		std::vector<char *> av;
		for (auto & a: args) av.push_back(const_cast<char *>(a.c_str()));
		av.push_back(nullptr);
		char * env[] = {nullptr};
		if (traced) ptrace(PTRACE_TRACEME, 0, 0, 0);
		execve(CHECKSUM, av.data(), env);
		_exit(127);
	}
	close(po[1]), close(pe[1]);
	result r;
	int st = 0;
	if (traced) {
		waitpid(pid, &st, 0);
		if (!WIFSTOPPED(st)) perror("tracing is not possible"), _exit(3);
		ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
		std::set<long> fds;
		bool window = false, entry = true;
		long nr = -1;
		cls c = c_none;
		bool opens = false;
		int inject = 0;
		int sig = 0;
		for (;;) {
			if (ptrace(PTRACE_SYSCALL, pid, 0, sig)) break;
			sig = 0;
			if (waitpid(pid, &st, 0) < 0) break;
			if (WIFEXITED(st) || WIFSIGNALED(st)) break;
			if (!(WSTOPSIG(st) & 0x80)) {
				sig = WSTOPSIG(st);
				if (sig == SIGTRAP) sig = 0;
				continue;
			}
			user_regs_struct g;
			ptrace(PTRACE_GETREGS, pid, 0, &g);
			if (entry) {
				nr = long(g.orig_rax), c = c_none, opens = false, inject = 0;
				int arg = 0;
				if (path_call(nr, arg) && !target.empty() && peek_string(pid, arg ? g.rsi : g.rdi) == target) {
					window = true;
					opens = nr == SYS_open || nr == SYS_openat || nr == 437;
					c = opens ? c_open : c_size;
				} else if (window || target.empty()) {
					const long fd = long(int(g.rdi));
					const bool mine = fds.count(fd);
					switch (nr) {
					case SYS_lseek: case SYS_fstat: case SYS_newfstatat: case SYS_statx: case SYS_ioctl: case SYS_fcntl: case SYS_fadvise64: if (mine) c = c_size; break;
					case SYS_read: case SYS_pread64: case SYS_readv: case SYS_preadv: if (mine) c = c_read; break;
					case SYS_mmap: if (fds.count(long(int(g.r8))) && !(g.r10 & MAP_ANONYMOUS)) c = c_map; break;
					case SYS_close: if (mine) c = c_close; break;
					case SYS_munmap: c = c_close; break;
					case SYS_write: case SYS_writev: case SYS_pwrite64: c = fd == 1 ? c_out : fd == 2 ? c_err : c_none; break;
					}
				}
				if (c != c_none) {
					const int index = int(r.calls.size());
					r.calls.push_back({int(nr), c, 0});
					for (auto & f: plan)
						if (f.index == index) {
							if (f.error) inject = f.error;
							else if (nr == SYS_write || nr == SYS_read || nr == SYS_pread64) {
								if (long(g.rdx) > f.shorten) g.rdx = f.shorten;
								ptrace(PTRACE_SETREGS, pid, 0, &g);
							}
						}
					if (persistent.count(c)) inject = persistent[c];
					if (inject) {
						g.orig_rax = ~0ull;
						ptrace(PTRACE_SETREGS, pid, 0, &g);
					}
				}
			} else {
				if (inject) {
					g.rax = -static_cast<long>(inject);
					ptrace(PTRACE_SETREGS, pid, 0, &g);
				}
				if (c != c_none) r.calls.back().ret = long(g.rax);
				if (opens && long(g.rax) >= 0) fds.insert(long(g.rax));
				if (nr == SYS_close && !inject) fds.erase(long(int(g.rdi)));
				if ((nr == SYS_dup || (nr == SYS_fcntl && (g.rsi == F_DUPFD || g.rsi == F_DUPFD_CLOEXEC))) && fds.count(long(int(g.rdi))) && long(g.rax) >= 0) fds.insert(long(g.rax));
			}
			entry = !entry;
		}
	}
	// outputs are far smaller than a pipe's buffer unless something is wrong, so drain both
	pollfd p[2] = {{po[0], POLLIN, 0}, {pe[0], POLLIN, 0}};
	for (int open = 2; open;) {
		if (poll(p, 2, 90000) <= 0) break;
		for (int i = 0; i < 2; ++i)
			if (p[i].revents) {
				char b[8192];
				const ssize_t n = read(p[i].fd, b, sizeof b);
				if (n <= 0) close(p[i].fd), p[i].fd = -1, --open;
				else (i ? r.err : r.out).append(b, n);
			}
	}
	if (!traced) waitpid(pid, &st, 0);
	if (WIFEXITED(st)) r.exited = true, r.code = WEXITSTATUS(st);
	else r.signalled = true, r.code = WTERMSIG(st);
	r.hang = r.signalled && r.code == SIGALRM;
	mc::state(), mc::transition(r.calls.size() + 1), mc::validated();
	mc::outcome(mc::fnv(r.out.data(), r.out.size()) ^ mc::fnv(r.err.data(), std::min<size_t>(r.err.size(), 12)) * 31 ^ unsigned(r.code));
	return r;
}
static std::string shown(const result & r) { return (r.exited ? "exit " : "signal ") + std::to_string(r.code) + ", stdout '" + r.out.substr(0, 200) + "', stderr '" + r.err.substr(0, 120) + "'"; }
static std::string shown(const std::vector<std::string> & a) {
	std::string s = "checksum";
	for (size_t i = 1; i < a.size(); ++i) s += " '" + (a[i].size() > 60 ? a[i].substr(0, 60) + "..." : a[i]) + "'";
	return s;
}
static bool looks_like_digest(const std::string & s) {
	size_t run = 0;
	for (char c: s) {
		run = isxdigit(static_cast<unsigned char>(c)) ? run + 1 : 0;
		if (run >= 8) return true;
	}
	return false;
}
static void must_succeed(const std::vector<std::string> & a, const result & r, const std::string & want) {
	if (!r.exited || r.code || r.out != want) mc::fail("%s: %s; expected exit 0 and '%s'", shown(a).c_str(), shown(r).c_str(), want.substr(0, 200).c_str());
}
static void must_refuse(const std::vector<std::string> & a, const result & r, const char * why) {
	if (!r.exited || !r.code || looks_like_digest(r.out) || r.err.empty()) mc::fail("%s (%s): %s; expected a diagnostic, no digest and a non-zero exit status", shown(a).c_str(), why, shown(r).c_str());
}

// ---------------------------------------------------------------------------- files
static std::string write_file(const std::string & name, const std::vector<uint8_t> & m) {
	const std::string path = work + "/" + name;
	FILE * f = fopen(path.c_str(), "wb");
	if (!f || fwrite(m.data(), 1, m.size(), f) != m.size() || fclose(f)) perror("scratch file"), _exit(3);
	return path;
}
static std::vector<uint8_t> content(size_t n, int kind = 0) {
	std::vector<uint8_t> v(n);
	for (size_t i = 0; i < n; ++i) v[i] = kind == 1 ? 0 : kind == 2 ? 0xff : uint8_t((i * 2654435761u) >> 13) ^ uint8_t(i);
	return v;
}
struct scratch {
	scratch() {
		char t[] = SCRATCH "/cli-XXXXXX";
		if (!mkdtemp(t)) perror("mkdtemp"), _exit(3);
		work = t;
	}
	~scratch() {
		const std::string cmd = "rm -rf -- '" + work + "'";
		if (work.find("/cli-") != std::string::npos && system(cmd.c_str())) { }
	}
};

// names the usage text lists; "a/n (where n is 1/2/3)" expands
static std::vector<std::string> listed(const std::string & usage) {
	std::vector<std::string> names, values;
	const size_t w = usage.find("where n is");
	if (w != std::string::npos) {
		std::string v;
		for (size_t i = w + 10; i < usage.size() && usage[i] != ')'; ++i) {
			if (isdigit(static_cast<unsigned char>(usage[i]))) v += usage[i];
			else if (!v.empty()) values.push_back(v), v.clear();
		}
		if (!v.empty()) values.push_back(v);
	}
	std::string t;
	auto flush = [&] {
		const bool digit = std::any_of(t.begin(), t.end(), [](char c) { return c >= '0' && c <= '9'; });
		if (t.size() > 2 && t.ends_with("/n") && digit)
			for (auto & v: values) names.push_back(t.substr(0, t.size() - 1) + v);
		else if (digit && (t.starts_with("sha") || t.starts_with("xx")))
			names.push_back(t);
		t.clear();
	};
	for (char c: usage)
		if (isalnum(static_cast<unsigned char>(c)) || c == '-' || c == '/' || c == '_') t += c;
		else flush();
	flush();
	return names;
}

static const int open_errors[] = {ENOENT, EACCES, EMFILE, EINTR, ELOOP, ENFILE, EIO}, size_errors[] = {ESPIPE, EINVAL, EOVERFLOW, EIO}, map_errors[] = {ENOMEM, ENODEV, EACCES, EAGAIN, EPERM}, read_errors[] = {EIO, EINTR, EISDIR}, close_errors[] = {EIO, EINTR}, out_errors[] = {EIO, ENOSPC, EPIPE, EAGAIN, EINTR, EBADF}, err_errors[] = {EIO, EINTR};
static void options(const call & c, int index, std::vector<fault> & f) {
	auto all = [&](const auto & list) { for (int e: list) f.push_back({index, e, 0}); };
	switch (c.c) {
	case c_open: all(open_errors); break;
	case c_size: all(size_errors); break;
	case c_map: all(map_errors); break;
	case c_read: all(read_errors), f.push_back({index, 0, 1}), f.push_back({index, 0, 7}); break;
	case c_close: all(close_errors); break;
	case c_out: all(out_errors), f.push_back({index, 0, 1}), f.push_back({index, 0, 10}); break;
	case c_err: all(err_errors); break;
	default: break;
	}
}
static std::string shown(const std::vector<fault> & plan, const result & r) {
	std::string s;
	for (auto & f: plan) {
		const char * n = f.index < int(r.calls.size()) ? cls_name[r.calls[f.index].c] : "?";
		s += (s.empty() ? "" : " then ") + std::string("call ") + std::to_string(f.index) + " (" + n + (f.error ? std::string(") fails with ") + strerror(f.error) : ") transfers only " + std::to_string(f.shorten) + " bytes");
	}
	return s;
}
// the verdict for a run in which the system refused something
static void judge(const std::vector<std::string> & a, const result & r, const std::string & want, const std::string & what, bool out_failed, bool err_failed, bool only_close) {
	if (r.hang) return mc::fail("%s, %s: does not end", shown(a).c_str(), what.c_str());
	if (!r.exited) return mc::fail("%s, %s: crashes with %s", shown(a).c_str(), what.c_str(), shown(r).c_str());
	if (r.code == 0) {
		if (r.out != want) mc::fail("%s, %s: %s; exit 0 without exactly the digest '%s'", shown(a).c_str(), what.c_str(), shown(r).c_str(), want.substr(0, 200).c_str());
	} else {
		if (only_close) mc::fail("%s, %s: %s; the digest could be computed and written", shown(a).c_str(), what.c_str(), shown(r).c_str());
		if (!out_failed && looks_like_digest(r.out)) mc::fail("%s, %s: %s; failure with a digest", shown(a).c_str(), what.c_str(), shown(r).c_str());
		if (!err_failed && r.err.empty()) mc::fail("%s, %s: %s; failure without a diagnostic", shown(a).c_str(), what.c_str(), shown(r).c_str());
	}
}
static void explore_faults(const std::vector<std::string> & a, const std::string & want, std::vector<fault> plan, int depth, uint64_t & runs) {
	const auto base = run(a, a[2], plan);
	++runs;
	if (!plan.empty()) {
		bool out = false, err = false, only_close = true;
		for (auto & f: plan)
			if (f.index < int(base.calls.size())) {
				const cls c = base.calls[f.index].c;
				out |= c == c_out, err |= c == c_err;
				only_close &= c == c_close || c == c_err || (c == c_out && f.error == 0);
			}
		judge(a, base, want, shown(plan, base), out, err, only_close);
	} else must_succeed(a, base, want);
	if (!depth) return;
	for (int i = plan.empty() ? 0 : plan.back().index + 1; i < int(base.calls.size()); ++i) {
		std::vector<fault> f;
		options(base.calls[i], i, f);
		for (auto & x: f) {
			auto p = plan;
			p.push_back(x);
			explore_faults(a, want, p, depth - 1, runs);
		}
	}
}

int main(int argc, char ** argv) {
	const std::string prog = CHECKSUM;
	mc::add("usage", [=] {
		scratch s;
		const auto path = write_file("f", content(100));
		for (const std::vector<std::string> & a: {std::vector<std::string>{prog}, {prog, "sha-256"}, {prog, path}, {prog, ""}, {prog, "no-such-hash"}}) must_refuse(a, run(a, "", {}, {}, false), "missing arguments");
		const auto usage = run({prog}, "", {}, {}, false).err;
		const auto names = listed(usage);
		for (auto & n: names) {
			std::string want;
			const std::vector<std::string> a{prog, n, path};
			const auto r = run(a, "", {}, {}, false);
			if (!oracle(n, content(100), want)) mc::fail("%s: the usage text lists '%s', which is no algorithm: %s", shown(a).c_str(), n.c_str(), shown(r).c_str());
			else must_succeed(a, r, want);
		}
		for (auto & n: documented) {
			std::string want;
			oracle(n, content(100), want);
			const std::vector<std::string> a{prog, n, path};
			must_succeed(a, run(a, "", {}, {}, false), want);
		}
		mc::sample("%zu names in the usage text", names.size());
		if (names.empty()) mc::fail("the usage text lists no algorithm: %s", usage.c_str());
	});
	// contents: sizes around every block and page boundary
	for (auto & n: documented)
		mc::add("content-" + n, [=] {
			scratch s;
			std::set<size_t> sizes;
			for (size_t i = 0; i <= (mc::thorough ? 600 : 20); ++i) sizes.insert(i);
			for (size_t b: {55, 56, 64, 72, 104, 111, 112, 127, 128, 136, 144, 168, 256, 4096, 8192, 65536})
				for (int d = -1; d <= 1; ++d) sizes.insert(b + d);
			if (mc::thorough) sizes.insert({1 << 20, (1 << 24) + 5});
			sizes.insert(1000003);
			for (size_t z: sizes)
				for (int kind = 0; kind < (z < 300 ? 3 : 1); ++kind) {
					const auto m = content(z, kind);
					const auto path = write_file("f" + std::to_string(z) + "-" + std::to_string(kind), m);
					std::string want;
					oracle(n, m, want);
					mc::at("file of %llu bytes", z);
					const std::vector<std::string> a{prog, n, path};
					must_succeed(a, run(a, "", {}, {}, false), want);
					unlink(path.c_str());
				}
			mc::sample("%s: %zu file sizes", n.c_str(), sizes.size());
		});
	// names: everything near a known name is refused
	std::set<std::string> known(documented.begin(), documented.end());
	for (auto & n: documented)
		mc::add("unknown-near-" + n, [=] {
			scratch s;
			const auto path = write_file("f", content(77));
			auto accepted = known;
			for (auto & l: listed(run({prog}, "", {}, {}, false).err)) accepted.insert(l);
			std::set<std::string> near;
			const std::string abc = "-/_ 0123456789ashxkeXSA\n";
			for (size_t i = 0; i <= n.size(); ++i) {
				near.insert(n.substr(0, i));
				if (i) near.insert(n.substr(i));
				for (char c: abc) {
					near.insert(n.substr(0, i) + c + n.substr(i));
					if (i < n.size()) near.insert(n.substr(0, i) + c + n.substr(i + 1));
				}
				if (i < n.size()) {
					near.insert(n.substr(0, i) + n.substr(i + 1));
					std::string t = n;
					t[i] = char(toupper(t[i]));
					near.insert(t);
				}
				for (size_t k = i + 1; k <= n.size(); ++k) near.insert(n.substr(0, i) + n.substr(k));
			}
			for (const char * x: {"8", "16", "24", "40", "96", "160", "192", "224", "384", "4096", "0", "-8", "100", "n", "", "33"})
				if (n.find('/') != std::string::npos) near.insert(n.substr(0, n.find('/') + 1) + x);
			near.insert(n + std::string(300, '0')), near.insert(n + n), near.insert(std::string(70000, 'a'));
			for (auto & x: near)
				if (!accepted.count(x) && !x.starts_with("-h") && !x.starts_with("--h")) {
					const std::vector<std::string> a{prog, x, path};
					must_refuse(a, run(a, "", {}, {}, false), "unknown algorithm");
				}
			mc::sample("%s: %zu similar names", n.c_str(), near.size());
		});
	// files of every kind
	for (auto & n: documented)
		mc::add("kinds-" + n, [=] {
			scratch s;
			const auto m = content(4096 * 3 + 7);
			const auto path = write_file("plain", m);
			std::string want, nothing;
			oracle(n, m, want), oracle(n, {}, nothing);
			auto ok = [&](const std::string & p, const std::string & w) { const std::vector<std::string> a{prog, n, p}; must_succeed(a, run(a, "", {}, {}, false), w); };
			auto bad = [&](const std::string & p, const char * why) { const std::vector<std::string> a{prog, n, p}; must_refuse(a, run(a, "", {}, {}, false), why); };
			ok(write_file("empty", {}), nothing);
			for (const char * name: {"name with spaces", "-", "--", "\xff\xfe", "new\nline", "%s%n", "*", "sha-256"}) ok(write_file(name, m), want);
			ok(write_file(std::string(255, 'n'), m), want);
			bad(work + "/" + std::string(256, 'n'), "name too long");
			bad(work + "/missing", "missing file");
			bad(path + "/below", "not a directory");
			bad("", "empty name");
			bad(std::string(5000, '/') + "x", "path too long");
			bad(work, "directory"), bad(work + "/.", "directory"), bad("/", "directory");
			const auto in = [&](const char * x) { return work + "/" + x; };
			if (symlink(path.c_str(), in("link").c_str()) || symlink("nowhere", in("dangling").c_str()) || symlink("loop", in("loop").c_str()) || link(path.c_str(), in("hard").c_str())) _exit(3);
			ok(in("link"), want), ok(in("hard"), want);
			bad(in("dangling"), "dangling link"), bad(in("loop"), "link loop");
			if (mkfifo(in("fifo").c_str(), 0600)) _exit(3);
			const int keep = open(in("fifo").c_str(), O_RDWR);
			if (write(keep, "abc", 3) != 3) _exit(3);
			bad(in("fifo"), "pipe");
			close(keep);
			const int so = socket(AF_UNIX, SOCK_STREAM, 0);
			sockaddr_un ad{};
			ad.sun_family = AF_UNIX;
			if (in("sock").size() < sizeof ad.sun_path) {
				strcpy(ad.sun_path, in("sock").c_str());
				if (bind(so, reinterpret_cast<sockaddr *>(&ad), sizeof ad) == 0) bad(in("sock"), "socket");
			}
			close(so);
			// a file with a hole, read-only, without read permission (the latter only means something to an unprivileged user)
			const auto holed = write_file("hole", {1, 2, 3});
			if (truncate(holed.c_str(), 100000)) _exit(3);
			std::vector<uint8_t> h(100000);
			h[0] = 1, h[1] = 2, h[2] = 3;
			std::string hw;
			oracle(n, h, hw);
			ok(holed, hw);
			chmod(path.c_str(), 0400);
			ok(path, want);
		});
	// what the system answers
	for (auto & n: documented)
		for (size_t z: {size_t(0), size_t(1), size_t(4096), size_t(70001)}) {
			mc::add("faults-" + n + "-" + std::to_string(z), [=] {
				scratch s;
				const auto m = content(z);
				const auto path = write_file("f", m);
				std::string want;
				oracle(n, m, want);
				const std::vector<std::string> a{prog, n, path};
				uint64_t runs = 0;
				const bool deep = mc::thorough || n == "sha-256" || n == "shake-256/2048" || n == "xxhash32" || n == "sha3-512";
				explore_faults(a, want, {}, deep ? (mc::thorough && n == "sha-256" ? 3 : 2) : 1, runs);
				// every call of a class fails
				const std::pair<int, std::span<const int>> classes[] = {{c_open, open_errors}, {c_size, size_errors}, {c_map, map_errors}, {c_read, read_errors}, {c_close, close_errors}, {c_out, out_errors}, {c_err, err_errors}};
				for (auto & [c, es]: classes)
					for (int e: es)
						if (e != EINTR) {
							const auto r = run(a, path, {}, {{c, e}});
							++runs;
							judge(a, r, want, std::string("every ") + cls_name[c] + " call fails with " + strerror(e), c == c_out, c == c_err, c == c_close || c == c_err);
							for (auto & [c2, es2]: classes)
								if (c2 > c && deep) {
									const auto r2 = run(a, path, {}, {{c, e}, {c2, es2[0]}});
									++runs;
									judge(a, r2, want, std::string("every ") + cls_name[c] + " call fails with " + strerror(e) + ", every " + cls_name[c2] + " call with " + strerror(es2[0]), c == c_out || c2 == c_out, c == c_err || c2 == c_err, false);
								}
						}
				mc::sample("%s of %zu bytes: %llu executions with injected failures", n.c_str(), z, (unsigned long long)runs);
			});
		}
	if (mc::thorough)
		for (const char * n: {"sha-256", "sha-512", "sha3-256", "shake-128/256", "xxhash32", "xxhash64"})
			mc::add(std::string("large-") + n, [=] { // more than 2^32 bytes: a sparse file, only the size matters to the tool; digest by the reference in one go
				scratch s;
				const auto path = write_file("large", {1});
				const size_t z = (1ull << 32) + 77;
				if (truncate(path.c_str(), z)) _exit(3);
				std::vector<uint8_t> h(z);
				h[0] = 1;
				std::string want;
				oracle(n, h, want);
				const std::vector<std::string> a{prog, n, path};
				std::vector<uint8_t>().swap(h);
				must_succeed(a, run(a, "", {}, {}, false), want);
			});
	return mc::run(argc, argv);
}
