// Bounded exhaustive exploration framework: jobs, counters, crash capture.
//
// A harness registers jobs.  Every job runs in a child process of its own (so an assertion, a signal or a
// sanitizer report becomes a recorded failure of exactly that job, together with the case it was working on),
// up to -j jobs at a time.  Everything a job enumerates is deterministic.
#pragma once
#include <algorithm>
#include <array>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

inline bool thorough = false;
// known before main(), because harnesses choose their jobs by it
__attribute__((constructor)) static void read_tier(int argc, char ** argv) {
	for (int i = 1; i < argc; ++i)
		if (!strcmp(argv[i], "--thorough")) thorough = true;
}

struct slot {
	uint64_t states, transitions, validated, outcomes;
	const char * fmt;
	uint64_t arg[8];
	char text[512];
	int nfails;
	char fails[4][2048];
	int nsamples;
	char samples[3][512];
	int finished;
};

inline slot * cur = nullptr;
inline std::unordered_set<uint64_t> * outcome_set = nullptr;

// where are we (cheap; formatted only if the job dies)
inline void at(const char * fmt, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0, uint64_t e = 0, uint64_t f = 0) {
	cur->fmt = fmt;
	cur->arg[0] = a, cur->arg[1] = b, cur->arg[2] = c, cur->arg[3] = d, cur->arg[4] = e, cur->arg[5] = f;
}
// extra free text shown with the position (for example the name of the algorithm)
inline void context(const std::string & s) { snprintf(cur->text, sizeof cur->text, "%s", s.c_str()); }

inline void state(uint64_t n = 1) { cur->states += n; }
inline void transition(uint64_t n = 1) { cur->transitions += n; }
inline void validated(uint64_t n = 1) { cur->validated += n; } // complete behaviours compared against the oracle
inline void outcome(uint64_t h) {
	if (outcome_set->size() < 2000000u) outcome_set->insert(h);
}
inline uint64_t fnv(const void * p, size_t n, uint64_t h = 1469598103934665603ull) {
	auto b = static_cast<const unsigned char *>(p);
	for (size_t i = 0; i != n; ++i) h = (h ^ b[i]) * 1099511628211ull;
	return h;
}

struct giveup { };

__attribute__((format(printf, 1, 2))) inline void fail(const char * fmt, ...) {
	if (cur->nfails < 4) {
		va_list ap;
		va_start(ap, fmt);
		char tmp[2048];
		vsnprintf(tmp, sizeof tmp, fmt, ap);
		va_end(ap);
		snprintf(cur->fails[cur->nfails], sizeof cur->fails[0], "%s", tmp);
	}
	if (++cur->nfails >= 4) throw giveup{};
}
__attribute__((format(printf, 1, 2))) inline void sample(const char * fmt, ...) {
	if (cur->nsamples < 3) {
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(cur->samples[cur->nsamples], sizeof cur->samples[0], fmt, ap);
		va_end(ap);
		++cur->nsamples;
	}
}

struct job {
	std::string name;
	std::function<void()> run;
};
inline std::vector<job> & jobs() {
	static std::vector<job> v;
	return v;
}
inline void add(std::string name, std::function<void()> f) { jobs().push_back({std::move(name), std::move(f)}); }

inline std::string hex(const void * p, size_t n) {
	std::string s;
	auto b = static_cast<const unsigned char *>(p);
	for (size_t i = 0; i != n; ++i) {
		char t[3];
		snprintf(t, 3, "%02x", b[i]);
		s += t;
	}
	return s;
}

inline std::string json(const std::string & in) {
	std::string o = "\"";
	for (unsigned char c: in) {
		if (c == '"' || c == '\\') {
			o += '\\', o += char(c);
		} else if (c < 0x20 || c >= 0x7f) {
			char t[8];
			snprintf(t, 8, "\\u%04x", c);
			o += t;
		} else
			o += char(c);
	}
	return o + "\"";
}

inline std::string where(const slot & s) {
	char b[1024] = "";
	if (s.fmt) snprintf(b, sizeof b, s.fmt, s.arg[0], s.arg[1], s.arg[2], s.arg[3], s.arg[4], s.arg[5]);
	return std::string(s.text) + (s.text[0] ? " " : "") + b;
}

inline int run(int argc, char ** argv) {
	int parallel = int(sysconf(_SC_NPROCESSORS_ONLN)), timeout = 600;
	std::string only;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		if (a == "-j") parallel = atoi(argv[++i]);
		else if (a == "--only") only = argv[++i];
		else if (a == "--timeout") timeout = atoi(argv[++i]);
	}
	auto & list = jobs();
	auto slots = static_cast<slot *>(mmap(nullptr, sizeof(slot) * (list.size() + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	struct active { pid_t pid; size_t job; std::chrono::steady_clock::time_point start; };
	std::vector<active> running; // (no std::map: its uninstrumented part confuses MemorySanitizer)
	size_t next = 0;
	bool bad = false;
	auto report = [&](size_t i, const char * status, int code) {
		const auto & s = slots[i];
		std::string fails, samples;
		for (int k = 0; k < std::min(s.nfails, 4); ++k) fails += (k ? "," : "") + json(s.fails[k]);
		for (int k = 0; k < s.nsamples; ++k) samples += (k ? "," : "") + json(s.samples[k]);
		printf("{\"job\":%s,\"status\":\"%s\",\"code\":%d,\"states\":%llu,\"transitions\":%llu,\"validated\":%llu,\"outcomes\":%llu,\"where\":%s,\"nfails\":%d,\"fails\":[%s],\"samples\":[%s]}\n", json(list[i].name).c_str(), status, code, (unsigned long long)s.states, (unsigned long long)s.transitions, (unsigned long long)s.validated, (unsigned long long)s.outcomes, json(where(s)).c_str(), s.nfails, fails.c_str(), samples.c_str());
		fflush(stdout);
		if (strcmp(status, "ok")) bad = true;
	};
	auto launch = [&](size_t i) {
		fflush(stdout), fflush(stderr);
		memset(&slots[i], 0, sizeof(slot));
		pid_t pid = fork();
		if (pid == 0) {
			cur = &slots[i];
			std::unordered_set<uint64_t> oc;
			outcome_set = &oc;
			rlimit nocore{0, 0};
			setrlimit(RLIMIT_CORE, &nocore);
			try {
				list[i].run();
			} catch (const giveup &) {
			} catch (const std::exception & e) {
				snprintf(cur->fails[cur->nfails < 4 ? cur->nfails : 3], sizeof cur->fails[0], "unexpected exception: %s at %s", e.what(), where(*cur).c_str());
				++cur->nfails;
			}
			cur->outcomes = oc.size();
			cur->finished = 1;
			fflush(stdout), fflush(stderr);
			_exit(0);
		}
		if (pid < 0) {
			perror("fork");
			exit(3);
		}
		running.push_back({pid, i, std::chrono::steady_clock::now()});
	};
	std::vector<size_t> todo;
	for (size_t i = 0; i != list.size(); ++i)
		if (only.empty() || list[i].name == only) todo.push_back(i);
	std::vector<size_t> slow;
	// once a failure is known there is no point in using all the time that is left
	bool thoroughly = false, stopped = false;
	for (int i = 1; i < argc; ++i) thoroughly = thoroughly || !strcmp(argv[i], "--thorough");
	const auto began = std::chrono::steady_clock::now();
	auto spent = [&] { return std::chrono::steady_clock::now() - began; };
	while (next < todo.size() || !running.empty()) {
		if (bad && !thoroughly && spent() > std::chrono::seconds(60) && next < todo.size()) next = todo.size(), stopped = true;
		if (bad && !thoroughly && spent() > std::chrono::seconds(90)) {
			for (const auto & a: running) {
				int st = 0;
				kill(a.pid, SIGKILL);
				waitpid(a.pid, &st, 0);
			}
			running.clear();
			slow.clear();
			stopped = true;
			break;
		}
		while (next < todo.size() && int(running.size()) < parallel) launch(todo[next++]);
		int st = 0;
		pid_t pid = waitpid(-1, &st, WNOHANG);
		const auto found = std::find_if(running.begin(), running.end(), [&](const active & a) { return a.pid == pid; });
		if (pid > 0 && found != running.end()) {
			const auto a = *found;
			running.erase(found);
			auto & s = slots[a.job];
			if (WIFSIGNALED(st)) report(a.job, WTERMSIG(st) == SIGKILL ? "killed" : "crash", WTERMSIG(st));
			else if (!s.finished) report(a.job, "crash", WEXITSTATUS(st));
			else if (s.nfails) report(a.job, "fail", 0);
			else report(a.job, "ok", 0);
		} else if (pid == 0) {
			for (size_t k = 0; k < running.size(); ++k)
				if (std::chrono::steady_clock::now() - running[k].start > std::chrono::seconds(timeout)) {
					kill(running[k].pid, SIGKILL);
					waitpid(running[k].pid, &st, 0);
					slow.push_back(running[k].job);
					running.erase(running.begin() + long(k));
					break;
				}
			usleep(2000);
		}
	}
	// a timed out job is run again alone with a longer limit before it is called a hang
	if (stopped) fprintf(stderr, "stopped early: failures are known\n");
	for (size_t i: slow) {
		if (bad && !thoroughly) break;
		launch(i);
		pid_t pid = running.front().pid;
		auto start = std::chrono::steady_clock::now();
		int st = 0;
		pid_t r = 0;
		while ((r = waitpid(pid, &st, WNOHANG)) == 0 && std::chrono::steady_clock::now() - start < std::chrono::seconds(timeout * (thoroughly ? 2 : 1))) usleep(20000);
		running.clear();
		if (r == 0) {
			kill(pid, SIGKILL);
			waitpid(pid, &st, 0);
			report(i, "hang", 0);
		} else if (WIFSIGNALED(st)) report(i, WTERMSIG(st) == SIGKILL ? "killed" : "crash", WTERMSIG(st));
		else if (!slots[i].finished) report(i, "crash", WEXITSTATUS(st));
		else report(i, slots[i].nfails ? "fail" : "ok", 0);
	}
	return bad ? 1 : 0;
}

} // namespace mc
