// A small property-based testing engine.
//
// Every random decision of a case is a draw from Case; the draws are recorded,
// so that a case can be replayed, and shrunk by editing the record (drawing 0
// means the simplest choice).  Each case runs in a forked child: a crash, a
// sanitizer report, an assertion or a hang of the code under test is a failing
// case like any other, and no state leaks from one case into the next.
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <functional>
#include <map>
#include <poll.h>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <grp.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" void __gcov_dump(void) __attribute__((weak));

namespace pbt {

enum { MAX_CHOICES = 1 << 18, MAX_LABELS = 96, NOTE_CAP = 1 << 16 };
enum Status { ST_NONE = 0, ST_PASS = 1, ST_FAIL = 2, ST_DISCARD = 3 };

struct Shared {
	volatile uint32_t status;
	uint32_t nchoices;
	uint32_t overflow;
	uint32_t nontrivial;
	uint64_t extra;                 // evaluations inside the case (sub-checks)
	char msg[4096];
	char sig[128];
	uint32_t nlabels;
	char labels[MAX_LABELS][48];
	uint32_t notelen;
	char notes[NOTE_CAP];
	uint64_t choices[MAX_CHOICES];
};

static inline uint64_t splitmix(uint64_t &s) {
	uint64_t z = (s += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static inline uint64_t mix2(uint64_t a, uint64_t b) {
	uint64_t s = a * 0x9e3779b97f4a7c15ull + b;
	splitmix(s);
	return splitmix(s);
}
static inline uint64_t hashstr(const char *p) {
	uint64_t h = 1469598103934665603ull;
	while (*p) h = (h ^ (unsigned char)*p++) * 1099511628211ull;
	return h;
}

static double now() {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

class Case {
public:
	Shared *sh;
	uint64_t rng;
	const std::vector<uint64_t> *replay;   // NULL: random
	size_t rpos = 0;
	bool thorough = false;
	bool want_notes = false;
	pid_t owner;

	Case(Shared *s, uint64_t seed, const std::vector<uint64_t> *r) : sh(s), rng(seed), replay(r), owner(getpid()) {}

	// a number in [0, n)
	uint64_t draw(uint64_t n) {
		uint64_t v;
		if (n == 0) n = 1;
		if (replay) {
			v = rpos < replay->size() ? (*replay)[rpos++] : 0;
			if (v >= n) v %= n;
		} else {
			v = n == 1 ? 0 : splitmix(rng) % n;
		}
		if (sh->nchoices < MAX_CHOICES) sh->choices[sh->nchoices++] = v;
		else sh->overflow = 1;
		return v;
	}
	// a number in [lo, hi]
	int64_t range(int64_t lo, int64_t hi) { return hi <= lo ? (draw(1), lo) : lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
	// true with probability num/den; false is the simpler one
	bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
	// an index weighted by w...
	unsigned pick(std::initializer_list<unsigned> w) {
		uint64_t tot = 0;
		for (unsigned x : w) tot += x;
		uint64_t v = draw(tot);
		unsigned i = 0;
		for (unsigned x : w) {
			if (v < x) return i;
			v -= x;
			++i;
		}
		return 0;
	}
	// a number in [0, max], mostly small, of every magnitude up to max
	uint64_t sized(uint64_t max) {
		unsigned bits = 0;
		while (bits < 63 && (max >> bits)) ++bits;
		uint64_t b = draw(bits + 1);
		uint64_t m = b >= 63 ? max : ((1ull << b) - 1);
		if (m > max) m = max;
		return draw(m + 1);
	}
	template <class T> const T &oneof(const std::vector<T> &v) { return v[draw(v.size())]; }

	void label(const char *f, ...) {
		char b[48];
		va_list a;
		va_start(a, f);
		vsnprintf(b, sizeof b, f, a);
		va_end(a);
		for (uint32_t i = 0; i < sh->nlabels; ++i)
			if (!strcmp(sh->labels[i], b)) return;
		if (sh->nlabels < MAX_LABELS) strcpy(sh->labels[sh->nlabels++], b);
	}
	void nontrivial() { sh->nontrivial = 1; }
	void count(uint64_t n = 1) { sh->extra += n; }
	void note(const char *f, ...) __attribute__((format(printf, 2, 3))) {
		if (!want_notes) return;
		size_t room = NOTE_CAP - sh->notelen;
		if (room < 64) return;
		va_list a;
		va_start(a, f);
		int n = vsnprintf(sh->notes + sh->notelen, room - 2, f, a);
		va_end(a);
		if (n < 0) return;
		if ((size_t)n > room - 3) n = room - 3;
		sh->notelen += n;
		sh->notes[sh->notelen++] = '\n';
		sh->notes[sh->notelen] = 0;
	}
	[[noreturn]] void finish(uint32_t st) {
		sh->status = st;
		if (__gcov_dump) __gcov_dump();
		syscall(SYS_exit_group, 0);
		__builtin_unreachable();
	}
	[[noreturn]] void fail(const char *f, ...) __attribute__((format(printf, 2, 3))) {
		va_list a;
		va_start(a, f);
		vsnprintf(sh->msg, sizeof sh->msg, f, a);
		va_end(a);
		finish(ST_FAIL);
	}
	[[noreturn]] void fail_sig(const char *sig, const char *f, ...) __attribute__((format(printf, 3, 4))) {
		va_list a;
		va_start(a, f);
		vsnprintf(sh->msg, sizeof sh->msg, f, a);
		va_end(a);
		snprintf(sh->sig, sizeof sh->sig, "%s", sig);
		finish(ST_FAIL);
	}
	[[noreturn]] void discard() { finish(ST_DISCARD); }
};

#define CHECK(c, cond, ...)                        \
	do {                                       \
		if (!(cond)) (c).fail(__VA_ARGS__); \
	} while (0)

struct Prop {
	const char *id;
	void (*fn)(Case &);
	uint64_t quick, thorough;        // number of cases
	const char *rule;
	void (*setup)();                 // once per worker
};

static std::string esc(const std::string &s) {
	std::string o;
	char b[8];
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') o += '\\', o += ch;
		else if (ch == '\n') o += "\\n";
		else if (ch == '\t') o += "\\t";
		else if (ch < 32 || ch >= 127) snprintf(b, sizeof b, "\\u%04x", ch), o += b;
		else o += ch;
	}
	return o;
}
// printable form of arbitrary bytes
static std::string show(const void *p, size_t n, size_t cap = 60) {
	std::string o = "\"";
	char b[8];
	const unsigned char *q = (const unsigned char *)p;
	for (size_t i = 0; i < n && i < cap; ++i) {
		if (q[i] == '"' || q[i] == '\\') o += '\\', o += q[i];
		else if (q[i] < 32 || q[i] >= 127) snprintf(b, sizeof b, "\\x%02x", q[i]), o += b;
		else o += q[i];
	}
	o += "\"";
	if (n > cap) snprintf(b, sizeof b, "..."), o += b;
	return o;
}
static std::string show(const std::string &s, size_t cap = 60) { return show(s.data(), s.size(), cap); }

struct Outcome {
	enum Kind { PASS, FAIL, CRASH, TIMEOUT, DISCARD, OVERFLOW_ } kind = PASS;
	std::string msg, sig, notes;
	std::vector<uint64_t> choices;
	bool bad() const { return kind == FAIL || kind == CRASH || kind == TIMEOUT; }
};

class Engine {
public:
	Shared *sh;
	const Prop *prop;
	uint64_t seed;
	bool thorough = false;
	int errfd = -1;
	std::string errpath;
	double wall_limit = 60, shrink_s = -1;
	unsigned cpu_limit = 20;

	uint64_t n_eval = 0, n_discard = 0, n_overflow = 0, n_inner = 0, n_timeout_ignored = 0, n_flaky = 0;
	std::map<std::string, uint64_t> labels;
	std::map<std::string, uint64_t> known_hits;
	std::set<std::string> known;
	std::unordered_set<uint64_t> distinct;
	std::vector<std::string> samples;

	Engine() {
		sh = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if (sh == MAP_FAILED) abort();
	}

	// is every thread of it asleep, and how much CPU time has it had?
	static bool idle(pid_t pid, unsigned long long &cpu) {
		char path[64];
		snprintf(path, sizeof path, "/proc/%d/task", (int)pid);
		DIR *d = opendir(path);
		if (!d) return false;
		bool asleep = true;
		cpu = 0;
		while (struct dirent *e = readdir(d)) {
			if (e->d_name[0] == '.') continue;
			char f[128], b[1024];
			snprintf(f, sizeof f, "%s/%.20s/stat", path, e->d_name);
			int fd = open(f, O_RDONLY);
			if (fd < 0) {
				asleep = false;
				continue;
			}
			ssize_t n = read(fd, b, sizeof b - 1);
			close(fd);
			b[n > 0 ? n : 0] = 0;
			char *q = strrchr(b, ')');
			char st = 0;
			unsigned long long u = 0, k = 0;
			if (!q || sscanf(q + 1, " %c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %llu %llu", &st, &u, &k) != 3 || st != 'S') asleep = false;
			cpu += u + k;
		}
		closedir(d);
		return asleep;
	}

	Outcome run(uint64_t cseed, const std::vector<uint64_t> *replay, bool notes) {
		sh->status = ST_NONE;
		sh->nchoices = sh->overflow = sh->nontrivial = sh->nlabels = sh->notelen = 0;
		sh->extra = 0;
		sh->msg[0] = sh->sig[0] = sh->notes[0] = 0;
		if (errfd >= 0 && lseek(errfd, 0, SEEK_END) > 0) {
			if (ftruncate(errfd, 0)) {}
			lseek(errfd, 0, SEEK_SET);
		}
		fflush(stdout);
		fflush(stderr);
		pid_t pid = fork();
		if (pid < 0) {
			perror("fork");
			exit(3);
		}
		if (pid == 0) {
			if (errfd >= 0) dup2(errfd, 2);
			setpgid(0, 0);
			struct rlimit rl = {cpu_limit, cpu_limit + 2};
			setrlimit(RLIMIT_CPU, &rl);
			rl.rlim_cur = rl.rlim_max = 0;
			setrlimit(RLIMIT_CORE, &rl);
			Case c(sh, cseed, replay);
			c.thorough = thorough;
			c.want_notes = notes;
			prop->fn(c);
			c.finish(ST_PASS);
		}
		int st = 0;
		bool killed = false;
		int pfd = syscall(SYS_pidfd_open, pid, 0);
		if (pfd >= 0) {
			struct pollfd p = {pfd, POLLIN, 0};
			double end = now() + wall_limit, look = now() + 3;
			int still = 0;
			unsigned long long last = ~0ull;
			for (;;) {
				double t = now();
				if (t >= end || still >= 12) {
					killed = true;
					kill(pid, SIGKILL);
					break;
				}
				int r = poll(&p, 1, (int)((std::min(end, look) - t) * 1000) + 1);
				if (r > 0) break;
				if (r < 0 && errno != EINTR) break;
				if (now() >= look) {
					// asleep without any CPU time for 12 looks: blocked for good
					unsigned long long cpu = 0;
					bool asleep = idle(pid, cpu);
					still = asleep && cpu == last ? still + 1 : 0;
					last = cpu;
					look = now() + 1;
				}
			}
			close(pfd);
		}
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
		kill(-pid, SIGKILL);   // whatever the case left running
		Outcome o;
		o.choices.assign(sh->choices, sh->choices + sh->nchoices);
		if (sh->notelen) o.notes.assign(sh->notes, sh->notelen);
		o.sig = sh->sig;
		if (sh->status == ST_PASS) o.kind = Outcome::PASS;
		else if (sh->status == ST_DISCARD) o.kind = Outcome::DISCARD;
		else if (sh->status == ST_FAIL) {
			o.kind = Outcome::FAIL;
			o.msg = sh->msg;
		} else if (sh->overflow) {
			o.kind = Outcome::OVERFLOW_;
		} else if (killed || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))) {
			o.kind = Outcome::TIMEOUT;
			o.msg = "the case did not finish";
		} else {
			o.kind = Outcome::CRASH;
			char b[4096];
			ssize_t n = errfd >= 0 ? pread(errfd, b, sizeof b - 1, 0) : 0;
			b[n > 0 ? n : 0] = 0;
			char h[96];
			if (WIFSIGNALED(st)) snprintf(h, sizeof h, "crash: killed by signal %d: ", WTERMSIG(st));
			else snprintf(h, sizeof h, "crash: exit status %d: ", WEXITSTATUS(st));
			o.msg = std::string(h) + b;
		}
		if (sh->overflow && o.kind == Outcome::PASS) ++n_overflow;
		return o;
	}

	// same cause, as far as shrinking is concerned
	static std::string cls(const Outcome &o) {
		char b[32];
		snprintf(b, sizeof b, "%d:%s", (int)o.kind, o.sig.c_str());
		return b;
	}

	Outcome shrink(Outcome best, double budget) {
		double end = now() + budget;
		std::string want = cls(best);
		auto attempt = [&](std::vector<uint64_t> v) -> bool {
			if (now() > end) return false;
			Outcome o = run(0, &v, false);
			if (!o.bad() || cls(o) != want) return false;
			// keep what was really used
			if (o.choices.size() < best.choices.size() ||
			    (o.choices.size() == best.choices.size() && o.choices < best.choices)) {
				best = o;
				return true;
			}
			return false;
		};
		bool progress = true;
		while (progress && now() < end) {
			progress = false;
			for (size_t len : {512, 64, 16, 8, 4, 2, 1}) {
				if (len > best.choices.size()) continue;
				for (size_t i = best.choices.size(); i-- > 0 && now() < end;) {
					if (i + len > best.choices.size()) continue;
					auto v = best.choices;
					v.erase(v.begin() + i, v.begin() + i + len);
					if (attempt(v)) progress = true;
					else if (len > 8) i -= std::min(i, len / 2);
				}
			}
			for (size_t len : {64, 8, 1}) {
				for (size_t i = 0; i + len <= best.choices.size() && now() < end; i += len) {
					bool nz = false;
					for (size_t k = 0; k < len; ++k) nz |= best.choices[i + k] != 0;
					if (!nz) continue;
					auto v = best.choices;
					std::fill(v.begin() + i, v.begin() + i + len, 0);
					if (attempt(v)) progress = true;
				}
			}
			for (size_t i = 0; i < best.choices.size() && now() < end; ++i) {
				uint64_t lo = 0;
				while (i < best.choices.size() && lo < best.choices[i] && now() < end) {
					uint64_t mid = lo + (best.choices[i] - lo) / 2;
					auto v = best.choices;
					v[i] = mid;
					if (attempt(v)) progress = true;
					else lo = mid + 1;
				}
			}
			for (size_t i = 0; i + 1 < best.choices.size() && now() < end; ++i) {   // shorten a count and drop what it counted
				if (!best.choices[i]) continue;
				for (size_t len : {1, 2, 3, 4, 6, 8, 12}) {
					if (i + 1 + len > best.choices.size()) break;
					auto v = best.choices;
					v[i]--;
					v.erase(v.begin() + i + 1, v.begin() + i + 1 + len);
					if (attempt(v)) { progress = true; break; }
				}
			}
		}
		return best;
	}

	void tally(const Outcome &o) {
		++n_eval;
		n_inner += sh->extra;
		if (o.kind == Outcome::DISCARD) ++n_discard;
		for (uint32_t i = 0; i < sh->nlabels; ++i) ++labels[sh->labels[i]];
		if (sh->nontrivial && o.kind != Outcome::DISCARD) {
			uint64_t h = 1469598103934665603ull;
			for (uint64_t v : o.choices) h = (h ^ v) * 1099511628211ull, h ^= h >> 29;
			distinct.insert(h);
		}
	}
};

static void write_failure(FILE *f, const Outcome &o) {
	static const char *kn[] = {"pass", "fail", "crash", "timeout", "discard", "overflow"};
	fprintf(f, "{\"kind\":\"%s\",\"message\":\"%s\",\"sig\":\"%s\",\"notes\":\"%s\",\"choices\":[", kn[o.kind],
	        esc(o.msg).c_str(), esc(o.sig).c_str(), esc(o.notes).c_str());
	for (size_t i = 0; i < o.choices.size(); ++i) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)o.choices[i]);
	fprintf(f, "]}");
}

static int run_main(int argc, char **argv, const std::vector<Prop> &props) {
	std::string id, out, replay, err;
	uint64_t seed = 1, cases = 0;
	int worker = 0, workers = 1;
	bool thorough = false;
	double budget = 1e9;
	Engine e;
	for (int i = 1; i + 1 < argc; i += 2) {
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--prop") id = v;
		else if (k == "--seed") seed = strtoull(v.c_str(), 0, 10);
		else if (k == "--cases") cases = strtoull(v.c_str(), 0, 10);
		else if (k == "--worker") worker = atoi(v.c_str());
		else if (k == "--workers") workers = atoi(v.c_str());
		else if (k == "--tier") thorough = v == "thorough";
		else if (k == "--out") out = v;
		else if (k == "--replay") replay = v;
		else if (k == "--err") err = v;
		else if (k == "--budget") budget = atof(v.c_str());
		else if (k == "--shrink") e.shrink_s = atof(v.c_str());
		else if (k == "--known") {
			size_t p = 0;
			while (p < v.size()) {
				size_t q = v.find(',', p);
				if (q == std::string::npos) q = v.size();
				e.known.insert(v.substr(p, q - p));
				p = q + 1;
			}
		}
	}
	const Prop *pr = NULL;
	for (auto &p : props)
		if (id == p.id) pr = &p;
	if (!pr) {
		fprintf(stderr, "unknown property %s\n", id.c_str());
		return 3;
	}
	e.prop = pr;
	e.seed = seed;
	e.thorough = thorough;
	if (!err.empty()) e.errfd = open(err.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
	FILE *fo = out.empty() ? stdout : fopen(out.c_str(), "w");
	FILE *fr = replay.empty() ? NULL : fopen(replay.c_str(), "r");
	if (!fo || (!replay.empty() && !fr)) return 3;
	// whatever the code under test does to files, it does as nobody
	if (geteuid() == 0) {
		if (setgroups(0, NULL) || setgid(65534) || setuid(65534)) fprintf(stderr, "cannot become nobody\n");
		prctl(PR_SET_DUMPABLE, 1);
	}
	if (pr->setup) pr->setup();
	if (fr) {
		// a file of numbers
		std::vector<uint64_t> ch;
		unsigned long long v;
		while (fscanf(fr, "%llu", &v) == 1) ch.push_back(v);
		fclose(fr);
		Outcome o = e.run(0, &ch, true);
		write_failure(fo, o);
		fprintf(fo, "\n");
		fclose(fo);
		return 0;
	}
	if (!cases) cases = thorough ? pr->thorough : pr->quick;
	bool failed = false;
	Outcome failure;
	uint64_t fail_idx = 0, timeouts = 0;
	double t0 = now();
	std::map<std::string, Outcome> known_ex;
	bool budget_hit = false;
	for (uint64_t idx = worker; idx < cases && !failed; idx += workers) {
		if (now() - t0 > budget) {
			budget_hit = true;
			break;
		}
		uint64_t cs = mix2(mix2(seed, hashstr(id.c_str())), idx);
		bool notes = idx < (uint64_t)workers * 12 || idx % 997 == 0;
		Outcome o = e.run(cs, NULL, notes);
		e.tally(o);
		if (o.kind == Outcome::PASS && e.sh->nontrivial && e.samples.size() < 3 && !o.notes.empty())
			e.samples.push_back(o.notes.substr(0, 1800));
		if (!o.bad()) continue;
		if (!o.sig.empty() && e.known.count(o.sig)) {
			++e.known_hits[o.sig];
			continue;
		}
		// it has to happen again, three times
		bool again = true;
#ifdef VF_TSAN
		// threads run freely here: a report is true whenever it comes, once more is enough
		again = false;
		for (int k = 0; k < 25 && !again; ++k) again = e.run(0, &o.choices, false).bad();
#else
		for (int k = 0; k < 3 && again; ++k) {
			Outcome r = e.run(0, &o.choices, false);
			if (!r.bad()) again = false;
		}
#endif
		if (!again) {
			++e.n_flaky;
			fprintf(stderr, "[%s] case %llu failed once and not again: %s\n", id.c_str(), (unsigned long long)idx, o.msg.c_str());
			continue;
		}
		failure = o;
		fail_idx = idx;
		failed = true;
		if (o.kind == Outcome::TIMEOUT) ++timeouts;
#ifdef VF_TSAN
		else if (true) {}
#endif
		else {
			failure = e.shrink(o, e.shrink_s >= 0 ? e.shrink_s : thorough ? 60 : 20);
			for (int k = 0; k < 3; ++k) {
				Outcome r = e.run(0, &failure.choices, true);
				if (!r.bad()) { failure = o; break; }
				if (k == 2) failure = r;
			}
		}
		if (failure.notes.empty()) {
			Outcome r = e.run(0, &failure.choices, true);
			failure.notes = r.notes;
		}
	}
	FILE *f = fo;
	fprintf(f, "{\"budget_hit\":%s,", budget_hit ? "true" : "false");
	fprintf(f, "\"evaluations\":%llu,\"discarded\":%llu,\"overflow\":%llu,\"flaky\":%llu,\"inner\":%llu,\"seconds\":%.2f,\"rule\":\"%s\",\n",
	        (unsigned long long)e.n_eval, (unsigned long long)e.n_discard, (unsigned long long)e.n_overflow, (unsigned long long)e.n_flaky,
	        (unsigned long long)e.n_inner, now() - t0, esc(pr->rule).c_str());
	fprintf(f, "\"labels\":{");
	bool first = true;
	for (auto &l : e.labels) fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(l.first).c_str(), (unsigned long long)l.second), first = false;
	fprintf(f, "},\n\"known\":{");
	first = true;
	for (auto &l : e.known_hits) fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(l.first).c_str(), (unsigned long long)l.second), first = false;
	fprintf(f, "},\n\"samples\":[");
	for (size_t i = 0; i < e.samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", esc(e.samples[i]).c_str());
	fprintf(f, "],\n\"distinct\":[");
	first = true;
	for (uint64_t h : e.distinct) fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)h), first = false;
	fprintf(f, "],\n\"failure\":");
	if (failed) {
		write_failure(f, failure);
		fprintf(f, ",\n\"fail_idx\":%llu", (unsigned long long)fail_idx);
	} else fprintf(f, "null");
	fprintf(f, "}\n");
	fclose(f);
	return 0;
}

}  // namespace pbt
using pbt::Case;
using pbt::show;
