// P30: interposed calls of several threads: generated schedules (P30), free
// running under ThreadSanitizer (P30R)
#include "sworld.hpp"
#include "sched.hpp"

enum Kind { STAT, LSTAT, ACCESS, OPEN, READLINK, OPENDIR, FDOPENDIR, SCANDIR, EXTRACT, NLOOK, MKDIR = NLOOK, CREATE, MKDIR_RACE, CREATE_RACE, SEE, PREAD, SPREAD, NKINDS };
static const char *kn[] = {"stat", "lstat", "access", "open", "readlink", "opendir", "fdopendir", "scandir", "extract", "mkdir", "create", "mkdir, as others", "create, as others", "see", "pread", "pread of a shared descriptor of"};
struct Step {
	int k;
	std::string path, abs, want, data;
	mode_t mode = 0700;
	unsigned race = 0;                    // or the shared descriptor
	Node *n = nullptr;
	uint64_t at = 0, len = 0;
};
static std::vector<std::vector<Step>> progs;
static World *w;
static std::vector<std::string> races;
static std::vector<int> won;
struct Common {
	int fd;
	Node *n;
	off_t pos;
};
static bool free_running;
static std::vector<Common> common;   // descriptors all threads use
static pthread_mutex_t rmu = PTHREAD_MUTEX_INITIALIZER;
static std::map<std::string, std::set<std::string>> extracted;   // by the path given
static std::map<std::string, std::string> of;

// what the call gives, in words
static std::string look(int k, const std::string &path, std::string *file = nullptr) {
	const char *p = path.c_str();
	char b[300];
	struct stat st;
	memset(&st, 0, sizeof st);
	errno = 0;
	auto err = [&](long r) {
		snprintf(b, sizeof b, "returns %ld, errno %d", r, errno);
		return std::string(b);
	};
	auto attr = [&]() {
		snprintf(b, sizeof b, "mode %o nlink %ld size %lld mtime %ld rdev %ld", st.st_mode, (long)st.st_nlink, (long long)st.st_size, (long)st.st_mtime, (long)st.st_rdev);
		return std::string(b);
	};
	switch (k) {
	case STAT:
	case LSTAT: {
		int r = k == STAT ? enclose_io_stat(p, &st) : enclose_io_lstat(p, &st);
		return r ? err(r) : attr();
	}
	case ACCESS: {
		int r = enclose_io_access(p, F_OK);
		return r ? err(r) : "accessible";
	}
	case OPEN: {
		int fd = enclose_io_open(2, p, O_RDONLY);
		if (fd < 0) return err(fd);
		if (enclose_io_fstat(fd, &st)) return "fstat " + err(-1);
		std::string r = attr(), d;
		if (S_ISREG(st.st_mode)) {
			char q[3000];
			ssize_t z;
			while ((z = enclose_io_read(fd, q, sizeof q)) > 0) d.append(q, z);
			if (z < 0) r += " read " + err(-1);
			snprintf(b, sizeof b, " %zu bytes %llx", d.size(), (unsigned long long)pbt::hashstr(d.c_str()) ^ (d.size() ? (unsigned char)d.back() : 0));
			r += b;
			for (size_t i = 0; i < d.size(); i += 997) r += " " + std::to_string((unsigned char)d[i]);
		}
		if (enclose_io_close(fd)) r += " close " + err(-1);
		return r;
	}
	case READLINK: {
		Buf q(2100);
		ssize_t z = enclose_io_readlink(p, (char *)q.p, q.n);
		return z < 0 ? err(z) : "link " + std::string((char *)q.p, z);
	}
	case OPENDIR: {
		DIR *d = enclose_io_opendir(p);
		if (!d) return err(0);
		std::string r = "entries";
		while (struct dirent *e = enclose_io_readdir(d)) r += std::string(" ") + e->d_name + "=" + std::to_string(e->d_ino) + "," + std::to_string(e->d_type);
		if (enclose_io_closedir(d)) r += " closedir " + err(-1);
		return r;
	}
	case FDOPENDIR: {
		int fd = enclose_io_open(2, p, O_RDONLY);
		if (fd < 0) return err(fd);
		DIR *d = enclose_io_fdopendir(fd);
		if (!d) {
			std::string r = "fdopendir " + err(0);
			if (enclose_io_close(fd)) r += " close " + err(-1);
			return r;
		}
		std::string r = "entries";
		while (struct dirent *e = enclose_io_readdir(d)) r += std::string(" ") + e->d_name + "=" + std::to_string(e->d_ino) + "," + std::to_string(e->d_type);
		if (enclose_io_closedir(d)) r += " closedir " + err(-1);
		return r;
	}
	case SCANDIR: {
		struct dirent **l = nullptr;
		int n = enclose_io_scandir(p, &l, nullptr, nullptr);
		if (n < 0) return err(n);
		std::string r = "entries";
		for (int i = 0; i < n; ++i) {
			r += std::string(" ") + l[i]->d_name;
			vf_free(l[i]);
		}
		if (l) vf_free(l);
		return r;
	}
	default: {
		const char *f = enclose_io_ifextract(p, nullptr);
		if (!f) return err(0);
		std::string d;
		if (!slurp(f, d)) return std::string("no file ") + f;
		if (file) *file = f;
		snprintf(b, sizeof b, "%zu bytes %llx", d.size(), (unsigned long long)pbt::hashstr(d.c_str()));
		return b;
	}
	}
}
static void see(Case &c, unsigned t, const Step &s, bool dir) {
	struct stat st;
	CHECK(c, enclose_io_stat(s.path.c_str(), &st) == 0, "thread %u: stat of the created %s: errno %d", t, s.path.c_str(), errno);
	CHECK(c, dir ? S_ISDIR(st.st_mode) : S_ISREG(st.st_mode), "thread %u: the created %s has mode %o", t, s.path.c_str(), st.st_mode);
	if (dir) return;
	int fd = enclose_io_open(2, s.path.c_str(), O_RDONLY);
	CHECK(c, fd >= 0, "thread %u: open of the created %s: errno %d", t, s.path.c_str(), errno);
	std::string got;
	char q[4000];
	ssize_t z;
	while ((z = enclose_io_read(fd, q, sizeof q)) > 0) got.append(q, z);
	CHECK(c, got == s.data, "thread %u: the created %s holds %zu bytes, not the %zu written", t, s.path.c_str(), got.size(), s.data.size());
	CHECK(c, enclose_io_close(fd) == 0, "thread %u: close of %s: errno %d", t, s.path.c_str(), errno);
}
static void run_program(Case &c, unsigned t) {
	for (auto &s : progs[t]) {
		const char *p = s.path.c_str();
		if (s.k < NLOOK) {
			std::string f, r = look(s.k, s.path, &f);
			CHECK(c, r == s.want, "thread %u: %s of %s: %s, alone: %s", t, kn[s.k], show(s.path, 80).c_str(), r.c_str(), s.want.c_str());
			if (!f.empty()) {
				pthread_mutex_lock(&rmu);
				extracted[s.path].insert(f), of[s.path] = s.abs;
				pthread_mutex_unlock(&rmu);
			}
			continue;
		}
		switch (s.k) {
		case MKDIR:
			errno = 0;
			CHECK(c, enclose_io_mkdir(p, s.mode) == 0, "thread %u: mkdir of %s: errno %d", t, p, errno);
			see(c, t, s, true);
			break;
		case CREATE: {
			errno = 0;
			int fd = enclose_io_open(3, p, O_CREAT | O_EXCL | O_RDWR, 0600);
			CHECK(c, fd >= 0, "thread %u: open with O_CREAT of %s: errno %d", t, p, errno);
			CHECK(c, write(fd, s.data.data(), s.data.size()) == (ssize_t)s.data.size(), "write: errno %d", errno);
			CHECK(c, enclose_io_close(fd) == 0, "thread %u: close of %s: errno %d", t, p, errno);
			see(c, t, s, false);
			break;
		}
		case MKDIR_RACE: {
			errno = 0;
			int r = enclose_io_mkdir(p, 0700);
			CHECK(c, r == 0 || errno == EEXIST, "thread %u: mkdir of %s, as another: %d errno %d", t, p, r, errno);
			pthread_mutex_lock(&rmu);
			won[s.race] += r == 0;
			pthread_mutex_unlock(&rmu);
			see(c, t, s, true);
			break;
		}
		case CREATE_RACE: {
			errno = 0;
			int fd = enclose_io_open(3, p, O_CREAT | O_EXCL | O_RDWR, 0600);
			CHECK(c, fd >= 0 || errno == EEXIST, "thread %u: open with O_EXCL of %s, as another: %d errno %d", t, p, fd, errno);
			pthread_mutex_lock(&rmu);
			won[s.race] += fd >= 0;
			pthread_mutex_unlock(&rmu);
			if (fd >= 0) CHECK(c, enclose_io_close(fd) == 0, "thread %u: close of %s: errno %d", t, p, errno);
			struct stat st;
			CHECK(c, enclose_io_stat(p, &st) == 0 && S_ISREG(st.st_mode), "thread %u: stat of the created %s: errno %d", t, p, errno);
			break;
		}
		case SEE: see(c, t, s, s.mode); break;
		case PREAD: {
			int fd = enclose_io_open(2, p, O_RDONLY);
			CHECK(c, fd >= 0, "thread %u: open of %s: errno %d", t, p, errno);
			Buf b(s.len);
			std::string want = s.n->c.read(s.at, s.len);
			ssize_t z = enclose_io_pread(fd, b.p, s.len, s.at);
			CHECK(c, z == (ssize_t)want.size() && !memcmp(b.p, want.data(), z), "thread %u: pread of %s at %llu: %zd errno %d or other bytes", t, p, (unsigned long long)s.at, z, errno);
			CHECK(c, enclose_io_lseek(fd, 0, SEEK_CUR) == 0, "thread %u: pread of %s moved the position", t, p);
			CHECK(c, enclose_io_close(fd) == 0, "thread %u: close of %s: errno %d", t, p, errno);
			break;
		}
		case SPREAD: {
			const Common &m = common[s.race];
			Buf b(s.len);
			std::string want = s.n->c.read(s.at, s.len);
			ssize_t z = enclose_io_pread(m.fd, b.p, s.len, s.at);
			CHECK(c, z == (ssize_t)want.size() && !memcmp(b.p, want.data(), z), "thread %u: pread of the shared %s at %llu: %zd errno %d or other bytes", t, p, (unsigned long long)s.at, z, errno);
			// (asking for the position is not promised to be free of races)
			off_t now = free_running ? m.pos : enclose_io_lseek(m.fd, 0, SEEK_CUR);
			CHECK(c, now == m.pos, "thread %u: the shared %s is at %lld, not at %lld", t, p, (long long)now, (long long)m.pos);
			struct stat st;
			CHECK(c, enclose_io_fstat(m.fd, &st) == 0 && (uint64_t)st.st_size == s.n->c.size, "thread %u: fstat of the shared %s: errno %d or another size", t, p, errno);
			break;
		}
		}
	}
}
static void gen_programs(Case &c, unsigned nt, unsigned max_steps) {
	ref::Resolver rr(w->im);
	// where things are created
	std::vector<std::string> at = {SCOPE};
	for (auto &e : w->dirs)
		if (at.size() < 3 && c.chance(1, 3) && e.path.size() < 1000) at.push_back(e.path);
	auto above = [&](const std::string &p) {
		for (auto &a : at)
			if (p == a || a.compare(0, p.size() + 1, p + "/") == 0) return true;
		return false;
	};
	std::vector<const gen::Entry *> files;
	for (auto &e : w->in)
		if (e.n->type == img::REG_T) files.push_back(&e);
	if (!files.empty())
		for (unsigned i = c.draw(3); i; --i) {
			const gen::Entry *e = files[c.draw(files.size())];
			int fd = enclose_io_open(2, e->path.c_str(), O_RDONLY);
			CHECK(c, fd >= 0, "open of %s: errno %d", show(e->path, 80).c_str(), errno);
			off_t pos = c.draw(e->n->c.size + 3);
			CHECK(c, enclose_io_lseek(fd, pos, SEEK_SET) == pos, "lseek of %s", show(e->path, 80).c_str());
			common.push_back({fd, e->n, pos});
		}
	unsigned nr = c.draw(3);
	for (unsigned i = 0; i < nr; ++i) races.push_back(at[c.draw(at.size())] + "/ race" + std::to_string(i));
	won.assign(nr, 0);
	std::map<std::string, std::string> memo;
	for (unsigned t = 0; t < nt; ++t) {
		std::vector<Step> v;
		std::vector<size_t> mine;
		unsigned n = 1 + c.draw(max_steps);
		for (unsigned i = 0; i < n; ++i) {
			Step s;
			switch (c.pick({6, 5, 4, nr ? 3u : 0u, mine.empty() ? 0u : 3u, 2, common.empty() ? 0u : 5u})) {
			case 0: {
				s.k = c.draw(NLOOK);
				if (w->in.empty()) continue;
				s.path = w->in[c.draw(w->in.size())].path;
				if (s.path.size() > 1000) continue;
				if (c.chance(1, 5)) s.path += c.chance(1, 2) ? "x" : "/y";
				bool follow = s.k != LSTAT && s.k != READLINK;
				ref::Result r = rr.resolve(s.path, follow);
				// what is created shadows the directories above it
				if (r.unspec || r.may_loop || above(s.path) || (s.k == EXTRACT && (!r.n || r.n->type != img::REG_T))) {
					s.k = LSTAT;
					if (rr.resolve(s.path, false).unspec || above(s.path)) continue;
				}
				if (follow && r.n && r.n->type == img::DIR_T) {
					// through a link the image's directory is seen, which nothing shadows
					ref::Result r2 = rr.resolve(s.path, false);
					if (r2.n && r2.n->type == img::LNK_T) s.k = LSTAT;
				}
				std::string key = std::to_string(s.k) + s.path;
				auto it = memo.find(key);
				if (it == memo.end()) it = memo.insert({key, look(s.k, s.path)}).first;
				s.want = it->second;
				break;
			}
			case 1:
			case 2: {
				s.k = c.chance(1, 2) ? MKDIR : CREATE;
				std::string d = at[c.draw(at.size())];
				if (!mine.empty() && c.chance(1, 3)) {
					const Step &q = v[mine[c.draw(mine.size())]];
					if (q.k == MKDIR && q.path.size() < 1000) d = q.path;
				}
				s.path = d + "/ t" + std::to_string(t) + "." + std::to_string(i);
				if (s.k == CREATE) s.data = text(t * 100 + i, c.sized(5000));
				mine.push_back(v.size());
				break;
			}
			case 3:
				s.race = c.draw(nr);
				s.k = s.race & 1 ? CREATE_RACE : MKDIR_RACE;
				s.path = races[s.race];
				break;
			case 4: {
				const Step q = v[mine[c.draw(mine.size())]];
				s = q;
				s.k = SEE;
				s.mode = q.k == MKDIR;
				break;
			}
			case 6:
				s.k = SPREAD;
				s.race = c.draw(common.size());
				s.n = common[s.race].n;
				s.path = "descriptor " + std::to_string(s.race);
				s.at = c.draw(s.n->c.size + 5);
				s.len = 1 + c.sized(9000);
				c.label("shared descriptor");
				break;
			default: {
				s.k = PREAD;
				if (files.empty()) continue;
				const gen::Entry *e = files[c.draw(files.size())];
				s.path = e->path;
				s.n = e->n;
				s.at = c.draw(e->n->c.size + 5);
				s.len = 1 + c.sized(9000);
			}
			}
			v.push_back(s);
		}
		progs.push_back(v);
	}
	squash_extract_clear_cache();
	for (auto &p : progs)
		for (auto &s : p) s.abs = s.path;
	if (c.chance(1, 2)) {
		// paths relative to a directory of the image
		std::string d = at[c.draw(at.size())];
		if (!w->dirs.empty() && c.chance(1, 3)) d = w->dirs[c.draw(w->dirs.size())].path;
		if (d.size() < 800) {
			CHECK(c, enclose_io_chdir(d.c_str()) == 0, "chdir to %s: errno %d", show(d, 80).c_str(), errno);
			for (auto &p : progs)
				for (auto &s : p)
					if (s.path.compare(0, d.size() + 1, d + "/") == 0 && c.chance(3, 4)) {
						s.path = s.path.substr(d.size() + 1);
						for (unsigned i = c.chance(1, 3) ? c.draw(60) : 0; i; --i) s.path = "./" + s.path;
						c.label("relative paths");
					}
			c.note("the working directory is %s", show(d, 80).c_str());
		}
	}
	if (c.want_notes)
		for (unsigned t = 0; t < nt; ++t) {
			std::string s;
			for (auto &x : progs[t]) s += (s.empty() ? "" : "; ") + std::string(kn[x.k]) + " " + show(x.path, 60);
			c.note("thread %u: %s", t, s.substr(0, 600).c_str());
		}
}
static void check_after(Case &c, int fds0) {
	for (auto &m : common) {
		CHECK(c, enclose_io_lseek(m.fd, 0, SEEK_CUR) == m.pos, "a pread moved the position of a shared descriptor");
		CHECK(c, enclose_io_close(m.fd) == 0, "close of a shared descriptor: errno %d", errno);
	}
	CHECK(c, count_fds() == fds0, "%d descriptors are left", count_fds() - fds0);
	std::vector<std::string> top;
	std::set<std::string> ex;
	std::map<std::string, std::string> file_of;
	for (auto &x : extracted) {
		CHECK(c, x.second.size() == 1, "extract of %s gave %zu different paths", show(x.first, 80).c_str(), x.second.size());
		const std::string &f = *x.second.begin();
		auto it = file_of.insert({f, of[x.first]}).first;
		CHECK(c, it->second == of[x.first], "%s is the extract of %s and %s", f.c_str(), show(it->second, 80).c_str(), show(of[x.first], 80).c_str());
		ex.insert(f);
	}
	unsigned made = 0;
	for (size_t t = 0; t < progs.size(); ++t)
		for (auto &s : progs[t]) {
			if (s.k == MKDIR || s.k == CREATE) {
				see(c, t, s, s.k == MKDIR);
				++made;
			}
			if (s.k == MKDIR_RACE || s.k == CREATE_RACE) {
				CHECK(c, won[s.race] == 1, "%d threads created %s", won[s.race], s.path.c_str());
				++made;
			}
		}
	for (auto &f : files_in(tmp)) {
		struct stat st;
		if (lstat(f.c_str(), &st)) continue;
		if (S_ISDIR(st.st_mode)) top.push_back(f);
		else CHECK(c, ex.count(f), "%s is left in the temporary directory", f.c_str());
	}
	CHECK(c, top.size() == (made ? 1 : 0) || (!made && top.size() <= 1), "%zu directories are in the temporary directory, %u things were created", top.size(), made);
	if (made) c.label("created");
	if (!ex.empty()) c.label("extracted");
}
static void p30(Case &c) {
	begin(c);
	env_dirs(c);
	w = new World;
	make_world(c, *w, false);
	crowd_fds(c);
	int fds0 = count_fds();
	unsigned nt = 2 + c.draw(3);
	vf_rand_clash = c.draw(4);
	gen_programs(c, nt, 6);
	if (c.chance(1, 4)) {
		// the overlay is there already
		enclose_io_mkdir((SCOPE + "/ first").c_str(), 0700);
		c.label("overlay begun");
	}
	run_thread = run_program;
	run_schedule(c, nt);
	check_after(c, fds0);
	CHECK(c, vf_locks_held() == 0, "a lock is held");
	squash_extract_clear_cache();
	w->m.unmount();
	if (chdir("/")) {}
	rm_tree(base_dir);
	if (nswitch >= nt + 1 && at_plan >= 2) c.nontrivial();
}

static pthread_barrier_t bar;
static void *free_body(void *a) {
	pthread_barrier_wait(&bar);
	run_program(*g_case, (unsigned)(uintptr_t)a);
	return nullptr;
}
static void p30r(Case &c) {
	begin(c);
	env_dirs(c);
	w = new World;
	make_world(c, *w, false);
	crowd_fds(c);
	int fds0 = count_fds();
	unsigned nt = 2 + c.draw(5);
	free_running = true;
	gen_programs(c, nt, 10);
	pthread_barrier_init(&bar, nullptr, nt);
	std::vector<pthread_t> id(nt);
	for (unsigned t = 0; t < nt; ++t)
		if (pthread_create(&id[t], nullptr, free_body, (void *)(uintptr_t)t)) c.fail("pthread_create");
	for (unsigned t = 0; t < nt; ++t) pthread_join(id[t], nullptr);
	pthread_barrier_destroy(&bar);
	for (auto &p : progs) c.count(p.size());
	check_after(c, fds0);
	squash_extract_clear_cache();
	w->m.unmount();
	if (chdir("/")) {}
	rm_tree(base_dir);
	c.label("%u threads", nt);
	c.nontrivial();
}

int main(int argc, char **argv) {
	return pbt::run_main(argc, argv, {
		{"P30", p30, 5000, 150000, "case = 2-4 threads with 1-6 interposed calls each on an image and a new overlay, and a schedule of up to 80 preemptions at the library's lock, memory, copy and file calls; "
		 "non-trivial = at least 2 preemptions and more switches than threads", nullptr},
		{"P30R", p30r, 1500, 30000, "case = 2-6 threads with 1-10 interposed calls each, running freely under ThreadSanitizer; every case counts", nullptr},
	});
}
