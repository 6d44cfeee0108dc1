// P20 threads that share images: generated schedules (P20), free running under
// ThreadSanitizer (P20R)
#include "ops.hpp"
#include "sched.hpp"
using img::Image;
using img::Node;
using ops::Op;

// ---- programs of threads

struct Step {
	enum Kind { OP, FD_OPEN, FD_READ, FD_SEEK, FD_CLOSE, DIR_OPEN, DIR_READ, DIR_REWIND, DIR_CLOSE, MOUNT, BIG, EXTRACT } k;
	unsigned w = 0;                   // image
	Op o;
	std::string want;                 // result of OP
	unsigned slot = 0;
	std::string path;
	Node *n = nullptr;
	uint64_t a = 0;
};
struct World {
	Image im;
	Mounted m;
	std::vector<gen::Entry> es;
};
struct Program {
	std::vector<Step> steps;
};
static std::vector<std::unique_ptr<World>> ws;
static std::vector<Program> progs;

static void gen_programs(Case &c, unsigned nt, unsigned max_steps) {
	unsigned nw = ws.size();
	// the operations the threads have in common
	std::vector<Step> pool;
	for (unsigned i = 0; i < 3; ++i) {
		Step s;
		s.k = Step::OP;
		s.w = c.draw(nw);
		s.o = ops::gen_op(c, ws[s.w]->im, ws[s.w]->es);
		pool.push_back(s);
	}
	for (unsigned t = 0; t < nt; ++t) {
		Program p;
		unsigned n = 2 + c.draw(max_steps);
		struct Slot {
			int w = -1;
			Node *n;
			bool dir;
			std::string path;
		} slots[3];
		for (unsigned i = 0; i < n; ++i) {
			Step s;
			s.slot = c.draw(3);
			Slot &sl = slots[s.slot];
			switch (c.pick({5, 4, 9, 1, 1})) {
			case 0: s.k = Step::OP; s.w = c.draw(nw); s.o = ops::gen_op(c, ws[s.w]->im, ws[s.w]->es); break;
			case 1: s = pool[c.draw(pool.size())]; break;
			case 2: {
				if (sl.w < 0) {
					s.w = c.draw(nw);
					World &w = *ws[s.w];
					std::vector<const gen::Entry *> v;
					bool dir = c.chance(2, 5);
					for (auto &e : w.es)
						if (e.n->type == (dir ? img::DIR_T : img::REG_T)) v.push_back(&e);
					if (v.empty() && !dir) {
						s.k = Step::OP;
						s.o.k = ops::STAT;
						s.o.path = "/";
						break;
					}
					s.k = dir ? Step::DIR_OPEN : Step::FD_OPEN;
					if (v.empty() || (dir && c.chance(1, 3))) s.n = w.im.root, s.path = "/";
					else {
						const gen::Entry *e = v[c.draw(v.size())];
						s.n = e->n, s.path = e->path;
					}
					sl.w = s.w, sl.n = s.n, sl.dir = dir, sl.path = s.path;
				} else {
					s.w = sl.w, s.n = sl.n, s.path = sl.path;
					if (c.chance(1, 4)) {
						s.k = sl.dir ? Step::DIR_CLOSE : Step::FD_CLOSE;
						sl.w = -1;
					} else if (sl.dir) {
						s.k = c.chance(1, 6) ? Step::DIR_REWIND : Step::DIR_READ;
						s.a = 1 + c.sized(200);
					} else if (c.chance(1, 4)) {
						s.k = Step::FD_SEEK;
						s.a = c.draw(s.n->c.size + 10);
					} else {
						s.k = Step::FD_READ;
						s.a = 1 + c.draw(std::min<uint64_t>(3 * ws[s.w]->im.bs(), 100000));
					}
				}
				break;
			}
			case 4: {
				// mostly one of a few files
				s.k = Step::EXTRACT;
				s.w = c.draw(nw);
				std::vector<const gen::Entry *> v;
				for (auto &e : ws[s.w]->es)
					if (e.n->type == img::REG_T) v.push_back(&e);
				if (v.empty()) {
					s.k = Step::OP;
					s.o.k = ops::STAT;
					s.o.path = "/";
					break;
				}
				const gen::Entry *e = v[c.chance(1, 3) ? c.draw(v.size()) : c.draw(std::min<size_t>(v.size(), 2))];
				s.n = e->n, s.path = e->path;
				break;
			}
			default:
				s.k = Step::MOUNT;
				s.w = c.draw(nw);
				s.o = ops::gen_op(c, ws[s.w]->im, ws[s.w]->es);
			}
			p.steps.push_back(s);
		}
		// what is open is closed
		for (unsigned i = 0; i < 3; ++i)
			if (slots[i].w >= 0) {
				Step s;
				s.k = slots[i].dir ? Step::DIR_CLOSE : Step::FD_CLOSE;
				s.slot = i;
				s.w = slots[i].w, s.n = slots[i].n, s.path = slots[i].path;
				p.steps.push_back(s);
			}
		progs.push_back(p);
	}
	// what every operation gives when alone
	std::map<std::string, std::string> memo;
	for (auto &p : progs)
		for (auto &s : p.steps)
			if (s.k == Step::OP || s.k == Step::MOUNT) {
				char key[80];
				snprintf(key, sizeof key, "%u %p ", s.w, (void *)s.o.n);
				std::string ks = key + s.o.str() + s.o.path + "\n" + s.o.name;
				auto it = memo.find(ks);
				if (it == memo.end()) {
					Mounted f;
					f.mount(ws[s.w]->im.bytes);
					it = memo.insert({ks, ops::exec(&f.fs, s.o)}).first;
					f.unmount();
				}
				s.want = it->second;
			}
}

static pthread_mutex_t exmu = PTHREAD_MUTEX_INITIALIZER;
static std::map<std::pair<unsigned, std::string>, std::set<std::string>> extracted;
static std::string slurp(const std::string &f, bool &ok) {
	std::string r;
	int fd = open(f.c_str(), O_RDONLY);
	ok = fd >= 0;
	if (!ok) return r;
	char b[65536];
	ssize_t n;
	while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n);
	close(fd);
	return r;
}
// every file was extracted once, whoever asked
static void check_extracts(Case &c) {
	std::map<std::string, std::string> who;
	for (auto &x : extracted) {
		CHECK(c, x.second.size() == 1, "extract of %s gave %zu different paths", show(x.first.second, 80).c_str(), x.second.size());
		auto r = who.insert({*x.second.begin(), x.first.second});
		CHECK(c, r.second, "%s is the extract of %s and of %s", x.second.begin()->c_str(), show(r.first->second, 80).c_str(), show(x.first.second, 80).c_str());
		const char *f = squash_extract(&ws[x.first.first]->m.fs, x.first.second.c_str(), nullptr);
		CHECK(c, f && *x.second.begin() == f, "extract of %s again gives another path", show(x.first.second, 80).c_str());
	}
	if (!extracted.empty()) c.label("extracts");
	extracted.clear();
	squash_extract_clear_cache();
}

static void run_program(Case &c, unsigned t, const Program &p) {
	struct {
		int fd = -1;
		SQUASH_DIR *d = nullptr;
		uint64_t pos = 0;
		std::map<std::string, Node *>::iterator it;
	} sl[3];
	for (auto &s : p.steps) {
		auto &x = sl[s.slot];
		World &w = *ws[s.w];
		switch (s.k) {
		case Step::OP: {
			std::string r = ops::exec(&w.m.fs, s.o);
			CHECK(c, r == s.want, "thread %u: %s: %s, alone: %s", t, s.o.str().c_str(), r.c_str(), s.want.c_str());
			break;
		}
		case Step::MOUNT: {
			Mounted f;
			f.mount(w.im.bytes);
			CHECK(c, f.open, "thread %u: opening the image: %d", t, (int)f.err);
			std::string r = ops::exec(&f.fs, s.o);
			CHECK(c, r == s.want, "thread %u: %s on an image of its own: %s, alone: %s", t, s.o.str().c_str(), r.c_str(), s.want.c_str());
			f.unmount();
			break;
		}
		case Step::FD_OPEN:
			x.fd = squash_open(&w.m.fs, s.path.c_str());
			CHECK(c, x.fd >= 0, "thread %u: open %s: errno %d", t, show(s.path, 80).c_str(), errno);
			x.pos = 0;
			break;
		case Step::FD_READ: {
			Buf b(s.a);
			ssize_t r = squash_read(x.fd, b.p, s.a);
			std::string want = s.n->c.read(x.pos, s.a);
			CHECK(c, r == (ssize_t)want.size(), "thread %u: read of %s at %llu gives %zd bytes (errno %d), should give %zu", t, show(s.path, 80).c_str(), (unsigned long long)x.pos, r, errno,
			      want.size());
			CHECK(c, !memcmp(b.p, want.data(), r), "thread %u: read of %s at %llu, %zd bytes, differs at byte %llu", t, show(s.path, 80).c_str(), (unsigned long long)x.pos, r,
			      (unsigned long long)first_diff(b.p, want));
			x.pos += r;
			break;
		}
		case Step::FD_SEEK: {
			off_t r = squash_lseek(x.fd, s.a, SQUASH_SEEK_SET);
			CHECK(c, r == (off_t)s.a, "thread %u: lseek to %llu gives %lld", t, (unsigned long long)s.a, (long long)r);
			x.pos = s.a;
			struct stat st;
			CHECK(c, squash_fstat(x.fd, &st) == 0 && stat_diff(s.n, st).empty(), "thread %u: fstat of %s", t, show(s.path, 80).c_str());
			break;
		}
		case Step::FD_CLOSE:
			CHECK(c, squash_close(x.fd) == 0, "thread %u: close of %s: errno %d", t, show(s.path, 80).c_str(), errno);
			x.fd = -1;
			break;
		case Step::DIR_OPEN:
			x.d = squash_opendir(&w.m.fs, s.path.c_str());
			CHECK(c, x.d, "thread %u: opendir %s: errno %d", t, show(s.path, 80).c_str(), errno);
			x.it = s.n->kids.begin();
			break;
		case Step::DIR_REWIND:
			squash_rewinddir(x.d);
			x.it = s.n->kids.begin();
			break;
		case Step::DIR_READ:
			for (uint64_t q = 0; q < s.a; ++q) {
				errno = 0;
				struct dirent *e = squash_readdir(x.d);
				if (x.it == s.n->kids.end()) {
					CHECK(c, !e && !errno, "thread %u: readdir of %s goes on after the end", t, show(s.path, 80).c_str());
					break;
				}
				CHECK(c, e, "thread %u: readdir of %s: errno %d", t, show(s.path, 80).c_str(), errno);
				CHECK(c, x.it->first == e->d_name && e->d_ino == x.it->second->ino, "thread %u: readdir of %s gives %s, packed %s", t, show(s.path, 80).c_str(),
				      show(e->d_name, strlen(e->d_name), 80).c_str(), show(x.it->first, 80).c_str());
				++x.it;
			}
			break;
		case Step::BIG: {
			int fd = squash_open(&w.m.fs, s.path.c_str());
			CHECK(c, fd >= 0, "thread %u: open %s: errno %d", t, s.path.c_str(), errno);
			off_t at = squash_lseek(fd, s.a, SQUASH_SEEK_SET);
			CHECK(c, at == (off_t)s.a, "thread %u: lseek to %llu gives %lld", t, (unsigned long long)s.a, (long long)at);
			Buf b(600);
			ssize_t r = squash_read(fd, b.p, 600);
			std::string want = s.n->c.read(s.a, 600);
			CHECK(c, r == (ssize_t)want.size(), "thread %u: read of %s at %llu gives %zd bytes (errno %d), should give %zu", t, s.path.c_str(), (unsigned long long)s.a, r, errno, want.size());
			CHECK(c, !memcmp(b.p, want.data(), r), "thread %u: read of %s at %llu differs at byte %llu", t, s.path.c_str(), (unsigned long long)s.a, (unsigned long long)first_diff(b.p, want));
			CHECK(c, squash_close(fd) == 0, "thread %u: close of %s: errno %d", t, s.path.c_str(), errno);
			break;
		}
		case Step::EXTRACT: {
			const char *f = squash_extract(&w.m.fs, s.path.c_str(), s.a ? "x" : nullptr);
			CHECK(c, f, "thread %u: extract %s: errno %d", t, show(s.path, 80).c_str(), errno);
			std::string file = f;
			bool ok;
			std::string got = slurp(file, ok);
			CHECK(c, ok, "thread %u: extract %s gives %s, which is not there", t, show(s.path, 80).c_str(), file.c_str());
			CHECK(c, got == s.n->c.read(0, s.n->c.size), "thread %u: extract %s: the file has other content (%zu bytes, packed %llu)", t, show(s.path, 80).c_str(), got.size(),
			      (unsigned long long)s.n->c.size);
			pthread_mutex_lock(&exmu);
			extracted[{s.w, s.path}].insert(file);
			pthread_mutex_unlock(&exmu);
			break;
		}
		case Step::DIR_CLOSE:
			CHECK(c, squash_closedir(x.d) == 0, "thread %u: closedir: errno %d", t, errno);
			x.d = nullptr;
			break;
		}
	}
}

static void describe(Case &c) {
	if (!c.want_notes) return;
	static const char *kn[] = {"op", "open", "read", "seek", "close", "opendir", "readdir", "rewind", "closedir", "own image", "read far in", "extract"};
	for (size_t t = 0; t < progs.size(); ++t) {
		std::string s;
		for (auto &x : progs[t].steps) {
			char b[64];
			snprintf(b, sizeof b, "%s%s %llu", s.empty() ? "" : "; ", kn[x.k], (unsigned long long)x.a);
			s += b;
			if (x.k == Step::OP || x.k == Step::MOUNT) s += " " + x.o.str();
			if (x.k == Step::FD_OPEN || x.k == Step::DIR_OPEN || x.k == Step::BIG || x.k == Step::EXTRACT) s += " " + show(x.path, 30);
		}
		c.note("thread %zu: %s", t, s.substr(0, 500).c_str());
	}
}

static void worlds(Case &c, unsigned max_blocks) {
	unsigned nw = 1 + (c.chance(1, 3) ? 1 + c.draw(2) : 0);
	for (unsigned i = 0; i < nw; ++i) {
		ws.emplace_back(new World);
		gen::Cfg g;
		g.max_nodes = c.chance(1, 4) ? 40 : 12;
		g.wide = 8, g.wide_max = 600;
		g.max_blocks = max_blocks;
		g.chains = c.chance(1, 2);
		gen::image(c, ws[i]->im, g);
		gen::describe(c, ws[i]->im, 10);
		ws[i]->es = gen::entries(ws[i]->im);
		mount_ok(c, ws[i]->m, ws[i]->im);
	}
}

static void search(Case &c, unsigned nt) {
	describe(c);
	crowd_fds(c);
	int fds0 = count_fds();
	if (c.chance(1, 2)) {
		// beginning with filled caches, or at least some
		for (unsigned t = 0; t < nt; ++t) run_program(c, t, progs[t]);
		c.label("warm");
	}
	run_thread = [](Case &c, unsigned t) { run_program(c, t, progs[t]); };
	run_schedule(c, nt);
	CHECK(c, count_fds() == fds0, "%d descriptors are left", count_fds() - fds0);
	// all is as it should be afterwards
	for (auto &p : progs) run_program(c, 99, p);
	check_extracts(c);
	for (auto &w : ws) w->m.unmount();
	static long fin;
	fin = vf_live();
	CHECK(c, fin <= 3, "%ld blocks are left when all is closed", fin);
	if (nswitch >= nt + 1 && at_plan >= 2) c.nontrivial();
}

static void p20(Case &c) {
	begin(c);
	worlds(c, 6);
	unsigned nt = 2 + c.draw(3);
	gen_programs(c, nt, 7);
	search(c, nt);
}
// more large files than the index of block lists has room for
static void p20b(Case &c) {
	begin(c);
	ws.emplace_back(new World);
	World &w = *ws[0];
	gen::Cfg g;
	gen::opts(c, w.im, g);
	w.im.o.bs_log = 12;
	w.im.o.sparse = true;
	w.im.root = w.im.add(img::DIR_T);
	unsigned nf = 3 + c.draw(10);
	for (unsigned i = 0; i < nf; ++i) {
		Node *x = w.im.add(img::REG_T);
		char b[16];
		snprintf(b, sizeof b, "big%u", i);
		w.im.root->kids[b] = x;
		uint64_t nb = 2049 + c.draw(60);
		x->c.bs = 4096;
		x->c.seed = 7 + i;
		x->c.size = nb * 4096 - c.draw(4096);
		x->frag = c.chance(1, 2);
		x->ext = true;
		x->c.rest = img::HOLE;
		unsigned ns = 1 + c.draw(6);
		for (unsigned k = 0; k < ns; ++k) x->c.special[2030 + c.draw(nb - 2030)] = img::TEXT;
	}
	w.im.write();
	w.es = gen::entries(w.im);
	mount_ok(c, w.m, w.im);
	c.note("%u files of 2049-2108 blocks, image %zu bytes", nf, w.im.bytes.size());
	unsigned nt = 2 + c.draw(2);
	for (unsigned t = 0; t < nt; ++t) {
		Program p;
		unsigned n = 1 + c.draw(12), f = c.draw(nf), stride = 1 + c.draw(nf);
		for (unsigned i = 0; i < n; ++i) {
			Step s;
			s.k = Step::BIG;
			const gen::Entry &e = w.es[0];
			std::vector<const gen::Entry *> v;
			for (auto &q : w.es)
				if (q.n->type == img::REG_T) v.push_back(&q);
			const gen::Entry &q = *v[f % v.size()];
			(void)e;
			f += stride;
			s.path = q.path, s.n = q.n;
			auto it = q.n->c.special.begin();
			std::advance(it, c.draw(q.n->c.special.size()));
			s.a = c.chance(3, 4) ? it->first * 4096 + c.draw(4096) : c.draw(q.n->c.size);
			p.steps.push_back(s);
		}
		progs.push_back(p);
	}
	search(c, nt);
	if (nf > 8) c.label("more large files than index slots");
}

// ---- free running

static pthread_barrier_t bar;
static void *free_body(void *a) {
	unsigned t = (unsigned)(uintptr_t)a;
	pthread_barrier_wait(&bar);
	run_program(*g_case, t, progs[t]);
	return nullptr;
}
static void p20r(Case &c) {
	begin(c);
	worlds(c, 5);
	unsigned nt = 2 + c.draw(5);
	gen_programs(c, nt, 12);
	describe(c);
	crowd_fds(c);
	int fds0 = count_fds();
	unsigned rounds = 3;
	for (unsigned r = 0; r < rounds; ++r) {
		for (auto &w : ws) {
			// cold caches each time
			w->m.unmount();
			mount_ok(c, w->m, w->im);
		}
		pthread_barrier_init(&bar, nullptr, nt);
		std::vector<pthread_t> id(nt);
		for (unsigned t = 0; t < nt; ++t)
			if (pthread_create(&id[t], nullptr, free_body, (void *)(uintptr_t)t)) c.fail("pthread_create");
		for (unsigned t = 0; t < nt; ++t) pthread_join(id[t], nullptr);
		pthread_barrier_destroy(&bar);
		for (auto &p : progs) c.count(p.steps.size());
		check_extracts(c);
		CHECK(c, count_fds() == fds0, "%d descriptors are left", count_fds() - fds0);
	}
	for (auto &w : ws) w->m.unmount();
	c.label("%u threads", nt);
	c.nontrivial();
}

int main(int argc, char **argv) {
	return pbt::run_main(argc, argv, {
		{"P20", p20, 9000, 300000, "case = 2-4 threads with 2-8 steps each on 1-3 shared images and a schedule of up to 80 preemptions at the library's lock, memory and copy calls; "
		 "non-trivial = at least 2 preemptions and more switches than threads", nullptr},
		{"P20B", p20b, 5000, 150000, "case = 2-3 threads with 1-12 reads each far inside 3-12 large files of one image (the index of block lists holds 8), and a schedule as for P20; "
		 "non-trivial = as for P20", nullptr},
		{"P20R", p20r, 1200, 30000, "case = 2-6 threads with 2-13 steps each, running freely three times under ThreadSanitizer; every case counts", nullptr},
	});
}
