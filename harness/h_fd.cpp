// P03 descriptors, P21 everything is given back
#include "ops.hpp"
using img::Image;
using img::Node;

static void dead(Case &c, int fd, const char *why) {
	char b[4];
	struct stat st;
	c.count();
	errno = 0;
	CHECK(c, squash_read(fd, b, 4) == -1 && errno == EBADF, "read of %d (%s): errno %d, not EBADF", fd, why, errno);
	errno = 0;
	CHECK(c, squash_lseek(fd, 0, SQUASH_SEEK_SET) == -1 && errno == EBADF, "lseek of %d (%s): errno %d, not EBADF", fd, why, errno);
	errno = 0;
	CHECK(c, squash_fstat(fd, &st) == -1 && errno == EBADF, "fstat of %d (%s): errno %d, not EBADF", fd, why, errno);
	CHECK(c, !SQUASH_VALID_VFD(fd), "%d (%s) is a valid virtual descriptor", fd, why);
}
static void dead_close(Case &c, int fd, const char *why) {
	errno = 0;
	CHECK(c, squash_close(fd) == -1 && errno == EBADF, "close of %d (%s): errno %d, not EBADF", fd, why, errno);
}

static bool real_open(int fd) { return fcntl(fd, F_GETFD) != -1; }

struct Live {
	int fd;
	Node *n;
	SQUASH_DIR *dir;
};

static void p03(Case &c) {
	begin(c);
	gen::Cfg g;
	g.hard_names = false, g.max_blocks = 2, g.big_blocks = false, g.max_nodes = 12;
	Image im;
	gen::image(c, im, g);
	gen::describe(c, im);
	Mounted m;
	mount_ok(c, m, im);
	auto es = gen::entries(im);
	ref::Resolver rr(im);
	// room for 300 descriptors, sometimes above many that the process has already
	struct rlimit rl = {300, 300}, had;
	getrlimit(RLIMIT_NOFILE, &had);
	int room = 300;
	if (c.chance(1, 25) && had.rlim_cur >= 4500) {
		static const int tops[] = {1000, 1023, 2047, 3000, 4090};
		int top = tops[c.draw(5)] + (int)c.draw(8);
		room = top + 300;
		for (int f = 3; f < top; ++f)
			if (!real_open(f)) fcntl(0, F_DUPFD, f);
		fd_scan = room + 10;
		c.note("all descriptors below %d are taken", top);
		c.label("numbers above 1000");
	}
	rl.rlim_cur = rl.rlim_max = room;
	setrlimit(RLIMIT_NOFILE, &rl);
	int base = count_fds();
	std::vector<Live> live;
	std::vector<int> reals, gone;
	unsigned k = 10 + c.draw(c.thorough ? 200 : 80);
	long held = 0;
	auto verify = [&](const Live &l) {
		struct stat st;
		c.count();
		CHECK(c, SQUASH_VALID_VFD(l.fd), "%d is open but not valid", l.fd);
		CHECK(c, squash_fstat(l.fd, &st) == 0, "fstat of the open %d: errno %d", l.fd, errno);
		std::string d = stat_diff(l.n, st);
		CHECK(c, d.empty(), "descriptor %d: %s", l.fd, d.c_str());
		CHECK(c, real_open(l.fd), "the number %d of an open virtual descriptor is free", l.fd);
	};
	auto took = [&](int fd) {
		for (auto &l : live) CHECK(c, l.fd != fd, "open returned %d, which is open", fd);
		for (int r : reals) CHECK(c, r != fd, "open returned %d, which is a real descriptor", fd);
		CHECK(c, fd > 2, "open returned %d", fd);
	};
	for (unsigned i = 0; i < k; ++i) {
		switch (c.pick({10, 3, 7, 2, 2, 2, 3, 1, 1})) {
		case 0:
		case 1: {
			std::string p = es.empty() || c.chance(1, 8) ? "/" : es[c.draw(es.size())].path;
			if (c.chance(1, 6)) p += "/nothing";
			bool nofollow = c.chance(1, 6);
			ref::Result r = rr.resolve(p, !nofollow);
			if (r.unspec || r.may_loop) break;
			errno = 0;
			int fd = nofollow ? squash_open_inner(&m.fs, p.c_str(), 0) : squash_open(&m.fs, p.c_str());
			c.note("open %s -> %d", show(p).c_str(), fd);
			if (r.n) {
				if (fd < 0 && errno == EMFILE) {
					CHECK(c, count_fds() >= room - 10, "EMFILE with %d descriptors", count_fds());
					c.label("out of descriptors");
					break;
				}
				CHECK(c, fd >= 0, "open of %s: errno %d", p.c_str(), errno);
				took(fd);
				live.push_back({fd, r.n, nullptr});
				if (r.n->type == img::DIR_T) {
					// a directory without a stream: only numbers are looked at
					c.label("directory opened");
				}
				verify(live.back());
				for (size_t q = 0; q < gone.size(); ++q)
					if (gone[q] == fd) {
						gone.erase(gone.begin() + q);
						c.label("number used again");
						c.nontrivial();
						break;
					}
			} else {
				CHECK(c, fd == -1, "open of the missing %s gave %d", p.c_str(), fd);
				CHECK(c, r.err_ok(errno), "open of the missing %s: errno %d", p.c_str(), errno);
				c.label("open refused");
			}
			break;
		}
		case 2:
			if (!live.empty()) {
				size_t j = c.chance(1, 2) ? live.size() - 1 : c.draw(live.size());
				Live l = live[j];
				c.note("close %d", l.fd);
				if (!l.dir && c.chance(1, 12)) {
					// the system refuses
					vf_close_fails = c.chance(1, 2) ? EIO : EINTR;
					errno = 0;
					int r = squash_close(l.fd), e = errno, e0 = vf_close_fails;
					vf_close_fails = 0;
					CHECK(c, r == -1 && e == e0, "close of %d, which the system refuses: %d errno %d", l.fd, r, e);
					CHECK(c, vf_locks_held() == 0, "a lock is held after a close the system refuses");
					verify(live[c.draw(live.size())]);
					c.label("close refused");
				}
				if (l.dir) CHECK(c, squash_closedir(l.dir) == 0, "closedir: errno %d", errno);
				else CHECK(c, squash_close(l.fd) == 0, "close of %d: errno %d", l.fd, errno);
				live.erase(live.begin() + j);
				gone.push_back(l.fd);
				dead(c, l.fd, "just closed");
				dead_close(c, l.fd, "just closed");
				CHECK(c, !real_open(l.fd), "closing %d leaves the number taken", l.fd);
			}
			break;
		case 3: {
			int fd = open("/dev/null", O_RDONLY);
			if (fd < 0) break;
			for (auto &l : live) CHECK(c, l.fd != fd, "the system handed out %d, which is an open virtual descriptor", fd);
			reals.push_back(fd);
			for (size_t q = 0; q < gone.size(); ++q)
				if (gone[q] == fd) {
					gone.erase(gone.begin() + q);
					c.label("number reused by a real descriptor");
					break;
				}
			dead(c, fd, "real");
			break;
		}
		case 4:
			if (!reals.empty()) {
				size_t j = c.draw(reals.size());
				dead_close(c, reals[j], "real");
				CHECK(c, real_open(reals[j]), "squash_close closed the real descriptor %d", reals[j]);
				close(reals[j]);
				dead(c, reals[j], "real, closed");
				reals.erase(reals.begin() + j);
			}
			break;
		case 5: {
			static const int odd[] = {-1, -2, -1000, INT32_MIN, INT32_MAX, 0, 1, 2, 1 << 20, 65535, 4096, -4096};
			int fd = c.chance(2, 3) ? odd[c.draw(12)] : (int)c.draw(700);
			bool is = false;
			for (auto &l : live) is |= l.fd == fd;
			if (is) break;
			dead(c, fd, "never opened");
			bool r = fd >= 0 && real_open(fd);
			dead_close(c, fd, "never opened");
			if (r) CHECK(c, real_open(fd), "squash_close closed the real descriptor %d", fd);
			break;
		}
		case 6: {
			std::string p = es.empty() || c.chance(1, 3) ? "/" : es[c.draw(es.size())].path;
			ref::Result r = rr.resolve(p, true);
			if (r.unspec || r.may_loop) break;
			errno = 0;
			SQUASH_DIR *d = squash_opendir(&m.fs, p.c_str());
			c.note("opendir %s -> %s", show(p).c_str(), d ? "stream" : "NULL");
			if (r.n && r.n->type == img::DIR_T) {
				if (!d && errno == EMFILE && count_fds() >= room - 10) break;
				CHECK(c, d, "opendir of %s: errno %d", p.c_str(), errno);
				int fd = squash_dirfd(d);
				took(fd);
				live.push_back({fd, r.n, d});
				verify(live.back());
				for (size_t q = 0; q < gone.size(); ++q)
					if (gone[q] == fd) {
						gone.erase(gone.begin() + q);
						break;
					}
				c.label("directory stream");
			} else {
				CHECK(c, !d, "opendir of %s gave a stream", p.c_str());
				CHECK(c, r.n ? errno == ENOTDIR : r.err_ok(errno), "opendir of %s: errno %d", p.c_str(), errno);
				c.label("opendir refused");
			}
			break;
		}
		case 7: {
			// many at once
			if (es.empty()) break;
			unsigned cnt = 20 + c.draw(280);
			Node *n = im.root;
			for (unsigned q = 0; q < cnt; ++q) {
				errno = 0;
				int fd = squash_open(&m.fs, "/");
				if (fd < 0) {
					CHECK(c, errno == EMFILE, "open: errno %d with %d descriptors", errno, count_fds());
					CHECK(c, count_fds() >= room - 1, "EMFILE with only %d descriptors", count_fds());
					c.label("out of descriptors");
					break;
				}
				took(fd);
				live.push_back({fd, n, nullptr});
				for (size_t z = 0; z < gone.size(); ++z)
					if (gone[z] == fd) {
						gone.erase(gone.begin() + z);
						break;
					}
			}
			c.note("%zu descriptors open", live.size());
			c.label("many descriptors");
			break;
		}
		default: {
			if (live.size() < 5) break;
			// close many, in an order of its own
			unsigned cnt = c.draw(live.size());
			for (unsigned q = 0; q < cnt; ++q) {
				size_t j = c.chance(1, 2) ? live.size() - 1 : c.draw(live.size());
				Live l = live[j];
				CHECK(c, (l.dir ? squash_closedir(l.dir) : squash_close(l.fd)) == 0, "close of %d: errno %d", l.fd, errno);
				live.erase(live.begin() + j);
				gone.push_back(l.fd);
			}
		}
		}
		for (auto &l : live) CHECK(c, SQUASH_VALID_VFD(l.fd), "%d is open but not valid", l.fd);
		if (live.size() < 20 || i % 8 == 0) {
			for (auto &l : live) verify(l);
			for (int f : gone) dead(c, f, "closed");
		}
		int now = count_fds() , want = base + (int)live.size() + (int)reals.size();
		if (live.size() < 200) CHECK(c, now == want, "%d descriptors are open in the process, should be %d", now, want);
		CHECK(c, vf_locks_held() == 0, "a mutex is left locked");
	}
	while (!live.empty()) {
		size_t j = c.draw(live.size());
		CHECK(c, (live[j].dir ? squash_closedir(live[j].dir) : squash_close(live[j].fd)) == 0, "close of %d: errno %d", live[j].fd, errno);
		live.erase(live.begin() + j);
	}
	for (int r : reals) close(r);
	CHECK(c, count_fds() == base, "%d descriptors left of %d", count_fds(), base);
	m.unmount();
}

// a mixed history; closes what it opens, in an order of its own
static void history(Case &c, sqfs *fs, const Image &im, const std::vector<gen::Entry> &es, const std::vector<ops::Op> &todo, const std::vector<uint32_t> &rnd) {
	std::vector<int> fds;
	std::vector<SQUASH_DIR *> ds;
	std::vector<sqfs_traverse *> ts;
	size_t r = 0;
	auto next = [&]() { return rnd[r++ % rnd.size()]; };
	for (auto &o : todo) {
		switch (next() % 6) {
		case 0: {
			int fd = squash_open(fs, o.path.empty() ? "/" : o.path.c_str());
			if (fd >= 0) {
				fds.push_back(fd);
				Buf b(700);
				if (next() % 2) squash_read(fd, b.p, b.n);
				// far inside a large file
				if (next() % 2 && squash_lseek(fd, (off_t)next() * 8000, SQUASH_SEEK_SET) >= 0) squash_read(fd, b.p, b.n);
			}
			break;
		}
		case 1: {
			SQUASH_DIR *d = squash_opendir(fs, o.path.empty() ? "/" : o.path.c_str());
			if (d) {
				ds.push_back(d);
				for (unsigned i = next() % 40; i; --i) squash_readdir(d);
				if (next() % 2) squash_rewinddir(d);
			}
			break;
		}
		case 2: {
			sqfs_traverse *t = new sqfs_traverse;
			sqfs_err e;
			if (sqfs_traverse_open(t, fs, (o.n ? o.n : im.root)->ref) == SQFS_OK) {
				for (unsigned i = next() % 30; i; --i)
					if (!sqfs_traverse_next(t, &e)) break;
				ts.push_back(t);
			} else delete t;
			break;
		}
		case 3: {
			const char *p = squash_extract(fs, o.path.empty() ? "/" : o.path.c_str(), next() % 2 ? "so" : nullptr);
			(void)p;
			break;
		}
		default: ops::exec(fs, o);
		}
	}
	while (!fds.empty() || !ds.empty() || !ts.empty()) {
		unsigned w = next() % 3;
		for (int q = 0; q < 3 && (w == 0 ? fds.empty() : w == 1 ? ds.empty() : ts.empty()); ++q) w = (w + 1) % 3;
		if (w == 0 && !fds.empty()) {
			size_t j = next() % fds.size();
			squash_close(fds[j]);
			fds.erase(fds.begin() + j);
		} else if (w == 1 && !ds.empty()) {
			size_t j = next() % ds.size();
			squash_closedir(ds[j]);
			ds.erase(ds.begin() + j);
		} else if (w == 2 && !ts.empty()) {
			sqfs_traverse_close(ts.back());
			delete ts.back();
			ts.pop_back();
		}
	}
}

static char left_over[512];
static void list_one(const void *p, size_t n) {
	size_t l = strlen(left_over);
	if (l < 400) snprintf(left_over + l, sizeof left_over - l, " %zu", n);
}

static void p21(Case &c) {
	begin(c);
	gen::Cfg g;
	g.max_blocks = 4, g.big_blocks = false, g.max_nodes = 14, g.wide = 10, g.wide_max = 1300, g.large = 6;
	Image im;
	gen::image(c, im, g);
	// damage something, sometimes: failing operations give everything back, too
	img::Bytes bytes = im.bytes;
	if (c.chance(1, 3)) {
		unsigned k = 1 + c.draw(3);
		for (unsigned i = 0; i < k; ++i) {
			std::vector<const img::Extent *> v;
			for (auto &e : im.ext)
				if (e.compressed && e.len > 8) v.push_back(&e);
			if (v.empty()) break;
			const img::Extent *e = v[c.draw(v.size())];
			for (uint64_t q = 0; q < e->len; ++q) bytes[e->pos + q] = 0xff;
			c.label("damaged image");
			c.note("damaged: extent at %llu, %llu bytes, kind %d", (unsigned long long)e->pos, (unsigned long long)e->len, (int)e->kind);
		}
	}
	gen::describe(c, im);
	auto es = gen::entries(im);
	std::vector<ops::Op> todo;
	unsigned k = 3 + c.draw(c.thorough ? 60 : 25);
	for (unsigned i = 0; i < k; ++i) {
		todo.push_back(ops::gen_op(c, im, es));
		c.note("%s", todo.back().str().c_str());
	}
	std::vector<uint32_t> rnd(8 + k * 3);
	for (auto &x : rnd) x = (uint32_t)c.draw(1000);
	unsigned fail = c.chance(1, 3) ? 1 + c.draw(200) : 0;   // an allocation that fails
	if (fail) c.note("allocation %u fails", fail);
	int fd0 = count_fds();
	long live[4];
	size_t bytes_live[4];
	for (int round = 0; round < 3; ++round) {
		Mounted m;
		m.mount(bytes, 0);
		CHECK(c, m.err == SQFS_OK, "opening the image says %d", (int)m.err);
		vf_fail_at = fail ? vf_allocs + fail : 0;
		history(c, &m.fs, im, es, todo, rnd);
		if (vf_failed) c.label("with a failed allocation");
		vf_fail_at = 0;
		m.unmount();
		squash_extract_clear_cache();
		c.count(k);
		CHECK(c, vf_locks_held() == 0, "a mutex is left locked");
		int fds = count_fds();
		CHECK(c, fds == fd0, "%d descriptors are open after everything is closed, were %d", fds, fd0);
		live[round] = vf_live();
		bytes_live[round] = vf_live_bytes();
		left_over[0] = 0;
		vf_list_live(list_one);
		CHECK(c, live[round] <= 2, "%ld blocks are still allocated after everything is closed (sizes%s)", live[round], left_over);
		if (round == 2 && !fail)
			CHECK(c, bytes_live[2] == bytes_live[1] && live[2] == live[1], "the same work again took %zu more bytes", bytes_live[2] - bytes_live[1]);
	}
	if (k >= 5) c.nontrivial();
}

int main(int argc, char **argv) {
	return pbt::run_main(argc, argv, {
		{"P03", p03, 6000, 400000, "case = image and a history of opens, opendirs, closes, real opens and uses of dead, real and odd numbers under a limit of 300 "
		 "descriptors; non-trivial = a number is handed out again after its close", nullptr},
		{"P21", p21, 9000, 200000, "case = image (sometimes damaged, sometimes an allocation fails) and a history of 3-28 operations run three times, everything closed in "
		 "an order of its own each time; non-trivial = at least 5 operations", nullptr},
	});
}
