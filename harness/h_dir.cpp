// P08 listing, P09 positions of streams, P10 scandir, P13 traversal,
// P14 low-level iteration, P15 inode numbers and owners
#include "ops.hpp"
using img::Image;
using img::Node;

static void world(Case &c, Image &im, gen::Cfg &g, Mounted &m) {
	gen::image(c, im, g);
	gen::describe(c, im);
	mount_ok(c, m, im);
}
static gen::Cfg dir_cfg(Case &c) {
	gen::Cfg g;
	g.gaps = 12;
	g.w_dir = 5, g.w_reg = 8, g.w_spec = 4, g.w_lnk = 3, g.w_hard = 1;
	g.max_nodes = c.chance(1, 4) ? 90 : 24;
	g.max_blocks = 1, g.big_blocks = false;
	g.wide = 5, g.wide_max = c.thorough ? 6000 : 1500;
	g.chains = false;
	if (c.chance(1, 4)) g.only_chars = "abc";
	return g;
}
typedef std::vector<std::pair<std::string, Node *>> Kids;
static Kids kids_of(const Node *d) { return Kids(d->kids.begin(), d->kids.end()); }

static void entry_is(Case &c, const struct dirent *e, const Kids &k, size_t i, const char *what) {
	c.count();
	if (i >= k.size()) {
		CHECK(c, !e, "%s: %s after the last entry", what, show(e->d_name, strlen(e->d_name), 300).c_str());
		return;
	}
	CHECK(c, e, "%s: the end after %zu of %zu entries (errno %d)", what, i, k.size(), errno);
	CHECK(c, k[i].first == e->d_name, "%s: entry %zu is %s, packed %s", what, i, show(e->d_name, strlen(e->d_name), 300).c_str(), show(k[i].first, 300).c_str());
	CHECK(c, e->d_type == dtype(k[i].second->type), "%s: %s has type %d, packed %u", what, show(k[i].first, 300).c_str(), e->d_type, dtype(k[i].second->type));
	CHECK(c, e->d_ino == k[i].second->ino, "%s: %s has inode number %llu, packed %u", what, show(k[i].first, 300).c_str(), (unsigned long long)e->d_ino, k[i].second->ino);
}

static std::vector<std::pair<std::string, Node *>> dirs_with_paths(const Image &im) {
	std::vector<std::pair<std::string, Node *>> v;
	v.push_back({"/", im.root});
	for (auto &e : gen::entries(im))
		if (e.n->type == img::DIR_T) v.push_back({e.path, e.n});
	return v;
}
static size_t a_dir(Case &c, const std::vector<std::pair<std::string, Node *>> &v) {
	// the fullest one, often
	if (c.chance(2, 5)) {
		size_t b = 0;
		for (size_t i = 0; i < v.size(); ++i)
			if (v[i].second->kids.size() > v[b].second->kids.size()) b = i;
		return b;
	}
	return c.draw(v.size());
}

struct Stream {
	SQUASH_DIR *d;
	Node *n;
	Kids k;
	size_t pos = 0;
	std::string path;
	std::vector<std::pair<long, size_t>> marks;
};

static void p08(Case &c) {
	begin(c);
	Image im;
	Mounted m;
	gen::Cfg g = dir_cfg(c);
	world(c, im, g, m);
	auto ds = dirs_with_paths(im);
	auto es = gen::entries(im);
	ref::Resolver rr(im);
	std::vector<Stream> ss;
	unsigned ends = 0, maxn = 0, both = 0;
	auto open = [&]() {
		std::string p;
		Node *n;
		if (!es.empty() && c.chance(1, 4)) {
			p = es[c.draw(es.size())].path;
			if (c.chance(1, 6)) p += "/none";
			ref::Result r = rr.resolve(p, true);
			if (r.unspec || r.may_loop) return;
			errno = 0;
			SQUASH_DIR *d = squash_opendir(&m.fs, p.c_str());
			if (!r.n || r.n->type != img::DIR_T) {
				CHECK(c, !d, "opendir(%s) gave a stream", show(p, 200).c_str());
				CHECK(c, r.n ? errno == ENOTDIR : r.err_ok(errno), "opendir(%s): errno %d", show(p, 200).c_str(), errno);
				c.label(r.n ? "opendir of something else" : "opendir of nothing");
				c.count();
				return;
			}
			CHECK(c, d, "opendir(%s): errno %d", show(p, 200).c_str(), errno);
			ss.push_back({d, r.n, kids_of(r.n), 0, p, {}});
			return;
		}
		auto &x = ds[a_dir(c, ds)];
		p = x.first, n = x.second;
		SQUASH_DIR *d = squash_opendir(&m.fs, p.c_str());
		CHECK(c, d, "opendir(%s): errno %d", show(p, 200).c_str(), errno);
		ss.push_back({d, n, kids_of(n), 0, p, {}});
	};
	auto step = [&](Stream &s, size_t cnt) {
		while (cnt--) {
			errno = 0;
			struct dirent *e = squash_readdir(s.d);
			int er = errno;
			entry_is(c, e, s.k, s.pos, s.path.c_str());
			CHECK(c, er == 0, "%s: readdir sets errno %d without an error", s.path.c_str(), er);
			if (e) ++s.pos;
			else {
				++ends;
				break;
			}
		}
	};
	unsigned k = 3 + c.draw(10);
	for (unsigned i = 0; i < k; ++i) {
		unsigned op = ss.empty() ? 0 : c.pick({3, 6, 2, 1, 1});
		if (op == 0) open();
		else if (op == 1) {
			Stream &s = ss[c.draw(ss.size())];
			size_t left = s.k.size() - s.pos;
			step(s, c.chance(1, 2) ? 1 + c.draw(left + 3) : 1 + c.draw(12));
			if (ss.size() > 1) ++both;
		} else if (op == 2) {
			// to the end, and past it
			Stream &s = ss[c.draw(ss.size())];
			step(s, s.k.size() + 3);
			step(s, 1);
			step(s, 1);
		} else if (op == 3) {
			size_t j = c.draw(ss.size());
			CHECK(c, squash_closedir(ss[j].d) == 0, "closedir: errno %d", errno);
			ss.erase(ss.begin() + j);
		} else ops::exec(&m.fs, ops::gen_op(c, im, es));
	}
	if (ss.empty()) open();
	for (auto &s : ss) {
		step(s, s.k.size() + 2);
		step(s, 1);
		if (s.k.size() > maxn) maxn = s.k.size();
		CHECK(c, squash_closedir(s.d) == 0, "closedir: errno %d", errno);
		size_t longest = 0;
		for (auto &x : s.k) longest = std::max(longest, x.first.size());
		if (longest >= 255) c.label("name of 255 bytes");
		if (s.n->listing > 8192) c.label("listing over 8 KiB");
	}
	c.label("up to %s entries", maxn > 300 ? "1500" : maxn > 30 ? "300" : maxn > 3 ? "30" : "3");
	if (both) c.label("alternating streams");
	if (maxn >= 3 && ends) c.nontrivial();
	m.unmount();
}

static void p09(Case &c) {
	begin(c);
	Image im;
	Mounted m;
	gen::Cfg g = dir_cfg(c);
	g.wide = 8;
	world(c, im, g, m);
	auto ds = dirs_with_paths(im);
	std::vector<Stream> ss;
	unsigned n = 1 + c.draw(3), back = 0;
	for (unsigned i = 0; i < n; ++i) {
		auto &x = ds[a_dir(c, ds)];
		SQUASH_DIR *d = squash_opendir(&m.fs, x.first.c_str());
		CHECK(c, d, "opendir(%s): errno %d", x.first.c_str(), errno);
		ss.push_back({d, x.second, kids_of(x.second), 0, x.first, {}});
		ss.back().marks.push_back({squash_telldir(d), 0});
	}
	unsigned k = 10 + c.draw(c.thorough ? 200 : 60);
	for (unsigned i = 0; i < k; ++i) {
		Stream &s = ss[c.draw(ss.size())];
		switch (c.pick({8, 3, 4, 2, 1, 1})) {
		case 0: {
			size_t cnt = c.chance(1, 8) ? s.k.size() + 2 : 1 + c.draw(c.chance(1, 2) ? 3 : s.k.size() + 2);
			while (cnt--) {
				errno = 0;
				struct dirent *e = squash_readdir(s.d);
				entry_is(c, e, s.k, s.pos, s.path.c_str());
				if (!e) break;
				++s.pos;
			}
			c.note("%s: read to %zu", s.path.c_str(), s.pos);
			break;
		}
		case 1:
			s.marks.push_back({squash_telldir(s.d), s.pos});
			CHECK(c, squash_telldir(s.d) == s.marks.back().first, "%s: telldir changes", s.path.c_str());
			break;
		case 2: {
			auto &mk = s.marks[c.draw(s.marks.size())];
			squash_seekdir(s.d, mk.first);
			c.note("%s: seek to the location of %zu", s.path.c_str(), mk.second);
			if (mk.second != s.pos) {
				c.label(mk.second < s.pos ? "backward" : "forward");
				++back;
			}
			s.pos = mk.second;
			if (s.pos == s.k.size()) c.label("to the end");
			long t = squash_telldir(s.d);
			CHECK(c, t == mk.first, "%s: telldir gives %ld after seekdir to %ld", s.path.c_str(), t, mk.first);
			c.count();
			break;
		}
		case 3:
			squash_rewinddir(s.d);
			if (s.pos) ++back;
			s.pos = 0;
			CHECK(c, squash_telldir(s.d) == s.marks[0].first, "%s: telldir gives %ld after rewinddir, %ld after opendir", s.path.c_str(), squash_telldir(s.d), s.marks[0].first);
			c.label("rewind");
			break;
		case 4: {
			int fd = squash_dirfd(s.d);
			struct stat st;
			CHECK(c, SQUASH_VALID_VFD(fd), "%s: dirfd %d is no valid descriptor", s.path.c_str(), fd);
			CHECK(c, squash_fstat(fd, &st) == 0, "%s: fstat of dirfd: errno %d", s.path.c_str(), errno);
			std::string df = stat_diff(s.n, st);
			CHECK(c, df.empty(), "%s: dirfd is another file: %s", s.path.c_str(), df.c_str());
			for (auto &o : ss) CHECK(c, &o == &s || squash_dirfd(o.d) != fd, "two streams have the descriptor %d", fd);
			c.count();
			break;
		}
		default: {
			// close, and open again
			int fd = squash_dirfd(s.d);
			CHECK(c, squash_closedir(s.d) == 0, "closedir: errno %d", errno);
			CHECK(c, !SQUASH_VALID_VFD(fd), "dirfd %d is valid after closedir", fd);
			CHECK(c, fcntl(fd, F_GETFD) == -1, "closedir leaves descriptor %d open", fd);
			auto &x = ds[a_dir(c, ds)];
			s.d = squash_opendir(&m.fs, x.first.c_str());
			CHECK(c, s.d, "opendir(%s): errno %d", x.first.c_str(), errno);
			s.n = x.second, s.k = kids_of(x.second), s.path = x.first, s.pos = 0;
			s.marks.assign(1, {squash_telldir(s.d), 0});
		}
		}
	}
	for (auto &s : ss) {
		int fd = squash_dirfd(s.d);
		CHECK(c, squash_closedir(s.d) == 0, "closedir: errno %d", errno);
		CHECK(c, !SQUASH_VALID_VFD(fd), "dirfd %d is valid after closedir", fd);
	}
	if (back >= 2) c.nontrivial();
	m.unmount();
}

// scandir's functions get no context
static unsigned sel_kind;
static std::string sel_str;
static std::set<std::string> sel_seen;
static int sel(const struct dirent *e) {
	sel_seen.insert(e->d_name);
	switch (sel_kind) {
	case 0: return 1;
	case 1: return 0;
	case 2: return e->d_ino % 2 == 0;
	case 3: return e->d_type == DT_REG ? -5 : 0;
	case 4: return sel_str < e->d_name;
	default: return sel_str == e->d_name ? 77 : 0;
	}
}
static bool sel_model(const std::string &name, const Node *n) {
	switch (sel_kind) {
	case 0: return true;
	case 1: return false;
	case 2: return n->ino % 2 == 0;
	case 3: return n->type == img::REG_T;
	case 4: return strcmp(sel_str.c_str(), name.c_str()) < 0;
	default: return sel_str == name;
	}
}
static int cmp_down(const struct dirent **a, const struct dirent **b) { return strcmp((*b)->d_name, (*a)->d_name); }
static int cmp_up(const struct dirent **a, const struct dirent **b) { return strcmp((*a)->d_name, (*b)->d_name); }
static int cmp_ino(const struct dirent **a, const struct dirent **b) { return (*a)->d_ino < (*b)->d_ino ? -1 : (*a)->d_ino > (*b)->d_ino; }
static int cmp_type(const struct dirent **a, const struct dirent **b) { return (*a)->d_type - (*b)->d_type; }

static void p10(Case &c) {
	begin(c);
	Image im;
	Mounted m;
	gen::Cfg g = dir_cfg(c);
	g.wide = 3;
	g.wide_max = c.chance(1, 3) ? 2600 : 600;
	world(c, im, g, m);
	auto ds = dirs_with_paths(im);
	auto es = gen::entries(im);
	ref::Resolver rr(im);
	struct stat warm;
	squash_stat(&m.fs, "/", &warm);
	unsigned k = 3 + c.draw(8), big = 0;
	for (unsigned i = 0; i < k; ++i) {
		std::string p = ds[a_dir(c, ds)].first;
		if (!es.empty() && c.chance(1, 4)) {
			p = es[c.draw(es.size())].path;
			if (c.chance(1, 6)) p += "/none";
		}
		ref::Result r = rr.resolve(p, true);
		if (r.unspec || r.may_loop) continue;
		sel_kind = c.pick({4, 1, 3, 2, 3, 2});
		bool has_sel = c.chance(2, 3);
		sel_str = "m";
		if (r.n && !r.n->kids.empty()) {
			auto it = r.n->kids.begin();
			std::advance(it, c.draw(r.n->kids.size()));
			sel_str = it->first;
		}
		sel_seen.clear();
		typedef int (*cmp_t)(const struct dirent **, const struct dirent **);
		static const cmp_t cmps[] = {nullptr, cmp_up, cmp_down, cmp_ino, cmp_type};
		unsigned ci = c.draw(5);
		bool fail = c.chance(1, 4);
		long live0 = vf_live();
		int fds0 = count_fds();
		struct dirent **l = (struct dirent **)0x5555;
		vf_failed = 0;
		vf_fail_at = fail ? vf_allocs + 1 + c.sized(3000) : 0;
		errno = 0;
		int n = squash_scandir(&m.fs, p.c_str(), &l, has_sel ? sel : nullptr, cmps[ci]);
		int e = errno;
		vf_fail_at = 0;
		bool failed_alloc = vf_failed > 0;
		c.count();
		c.note("scandir %s select %d compare %u -> %d", show(p, 100).c_str(), has_sel ? (int)sel_kind : -1, ci, n);
		if (!r.n || r.n->type != img::DIR_T) {
			CHECK(c, n == -1, "scandir(%s) gave %d", show(p, 200).c_str(), n);
			CHECK(c, failed_alloc || (r.n ? e == ENOTDIR : r.err_ok(e)), "scandir(%s): errno %d", show(p, 200).c_str(), e);
			if (!failed_alloc && c.chance(1, 2)) {
				// what a cache holds may differ by a few blocks each time, what leaks adds up
				live0 = vf_live();
				for (int z = 0; z < 40; ++z)
					CHECK(c, squash_scandir(&m.fs, p.c_str(), &l, has_sel ? sel : nullptr, cmps[ci]) == -1, "scandir(%s) fails, then does not", show(p, 200).c_str());
				CHECK(c, vf_live() - live0 < 40, "40 failed scandir(%s) leave %ld blocks", show(p, 200).c_str(), vf_live() - live0);
			}
			CHECK(c, count_fds() == fds0, "a failed scandir(%s) leaves a descriptor", show(p, 200).c_str());
			c.label("refused");
			continue;
		}
		if (n < 0) {
			CHECK(c, failed_alloc, "scandir(%s): errno %d", show(p, 200).c_str(), e);
			CHECK(c, e != 0, "scandir(%s) out of memory: errno is not set", show(p, 200).c_str());
			// the descriptor table and cached blocks may have grown
			CHECK(c, vf_live() <= live0 + 36, "a failed scandir(%s) leaves %ld blocks", show(p, 200).c_str(), vf_live() - live0);
			CHECK(c, count_fds() == fds0, "a failed scandir(%s) leaves a descriptor", show(p, 200).c_str());
			c.label("out of memory");
			continue;
		}
		std::vector<std::pair<std::string, Node *>> want;
		for (auto &x : r.n->kids)
			if (!has_sel || sel_model(x.first, x.second)) want.push_back(x);
		CHECK(c, (size_t)n == want.size(), "scandir(%s): %d entries, %zu are selected", show(p, 200).c_str(), n, want.size());
		if (has_sel) CHECK(c, sel_seen.size() == r.n->kids.size(), "scandir(%s): %zu of %zu entries were offered", show(p, 200).c_str(), sel_seen.size(), r.n->kids.size());
		if (ci) {
			for (int q = 1; q < n; ++q)
				CHECK(c, cmps[ci]((const struct dirent **)&l[q - 1], (const struct dirent **)&l[q]) <= 0, "scandir(%s): %s before %s", show(p, 200).c_str(), l[q - 1]->d_name,
				      l[q]->d_name);
			std::vector<struct dirent *> v(l, l + n);
			std::sort(v.begin(), v.end(), [](struct dirent *a, struct dirent *b) {
				int d = strcmp(a->d_name, b->d_name);
				return d ? d < 0 : a < b;
			});
			for (int q = 0; q < n; ++q) entry_is(c, v[q], want, q, "scandir, sorted");
		} else
			for (int q = 0; q < n; ++q) entry_is(c, l[q], want, q, "scandir");
		std::set<void *> ptrs;
		for (int q = 0; q < n; ++q) {
			CHECK(c, vf_is_live(l[q]), "scandir(%s): element %d is not a block of its own", show(p, 200).c_str(), q);
			CHECK(c, ptrs.insert(l[q]).second, "scandir(%s): element %d twice", show(p, 200).c_str(), q);
		}
		// an earlier result outlives other uses
		if (c.chance(1, 3)) ops::exec(&m.fs, ops::gen_op(c, im, es));
		for (int q = 0; q < n; ++q) vf_free(l[q]);
		CHECK(c, !l || n == 0 || vf_is_live(l), "scandir(%s): the array is not a block of its own", show(p, 200).c_str());
		if (n > 0 || l) vf_free(l);
		CHECK(c, count_fds() == fds0, "scandir(%s) leaves a descriptor", show(p, 200).c_str());
		if (n > 1024) c.label("more than 1024 entries");
		if (n == 0) c.label("nothing selected");
		if (n >= 2) ++big;
		c.label(ci ? "sorted" : "directory order");
	}
	if (big >= 2) c.nontrivial();
	m.unmount();
}

struct Visit {
	bool end;
	std::string path;
	Node *n;
	size_t skip;      // index of the visit of the end of this directory
};
static void visits(Node *d, const std::string &p, std::vector<Visit> &v) {
	for (auto &k : d->kids) {
		std::string q = p.empty() ? k.first : p + "/" + k.first;
		size_t at = v.size();
		v.push_back({false, q, k.second, 0});
		if (k.second->type == img::DIR_T) {
			visits(k.second, q, v);
			v.push_back({true, q, k.second, 0});
			v[at].skip = v.size() - 1;
		}
	}
}
struct Trv {
	sqfs_traverse *t;
	std::vector<Visit> v;
	size_t i = 0;
	Node *root;
	bool ended = false;
};

static void p13(Case &c) {
	begin(c);
	Image im;
	Mounted m;
	gen::Cfg g = dir_cfg(c);
	g.w_dir = c.chance(1, 2) ? 12 : 5;
	g.wide = 14, g.wide_max = 600;
	world(c, im, g, m);
	auto ds = dirs_with_paths(im);
	auto es = gen::entries(im);
	// fill the caches, so that what a traversal takes can be counted
	std::vector<Trv> ts;
	unsigned n = 1 + c.draw(3), prunes = 0, dirs = 0;
	for (unsigned q = 0; q < n; ++q) {
		Trv t;
		t.root = c.chance(2, 3) ? im.root : ds[a_dir(c, ds)].second;
		t.t = new sqfs_traverse;
		memset(t.t, 0x5a, sizeof *t.t);
		sqfs_err e;
		if (c.chance(1, 3)) {
			sqfs_inode ino;
			CHECK(c, inode_of(&m.fs, t.root, &ino), "inode: errno %d", errno);
			e = sqfs_traverse_open_inode(t.t, &m.fs, &ino);
		} else e = sqfs_traverse_open(t.t, &m.fs, t.root->ref);
		CHECK(c, e == SQFS_OK, "sqfs_traverse_open: %d", (int)e);
		visits(t.root, "", t.v);
		ts.push_back(t);
	}
	unsigned prune_rate = c.draw(3), close_early = c.chance(1, 5) ? 1 + c.draw(40) : 0, steps = 0;
	unsigned turns = 0;
	while (!ts.empty()) {
		size_t j = c.draw(ts.size());
		Trv &t = ts[j];
		if (++turns > 4000) c.chance(1, 2);
		unsigned burst = turns > 60 ? 100000 : 1 + c.draw(20);
		bool close = false;
		while (burst--) {
			sqfs_err err = SQFS_ERR;
			errno = 0;
			short more = sqfs_traverse_next(t.t, &err);
			c.count();
			CHECK(c, err == SQFS_OK, "sqfs_traverse_next: error %d, errno %d", (int)err, errno);
			if (t.i >= t.v.size()) {
				CHECK(c, !more, "traversal goes on after the end: %s", show(t.t->path, strlen(t.t->path), 200).c_str());
				if (t.ended && c.chance(1, 2)) {
					close = true;
					break;
				}
				t.ended = true;
				if (turns > 60) {
					close = true;
					break;
				}
				continue;
			}
			const Visit &w = t.v[t.i];
			CHECK(c, more, "traversal ends before %s", show(w.path, 200).c_str());
			CHECK(c, !!t.t->dir_end == w.end, "traversal reports %s of %s instead of %s of %s", t.t->dir_end ? "the end" : "the entry",
			      show(t.t->path, strlen(t.t->path), 200).c_str(), w.end ? "the end" : "the entry", show(w.path, 200).c_str());
			CHECK(c, w.path == t.t->path, "traversal is at %s, should be at %s", show(t.t->path, strlen(t.t->path), 300).c_str(), show(w.path, 300).c_str());
			if (!w.end) {
				sqfs_dir_entry *e = &t.t->entry;
				CHECK(c, sqfs_dentry_inode(e) == w.n->ref && sqfs_dentry_inode_num(e) == w.n->ino, "traversal has another inode for %s", show(w.path, 200).c_str());
				CHECK(c, sqfs_dentry_type(e) == (int)w.n->type, "traversal has type %d for %s", sqfs_dentry_type(e), show(w.path, 200).c_str());
				CHECK(c, !!sqfs_dentry_is_dir(e) == (w.n->type == img::DIR_T), "traversal: is %s a directory?", show(w.path, 200).c_str());
				size_t sl = w.path.rfind('/');
				std::string nm = sl == std::string::npos ? w.path : w.path.substr(sl + 1);
				CHECK(c, nm == sqfs_dentry_name(e), "traversal has the name %s for %s", sqfs_dentry_name(e), show(w.path, 200).c_str());
				if (w.n->type == img::DIR_T) ++dirs;
			}
			++t.i;
			++steps;
			if (!w.end && w.n->type == img::DIR_T && prune_rate && c.chance(1, 4 / prune_rate)) {
				CHECK(c, sqfs_traverse_prune(t.t) == SQFS_OK, "sqfs_traverse_prune");
				c.note("prune %s", show(w.path, 100).c_str());
				t.i = w.skip + 1;
				++prunes;
			}
			if (close_early && steps >= close_early && c.chance(1, 3)) {
				c.label("closed early");
				close = true;
				break;
			}
		}
		if (close) {
			sqfs_traverse_close(t.t);
			if (c.chance(1, 2)) sqfs_traverse_close(t.t);
			delete t.t;
			ts.erase(ts.begin() + j);
		}
	}
	if (n > 1) c.label("alternating traversals");
	if (prunes) c.label("pruned");
	if (dirs >= 2) c.nontrivial();
	// released: with the image gone nothing is left
	m.unmount();
	CHECK(c, vf_live() <= 2, "%ld blocks are left after the traversals", vf_live());
	CHECK(c, vf_locks_held() == 0, "a mutex is left locked");
}

static void p14(Case &c) {
	begin(c);
	Image im;
	Mounted m;
	gen::Cfg g = dir_cfg(c);
	g.wide = 3;
	world(c, im, g, m);
	auto ds = dirs_with_paths(im);
	unsigned k = 1 + c.draw(4), resumed = 0, refused = 0;
	for (unsigned q = 0; q < k; ++q) {
		Node *d = ds[a_dir(c, ds)].second;
		Kids kk = kids_of(d);
		sqfs_inode ino;
		CHECK(c, inode_of(&m.fs, d, &ino), "inode of a directory: errno %d", errno);
		std::vector<int64_t> offs(1, 0);        // where entries start
		auto iterate = [&](int64_t from, size_t i, size_t limit, bool first = false) {
			sqfs_dir dir;
			memset(&dir, 0x5a, sizeof dir);
			sqfs_err err = sqfs_dir_open(&m.fs, &ino, &dir, from);
			CHECK(c, err == SQFS_OK, "sqfs_dir_open at offset %lld, where entry %zu of %zu starts: errno %d", (long long)from, i, kk.size(), errno);
			sqfs_name nb;
			sqfs_dir_entry e;
			memset(&e, 0x5a, sizeof e);
			sqfs_dentry_init(&e, nb);
			int64_t prev = from;
			for (; limit; --limit) {
				err = SQFS_ERR;
				short more = sqfs_dir_next(&m.fs, &dir, &e, &err);
				c.count();
				CHECK(c, err == SQFS_OK, "sqfs_dir_next: errno %d", errno);
				if (i >= kk.size()) {
					CHECK(c, !more, "sqfs_dir_next from %lld: %s after the last entry", (long long)from, sqfs_dentry_name(&e));
					err = SQFS_ERR;
					CHECK(c, !sqfs_dir_next(&m.fs, &dir, &e, &err) && err == SQFS_OK, "sqfs_dir_next goes on after the end");
					break;
				}
				CHECK(c, more, "sqfs_dir_next from %lld: the end after %zu of %zu entries", (long long)from, i, kk.size());
				CHECK(c, kk[i].first == sqfs_dentry_name(&e) && kk[i].first.size() == sqfs_dentry_name_size(&e), "sqfs_dir_next from %lld: entry %zu is %s, packed %s",
				      (long long)from, i, show(sqfs_dentry_name(&e), sqfs_dentry_name_size(&e), 300).c_str(), show(kk[i].first, 300).c_str());
				Node *n = kk[i].second;
				CHECK(c, sqfs_dentry_inode(&e) == n->ref && sqfs_dentry_inode_num(&e) == n->ino, "sqfs_dir_next: %s has inode %llx number %u, packed %llx %u",
				      show(kk[i].first, 300).c_str(), (unsigned long long)sqfs_dentry_inode(&e), sqfs_dentry_inode_num(&e), (unsigned long long)n->ref, n->ino);
				CHECK(c, sqfs_dentry_type(&e) == (int)n->type && sqfs_dentry_mode(&e) == ifmt(n->type), "sqfs_dir_next: %s has type %d, packed %d", show(kk[i].first, 300).c_str(),
				      sqfs_dentry_type(&e), (int)n->type);
				CHECK(c, (int64_t)sqfs_dentry_offset(&e) == prev, "sqfs_dir_next: %s is at offset %lld, the one before ended at %lld", show(kk[i].first, 300).c_str(),
				      (long long)sqfs_dentry_offset(&e), (long long)prev);
				prev = sqfs_dentry_next_offset(&e);
				CHECK(c, prev > (int64_t)sqfs_dentry_offset(&e), "sqfs_dir_next: offset does not grow");
				++i;
				if (first) offs.push_back(prev);
			}
		};
		iterate(0, 0, SIZE_MAX, true);
		c.note("directory of %zu entries, %llu bytes", kk.size(), (unsigned long long)d->listing);
		unsigned r = 3 + c.draw(12);
		std::set<int64_t> starts(offs.begin(), offs.end());
		for (unsigned z = 0; z < r; ++z) {
			size_t i = c.chance(1, 5) ? offs.size() - 1 : c.draw(offs.size());
			iterate(offs[i], i, c.chance(1, 2) ? SIZE_MAX : 1 + c.draw(300));
			++resumed;
			// where no entry starts
			int64_t bad;
			switch (c.draw(4)) {
			case 0: bad = offs[i] + c.range(-13, 13); break;
			case 1: bad = c.draw(d->listing + 40); break;
			case 2: bad = (int64_t)d->listing + 1 + c.sized(1ull << 40); break;
			default: bad = -(int64_t)(1 + c.sized(1ull << 40)); break;
			}
			if (starts.count(bad)) continue;
			sqfs_dir dir;
			errno = 0;
			sqfs_err err = sqfs_dir_open(&m.fs, &ino, &dir, bad);
			c.count();
			CHECK(c, err != SQFS_OK, "sqfs_dir_open accepts offset %lld, where no entry starts", (long long)bad);
			CHECK(c, errno != 0, "sqfs_dir_open at a bad offset: errno is not set");
			++refused;
		}
		// by name
		for (unsigned z = 0; z < 10 && !kk.empty(); ++z) {
			size_t i = c.draw(kk.size());
			std::string nm = kk[i].first;
			if (c.chance(1, 3)) {
				if (c.chance(1, 2)) nm += 'x';
				else nm.resize(nm.size() - 1);
				if (nm.empty() || nm.size() > 255) continue;
			}
			auto it = d->kids.find(nm);
			sqfs_name nb;
			sqfs_dir_entry e;
			memset(&e, 0, sizeof e);
			sqfs_dentry_init(&e, nb);
			short found = 5;
			CHECK(c, sqfs_dir_lookup(&m.fs, &ino, nm.c_str(), nm.size(), &e, &found) == SQFS_OK, "sqfs_dir_lookup: errno %d", errno);
			c.count();
			CHECK(c, !!found == (it != d->kids.end()), "sqfs_dir_lookup(%s): found %d, iteration says %d", show(nm, 300).c_str(), found, it != d->kids.end());
			if (found) {
				size_t at = std::distance(d->kids.begin(), it);
				CHECK(c, sqfs_dentry_inode(&e) == it->second->ref, "sqfs_dir_lookup(%s): another inode", show(nm, 300).c_str());
				CHECK(c, (int64_t)sqfs_dentry_next_offset(&e) == offs[at + 1], "sqfs_dir_lookup(%s): next offset %lld, iteration says %lld", show(nm, 300).c_str(),
				      (long long)sqfs_dentry_next_offset(&e), (long long)offs[at + 1]);
			}
		}
		if (d->listing > 8192) c.label("listing over 8 KiB");
		if (d->kids.size() > 256) c.label("more than 256 entries");
	}
	if (im.nindex) c.label("with a directory index");
	if (im.nheaders > im.nodes.size() / 3) c.label("many headers");
	if (resumed && refused && im.nodes.size() > 4) c.nontrivial();
	m.unmount();
}

static void p15(Case &c) {
	begin(c);
	Image im;
	Mounted m;
	gen::Cfg g = dir_cfg(c);
	g.big_tables = c.chance(1, 2);
	g.wide = 3, g.wide_max = c.thorough ? 20000 : 2600;
	g.max_nodes = 30;
	gen::opts(c, im, g);
	if (c.chance(1, 10)) im.o.pad_ids = 30000 + c.draw(34000);
	gen::tree(c, im, g);
	for (auto &n : im.nodes)
		if (c.chance(1, im.nodes.size() > 100 ? 50 : 3)) n->uid = (uint32_t)img::hash64(n->index), n->gid = (uint32_t)img::hash64(n->index + 99999);
	im.write();
	gen::describe(c, im);
	mount_ok(c, m, im);
	unsigned k = 0;
	CHECK(c, !!sqfs_export_ok(&m.fs) == im.o.exportable, "sqfs_export_ok says %d", sqfs_export_ok(&m.fs));
	if (!im.o.exportable) {
		for (unsigned i = 0; i < 5; ++i) {
			sqfs_inode_id id = 77;
			sqfs_err e = sqfs_export_inode(&m.fs, (sqfs_inode_num)(1 + c.draw(im.nodes.size())), &id);
			c.count();
			CHECK(c, e == SQFS_UNSUP, "sqfs_export_inode without an export table says %d", (int)e);
		}
		c.label("no export table");
	} else {
		std::vector<size_t> order;
		for (size_t i = 1; i < im.by_ino.size(); ++i) order.push_back(i);
		size_t total = order.size();
		bool all = total < 300 || c.chance(1, 6);
		size_t cnt = all ? total : 200;
		unsigned step = 1 + c.draw(total);
		for (size_t z = 0; z < cnt; ++z) {
			size_t i = all ? order[(z * step) % total] : order[c.draw(total)];
			if (z % 7 == 0) i = order[total - 1 - z % total];
			Node *n = im.by_ino[i];
			sqfs_inode_id id = 77;
			sqfs_err e = sqfs_export_inode(&m.fs, (sqfs_inode_num)i, &id);
			c.count();
			CHECK(c, e == SQFS_OK && id == n->ref, "sqfs_export_inode(%zu): %d, id %llx, packed %llx", i, (int)e, (unsigned long long)id, (unsigned long long)n->ref);
			sqfs_inode ino;
			CHECK(c, sqfs_inode_get(&m.fs, &ino, id) == SQFS_OK && ino.base.inode_number == i, "the inode of number %zu has number %u", i, ino.base.inode_number);
			struct stat st;
			CHECK(c, sqfs_stat(&m.fs, &ino, &st) == SQFS_OK, "sqfs_stat: errno %d", errno);
			std::string df = stat_diff(n, st);
			CHECK(c, df.empty(), "inode number %zu is another inode: %s", i, df.c_str());
			++k;
		}
		if (total > 1024) c.label("export table over 8 KiB");
		c.label("export table");
	}
	size_t nn = im.nodes.size();
	for (size_t z = 0; z < std::min<size_t>(nn, 150); ++z) {
		Node *n = im.nodes[nn <= 150 ? z : c.draw(nn)].get();
		if (!n->nlink) continue;
		sqfs_inode ino;
		CHECK(c, inode_of(&m.fs, n, &ino), "inode: errno %d", errno);
		sqfs_id_t u = 1, gi = 2;
		CHECK(c, sqfs_id_get(&m.fs, ino.base.uid, &u) == SQFS_OK && sqfs_id_get(&m.fs, ino.base.guid, &gi) == SQFS_OK, "sqfs_id_get: errno %d", errno);
		c.count();
		CHECK(c, (uint32_t)u == n->uid, "owner of inode %u is %u, packed %u (index %u of %zu)", n->ino, (unsigned)u, n->uid, ino.base.uid, im.ids.size());
		CHECK(c, (uint32_t)gi == n->gid, "group of inode %u is %u, packed %u (index %u of %zu)", n->ino, (unsigned)gi, n->gid, ino.base.guid, im.ids.size());
	}
	for (unsigned z = 0; z < 40; ++z) {
		size_t i = c.chance(1, 3) ? im.ids.size() - 1 - c.draw(std::min<size_t>(im.ids.size(), 3)) : c.draw(im.ids.size());
		if (c.chance(1, 4) && im.ids.size() > 2048) i = std::min<size_t>((c.draw(im.ids.size() / 2048) + 1) * 2048 - c.draw(2), im.ids.size() - 1);
		sqfs_id_t v = 9;
		CHECK(c, sqfs_id_get(&m.fs, (uint16_t)i, &v) == SQFS_OK && (uint32_t)v == im.ids[i], "id %zu of %zu is %u, packed %u", i, im.ids.size(), (unsigned)v, im.ids[i]);
		c.count();
	}
	if (im.ids.size() > 2048) c.label("id table over 8 KiB");
	if (im.ids.size() > 32768) c.label("more than 32768 ids");
	if (k >= 5 || !im.o.exportable) c.nontrivial();
	m.unmount();
}

int main(int argc, char **argv) {
	return pbt::run_main(argc, argv, {
		{"P08", p08, 9000, 250000, "case = image with small to wide directories and 3-12 steps on alternating streams, each read to the end; non-trivial = a directory of at least 3 "
		 "entries read to its end", nullptr},
		{"P09", p09, 9000, 300000, "case = 1-3 streams and 10-70 steps of read, tell, seek, rewind, dirfd, close; non-trivial = at least 2 moves that change the position", nullptr},
		{"P10", p10, 7000, 200000, "case = image and 3-10 scandirs with select and compare functions, some with a failing allocation; non-trivial = at least 2 results of 2 or more",
		 nullptr},
		{"P13", p13, 9000, 250000, "case = tree and 1-3 alternating traversals with prunes and early closes; non-trivial = at least 2 directories entered or pruned", nullptr},
		{"P14", p14, 7000, 200000, "case = 1-4 directories iterated, resumed at entry offsets, opened at other offsets, looked up; non-trivial = both kinds of offsets, at least 5 nodes",
		 nullptr},
		{"P15", p15, 7000, 150000, "case = image with tables of up to 64000 ids and 2600 inodes; non-trivial = no export table or at least 5 numbers looked up", nullptr},
	});
}
