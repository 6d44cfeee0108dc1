// P25-P28: the interposition layer
#include "sworld.hpp"
#include "needs.hpp"

// ---- what a path of the image must give -----------------------------------

enum Op { STAT, LSTAT, ACCESS, OPEN, OPENAT, READLINK, OPENDIR, SCANDIR, EXTRACT, NOPS };
static const char *op_name[] = {"stat", "lstat", "access", "open", "openat", "readlink", "opendir", "scandir", "extract"};
static Op any_op(Case &c) {
	static const Op o[] = {STAT, LSTAT, ACCESS, OPEN, OPENAT, READLINK, OPENDIR, SCANDIR, EXTRACT};
	return o[c.pick({5, 4, 3, 5, 2, 4, 4, 2, 1})];
}
static int sel_mod, cmp_rev;
static int sel(const struct dirent *e) { return sel_mod == 0 || (pbt::hashstr(e->d_name) % 3 != 0); }
static int cmpn(const struct dirent **a, const struct dirent **b) { return strcmp((*b)->d_name, (*a)->d_name); }

static int do_open(Case &c, const char *p, bool at, bool three) {
	if (at) return three ? enclose_io_openat(4, AT_FDCWD, p, O_RDONLY, 0) : enclose_io_openat(3, AT_FDCWD, p, O_RDONLY);
	return three ? enclose_io_open(3, p, O_RDONLY, 0) : enclose_io_open(2, p, O_RDONLY);
}

// 64 KiB longer, and the same
static void lengthen(Case &c, std::string &p, size_t from) {
	if (p.size() <= from || !c.chance(1, 40)) return;
	size_t i = p.find('/', from + c.draw(p.size() - from));
	if (i == std::string::npos && (i = p.find('/', from)) == std::string::npos) return;
	std::string more;
	for (size_t k = 32768 + c.draw(3); k--;) more += "/.";
	p.insert(i, more);
	c.label("path of 64 KiB");
}

// one operation on `given`, which means the image's path `full`; false: the property does not say
static bool check_virtual(Case &c, World &w, Op op, const std::string &given, const std::string &full) {
	if ((full.size() > 3900 && full.size() < 65536) || given.empty()) return false;
	bool follow = op != LSTAT && op != READLINK;
	ref::Resolver rr(w.im);
	ref::Result r = rr.resolve(full, follow);
	if (r.unspec || r.may_loop) return false;
	if (full.size() > 2040) {
		c.label("longer than a path can be");
		if (full != given || full.size() > 3900) {
			// relative, and hardly to be expanded: the entry that is meant, or none
			struct stat s0;
			errno = 0;
			int k = enclose_io_lstat(given.c_str(), &s0);
			if (k == -1 && (errno == ENAMETOOLONG || errno == ENOENT)) r.n = nullptr, r.e1 = ENOENT, r.e2 = ENAMETOOLONG;
		}
	}
	int preset = c.chance(1, 2) ? 0 : c.chance(1, 2) ? EACCES : ENOSPC;
	char w_[200];
	snprintf(w_, sizeof w_, "%s of %s", op_name[op], show(given, 100).c_str());
	const char *what = w_;
	char *p = strdup(given.c_str());
	struct stat st;
	memset(&st, 0x77, sizeof st);
	c.count();
	c.note("%s (%s) -> %s", what, full == given ? "" : show(full, 80).c_str(), r.n ? "there" : "missing");
	CHECK(c, enclose_io_if(p) == 1, "%s is not taken for a path of the image", show(given, 100).c_str());
	errno = preset;
	switch (op) {
	case STAT:
	case LSTAT: {
		int k = op == STAT ? enclose_io_stat(p, &st) : enclose_io_lstat(p, &st);
		int e = errno;
		if (r.n) {
			CHECK(c, k == 0, "%s: %d errno %d", what, k, e);
			std::string d = stat_diff(r.n, st);
			CHECK(c, d.empty(), "%s: %s", what, d.c_str());
		} else CHECK(c, k == -1 && r.err_ok(e), "%s, which is missing: %d errno %d", what, k, e);
		break;
	}
	case ACCESS: {
		int k = enclose_io_access(p, c.chance(1, 2) ? F_OK : R_OK);
		int e = errno;
		if (r.n) CHECK(c, k == 0, "%s: %d errno %d", what, k, e);
		else CHECK(c, k == -1 && r.err_ok(e), "%s, which is missing: %d errno %d", what, k, e);
		break;
	}
	case OPEN:
	case OPENAT: {
		int fd = do_open(c, p, op == OPENAT, c.chance(1, 2));
		int e = errno;
		if (!r.n) {
			CHECK(c, fd == -1 && r.err_ok(e), "%s, which is missing: %d errno %d", what, fd, e);
			break;
		}
		CHECK(c, fd >= 0, "%s: %d errno %d", what, fd, e);
		CHECK(c, enclose_io_fstat(fd, &st) == 0, "fstat after %s: errno %d", what, errno);
		std::string d = stat_diff(r.n, st);
		CHECK(c, d.empty(), "fstat after %s: %s", what, d.c_str());
		if (r.n->type == img::REG_T) {
			size_t n = r.n->c.size < 9000 ? r.n->c.size + 10 : 9000;
			Buf b(n);
			ssize_t k = enclose_io_read(fd, b.p, n);
			std::string want = r.n->c.read(0, n);
			CHECK(c, k == (ssize_t)want.size(), "read after %s: %zd errno %d, should be %zu", what, k, errno, want.size());
			CHECK(c, !memcmp(b.p, want.data(), k), "read after %s: wrong bytes", what);
		}
		CHECK(c, enclose_io_close(fd) == 0, "close after %s: errno %d", what, errno);
		break;
	}
	case READLINK: {
		Buf b(r.n && r.n->type == img::LNK_T ? r.n->target.size() + 1 + c.draw(20) : 64);
		ssize_t k = enclose_io_readlink(p, (char *)b.p, b.n);
		int e = errno;
		if (!r.n) CHECK(c, k == -1 && r.err_ok(e), "%s, which is missing: %zd errno %d", what, k, e);
		else if (r.n->type != img::LNK_T) CHECK(c, k == -1 && e == EINVAL, "%s, no link: %zd errno %d", what, k, e);
		else {
			CHECK(c, k == (ssize_t)r.n->target.size(), "%s: %zd errno %d, the target has %zu bytes", what, k, e, r.n->target.size());
			CHECK(c, !memcmp(b.p, r.n->target.data(), k), "%s: wrong target", what);
			c.label("link read");
		}
		break;
	}
	case OPENDIR: {
		DIR *d = enclose_io_opendir(p);
		int e = errno;
		if (!r.n || r.n->type != img::DIR_T) {
			CHECK(c, !d && (r.n ? e == ENOTDIR : r.err_ok(e)), "%s: %p errno %d", what, (void *)d, e);
			break;
		}
		CHECK(c, d, "%s: errno %d", what, e);
		auto it = r.n->kids.begin();
		for (;; ++it) {
			errno = 0;
			struct dirent *x = enclose_io_readdir(d);
			if (!x) break;
			CHECK(c, it != r.n->kids.end(), "%s: %s after the last entry", what, show(x->d_name).c_str());
			CHECK(c, it->first == x->d_name && x->d_ino == it->second->ino && x->d_type == dtype(it->second->type), "%s: entry %s ino %llu, should be %s ino %u", what, show(x->d_name).c_str(),
			      (unsigned long long)x->d_ino, show(it->first).c_str(), it->second->ino);
		}
		CHECK(c, it == r.n->kids.end(), "%s: ends before %s, errno %d", what, show(it->first).c_str(), errno);
		CHECK(c, enclose_io_closedir(d) == 0, "closedir after %s: errno %d", what, errno);
		break;
	}
	case SCANDIR: {
		struct dirent **l = nullptr;
		sel_mod = c.draw(2);
		bool rev = c.draw(2);
		int n = enclose_io_scandir(p, &l, sel_mod ? sel : nullptr, rev ? (int (*)(const struct dirent **, const struct dirent **))cmpn : nullptr);
		int e = errno;
		if (!r.n || r.n->type != img::DIR_T) {
			CHECK(c, n == -1 && (r.n ? e == ENOTDIR : r.err_ok(e)), "%s: %d errno %d", what, n, e);
			break;
		}
		std::vector<std::string> want;
		for (auto &k : r.n->kids)
			if (!sel_mod || pbt::hashstr(k.first.c_str()) % 3 != 0) want.push_back(k.first);
		if (rev) std::reverse(want.begin(), want.end());
		CHECK(c, n == (int)want.size(), "%s: %d entries, should be %zu, errno %d", what, n, want.size(), e);
		for (int i = 0; i < n; ++i) {
			CHECK(c, want[i] == l[i]->d_name, "%s: entry %d is %s, should be %s", what, i, show(l[i]->d_name).c_str(), show(want[i]).c_str());
			vf_free(l[i]);
		}
		if (l) vf_free(l);
		break;
	}
	case EXTRACT: {
		const char *x = enclose_io_ifextract(p, c.chance(1, 2) ? "so" : nullptr);
		int e = errno;
		if (!r.n || r.n->type != img::REG_T) {
			CHECK(c, !x && (r.n ? e != 0 : r.err_ok(e)), "%s: %s errno %d", what, x ? x : "NULL", e);
			break;
		}
		CHECK(c, x, "%s: errno %d", what, e);
		CHECK(c, std::string(x).compare(0, tmp.size() + 1, tmp + "/") == 0, "%s: %s is not in the temporary directory", what, x);
		std::string got;
		CHECK(c, slurp(x, got) && got == r.n->c.read(0, r.n->c.size), "%s: %s has other content", what, x);
		c.label("extracted");
		break;
	}
	default: break;
	}
	memset(p, 'Z', given.size());
	free(p);
	c.label("%s %s", op_name[op], r.n ? "there" : "missing");
	return true;
}

// ---- what the system gives ------------------------------------------------

static std::string stat_all(const struct stat &s) {
	char b[200];
	snprintf(b, sizeof b, "dev %lx ino %lu mode %o nlink %lu uid %u gid %u size %ld mtime %ld", (long)s.st_dev, (long)s.st_ino, s.st_mode, (long)s.st_nlink, s.st_uid, s.st_gid, (long)s.st_size,
	         (long)s.st_mtime);
	return b;
}
#define VIA(plain, call_plain, call_enc) ((plain) ? (call_plain) : (call_enc))
// the operation in words, by the plain call or by the interposed one
static std::string sys_op(Op op, const char *p, bool plain, unsigned variant) {
	struct stat st;
	memset(&st, 0, sizeof st);
	char b[100];
	errno = variant & 1 ? 0 : E2BIG;
	auto err = [&](long ret) {
		snprintf(b, sizeof b, "returns %ld, errno %d", ret, errno);
		return std::string(b);
	};
	switch (op) {
	case STAT: {
		int k = VIA(plain, stat(p, &st), enclose_io_stat(p, &st));
		return k ? err(k) : stat_all(st);
	}
	case LSTAT: {
		int k = VIA(plain, lstat(p, &st), enclose_io_lstat(p, &st));
		return k ? err(k) : stat_all(st);
	}
	case ACCESS: {
		int mode = variant & 2 ? R_OK : variant & 4 ? X_OK : F_OK;
		int k = VIA(plain, access(p, mode), enclose_io_access(p, mode));
		return k ? err(k) : "accessible";
	}
	case OPEN:
	case OPENAT: {
		int fl = variant & 8 ? O_RDONLY | O_NOFOLLOW | O_NONBLOCK : variant & 16 ? O_RDONLY | O_DIRECTORY : variant & 4 ? O_RDWR | O_NONBLOCK : O_RDONLY | O_NONBLOCK;
		int fd;
		if (op == OPEN) fd = VIA(plain, open(p, fl), variant & 2 ? enclose_io_open(3, p, fl, 0) : enclose_io_open(2, p, fl));
		else {
			int dfd = variant & 2 ? open("/", O_RDONLY | O_DIRECTORY) : AT_FDCWD;
			const char *q = variant & 2 && *p == '/' ? p + 1 : p;
			errno = variant & 1 ? 0 : E2BIG;
			fd = VIA(plain, openat(dfd, q, fl), variant & 32 ? enclose_io_openat(4, dfd, q, fl, 0) : enclose_io_openat(3, dfd, q, fl));
			int e = errno;
			if (dfd >= 0) close(dfd);
			errno = e;
		}
		if (fd < 0) return err(fd);
		if (VIA(plain, fstat(fd, &st), enclose_io_fstat(fd, &st))) return "fstat: " + err(-1);
		std::string r = stat_all(st);
		if (S_ISREG(st.st_mode)) {
			char *q = (char *)malloc(10000);
			ssize_t k = VIA(plain, read(fd, q, 10000), enclose_io_read(fd, q, 10000));
			r += "; read " + std::to_string(k);
			if (k > 0) r += " " + std::to_string(img::hash64(pbt::hashstr(std::string(q, k).c_str())));
			free(q);
		}
		if (VIA(plain, close(fd), enclose_io_close(fd))) r += "; close: " + err(-1);
		return r;
	}
	case READLINK: {
		size_t n = variant & 2 ? 200 : variant & 4 ? 3 : 1;
		Buf q(n);
		ssize_t k = VIA(plain, readlink(p, (char *)q.p, n), enclose_io_readlink(p, (char *)q.p, n));
		return k < 0 ? err(k) : "link " + show(q.p, k);
	}
	case OPENDIR: {
		DIR *d = VIA(plain, opendir(p), enclose_io_opendir(p));
		if (!d) return err(0);
		std::string r = "stream";
		while (struct dirent *e = VIA(plain, readdir(d), enclose_io_readdir(d))) r += " " + show(e->d_name) + " " + std::to_string(e->d_ino) + " " + std::to_string(e->d_type);
		if (VIA(plain, closedir(d), enclose_io_closedir(d))) r += "; closedir: " + err(-1);
		return r;
	}
	case SCANDIR: {
		struct dirent **l = nullptr;
		sel_mod = variant & 2;
		auto s = variant & 2 ? sel : nullptr;
		auto cm = (int (*)(const struct dirent **, const struct dirent **))cmpn;
		int n = VIA(plain, scandir(p, &l, s, cm), enclose_io_scandir(p, &l, s, cm));
		if (n < 0) return err(n);
		std::string r = std::to_string(n);
		for (int i = 0; i < n; ++i) r += std::string(" ") + l[i]->d_name, free(l[i]);
		free(l);
		return r;
	}
	default: {
		const char *x = plain ? p : enclose_io_ifextract(p, nullptr);
		return x ? x : "NULL";
	}
	}
}
static void check_real(Case &c, Op op, const std::string &p) {
	unsigned v = c.draw(64);
	char *q = strdup(p.c_str());
	CHECK(c, enclose_io_if(q) == 0, "%s is taken for a path of the image", show(p, 100).c_str());
	std::string want = sys_op(op, q, true, v), got = sys_op(op, q, false, v);
	c.count();
	c.note("%s of %s, real: %s", op_name[op], show(p, 100).c_str(), want.substr(0, 100).c_str());
	CHECK(c, got == want, "%s of %s, not in the image, is \"%s\", the system gives \"%s\"", op_name[op], show(p, 100).c_str(), got.c_str(), want.c_str());
	free(q);
	c.label("real %s %s", op_name[op], want.compare(0, 7, "returns") ? "there" : "refused");
}
static std::string near(Case &c, std::string s) {
	if (s.empty()) return "x";
	switch (c.draw(5)) {
	case 0: return s + (char)('a' + c.draw(26));
	case 1: return s.size() > 1 && s[s.size() - 2] != '/' ? s.substr(0, s.size() - 1) : s + "q";
	case 2: return s + "/missing";
	case 3: return s + "/" + "a";
	default: s[s.size() - 1] = s.back() == 'q' ? 'r' : 'q'; return s;
	}
}
// the part after SCOPE: "" or "/..."
static std::string inner(Case &c, World &w, bool plain = false) {
	if (w.in.empty() || c.chance(1, 10)) return plain ? "" : c.chance(1, 2) ? "" : "/.";
	const gen::Entry &e = w.in[c.draw(w.in.size())];
	std::string rest = e.path.substr(SCOPE.size());
	if (plain) return rest;
	if (c.chance(1, 6)) return near(c, rest);
	if (c.chance(1, 5)) {
		gen::Cfg g;
		std::vector<std::string> comps = ref::split(rest);
		return "/" + gen::spell(c, w.im, w.base, comps, false, g);
	}
	if (e.n->type == img::LNK_T && c.chance(1, 3)) return rest + "/" + w.in[c.draw(w.in.size())].name;   // through a link
	return rest;
}
static std::string real_path(Case &c, bool &relative, const World *w = nullptr) {
	unsigned k = c.pick({5, 5, 2, 3});
	relative = false;
	std::string n = c.oneof(real_names);
	if (k == 0) return n.empty() ? real_dir : real_dir + "/" + n;
	if (k == 1) {
		relative = true;
		return n;
	}
	if (k == 2) {
		static const std::vector<std::string> odd = {"/", "/dev/null", "/nonexistent", "/nonexistent/a", "/proc/self/nothing", "/..", "/tmp/"};
		return c.oneof(odd);
	}
	// looks like one of the image
	static const std::vector<std::string> like = {"/__enclose_io_memfs_", "/__enclose_io_memfs__2", "/__enclose_io_memfs__a", "/__enclose_io_memfs__.", "/__enclose_io_memf", "/_enclose_io_memfs__", "/__ENCLOSE_IO_MEMFS__",
	                                              "/other", "/__enclose_io_memfs___", "/x/__enclose_io_memfs__", "/__enclose_io_memfs__ ", "/a/../a/__enclose_io_memfs__", "/__enclose_io_memfs_/_"};
	std::string s = c.chance(1, 6) ? real_dir + SCOPE : c.oneof(like);
	if (w && c.chance(2, 3) && !w->in.empty()) s += w->in[c.draw(w->in.size())].path.substr(SCOPE.size());
	else if (c.chance(1, 2)) s += "/a";
	if (s.size() > 3900) s = "/x";
	c.label("look-alike");
	return s;
}

static void p25(Case &c) {
	begin(c);
	env_dirs(c);
	World w;
	make_world(c, w, c.chance(1, 3), c.chance(1, 6));
	unsigned n = 8 + c.draw(24), virt = 0, real = 0;
	int fds0 = count_fds(), created = 0;
	for (unsigned i = 0; i < n; ++i) {
		if (c.chance(1, 2)) {
			std::string p = SCOPE + inner(c, w);
			lengthen(c, p, SCOPE.size());
			if (check_virtual(c, w, any_op(c), p, p)) ++virt;
		} else if (c.chance(1, 12)) {
			// making files and directories elsewhere, twice in twin places
			std::string a = real_dir + "/p" + std::to_string(created), b = real_dir + "/w" + std::to_string(created);
			++created;
			mode_t mode = (mode_t)c.draw(01000) | 0600;
			bool dir = c.chance(1, 2), rel = c.chance(1, 2);
			const char *x = b.c_str() + (rel ? real_dir.size() + 1 : 0);
			int k1, k2, fl = O_CREAT | O_RDWR | (c.chance(1, 2) ? O_EXCL : 0);
			if (dir) k1 = mkdir(a.c_str(), mode), k2 = enclose_io_mkdir(x, mode);
			else {
				k1 = open(a.c_str(), fl, mode), k2 = c.chance(1, 2) ? enclose_io_open(3, x, fl, mode) : enclose_io_openat(4, AT_FDCWD, x, fl, mode);
				CHECK(c, k1 >= 0 && k2 >= 0, "open with O_CREAT of %s: %d errno %d", x, k2, errno);
				if (write(k2, "w", 1)) {}
				close(k1);
				CHECK(c, enclose_io_close(k2) == 0, "close of %s: errno %d", x, errno);
				k1 = k2 = 0;
			}
			struct stat s1, s2;
			CHECK(c, k1 == k2 && !stat(a.c_str(), &s1) && !stat(b.c_str(), &s2), "creating %s: %d errno %d", x, k2, errno);
			CHECK(c, s1.st_mode == s2.st_mode, "creating %s with mode %o gives %o, the plain call gives %o", x, mode, s2.st_mode, s1.st_mode);
			c.label("created elsewhere");
			++real;
		} else {
			bool rel;
			std::string p = real_path(c, rel, &w);
			check_real(c, any_op(c), p);
			++real;
		}
		CHECK(c, count_fds() == fds0, "%d descriptors are open, %d were", count_fds(), fds0);
		CHECK(c, vf_locks_held() == 0, "a lock is held");
	}
	CHECK(c, enclose_io_dlopen(NULL, RTLD_NOW), "dlopen of NULL is not the main program");
	CHECK(c, !enclose_io_dlopen((SCOPE + "/missing/lib.so").c_str(), RTLD_NOW), "dlopen of a missing library of the image succeeds");
	squash_extract_clear_cache();
	w.m.unmount();
	rm_tree(base_dir);
	if (virt >= 3 && real >= 3) c.nontrivial();
}

// ---- P26 ------------------------------------------------------------------

// what getcwd says: "" when the working directory is real
static void check_cwd(Case &c, World &w, Node *cwd, const std::string &realcwd) {
	char *p = enclose_io_getcwd(NULL, 0);
	CHECK(c, p, "getcwd: errno %d", errno);
	std::string s = p;
	vf_free(p);
	if (!cwd) CHECK(c, s == realcwd, "getcwd says %s, the working directory is %s", s.c_str(), realcwd.c_str());
	else {
		CHECK(c, s == SCOPE || s.compare(0, SCOPE.size() + 1, SCOPE + "/") == 0, "getcwd says %s in a directory of the image", show(s, 200).c_str());
		ref::Resolver rr(w.im);
		ref::Result r = rr.resolve(s, true);
		CHECK(c, r.n == cwd || r.unspec || r.may_loop, "getcwd says %s, which is another directory", show(s, 200).c_str());
	}
	size_t n = c.chance(1, 2) ? s.size() + c.draw(4) : c.draw(s.size() + 40);
	Buf b(n);
	errno = 0;
	char *q = enclose_io_getcwd((char *)b.p, n);
	int e = errno;
	if (n > s.size()) {
		CHECK(c, q == (char *)b.p && s == q, "getcwd into %zu bytes: %s errno %d, should be %s", n, q ? q : "NULL", e, show(s, 200).c_str());
	} else {
		CHECK(c, !q && (e == ERANGE || (n == 0 && e == EINVAL)), "getcwd into %zu bytes: %s errno %d, %s does not fit", n, q ? q : "NULL", e, show(s, 200).c_str());
		c.label("getcwd does not fit");
	}
	if (c.chance(1, 4)) {
		Buf b2(4096);
		q = enclose_io_getwd((char *)b2.p);
		CHECK(c, q == (char *)b2.p && s == q, "getwd differs from getcwd");
	}
	c.count();
}
static void p26(Case &c) {
	begin(c);
	env_dirs(c);
	World w;
	bool deep = c.chance(1, 3);
	make_world(c, w, c.chance(1, 4), deep);
	Node *cwd = nullptr;                  // NULL: real
	std::string vcwd, rcwd = real_dir;    // the virtual path, without dots
	unsigned n = 8 + c.draw(22), changes = 0, rel = 0;
	int fds0 = count_fds();
	ref::Resolver rr(w.im);
	for (unsigned i = 0; i < n; ++i) {
		unsigned k = c.pick({6, 10, 2, 2, 2, 1});
		if (k == 5) {
			// there and back, time and again
			if (!cwd) continue;
			std::vector<std::string> ch;
			for (auto &x : cwd->kids)
				if (x.second->type == img::DIR_T) ch.push_back(x.first);
			std::string d = ch.empty() ? "." : c.oneof(ch);
			if (vcwd.size() + d.size() + 8 > 2040) continue;
			bool one = c.chance(1, 2);
			unsigned t = 20 + c.draw(500);
			for (unsigned j = 0; j < t; ++j)
				if (one || ch.empty()) CHECK(c, !enclose_io_chdir((ch.empty() ? d : d + "/..").c_str()), "chdir to %s and back, time %u: errno %d", show(d).c_str(), j, errno);
				else CHECK(c, !enclose_io_chdir(d.c_str()) && !enclose_io_chdir(".."), "chdir to %s and back, time %u: errno %d", show(d).c_str(), j, errno);
			c.note("%u times to %s and back", t, show(d, 60).c_str());
			c.label("there and back");
		} else if (k == 0) {
			// to a directory of the image
			std::string p, full;
			if (cwd && c.chance(1, 2)) {
				// relative
				std::vector<const gen::Entry *> v;
				for (auto &e : w.dirs) v.push_back(&e);
				std::vector<std::string> comps;
				unsigned how = c.pick({5, 2, 2, 1});
				if (how == 0 && !cwd->kids.empty()) {
					auto it = cwd->kids.begin();
					std::advance(it, c.draw(cwd->kids.size()));
					p = it->first;
				} else if (how == 1 && cwd != w.base) p = "..";
				else if (how == 2 && !v.empty()) {
					for (auto &x : gen::relative(c, w.im, cwd, *v[c.draw(v.size())], true)) p += (p.empty() ? "" : "/") + x;
				} else p = c.chance(1, 2) ? "." : "missing";
				if (c.chance(1, 8)) p += "/";
				full = vcwd + "/" + p;
			} else {
				if (!w.dirs.empty() && c.chance(3, 4)) p = w.dirs[c.draw(w.dirs.size())].path;
				else p = SCOPE + inner(c, w);
				if (c.chance(1, 8)) p += std::string(1 + c.draw(2), '/');
				full = p;
			}
			if (full.size() > 3900) continue;
			if (full.find("/../") != std::string::npos || (full.size() > 3 && full.compare(full.size() - 3, 3, "/..") == 0)) {
				// stays below the image?
				int depth = 0;
				bool out = false;
				for (auto &x : ref::split(full)) {
					if (x == "..") --depth;
					else if (x != ".") ++depth;
					out |= depth < 1;
				}
				if (out) continue;
			}
			ref::Result r = rr.resolve(full, true);
			bool slashed = r.unspec;
			if (r.unspec) {
				std::string f2 = full;
				while (f2.size() > 1 && f2.back() == '/') f2.pop_back();
				r = rr.resolve(f2, true);
			}
			if (r.unspec || r.may_loop) continue;
			(void)slashed;
			char *q = strdup(p.c_str());
			errno = c.chance(1, 2) ? 0 : EACCES;
			int ret = enclose_io_chdir(q), e = errno;
			memset(q, 'Z', p.size());
			free(q);
			c.note("chdir %s -> %d", show(p, 100).c_str(), ret);
			if (full.size() > 2040 && ret == -1 && (e == ENAMETOOLONG || e == ENOENT)) {
				c.label("chdir to what is too long");
			} else if (r.n && r.n->type == img::DIR_T) {
				CHECK(c, ret == 0, "chdir to %s: errno %d", show(p, 100).c_str(), e);
				cwd = r.n;
				vcwd.clear();
				for (auto &x : ref::split(full))
					if (x == "..") vcwd.resize(vcwd.rfind('/'));
					else if (x != ".") vcwd += "/" + x;
				++changes;
				c.label(p[0] == '/' ? "chdir absolute" : "chdir relative");
				if (r.links) c.label("chdir through links");
			} else {
				CHECK(c, ret == -1, "chdir to %s, no directory, succeeds", show(p, 100).c_str());
				CHECK(c, r.n ? e == ENOTDIR || e == ENOENT : r.err_ok(e), "chdir to %s, no directory: errno %d", show(p, 100).c_str(), e);
				c.label("chdir refused");
			}
		} else if (k == 1) {
			if (cwd) {
				// relative paths mean entries below it
				std::string p;
				unsigned how = c.pick({6, 3, 1});
				if (how == 0 && !cwd->kids.empty()) {
					auto it = cwd->kids.begin();
					std::advance(it, c.draw(cwd->kids.size()));
					p = it->first;
					if (it->second->type == img::DIR_T && !it->second->kids.empty() && c.chance(1, 2)) {
						auto j = it->second->kids.begin();
						std::advance(j, c.draw(it->second->kids.size()));
						p += "/" + j->first;
					}
					if (c.chance(1, 5)) p = "./" + p;
					if (c.chance(1, 6)) p = near(c, p);
				} else if (how == 1 && !w.in.empty()) {
					for (auto &x : gen::relative(c, w.im, cwd, w.in[c.draw(w.in.size())], true)) p += (p.empty() ? "" : "/") + x;
					int depth = 0;
					bool out = false;
					for (auto &x : ref::split(vcwd + "/" + p)) {
						if (x == "..") --depth;
						else if (x != ".") ++depth;
						out |= depth < 1;
					}
					if (out) continue;
				} else p = c.chance(1, 2) ? "." : c.oneof(real_names);
				if (p.empty() || p[0] == '/' || p == ".." ) continue;
				if (p.find('/') == std::string::npos && c.chance(1, 3)) p = "./" + p;
				lengthen(c, p, 0);
				if (check_virtual(c, w, any_op(c), p, vcwd + "/" + p)) {
					++rel;
					c.label("relative to the virtual directory");
				}
			} else {
				std::string nm = c.oneof(real_names);
				check_real(c, any_op(c), nm);
				c.label("relative to the real directory");
			}
		} else if (k == 2) {
			// absolute ones are as ever
			if (c.chance(1, 2)) {
				std::string p = SCOPE + inner(c, w);
				check_virtual(c, w, any_op(c), p, p);
			} else {
				bool r2;
				std::string p = real_path(c, r2, &w);
				if (!r2) check_real(c, any_op(c), p);
			}
		} else if (k == 3) {
			// to a real directory, or not
			static const std::vector<std::string> to = {"", "/d", "/d/e", "/ld", "/a", "/missing", "/loop", "/v", "/__enclose_io_memfs__"};
			std::string t = c.oneof(to), p = real_dir + t;
			if (!cwd && c.chance(1, 2)) p = t.empty() ? "." : t.substr(1);
			struct stat st;
			bool ok = !stat(p.c_str(), &st) && S_ISDIR(st.st_mode);
			errno = 0;
			int ret = enclose_io_chdir(p.c_str()), e = errno;
			c.note("chdir to the real %s -> %d", p.c_str(), ret);
			CHECK(c, (ret == 0) == ok, "chdir to the real %s: %d errno %d", p.c_str(), ret, e);
			if (ok) {
				char b[4096];
				CHECK(c, getcwd(b, sizeof b), "getcwd");
				rcwd = b;
				if (cwd) c.label("back to a real directory");
				cwd = nullptr;
			} else {
				CHECK(c, ret == -1 && (e == ENOENT || e == ENOTDIR || e == ELOOP), "chdir to the real %s: %d errno %d", p.c_str(), ret, e);
				c.label("chdir refused");
			}
		} else {
			errno = 0;
			if (cwd && c.chance(1, 3)) {
				int ret = enclose_io_chdir("");
				CHECK(c, ret == -1 && errno == ENOENT, "chdir to the empty path: %d errno %d", ret, errno);
			}
		}
		check_cwd(c, w, cwd, rcwd);
		CHECK(c, enclose_io_if("x") == (cwd ? 1 : 0), "a relative path is%s taken for one of the image", cwd ? " not" : "");
		CHECK(c, count_fds() == fds0, "%d descriptors are open, %d were", count_fds(), fds0);
	}
	std::string nd = "new-dir", nf = "new-file";
	if (c.chance(1, 2) && !w.base->kids.count(nd) && !w.base->kids.count(nf)) {
		// directories of the overlay, and what is none
		auto say = []() {
			char *q = enclose_io_getcwd(NULL, 0);
			std::string r = q ? q : "NULL";
			vf_free(q);
			return r;
		};
		int fd = enclose_io_open(3, (SCOPE + "/" + nf).c_str(), O_CREAT | O_RDWR, 0600);
		CHECK(c, fd >= 0 && !enclose_io_close(fd), "creating %s: errno %d", nf.c_str(), errno);
		CHECK(c, enclose_io_mkdir((SCOPE + "/" + nd).c_str(), 0700) == 0, "mkdir of %s: errno %d", nd.c_str(), errno);
		auto refuse = [&](const std::string &p) {
			std::string was = say();
			errno = 0;
			int ret = enclose_io_chdir(p.c_str()), e = errno;
			c.note("chdir to %s, in the overlay -> %d", p.c_str(), ret);
			CHECK(c, ret == -1 && (e == ENOENT || e == ENOTDIR), "chdir to %s, no directory: %d errno %d", p.c_str(), ret, e);
			CHECK(c, say() == was, "a failing chdir to %s moved the working directory from %s to %s", p.c_str(), was.c_str(), say().c_str());
		};
		refuse(SCOPE + "/" + nf);
		refuse(SCOPE + "/" + nd + "/none");
		CHECK(c, enclose_io_chdir((SCOPE + "/" + nd).c_str()) == 0, "chdir to the created %s: errno %d", nd.c_str(), errno);
		CHECK(c, say() == SCOPE + "/" + nd, "getcwd says %s in the created %s", say().c_str(), nd.c_str());
		refuse("none");
		refuse("../" + nf);
		CHECK(c, enclose_io_chdir("..") == 0 && say() == SCOPE, "getcwd says %s above the created %s", say().c_str(), nd.c_str());
		refuse(nf);
		CHECK(c, enclose_io_chdir(nd.c_str()) == 0 && say() == SCOPE + "/" + nd, "getcwd says %s in the created %s again", say().c_str(), nd.c_str());
		if (enclose_io_chdir(real_dir.c_str())) c.fail("chdir to %s", real_dir.c_str());
		refuse(SCOPE + "/" + nf);
		c.label("overlay");
	}
	squash_extract_clear_cache();
	w.m.unmount();
	if (chdir("/")) {}
	rm_tree(base_dir);
	if (changes >= 2 && rel >= 2) c.nontrivial();
}

// ---- P27 ------------------------------------------------------------------

struct Made {
	bool dir;
	mode_t mode;
	std::string data;
};
// every path below d, in order, with its type and content
static void tree_of(const std::string &d, const std::string &pre, std::vector<std::string> &v) {
	for (auto &f : files_in(d)) {
		struct stat st;
		if (lstat(f.c_str(), &st)) continue;
		std::string nm = pre + f.substr(d.size());
		if (S_ISDIR(st.st_mode)) {
			v.push_back(nm + "/");
			tree_of(f, nm, v);
		} else {
			std::string s;
			slurp(f, s);
			v.push_back(nm + " " + std::to_string(st.st_size) + " " + std::to_string(pbt::hashstr(s.c_str())));
		}
	}
}
static void p27(Case &c) {
	begin(c);
	env_dirs(c);
	World w;
	make_world(c, w, c.chance(1, 4));
	ref::Resolver rr(w.im);
	vf_rand_clash = c.draw(3);
	std::set<std::string> theirs;
	bool links = c.chance(1, 3);          // which lead nowhere
	if (c.chance(1, 2))
		for (int i = 0; i < 6; ++i) {
			if (links) {
				if (symlink((base_dir + "/o/f").c_str(), (tmp + "/libsquash-" + std::to_string(i)).c_str())) {}
			} else put(tmp + "/libsquash-" + std::to_string(i), "theirs");
			theirs.insert(tmp + "/libsquash-" + std::to_string(i));
		}
	mkdir((base_dir + "/o").c_str(), 0700);
	put(base_dir + "/o/keep", "keep");
	bool hidden = c.chance(1, 12);        // at first there is no temporary directory
	if (hidden && theirs.empty()) rmdir(tmp.c_str());
	else hidden = false;
	bool lengthy = !hidden && c.chance(1, 6);   // the temporary directory's own path is hardly shorter than a path can be, or longer
	if (lengthy) {
		size_t len = c.chance(1, 3) ? 1900 + c.draw(140) : c.chance(2, 3) ? 2000 + c.draw(50) : 1500 + c.draw(1300);
		for (auto &t : theirs) unlink(t.c_str());
		theirs.clear();
		while (tmp.size() + 2 < len) {
			tmp += "/" + std::string(std::min<size_t>(len - tmp.size() - 1, 150 + c.draw(90)), 'd');
			if (mkdir(tmp.c_str(), 0700)) c.fail("mkdir %s", tmp.c_str());
		}
		setenv("TMPDIR", tmp.c_str(), 1);
		c.note("the temporary directory's path has %zu bytes", tmp.size());
	}
	std::map<std::string, Made> made;     // by absolute path
	std::set<std::string> above;          // directories of the image above them
	std::string vcwd;                     // "" or where relative paths begin
	unsigned attempts = 0, n = 8 + c.draw(24), creations = 0, counter = 0, looks = 0;
	bool leaves = c.chance(1, 2);
	Leaver leaver;
	if (leaves) leaver.begin(c);
	int fds0 = count_fds();
	// links of the image that lead to directories
	std::vector<std::string> dlinks;
	for (auto &e : w.in)
		if (e.n->type == img::LNK_T) {
			ref::Result r = rr.resolve(e.path, true);
			if (r.n && r.n->type == img::DIR_T && !r.unspec && !r.may_loop) dlinks.push_back(e.path);
		}
	auto through_link = [&](const std::string &p) {
		for (auto &l : dlinks)
			if (p.compare(0, l.size() + 1, l + "/") == 0) return true;
		return false;
	};
	// a path where something may be created, and its directory
	auto parent = [&](bool overlay) -> std::string {
		std::vector<std::string> v;
		if (overlay) {
			for (auto &m : made)
				if (m.second.dir && (m.second.mode & 0300) == 0300) v.push_back(m.first);
		}
		if (v.empty()) {
			v.push_back(SCOPE);
			for (auto &e : w.dirs) v.push_back(e.path);
			if (!dlinks.empty() && c.chance(1, 5)) {
				c.label("through a link");
				return dlinks[c.draw(dlinks.size())];
			}
		}
		return v[c.draw(v.size())];
	};
	auto is_there = [&](const std::string &p) {
		if (made.count(p)) return true;
		ref::Result r = rr.resolve(p, false);
		return r.n != nullptr || r.unspec;
	};
	// the same path with dots and slashes that change nothing, `rest` being below the directory `base`
	auto noise = [&](const std::string &base, const std::string &rest) -> std::string {
		if (rest.empty() || rest.size() > 1300 || lengthy || !c.chance(1, 4)) return rest;
		std::vector<std::string> v = ref::split(rest);
		size_t at = c.draw(v.size());
		std::string d = base;
		for (size_t i = 0; i < at; ++i) {
			if (v[i] == "." || v[i] == "..") return rest;
			d += "/" + v[i];
		}
		std::vector<std::string> sub;
		for (auto &m : made)
			if (m.second.dir && !through_link(m.first) && m.first.size() > d.size() && m.first.compare(0, d.size() + 1, d + "/") == 0) sub.push_back(m.first.substr(d.size() + 1));
		for (auto &e : w.dirs)
			if (e.path.size() > d.size() && e.path.compare(0, d.size() + 1, d + "/") == 0) sub.push_back(e.path.substr(d.size() + 1));
		std::string x = c.chance(1, 3) ? "" : ".";
		if (!sub.empty() && c.chance(2, 3)) {
			std::string y = sub[c.draw(sub.size())];
			if (y.size() < 600) {
				x = y + "/..";
				for (char ch : y)
					if (ch == '/') x += "/..";
				c.label("dot-dot");
			}
		}
		if (x.empty() && at == 0) x = ".";
		v.insert(v.begin() + at, x);
		std::string r;
		for (size_t i = 0; i < v.size(); ++i) r += (i ? "/" : "") + v[i];
		if (rest.back() == '/') r += "/";
		c.label("noise");
		return r;
	};
	// as given to the call: relative when the working directory allows
	auto given = [&](const std::string &p) -> std::string {
		if (!vcwd.empty() && p.compare(0, vcwd.size() + 1, vcwd + "/") == 0 && c.chance(2, 3)) {
			c.label("relative");
			return noise(vcwd, (!lengthy && c.chance(1, 6) ? "./" : "") + p.substr(vcwd.size() + 1));
		}
		if (p.compare(0, SCOPE.size() + 1, SCOPE + "/") == 0 && p.size() > SCOPE.size() + 1) return SCOPE + "/" + noise(SCOPE, p.substr(SCOPE.size() + 1));
		return p;
	};
	auto snapshot = [&]() {
		std::vector<std::string> v;
		for (auto &f : files_in(tmp))
			if (!theirs.count(f)) tree_of(f, "", v);
		return v;
	};
	auto fresh = [&](const std::string &dir) -> std::string {
		static const char *nm[] = {"n", "new", "a", "x.so", "dir"};
		std::string s;
		do {
			s = dir + "/" + nm[c.draw(5)];
			if (c.chance(1, lengthy ? 2 : 8)) s += std::string(1 + c.draw(200), 'w');
			if (c.chance(1, 2) || is_there(s)) s += std::to_string(++counter);
		} while (is_there(s));
		return s;
	};
	auto mark_above = [&](const std::string &p) {
		std::string d = p;
		for (;;) {
			d = d.substr(0, d.rfind('/'));
			if (d == SCOPE || d.size() < SCOPE.size()) break;
			if (!made.count(d)) above.insert(d);
		}
	};
	// refused for the length of its path: no trace but directories of the image above it
	auto no_room = [&](const std::string &p) {
		if (!lengthy || tmp.size() + p.size() < 2000) return false;
		struct stat st;
		CHECK(c, errno, "%s is refused without an error", show(p, 100).c_str());
		errno = 0;
		CHECK(c, enclose_io_lstat(p.c_str(), &st) == -1 && (errno == ENOENT || errno == ENAMETOOLONG), "%s is there after its creation failed, errno %d", show(p, 100).c_str(), errno);
		auto top = files_in(tmp);
		for (std::string d = p.substr(0, p.rfind('/')); d.size() > SCOPE.size(); d = d.substr(0, d.rfind('/')))
			if (!made.count(d) && !top.empty() && !lstat((top[0] + d.substr(SCOPE.size())).c_str(), &st)) above.insert(d);
		c.label("no room in the overlay");
		return true;
	};
	auto look = [&](const std::string &p) {
		// something created: every call sees it
		const Made &m = made[p];
		std::string g = given(p);
		const char *q = g.c_str();
		struct stat st;
		++looks;
		c.count();
		c.note("look at %s", show(g, 80).c_str());
		int k = c.chance(1, 2) ? enclose_io_stat(q, &st) : enclose_io_lstat(q, &st);
		CHECK(c, k == 0, "stat of the created %s: errno %d", q, errno);
		CHECK(c, S_ISDIR(st.st_mode) == m.dir && (m.dir || S_ISREG(st.st_mode)), "the created %s has mode %o", q, st.st_mode);
		CHECK(c, (st.st_mode & 0777) == (m.mode & ~022), "the created %s has mode %o, asked for %o", q, st.st_mode, m.mode);
		if (!m.dir) CHECK(c, (size_t)st.st_size == m.data.size(), "the created %s has %ld bytes, %zu were written", q, (long)st.st_size, m.data.size());
		CHECK(c, enclose_io_access(q, F_OK) == 0, "access of the created %s: errno %d", q, errno);
		char b[16];
		errno = 0;
		ssize_t rl = enclose_io_readlink(q, b, sizeof b);
		CHECK(c, rl == -1 && errno == EINVAL, "readlink of the created %s: %zd errno %d", q, rl, errno);
		errno = 0;
		DIR *d = (m.mode & 0400) ? enclose_io_opendir(q) : nullptr;
		if (m.dir && (m.mode & 0400)) {
			CHECK(c, d, "opendir of the created %s: errno %d", q, errno);
			std::set<std::string> got, want;
			while (struct dirent *e = enclose_io_readdir(d))
				if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) got.insert(e->d_name);
			for (auto &x : made)
				if (x.first.size() > p.size() + 1 && x.first.compare(0, p.size() + 1, p + "/") == 0 && x.first.find('/', p.size() + 1) == std::string::npos) want.insert(x.first.substr(p.size() + 1));
			CHECK(c, got == want, "the created %s lists %zu entries, %zu were created in it", q, got.size(), want.size());
			CHECK(c, enclose_io_closedir(d) == 0, "closedir of the created %s: errno %d", q, errno);
		} else if (!m.dir) {
			if (m.mode & 0400) CHECK(c, !d && errno == ENOTDIR, "opendir of the created file %s: errno %d", q, errno);
			int fd = enclose_io_open(2, q, O_RDONLY);
			CHECK(c, fd >= 0, "open of the created %s: errno %d", q, errno);
			std::string got;
			char t[3000];
			ssize_t z;
			while ((z = enclose_io_read(fd, t, sizeof t)) > 0) got.append(t, z);
			CHECK(c, got == m.data, "the created %s reads %zu bytes, not what was written", q, got.size());
			CHECK(c, enclose_io_close(fd) == 0, "close of the created %s: errno %d", q, errno);
		}
	};
	for (unsigned i = 0; i < n; ++i) {
		unsigned k = c.pick({5, 5, 3, 3, 4, 6, 2, 2, 2, 2});
		if (hidden && i == n / 2) {
			mkdir(tmp.c_str(), 0700);
			hidden = false;
		}
		attempts += k < 4;
		switch (k) {
		case 0: {
			std::string p = fresh(parent(c.chance(1, 2)));
			if (p.size() > 1200) break;
			std::string g = given(p);
			mode_t mode = 0700 | (mode_t)c.draw(0100);
			if (c.chance(1, 5)) mode = (mode_t)c.draw(01000) | (c.chance(1, 2) ? 0400 : 0);
			std::string gs = g + (c.chance(1, 8) ? "/" : "");
			errno = 0;
			int r = enclose_io_mkdir(gs.c_str(), mode);
			c.note("mkdir %s %o -> %d", show(gs, 100).c_str(), mode, r);
			if (hidden) {
				CHECK(c, r == -1 && errno, "mkdir of %s without a temporary directory: %d errno %d", gs.c_str(), r, errno);
				c.label("no temporary directory");
				break;
			}
			if (r == -1 && no_room(p)) break;
			CHECK(c, r == 0, "mkdir of %s: errno %d", show(gs, 100).c_str(), errno);
			made[p] = {true, mode, ""};
			mark_above(p);
			look(p);
			++creations;
			c.label("mkdir");
			break;
		}
		case 1: {
			std::string p = fresh(parent(c.chance(1, 2)));
			if (p.size() > 1200) break;
			std::string g = given(p);
			mode_t mode = 0600 | (mode_t)c.draw(0100);
			int fl = O_CREAT | (c.chance(1, 2) ? O_RDWR : O_WRONLY) | (c.chance(1, 3) ? O_EXCL : 0) | (c.chance(1, 4) ? O_TRUNC : 0);
			errno = 0;
			int fd = c.chance(1, 3) ? enclose_io_openat(4, AT_FDCWD, g.c_str(), fl, mode) : enclose_io_open(3, g.c_str(), fl, mode);
			c.note("create %s -> %d", show(g, 100).c_str(), fd);
			if (hidden) {
				CHECK(c, fd == -1 && errno, "open with O_CREAT of %s without a temporary directory: %d errno %d", g.c_str(), fd, errno);
				c.label("no temporary directory");
				break;
			}
			if (fd == -1 && no_room(p)) break;
			CHECK(c, fd >= 0, "open with O_CREAT of %s: errno %d", show(g, 100).c_str(), errno);
			std::string data = text(i + 7, c.sized(9000));
			size_t at = 0;
			while (at < data.size()) {
				ssize_t z = write(fd, data.data() + at, std::min<size_t>(data.size() - at, 1 + c.draw(5000)));
				CHECK(c, z > 0, "write to the created %s: errno %d", g.c_str(), errno);
				at += z;
			}
			CHECK(c, enclose_io_close(fd) == 0, "close of the created %s: errno %d", g.c_str(), errno);
			made[p] = {false, mode, data};
			mark_above(p);
			look(p);
			++creations;
			c.label("file created");
			break;
		}
		case 2: {
			// an existing one
			if (made.empty() && w.in.empty()) break;
			std::string p;
			if (!made.empty() && c.chance(1, 2)) {
				auto it = made.begin();
				std::advance(it, c.draw(made.size()));
				p = it->first;
			} else if (!w.in.empty()) {
				p = w.in[c.draw(w.in.size())].path;
				ref::Result r = rr.resolve(p, false);
				if (!r.n || r.unspec || r.may_loop) break;
				if (r.n->type == img::LNK_T) c.label("mkdir of a link");
			} else break;
			auto s0 = snapshot();
			std::string g = given(p);
			errno = 0;
			int r = enclose_io_mkdir(g.c_str(), 0755);
			CHECK(c, r == -1 && (errno == EEXIST || (hidden && errno)), "mkdir of %s, which is there: %d errno %d", show(g, 100).c_str(), r, errno);
			CHECK(c, snapshot() == s0, "mkdir of %s, which is there, leaves a trace", show(g, 100).c_str());
			if (!made.count(p) && !above.count(p)) {
				check_virtual(c, w, c.chance(1, 2) ? LSTAT : OPENDIR, p, p);
			}
			c.label("mkdir of something there");
			break;
		}
		case 3: {
			// nowhere to put it
			std::string d;
			int e1 = ENOENT, e2 = ENOENT;
			if (c.chance(1, 2)) d = fresh(parent(c.chance(1, 2)));
			else {
				std::vector<std::string> v;
				for (auto &m : made)
					if (!m.second.dir) v.push_back(m.first);
				for (auto &e : w.in)
					if (e.n->type != img::DIR_T && e.n->type != img::LNK_T) v.push_back(e.path);
				if (v.empty()) break;
				d = v[c.draw(v.size())];
				e1 = ENOTDIR;
			}
			std::string p = d + "/sub";
			if (c.chance(1, 3)) p += "/sub";
			if (p.size() > 1300) break;
			std::string g = given(p);
			auto s0 = snapshot();
			errno = 0;
			int r = enclose_io_mkdir(g.c_str(), 0755);
			CHECK(c, r == -1 && (errno == e1 || errno == e2 || (hidden && errno) || (lengthy && (errno == ENAMETOOLONG || errno == ENOENT))), "mkdir of %s, which has no parent: %d errno %d", show(g, 100).c_str(), r, errno);
			auto s1 = snapshot();
			if (s1 != s0) {
				std::string x;
				for (auto &q : s1)
					if (std::find(s0.begin(), s0.end(), q) == s0.end()) x += " " + q;
				// the directories of the image above it may have been prepared
				bool only = true;
				for (auto &q : s1)
					if (std::find(s0.begin(), s0.end(), q) == s0.end()) {
						std::string t = SCOPE + q;
						if (t.back() != '/') only = false;
						else t.pop_back();
						ref::Result rd = rr.resolve(t, true);
						if (!rd.n || rd.n->type != img::DIR_T) only = false;
					}
				CHECK(c, only, "mkdir of %s, which has no parent, leaves%s", show(g, 100).c_str(), x.c_str());
				for (std::string t = p; (t = t.substr(0, t.rfind('/'))).size() > SCOPE.size();)
					if (!made.count(t)) {
						ref::Result rd = rr.resolve(t, true);
						if (rd.n && rd.n->type == img::DIR_T) above.insert(t);
					}
			}
			struct stat st;
			CHECK(c, enclose_io_stat(p.c_str(), &st) == -1, "%s is there after mkdir failed", show(p, 100).c_str());
			c.label("mkdir without a parent");
			break;
		}
		case 4:
			if (!made.empty()) {
				auto it = made.begin();
				std::advance(it, c.draw(made.size()));
				look(it->first);
			}
			break;
		case 5: {
			// everything else is as packed
			std::string p = SCOPE + inner(c, w, true);
			if (c.chance(1, 5)) p = near(c, p);
			if (p.size() < SCOPE.size() + 1 || p.compare(0, SCOPE.size() + 1, SCOPE + "/")) break;
			std::string np;
			bool dd = false;
			for (auto &x : ref::split(p)) {
				if (x != ".") np += "/" + x;
				dd |= x == "..";
			}
			if (dd) break;
			if (made.count(np) || above.count(np) || (np == SCOPE && attempts)) {
				if (above.count(np)) {
					struct stat st;
					CHECK(c, enclose_io_stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode), "%s is no directory any more", show(p, 100).c_str());
				}
				break;
			}
			// a file of the overlay may be in the way
			bool under = false;
			for (auto &m : made) under |= p.compare(0, m.first.size() + 1, m.first + "/") == 0;
			if (under) break;
			std::string g = given(p);
			auto o = any_op(c);
			if (o == EXTRACT && (hidden || vf_rand_clash)) o = OPEN;
			if (check_virtual(c, w, o, g, p)) c.label("image beside the overlay");
			break;
		}
		case 6: {
			// the working directory, in the image or the overlay
			if (c.chance(1, 4)) {
				CHECK(c, enclose_io_chdir(real_dir.c_str()) == 0, "chdir to %s: errno %d", real_dir.c_str(), errno);
				vcwd = "";
				break;
			}
			if (c.chance(1, 4)) {
				// not a directory, or none to enter
				std::vector<std::string> v;
				for (auto &m : made) {
					if (!m.second.dir) v.push_back(m.first);
					else if (c.chance(1, 3)) v.push_back(fresh(m.first));
				}
				if (geteuid())
					for (auto &m : made)
						if (m.second.dir && !(m.second.mode & 0100)) v.push_back(m.first);
				if (v.empty()) break;
				std::string p = v[c.draw(v.size())], g = given(p);
				char *was = enclose_io_getcwd(NULL, 0);
				errno = 0;
				int r = enclose_io_chdir(g.c_str()), e = errno;
				c.note("chdir to %s, no directory to enter -> %d", show(g, 80).c_str(), r);
				CHECK(c, r == -1 && (e == ENOENT || e == ENOTDIR || (e == EACCES && made.count(p) && made[p].dir) || (lengthy && e == ENAMETOOLONG)), "chdir to %s: %d errno %d", show(g, 100).c_str(), r, e);
				char *is = enclose_io_getcwd(NULL, 0);
				CHECK(c, was && is && !strcmp(was, is), "a failing chdir to %s moved the working directory from %s to %s", show(g, 100).c_str(), was ? was : "NULL", is ? is : "NULL");
				vf_free(was), vf_free(is);
				c.label("failing chdir");
				break;
			}
			std::string p = parent(c.chance(2, 3));
			if (made.count(p) && !(made[p].mode & 0100)) break;
			CHECK(c, enclose_io_chdir(p.c_str()) == 0, "chdir to %s: errno %d", show(p, 100).c_str(), errno);
			vcwd = p;
			char *q = enclose_io_getcwd(NULL, 0);
			CHECK(c, q && p == q, "getcwd says %s in %s", q ? q : "NULL", p.c_str());
			vf_free(q);
			if (made.count(p)) c.label("chdir to a created directory");
			break;
		}
		case 8: {
			// what the dots lead to beside the overlay is no part of it
			std::string d = SCOPE, nm;
			unsigned up = 1 + c.draw(3);
			if (c.chance(1, 2)) {
				d = parent(c.chance(1, 2));
				up += std::count(d.begin() + 1, d.end(), '/');
			}
			std::string p = d;
			if (p.size() > 1000) break;
			for (unsigned j = 0; j < up; ++j) p += "/..";
			if (c.chance(1, 2)) {
				// a name that is beside it
				auto t = files_in(up > 1 && c.chance(1, 2) ? base_dir : tmp);
				if (!t.empty()) nm = t[c.draw(t.size())];
				nm = nm.substr(nm.rfind('/') + 1);
			}
			if (nm.empty()) nm = "zz" + std::to_string(c.draw(9));
			if (w.im.root->kids.count(nm)) break;
			p += "/" + nm;
			if (c.chance(1, 6)) p += "/x";
			const char *q = p.c_str();
			auto s0 = snapshot();
			struct stat st;
			errno = 0;
			long r = -1;
			unsigned how = c.draw(8);
			if (how == 0) r = enclose_io_stat(q, &st);
			else if (how == 1) r = enclose_io_lstat(q, &st);
			else if (how == 2) r = enclose_io_access(q, F_OK);
			else if (how == 3) r = enclose_io_open(2, q, O_RDONLY);
			else if (how == 4) r = enclose_io_opendir(q) ? 0 : -1;
			else if (how == 5) r = enclose_io_chdir(q);
			else if (how == 6) r = enclose_io_mkdir(q, 0700);
			else r = enclose_io_open(3, q, O_CREAT | O_RDWR, 0600);
			c.note("%u of %s, beside the overlay -> %ld", how, show(p, 100).c_str(), r);
			CHECK(c, r == -1 && errno, "call %u of %s, which is neither in the image nor in the overlay: %ld errno %d", how, show(p, 100).c_str(), r, errno);
			CHECK(c, snapshot() == s0 || how > 5, "call %u of %s leaves a trace", how, show(p, 100).c_str());
			c.label("beside the overlay");
			break;
		}
		case 9: {
			// a child that ends takes an overlay of its own with it, and nothing else
			auto s0 = snapshot();
			bool own = files_in(tmp).size() == theirs.size() && !hidden && made.empty() && !lengthy && c.chance(2, 3);
			std::string p = fresh(SCOPE);
			int st = in_child(c, [&]() {
				if (own) {
					int r = enclose_io_mkdir(p.c_str(), 0700);
					CHECK(c, r == 0, "mkdir of %s in a child: errno %d", show(p, 100).c_str(), errno);
					struct stat s;
					CHECK(c, enclose_io_stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode), "%s is not there in the child that made it", show(p, 100).c_str());
				} else if (!made.empty()) look(made.begin()->first);
			});
			c.note("a child ends%s", own ? ", with an overlay" : "");
			CHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == 0, "a child ends with status %x", st);
			CHECK(c, snapshot() == s0, "the end of a child %s", own ? "leaves its overlay" : "changes the overlay");
			if (!made.empty()) {
				auto it = made.begin();
				std::advance(it, c.draw(made.size()));
				look(it->first);
			} else if (own) {
				struct stat s;
				CHECK(c, enclose_io_stat(p.c_str(), &s) == -1, "%s, made by a child, is there", show(p, 100).c_str());
			}
			c.label("child");
			break;
		}
		default: {
			// write to it again
			std::vector<std::string> v;
			for (auto &m : made)
				if (!m.second.dir) v.push_back(m.first);
			if (v.empty()) break;
			std::string p = v[c.draw(v.size())];
			Made &m = made[p];
			std::string g = given(p);
			unsigned how = c.draw(4);
			int fl = how == 0 ? O_CREAT | O_WRONLY | O_TRUNC : how == 1 ? O_CREAT | O_WRONLY | O_APPEND : how == 2 ? O_RDWR : O_CREAT | O_EXCL | O_RDWR;
			errno = 0;
			int fd = fl & O_CREAT ? enclose_io_open(3, g.c_str(), fl, 0600) : enclose_io_open(2, g.c_str(), fl);
			if (how == 3) {
				CHECK(c, fd == -1 && errno == EEXIST, "open with O_EXCL of the created %s: %d errno %d", g.c_str(), fd, errno);
				break;
			}
			CHECK(c, fd >= 0, "open of the created %s again: errno %d", g.c_str(), errno);
			std::string add = text(i * 31, c.draw(300));
			if (write(fd, add.data(), add.size()) != (ssize_t)add.size()) c.fail("write to the created %s: errno %d", g.c_str(), errno);
			CHECK(c, enclose_io_close(fd) == 0, "close: errno %d", errno);
			if (how == 0) m.data = add;
			else if (how == 1) m.data += add;
			else m.data = add + (m.data.size() > add.size() ? m.data.substr(add.size()) : "");
			look(p);
			c.label("written again");
		}
		}
		CHECK(c, count_fds() == fds0, "%d descriptors are open, %d were", count_fds(), fds0);
		CHECK(c, vf_locks_held() == 0, "a lock is held");
		// everything is inside one directory
		std::vector<std::string> top;
		for (auto &f : files_in(tmp))
			if (!theirs.count(f)) {
				struct stat st;
				if (!lstat(f.c_str(), &st) && S_ISDIR(st.st_mode)) top.push_back(f);
			}
		CHECK(c, top.size() <= 1, "%zu directories are in the temporary directory", top.size());
		if (!made.empty()) {
			CHECK(c, top.size() == 1, "nothing is in the temporary directory");
			struct stat st;
			CHECK(c, !stat(top[0].c_str(), &st) && !(st.st_mode & 077), "the private directory has mode %o", st.st_mode);
		}
		std::vector<std::string> b = files_in(base_dir), want = {base_dir + "/o", base_dir + "/r", base_dir + "/t"};
		if (hidden) want.pop_back();
		CHECK(c, b == want, "something is beside the temporary directory");
	}
	if (leaves && !hidden) {
		// gone when the process exits, and nothing else with it
		std::vector<std::string> top;
		for (auto &f : files_in(tmp))
			if (!theirs.count(f)) top.push_back(f);
		if (!top.empty() && c.chance(1, 2)) {
			struct stat st;
			if (!lstat(top[0].c_str(), &st) && S_ISDIR(st.st_mode)) {
				if (symlink((base_dir + "/o").c_str(), (top[0] + "/away").c_str())) {}
				if (symlink((base_dir + "/o/keep").c_str(), (top[0] + "/away2").c_str())) {}
				c.label("links out of the overlay");
			}
		}
		int st = leaver.leave(c);
		CHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == 0, "exiting ends with status %x", st);
		{
			auto left = files_in(tmp);
			CHECK(c, std::set<std::string>(left.begin(), left.end()) == theirs, "%zu files are in the temporary directory after the exit", left.size() - theirs.size());
		}
		std::string s;
		struct stat lst;
		for (auto &t : theirs) CHECK(c, links ? !lstat(t.c_str(), &lst) && S_ISLNK(lst.st_mode) && stat(t.c_str(), &lst) : slurp(t, s) && s == "theirs", "%s was touched", t.c_str());
		CHECK(c, slurp(base_dir + "/o/keep", s) && s == "keep", "a file outside was deleted");
		CHECK(c, slurp(real_dir + "/a", s) && s == text(1, 300), "a file outside was deleted");
		c.label("exit");
	}
	w.m.unmount();
	if (chdir("/")) {}
	rm_tree(base_dir);
	if (creations >= 2 && looks >= 3) c.nontrivial();
}

// ---- P28 ------------------------------------------------------------------

struct Fd {
	int fd;
	Node *n;                          // NULL: real
	uint64_t pos;
	int twin;                         // a real one's, by plain calls
};
struct Ds {
	DIR *d;
	Node *n;
	std::vector<std::string> names;
	size_t pos;
	DIR *twin;
	int fd;
	std::map<long, size_t> tells;
};
static void p28(Case &c) {
	begin(c);
	env_dirs(c);
	World w;
	make_world(c, w, c.chance(1, 6));
	needs::Map map(w.im);
	needs::Blocks bad;
	if (c.chance(1, 5)) bad = needs::damage_data(c, w.im, w.m.m);
	// descriptors of another image may be about
	Image im2;
	Mounted m2;
	std::vector<gen::Entry> es2;
	if (bad.empty() && c.chance(1, 4)) {
		gen::Cfg g;
		g.max_nodes = 8, g.max_blocks = 2, g.hard_names = g.big_blocks = false;
		gen::image(c, im2, g);
		es2 = gen::entries(im2);
		mount_ok(c, m2, im2);
	}
	// whether a read has to and may fail
	auto broken = [&](Fd &f, uint64_t pos, size_t sz, ssize_t r, int e) {
		if (bad.empty()) return false;
		needs::Needs nd = map.reading(f.n, pos, sz);
		if (r >= 0) {
			CHECK(c, !needs::meets(nd.must, bad), "%zu bytes at %llu of a virtual descriptor: %zd, but a block of them is damaged", sz, (unsigned long long)pos, r);
			return false;
		}
		if (!needs::meets(nd.may, bad)) return false;
		CHECK(c, e != 0, "a failed read sets no errno");
		CHECK(c, enclose_io_lseek(f.fd, 0, SEEK_CUR) == (off_t)f.pos, "a failed read moved the position from %llu", (unsigned long long)f.pos);
		c.label("failed read");
		return true;
	};
	std::vector<std::string> rfiles = {real_dir + "/a", real_dir + "/b", real_dir + "/d/x"}, rdirs = {real_dir, real_dir + "/d", real_dir + "/d/e"};
	std::vector<Fd> fs;
	std::vector<Ds> ds;
	std::vector<int> gone;
	unsigned n = 15 + c.draw(50), vops = 0, rops = 0;
	int fds0 = count_fds();
	auto expect_same = [&](const char *op, long a, int ea, long b, int eb) {
		CHECK(c, a == b && (a != -1 || ea == eb), "%s on a real descriptor: %ld errno %d, the plain call %ld errno %d", op, a, ea, b, eb);
	};
	auto took = [&](int fd) {
		for (auto &f : fs) CHECK(c, f.fd != fd && f.twin != fd, "%d is handed out twice", fd);
		for (auto &d : ds) CHECK(c, d.fd != fd, "%d is handed out twice", fd);
		gone.erase(std::remove(gone.begin(), gone.end(), fd), gone.end());
	};
	for (unsigned i = 0; i < n; ++i) {
		unsigned k = c.pick({5, 5, 4, 4, 4, 2, 3, 4, 5, 3, 2, 2});
		if (fs.empty() && (k >= 1 && k <= 6)) k = 0;
		if (ds.empty() && (k == 8 || k == 9)) k = 7;
		switch (k) {
		case 0: {
			Fd f;
			if (!es2.empty() && c.chance(1, 4)) {
				const gen::Entry &e = es2[c.draw(es2.size())];
				if (e.n->type != img::REG_T && e.n->type != img::DIR_T) break;
				f.fd = squash_open(&m2.fs, e.path.c_str());
				CHECK(c, f.fd >= 0, "open of %s in another image: errno %d", show(e.path).c_str(), errno);
				f.n = e.n, f.pos = 0, f.twin = -1;
				c.label("another image");
			} else if (c.chance(3, 5) && !w.in.empty()) {
				const gen::Entry &e = w.in[c.draw(w.in.size())];
				if (e.n->type != img::REG_T && (e.n->type != img::DIR_T || c.chance(1, 2))) break;
				f.fd = enclose_io_open(2, e.path.c_str(), O_RDONLY);
				CHECK(c, f.fd >= 0, "open of %s: errno %d", show(e.path).c_str(), errno);
				f.n = e.n, f.pos = 0, f.twin = -1;
			} else {
				std::string p = c.oneof(rfiles);
				f.fd = enclose_io_open(2, p.c_str(), O_RDONLY);
				f.twin = open(p.c_str(), O_RDONLY);
				CHECK(c, f.fd >= 0 && f.twin >= 0, "open of %s: errno %d", p.c_str(), errno);
				f.n = nullptr, f.pos = 0;
			}
			c.note("open %s -> %d", f.n ? "virtual" : "real", f.fd);
			took(f.fd);
			fs.push_back(f);
			break;
		}
		case 1: {
			// read
			Fd &f = fs[c.draw(fs.size())];
			size_t sz = c.chance(1, 2) ? c.draw(300) : c.draw(10000);
			Buf b(sz);
			if (f.n && c.chance(1, 50)) {
				Vast v;
				sz = Vast::length(c);
				errno = 0;
				ssize_t r = enclose_io_read(f.fd, v.p, sz);
				int e = errno;
				c.note("read %d %zu -> %zd", f.fd, sz, r);
				if (f.n->type != img::REG_T) CHECK(c, r == -1 && e == EISDIR, "read of a directory: %zd errno %d", r, e);
				else if (!broken(f, f.pos, sz, r, e)) {
					std::string want = f.n->c.read(f.pos, sz);
					CHECK(c, r == (ssize_t)want.size() && !memcmp(v.p, want.data(), r) && v.intact(r), "read of %zu at %llu of a virtual descriptor: %zd errno %d", sz, (unsigned long long)f.pos, r, e);
					f.pos += r;
				}
				c.label("billions of bytes asked for");
				break;
			}
			errno = 0;
			ssize_t r = enclose_io_read(f.fd, b.p, sz);
			int e = errno;
			c.note("read %d %zu -> %zd", f.fd, sz, r);
			if (!f.n) {
				Buf b2(sz);
				errno = 0;
				ssize_t r2 = read(f.twin, b2.p, sz);
				expect_same("read", r, e, r2, errno);
				CHECK(c, !memcmp(b.p, b2.p, sz), "read of a real descriptor gives other bytes");
				++rops;
			} else if (f.n->type != img::REG_T) CHECK(c, r == -1 && e == EISDIR, "read of a directory: %zd errno %d", r, e);
			else if (!broken(f, f.pos, sz, r, e)) {
				std::string want = f.n->c.read(f.pos, sz);
				CHECK(c, r == (ssize_t)want.size() && !memcmp(b.p, want.data(), r) && b.intact(r), "read of %zu at %llu of a virtual descriptor: %zd errno %d", sz, (unsigned long long)f.pos, r, e);
				f.pos += r;
				++vops;
			}
			break;
		}
		case 2: {
			// pread
			Fd &f = fs[c.draw(fs.size())];
			size_t sz = c.chance(1, 2) ? c.draw(300) : c.draw(10000);
			uint64_t size = f.n ? (f.n->type == img::REG_T ? f.n->c.size : 100) : 9000;
			off_t off = c.chance(1, 10) ? -1 - (off_t)c.draw(100) : c.chance(1, 10) ? (off_t)(size + c.draw(100000)) : (off_t)c.draw(size + 2);
			if (c.chance(1, 20)) off = ((off_t)1 << 33) + c.draw(1000);
			Buf b(sz);
			if (f.n && f.n->type == img::REG_T && off >= 0 && c.chance(1, 40)) {
				Vast v;
				sz = Vast::length(c);
				errno = 0;
				ssize_t r = enclose_io_pread(f.fd, v.p, sz, off);
				int e = errno;
				c.note("pread %d %zu at %ld -> %zd", f.fd, sz, (long)off, r);
				if (!broken(f, off, sz, r, e)) {
					std::string want = f.n->c.read(off, sz);
					CHECK(c, r == (ssize_t)want.size() && !memcmp(v.p, want.data(), r) && v.intact(r), "pread of %zu at %ld of a virtual descriptor: %zd errno %d", sz, (long)off, r, e);
				}
				CHECK(c, enclose_io_lseek(f.fd, 0, SEEK_CUR) == (off_t)f.pos, "pread moved the position from %llu", (unsigned long long)f.pos);
				c.label("billions of bytes asked for");
				break;
			}
			errno = 0;
			ssize_t r = enclose_io_pread(f.fd, b.p, sz, off);
			int e = errno;
			c.note("pread %d %zu at %ld -> %zd", f.fd, sz, (long)off, r);
			if (!f.n) {
				Buf b2(sz);
				errno = 0;
				ssize_t r2 = pread(f.twin, b2.p, sz, off);
				expect_same("pread", r, e, r2, errno);
				CHECK(c, !memcmp(b.p, b2.p, sz), "pread of a real descriptor gives other bytes");
			} else if (off < 0) CHECK(c, r == -1 && e == EINVAL, "pread at %ld: %zd errno %d", (long)off, r, e);
			else if (f.n->type != img::REG_T) CHECK(c, r == -1 && e == EISDIR, "pread of a directory: %zd errno %d", r, e);
			else if (!broken(f, off, sz, r, e)) {
				std::string want = f.n->c.read(off, sz);
				CHECK(c, r == (ssize_t)want.size() && !memcmp(b.p, want.data(), r) && b.intact(r), "pread of %zu at %ld of a virtual descriptor (%llu bytes): %zd errno %d, should be %zu", sz, (long)off,
				      (unsigned long long)f.n->c.size, r, e, want.size());
				++vops;
				c.label("pread");
			}
			if (f.n && f.n->type == img::REG_T) CHECK(c, enclose_io_lseek(f.fd, 0, SEEK_CUR) == (off_t)f.pos, "pread moved the position from %llu", (unsigned long long)f.pos);
			break;
		}
		case 3: {
			// readv
			Fd &f = fs[c.draw(fs.size())];
			bool many = c.chance(1, 12);
			unsigned cnt = many ? 7 + c.draw(1018) : 1 + c.draw(6);
			if (many && c.chance(1, 4)) cnt = 1024;
			if (many) c.label("readv of many buffers");
			std::vector<std::unique_ptr<Buf>> bs, b2;
			std::vector<struct iovec> iv, iv2;
			size_t tot = 0;
			for (unsigned j = 0; j < cnt; ++j) {
				size_t sz = many ? j * 7 % 5 : c.chance(1, 5) ? 0 : c.chance(1, 2) ? c.draw(60) : c.draw(5000);
				tot += sz;
				bs.emplace_back(new Buf(sz));
				b2.emplace_back(new Buf(sz));
				iv.push_back({bs[j]->p, sz});
				iv2.push_back({b2[j]->p, sz});
			}
			errno = 0;
			ssize_t r = enclose_io_readv(f.fd, iv.data(), cnt);
			int e = errno;
			c.note("readv %d %u buffers %zu bytes -> %zd", f.fd, cnt, tot, r);
			if (!f.n) {
				errno = 0;
				ssize_t r2 = readv(f.twin, iv2.data(), cnt);
				expect_same("readv", r, e, r2, errno);
				for (unsigned j = 0; j < cnt; ++j) CHECK(c, !memcmp(bs[j]->p, b2[j]->p, bs[j]->n), "readv of a real descriptor gives other bytes");
			} else if (f.n->type != img::REG_T) CHECK(c, r == -1 && e == EISDIR, "readv of a directory: %zd errno %d", r, e);
			else {
				// up to the buffer that needs a damaged block
				uint64_t can = tot, at0 = f.pos;
				for (unsigned j = 0; j < cnt; ++j) {
					if (!bad.empty() && needs::meets(map.reading(f.n, at0, bs[j]->n).must, bad)) {
						can = at0 - f.pos;
						break;
					}
					at0 += bs[j]->n;
				}
				if (can < tot && r == -1 && e && can == 0) {
					CHECK(c, enclose_io_lseek(f.fd, 0, SEEK_CUR) == (off_t)f.pos, "a failed readv moved the position from %llu", (unsigned long long)f.pos);
					c.label("failed readv");
					break;
				}
				if (can < tot) c.label("readv cut short");
				std::string want = f.n->c.read(f.pos, can);
				CHECK(c, r == (ssize_t)want.size(), "readv of %zu bytes at %llu of %llu: %zd errno %d, should be %zu", tot, (unsigned long long)f.pos, (unsigned long long)f.n->c.size, r, e, want.size());
				size_t at = 0;
				for (unsigned j = 0; j < cnt; ++j) {
					size_t m = std::min(bs[j]->n, want.size() - at);
					CHECK(c, !memcmp(bs[j]->p, want.data() + at, m) && bs[j]->intact(can < tot && m < bs[j]->n ? bs[j]->n : m), "readv: wrong bytes in buffer %u", j);
					at += m;
				}
				f.pos += r;
				++vops;
				c.label("readv");
			}
			break;
		}
		case 4: {
			// lseek
			Fd &f = fs[c.draw(fs.size())];
			uint64_t size = f.n ? (f.n->type == img::REG_T ? f.n->c.size : 0) : 9000;
			int wh = c.pick({4, 3, 2, 1});
			off_t off = wh == 0 ? (off_t)c.draw(size + 20) : wh == 1 ? (off_t)c.range(-500, 500) : 0;
			if (c.chance(1, 12)) off = -1 - (off_t)c.draw(20000);
			if (wh == 2) off = 0;
			int whence = wh == 3 ? 17 : wh == 0 ? SEEK_SET : wh == 1 ? SEEK_CUR : SEEK_END;
			errno = 0;
			off_t r = enclose_io_lseek(f.fd, off, whence);
			int e = errno;
			c.note("lseek %d %ld %d -> %ld", f.fd, (long)off, whence, (long)r);
			if (!f.n) {
				errno = 0;
				off_t r2 = lseek(f.twin, off, whence);
				expect_same("lseek", r, e, r2, errno);
			} else if (f.n->type == img::REG_T) {
				int64_t to = wh == 0 ? off : wh == 1 ? (int64_t)f.pos + off : wh == 2 ? (int64_t)size : -1;
				if (to < 0) CHECK(c, r == -1 && e == EINVAL, "lseek by %ld (%d) from %llu: %ld errno %d", (long)off, whence, (unsigned long long)f.pos, (long)r, e);
				else {
					CHECK(c, r == to, "lseek by %ld (%d) from %llu: %ld errno %d", (long)off, whence, (unsigned long long)f.pos, (long)r, e);
					f.pos = to;
				}
				++vops;
			}
			break;
		}
		case 5: {
			Fd &f = fs[c.draw(fs.size())];
			struct stat a, b;
			memset(&a, 0x5a, sizeof a);
			CHECK(c, enclose_io_fstat(f.fd, &a) == 0, "fstat of %d: errno %d", f.fd, errno);
			if (f.n) {
				std::string d = stat_diff(f.n, a);
				CHECK(c, d.empty(), "fstat of a virtual descriptor: %s", d.c_str());
			} else {
				fstat(f.twin, &b);
				CHECK(c, stat_all(a) == stat_all(b), "fstat of a real descriptor: %s, the plain call %s", stat_all(a).c_str(), stat_all(b).c_str());
			}
			break;
		}
		case 6: {
			size_t j = c.draw(fs.size());
			Fd f = fs[j];
			CHECK(c, enclose_io_close(f.fd) == 0, "close of %d: errno %d", f.fd, errno);
			c.note("close %d", f.fd);
			CHECK(c, fcntl(f.fd, F_GETFD) == -1, "%d is open after it was closed", f.fd);
			if (f.twin >= 0) close(f.twin);
			fs.erase(fs.begin() + j);
			gone.push_back(f.fd);
			break;
		}
		case 7: {
			// a stream, of a path or a descriptor
			Ds d;
			d.pos = 0, d.twin = nullptr, d.n = nullptr;
			bool byfd = c.chance(1, 2);
			if (c.chance(3, 5)) {
				std::string p = SCOPE;
				Node *nd = w.base;
				if (!w.dirs.empty()) {
					const gen::Entry &e = w.dirs[c.draw(w.dirs.size())];
					p = e.path, nd = e.n;
				}
				d.n = nd;
				if (byfd) {
					int fd = enclose_io_open(2, p.c_str(), O_RDONLY);
					CHECK(c, fd >= 0, "open of %s: errno %d", show(p).c_str(), errno);
					d.d = enclose_io_fdopendir(fd);
					CHECK(c, d.d, "fdopendir of %s: errno %d", show(p).c_str(), errno);
					CHECK(c, enclose_io_dirfd(d.d) == fd, "dirfd is %d, the stream was made of %d", enclose_io_dirfd(d.d), fd);
					c.label("fdopendir virtual");
				} else d.d = enclose_io_opendir(p.c_str());
				CHECK(c, d.d, "opendir of %s: errno %d", show(p).c_str(), errno);
				for (auto &x : nd->kids) d.names.push_back(x.first);
			} else {
				std::string p = c.oneof(rdirs);
				if (byfd) {
					int fd = enclose_io_open(2, p.c_str(), O_RDONLY | O_DIRECTORY);
					d.d = enclose_io_fdopendir(fd);
					CHECK(c, d.d && enclose_io_dirfd(d.d) == fd, "fdopendir of the real %s: errno %d", p.c_str(), errno);
				} else d.d = enclose_io_opendir(p.c_str());
				CHECK(c, d.d, "opendir of the real %s: errno %d", p.c_str(), errno);
				DIR *t = opendir(p.c_str());
				while (struct dirent *e = readdir(t)) d.names.push_back(e->d_name);
				closedir(t);
			}
			d.fd = enclose_io_dirfd(d.d);
			c.note("stream %s%s fd %d", d.n ? "virtual" : "real", byfd ? " of a descriptor" : "", d.fd);
			took(d.fd);
			struct stat st;
			CHECK(c, enclose_io_fstat(d.fd, &st) == 0 && S_ISDIR(st.st_mode), "fstat of the stream's descriptor: errno %d", errno);
			ds.push_back(d);
			break;
		}
		case 8: {
			Ds &d = ds[c.draw(ds.size())];
			unsigned cnt = 1 + c.draw(4);
			while (cnt--) {
				long t = enclose_io_telldir(d.d);
				d.tells[t] = d.pos;
				errno = 0;
				struct dirent *e = enclose_io_readdir(d.d);
				if (d.pos < d.names.size()) {
					CHECK(c, e, "readdir of a %s stream ends before %s: errno %d", d.n ? "virtual" : "real", show(d.names[d.pos]).c_str(), errno);
					CHECK(c, d.names[d.pos] == e->d_name, "readdir of a %s stream: %s, should be %s", d.n ? "virtual" : "real", show(e->d_name).c_str(), show(d.names[d.pos]).c_str());
					++d.pos;
				} else CHECK(c, !e && !errno, "readdir at the end: %s errno %d", e ? e->d_name : "NULL", errno);
			}
			(d.n ? vops : rops)++;
			break;
		}
		case 9: {
			Ds &d = ds[c.draw(ds.size())];
			if (c.chance(1, 3) || d.tells.empty()) {
				enclose_io_rewinddir(d.d);
				d.pos = 0;
				c.label(d.n ? "rewinddir virtual" : "rewinddir real");
			} else {
				auto it = d.tells.begin();
				std::advance(it, c.draw(d.tells.size()));
				enclose_io_seekdir(d.d, it->first);
				CHECK(c, enclose_io_telldir(d.d) == it->first, "telldir after seekdir to %ld is %ld", it->first, enclose_io_telldir(d.d));
				d.pos = it->second;
				c.label(d.n ? "seekdir virtual" : "seekdir real");
			}
			break;
		}
		case 10: {
			if (ds.empty()) break;
			size_t j = c.draw(ds.size());
			CHECK(c, enclose_io_closedir(ds[j].d) == 0, "closedir: errno %d", errno);
			CHECK(c, fcntl(ds[j].fd, F_GETFD) == -1, "%d is open after closedir", ds[j].fd);
			gone.push_back(ds[j].fd);
			ds.erase(ds.begin() + j);
			break;
		}
		default: {
			// what is not open, or no directory
			if (!fs.empty() && c.chance(1, 3)) {
				Fd &f = fs[c.draw(fs.size())];
				if (f.n && f.n->type == img::DIR_T) break;
				errno = 0;
				DIR *d = enclose_io_fdopendir(f.fd);
				CHECK(c, !d && errno == ENOTDIR, "fdopendir of a file: errno %d", errno);
				struct stat st;
				CHECK(c, enclose_io_fstat(f.fd, &st) == 0, "fdopendir of a file closes it");
				c.label("fdopendir of a file");
				break;
			}
			int fd = gone.empty() || c.chance(1, 3) ? (c.chance(1, 2) ? -1 - (int)c.draw(5) : 100000 + (int)c.draw(1000)) : gone[c.draw(gone.size())];
			if (fcntl(fd, F_GETFD) != -1) break;
			char b[8];
			struct stat st;
			struct iovec iv = {b, 8};
			unsigned what = c.draw(7);
			errno = 0;
			long r = what == 0 ? enclose_io_read(fd, b, 8) : what == 1 ? enclose_io_pread(fd, b, 8, 0) : what == 2 ? enclose_io_readv(fd, &iv, 1) : what == 3 ? enclose_io_lseek(fd, 0, SEEK_SET) :
			         what == 4 ? enclose_io_fstat(fd, &st) : what == 5 ? enclose_io_close(fd) : (enclose_io_fdopendir(fd) ? 0 : -1);
			CHECK(c, r == -1 && errno == EBADF, "call %u on %d, which is not open: %ld errno %d", what, fd, r, errno);
			c.label("not open");
		}
		}
		c.count();
		int want = fds0 + (int)fs.size() + (int)ds.size();
		for (auto &f : fs) want += f.twin >= 0;
		CHECK(c, count_fds() == want, "%d descriptors are open, should be %d", count_fds(), want);
		CHECK(c, vf_locks_held() == 0, "a lock is held");
	}
	for (auto &f : fs) {
		CHECK(c, enclose_io_close(f.fd) == 0, "close: errno %d", errno);
		if (f.twin >= 0) close(f.twin);
	}
	for (auto &d : ds) CHECK(c, enclose_io_closedir(d.d) == 0, "closedir: errno %d", errno);
	CHECK(c, count_fds() == fds0, "%d descriptors are left of %d", count_fds(), fds0);
	if (m2.open) m2.unmount();
	w.m.unmount();
	if (chdir("/")) {}
	rm_tree(base_dir);
	if (vops >= 4 && rops >= 1) c.nontrivial();
}

// ---- P29 ------------------------------------------------------------------

// what the system was asked
static int seen;                              // how often
static std::string seen_path, seen_env, seen_content;
static bool seen_null, seen_file;
static std::vector<std::string> seen_args;
static int seen_mode, answer_errno;
static void *answer_handle;
static int on_execv(const char *p, char *const *a) {
	++seen;
	seen_path = p;
	seen_args.clear();
	for (; *a; ++a) seen_args.push_back(*a);
	const char *r = getenv("ENCLOSE_IO_USE_ORIGINAL_RUBY"), *n = getenv("ENCLOSE_IO_USE_ORIGINAL_NODE");
	seen_env = std::string(r ? r : "-") + " " + (n ? n : "-");
	errno = answer_errno;
	return -1;
}
static void *on_dlopen(const char *p, int mode) {
	++seen;
	seen_null = !p;
	seen_path = p ? p : "";
	seen_mode = mode;
	seen_file = p && slurp(p, seen_content);
	return answer_handle;
}
static void p29(Case &c) {
	begin(c);
	env_dirs(c);
	World w;
	make_world(c, w, c.chance(1, 3));
	vf_on_execv = on_execv;
	vf_on_dlopen = on_dlopen;
	ref::Resolver rr(w.im);
	std::string vcwd;
	char self[4096];
	ssize_t sl = readlink("/proc/self/exe", self, sizeof self);
	int fds0 = count_fds();
	bool nowhere = c.chance(1, 10);       // to extract to
	if (nowhere) rm_tree(tmp);
	unsigned n = 6 + c.draw(20), in = 0, out = 0;
	for (unsigned i = 0; i < n; ++i) {
		unsigned k = c.pick({5, 4, 2});
		if (k == 2) {
			// another working directory
			std::string d = real_dir;
			if (!w.dirs.empty() && c.chance(2, 3)) d = w.dirs[c.draw(w.dirs.size())].path;
			if (d.size() > 1000) continue;
			CHECK(c, enclose_io_chdir(d.c_str()) == 0, "chdir to %s: errno %d", show(d, 80).c_str(), errno);
			vcwd = d == real_dir ? "" : d;
			continue;
		}
		std::string p;
		bool virt = c.chance(2, 3), rel = false;
		if (virt && !vcwd.empty() && c.chance(1, 2)) {
			rel = true;
			ref::Result r = rr.resolve(vcwd, true);
			if (!r.n || r.n->kids.empty()) p = "missing";
			else {
				auto it = r.n->kids.begin();
				std::advance(it, c.draw(r.n->kids.size()));
				p = it->first;
				if (c.chance(1, 3)) p = "./" + p;
				if (c.chance(1, 4)) p = near(c, p);
			}
			if (c.chance(1, 5)) p = c.oneof(real_names);
			if (p.find("..") != std::string::npos) continue;
		} else if (virt) p = SCOPE + inner(c, w);
		else {
			p = real_path(c, rel, &w);
			if (rel && !vcwd.empty()) continue;
		}
		if (p.empty() || p.size() > 1000) continue;
		std::string full = virt && rel ? vcwd + "/" + p : p;
		ref::Result r;
		if (virt) {
			r = rr.resolve(full, true);
			if (r.unspec || r.may_loop) continue;
		}
		seen = 0;
		if (k == 0) {
			std::vector<std::string> args;
			unsigned na = 1 + (c.chance(1, 6) ? c.draw(200) : c.draw(6));
			for (unsigned j = 0; j < na; ++j) args.push_back(c.chance(1, 8) ? "" : text(j + 1 + c.draw(100), 1 + c.draw(12)));
			std::vector<char *> av;
			for (auto &x : args) {
				for (auto &ch : x)
					if (!ch) ch = 'z';
				av.push_back((char *)x.c_str());
			}
			av.push_back(nullptr);
			char **exact = (char **)malloc(av.size() * sizeof *exact);
			memcpy(exact, av.data(), av.size() * sizeof *exact);
			answer_errno = c.chance(1, 2) ? ENOEXEC : E2BIG;
			long live = vf_live();
			unsetenv("ENCLOSE_IO_USE_ORIGINAL_RUBY");
			unsetenv("ENCLOSE_IO_USE_ORIGINAL_NODE");
			errno = 0;
			int ret = enclose_io_execv(p.c_str(), exact), e = errno;
			c.note("execv %s with %u arguments: reaches %s with %zu", show(p, 80).c_str(), na, show(seen_path, 60).c_str(), seen_args.size());
			CHECK(c, !memcmp(exact, av.data(), av.size() * sizeof *exact), "execv changes the caller's arguments");
			free(exact);
			CHECK(c, ret == -1, "execv of %s returns %d", show(p, 80).c_str(), ret);
			CHECK(c, vf_live() == live, "a failing execv of %s leaves %ld blocks", show(p, 80).c_str(), vf_live() - live);
			if (!virt) {
				CHECK(c, seen == 1 && seen_path == p && seen_args == args && e == answer_errno, "execv of %s: the system gets %s with %zu arguments (errno %d)", show(p, 80).c_str(),
				      show(seen_path, 80).c_str(), seen_args.size(), e);
				CHECK(c, seen_env == "- -", "execv of %s, not in the image, changes the environment", show(p, 80).c_str());
				++out;
				c.label("execv elsewhere");
			} else if (!seen) {
				// refused beforehand: only what cannot be run
				CHECK(c, !r.n || r.n->type != img::REG_T, "execv of %s, a file of the image, runs nothing (errno %d)", show(p, 80).c_str(), e);
				CHECK(c, e, "execv of %s fails without an errno", show(p, 80).c_str());
			} else {
				CHECK(c, seen == 1 && seen_path == std::string(self, sl), "execv of %s in the image runs %s", show(p, 80).c_str(), show(seen_path, 80).c_str());
				CHECK(c, e == answer_errno, "execv of %s: errno %d, the system gave %d", show(p, 80).c_str(), e, answer_errno);
				CHECK(c, seen_args.size() == args.size() + 1, "execv of %s with %zu arguments runs this program with %zu", show(p, 80).c_str(), args.size(), seen_args.size());
				CHECK(c, seen_args[0] == args[0], "execv of %s: argv[0] is lost", show(p, 80).c_str());
				std::string got = seen_args[1];
				CHECK(c, got[0] == '/' && ref::split(got) == ref::split(full), "execv of %s: this program is to run %s, should be %s", show(p, 80).c_str(), show(got, 120).c_str(), show(full, 120).c_str());
				for (size_t j = 1; j < args.size(); ++j)
					CHECK(c, seen_args[j + 1] == args[j], "execv of %s: argument %zu arrives as %s", show(p, 80).c_str(), j, show(seen_args[j + 1], 40).c_str());
				CHECK(c, seen_env == "true true", "execv of %s: the environment says %s", show(p, 80).c_str(), seen_env.c_str());
				++in;
				c.label(rel ? "execv relative in the image" : "execv in the image");
			}
		} else {
			int mode = c.chance(1, 2) ? RTLD_NOW : RTLD_LAZY | RTLD_GLOBAL;
			answer_handle = c.chance(1, 2) ? (void *)&w : nullptr;
			bool null = !virt && c.chance(1, 3);
			void *h = enclose_io_dlopen(null ? nullptr : p.c_str(), mode);
			c.note("dlopen %s: reaches %s", null ? "NULL" : show(p, 80).c_str(), show(seen_path, 60).c_str());
			if (seen) CHECK(c, seen == 1 && h == answer_handle && seen_mode == mode, "dlopen of %s: asked %d times, mode %x", null ? "NULL" : show(p, 80).c_str(), seen, seen_mode);
			if (!virt) {
				CHECK(c, seen && seen_null == null && (null || seen_path == p), "dlopen of %s: the system gets %s", null ? "NULL" : show(p, 80).c_str(), seen_null ? "NULL" : show(seen_path, 80).c_str());
				++out;
				c.label(null ? "dlopen NULL" : "dlopen elsewhere");
			} else if (r.n && r.n->type == img::REG_T && nowhere) {
				CHECK(c, !seen || (!seen_null && !seen_file && seen_path.find('/') != std::string::npos), "dlopen of %s in the image, which cannot be extracted: the system gets %s", show(p, 80).c_str(), seen_null ? "NULL" : show(seen_path, 80).c_str());
				++in;
				c.label("dlopen that cannot extract");
			} else if (r.n && r.n->type == img::REG_T) {
				CHECK(c, seen && !seen_null && seen_file, "dlopen of %s in the image: the system gets %s", show(p, 80).c_str(), seen ? show(seen_path, 80).c_str() : "nothing");
				CHECK(c, seen_content == r.n->c.read(0, r.n->c.size), "dlopen of %s: the library has other bytes", show(p, 80).c_str());
				++in;
				c.label("dlopen in the image");
			} else {
				// nothing is loaded for it, least of all the main program; a bare name is also searched for by the system
				if (rel && p.find('/') == std::string::npos && seen && !seen_null && seen_path == p) continue;
				CHECK(c, !seen || (!seen_null && !seen_file), "dlopen of %s, no file of the image: the system gets %s", show(p, 80).c_str(), seen_null ? "NULL" : show(seen_path, 80).c_str());
				c.label("dlopen missing");
			}
		}
		CHECK(c, count_fds() == fds0, "%d descriptors are open, %d were", count_fds(), fds0);
		CHECK(c, vf_locks_held() == 0, "a lock is held");
		c.count();
	}
	squash_extract_clear_cache();
	w.m.unmount();
	if (chdir("/")) {}
	rm_tree(base_dir);
	if (in >= 2 && out) c.nontrivial();
}

// ---- P21S, P22S: the same histories, for what they leave behind and without memory

// of execv and dlopen: the latter is asked for the image's own path when there is no file
static bool asked() { return seen && (seen_null || seen_file || seen_path.compare(0, SCOPE.size(), SCOPE)); }
static void listed(const void *, size_t n) { if (g_case) g_case->note("a block of %zu bytes is left", n); }
static void history(Case &c, unsigned k) {
	static void (*const body[])(Case &) = {p25, p26, p27, p28, p29};
	static const char *const nm[] = {"paths", "working directory", "overlay", "descriptors", "execv and dlopen"};
	c.label(nm[k]);
	body[k](c);
}
static void left(Case &c, long live0) {
	squash_extract_clear_cache();
	// the table of descriptors, the name of the temporary directory and of the overlay stay
	if (vf_live() > live0 + 3) vf_list_live(listed);
	CHECK(c, vf_live() <= live0 + 3, "%ld blocks are left", vf_live() - live0);
	CHECK(c, vf_locks_held() == 0, "a lock is held");
}
static void p21s(Case &c) {
	long live0 = vf_live();
	history(c, c.draw(5));
	left(c, live0);
}
static void p22s(Case &c) {
	long live0 = vf_live();
	tight.c = &c;
	tight.reached = nullptr;
	unsigned k = c.pick({3, 2, 4, 3, 2});
	if (k == 4) {
		tight.reached = asked;
		tight.again = [] { seen = 0; };
	}
	history(c, k);
	tight.c = nullptr;
	left(c, live0);
	c.note("%u calls met a refusal, %u failed for it", tight.met, tight.failed);
	if (tight.failed >= 3) c.nontrivial();
}

int main(int argc, char **argv) {
	return pbt::run_main(argc, argv, {
		{"P25", p25, 5000, 200000, "case = an image below /__enclose_io_memfs__, a real tree and 8-31 calls; non-trivial = at least 3 calls on the image and 3 elsewhere", nullptr},
		{"P26", p26, 5000, 200000, "case = an image, a real tree and 8-29 steps of changing the working directory and calls; non-trivial = at least 2 changes to virtual directories and 2 calls relative to one", nullptr},
		{"P27", p27, 5000, 200000, "case = an image and 8-31 steps of creating, looking, failing to create, changing directory, exit; non-trivial = at least 2 creations and 3 looks", nullptr},
		{"P28", p28, 5000, 200000, "case = 15-64 calls on a mix of virtual and real descriptors and streams; non-trivial = at least 4 on virtual and 1 on real ones", nullptr},
		{"P29", p29, 5000, 200000, "case = 6-25 calls of execv, dlopen and chdir on an image below /__enclose_io_memfs__ and a real tree; non-trivial = at least 2 in the image and 1 elsewhere", nullptr},
		{"P21S", p21s, 1500, 60000, "case = a history of interposed calls as for P25 to P29; non-trivial as there", nullptr},
		{"P22S", p22s, 2500, 80000, "case = a history of interposed calls as for P25 to P29, any of which runs out of memory or descriptors; non-trivial = at least 3 calls failed for that", nullptr},
	});
}
