// P04 lookups, P05 symbolic links, P06 attributes, P07 readlink, P18 errno
#include "ops.hpp"
using img::Image;
using img::Node;

static int stale(Case &c) {
	static const int v[] = {0, ENOENT, EIO, ENOMEM, EBADF, ENOTDIR, ELOOP, EINVAL, 9999};
	return v[c.draw(9)];
}

// name with something changed
static std::string near_miss(Case &c, const std::string &n) {
	std::string s = n;
	switch (c.draw(8)) {
	case 0: s.resize(s.size() - 1); break;
	case 1: s += (char)(1 + c.draw(127)); break;
	case 2: s[s.size() - 1] = (char)(s[s.size() - 1] + (c.chance(1, 2) ? 1 : -1)); break;
	case 3: {
		size_t i = c.draw(s.size());
		s[i] = (char)(s[i] + (c.chance(1, 2) ? 1 : -1));
		break;
	}
	case 4: s.resize(c.draw(s.size() + 1)); break;
	case 5: s[c.draw(s.size())] ^= 0x20; break;
	case 6: s.insert(s.begin() + c.draw(s.size() + 1), (char)(1 + c.draw(255))); break;
	default: s += s; break;
	}
	for (auto &ch : s)
		if (ch == 0 || ch == '/') ch = 'q';
	if (s.empty() || s == "." || s == "..") s = "q";
	return s;
}

struct World {
	Image im;
	Mounted m;
	std::vector<gen::Entry> es;
	gen::Cfg g;
	bool wide_misses = false;
	World() { g.gaps = 16; }
};

static std::string strs(const std::vector<std::string> &v) {
	std::string s;
	for (auto &x : v) s += "/" + x;
	return s;
}

static std::string query1(Case &c, World &w, const ref::Resolver &rr0) {
	const Image &im = w.im;
	if (w.es.empty()) return c.chance(1, 2) ? "/" : "/missing";
	const gen::Entry &e = w.es[c.draw(w.es.size())];
	std::vector<std::string> v = ref::split(e.path);
	bool abs = !c.chance(1, 4);
	switch (c.pick({6, 5, 2, 2, 2, 1, 4, 1})) {
	case 0: c.label("packed entry"); break;
	case 1: {
		size_t i = c.chance(2, 3) ? v.size() - 1 : c.draw(v.size());
		v[i] = near_miss(c, v[i]);
		c.label(i + 1 == v.size() ? "near miss, last component" : "near miss inside");
		break;
	}
	case 2:
		v.push_back(c.chance(1, 2) ? w.es[c.draw(w.es.size())].name : "x");
		c.label("below an entry");
		break;
	case 3: {
		// up and down
		size_t up = 1 + c.draw(v.size());
		std::vector<std::string> t = v;
		if (!t.empty()) t.pop_back();
		if (up > t.size()) up = t.size();
		for (size_t i = 0; i < up; ++i) t.push_back("..");
		for (size_t i = v.size() - 1 - up; i < v.size(); ++i) t.push_back(v[i]);
		v = t;
		c.label("dot-dot");
		break;
	}
	case 4: {
		static const size_t len[] = {1, 2, 254, 255, 256, 257, 300, 600, 2000, 5000};
		v.back() = std::string(len[c.draw(10)], (char)('a' + c.draw(26)));
		c.label("name of any length");
		break;
	}
	case 5: {
		static const char *p[] = {"/", "//", "///", "/.", "/./", ".", "./", "/../x", ""};
		return p[c.draw(9)];
	}
	case 6: {
		// through what the entry leads to
		ref::Resolver rr(rr0);
		std::string p = e.path;
		for (unsigned k = 0; k < 4; ++k) {
			ref::Result r = rr.resolve(p, true);
			if (!r.n || r.n->type != img::DIR_T || r.n->kids.empty()) break;
			auto it = r.n->kids.begin();
			std::advance(it, c.draw(r.n->kids.size()));
			p += "/" + it->first;
			if (p.size() > 3000) break;
			if (c.chance(1, 3)) break;
		}
		if (p != e.path) c.label("through an entry");
		v = ref::split(p);
		break;
	}
	default:
		c.label("trailing slash or dot");
		return e.path + (c.chance(1, 2) ? "/" : "/.");
	}
	return gen::spell(c, im, nullptr, v, abs, w.g);
}

static std::string query(Case &c, World &w, const ref::Resolver &rr0) {
	std::string p = query1(c, w, rr0);
	if (!p.empty() && c.chance(1, 60)) {
		// 64 KiB longer, and the same
		size_t i = c.chance(1, 3) ? 0 : c.draw(p.size());
		i = p.find('/', i);
		std::string more;
		for (size_t k = 32768 + c.draw(3); k--;) more += "/.";
		if (i != std::string::npos) p.insert(i, more);
		c.label("path of 64 KiB");
	}
	return p;
}

enum { A_STAT = 1, A_LSTAT = 2, A_OPEN = 4, A_OPENDIR = 8, A_LOW = 16, A_NOFOLLOW = 32, A_READLINK = 64, A_ALL = 127 };

static void judge(Case &c, const char *what, const std::string &p, const ref::Result &r, bool ok, int e) {
	c.count();
	if (r.n) {
		if (ok) return;
		if (r.may_loop && e == ELOOP) return;
		c.fail("%s(%s) failed with errno %d, the entry is there (%d links on the way)", what, show(p, 200).c_str(), e, r.links);
	}
	if (ok) c.fail("%s(%s) succeeded, the image has no such entry", what, show(p, 200).c_str());
	if (!r.err_ok(e)) c.fail("%s(%s) failed with errno %d, not %d or %d", what, show(p, 200).c_str(), e, r.e1, r.e2);
}

static void same(Case &c, const char *what, const std::string &p, const Node *n, const struct stat &st) {
	std::string d = stat_diff(n, st);
	if (!d.empty()) c.fail("%s(%s) is not the entry packed there (inode %u): %s", what, show(p, 200).c_str(), n->ino, d.c_str());
}

static void probe(Case &c, World &w, ref::Resolver &rr, const std::string &p, unsigned what) {
	sqfs *fs = &w.m.fs;
	ref::Result rf = rr.resolve(p, true), rn = rr.resolve(p, false);
	if (c.want_notes)
		c.note("query %s -> %s", show(p, 160).c_str(),
		       rf.unspec ? "unspecified" : rf.n ? ("inode " + std::to_string(rf.n->ino)).c_str() : ("errno " + std::to_string(rf.e1)).c_str());
	struct stat st;
	memset(&st, 0x66, sizeof st);
	if (!rf.unspec && (what & A_STAT)) {
		errno = stale(c);
		int r = squash_stat(fs, p.c_str(), &st);
		judge(c, "stat", p, rf, r == 0, errno);
		if (r == 0) same(c, "stat", p, rf.n, st);
	}
	if (!rn.unspec && (what & A_LSTAT)) {
		memset(&st, 0x66, sizeof st);
		errno = stale(c);
		int r = squash_lstat(fs, p.c_str(), &st);
		judge(c, "lstat", p, rn, r == 0, errno);
		if (r == 0) same(c, "lstat", p, rn.n, st);
	}
	if (!rf.unspec && (what & A_OPEN)) {
		errno = stale(c);
		int fd = squash_open(fs, p.c_str());
		judge(c, "open", p, rf, fd >= 0, errno);
		if (fd >= 0) {
			memset(&st, 0x66, sizeof st);
			CHECK(c, squash_fstat(fd, &st) == 0, "fstat after open(%s): errno %d", show(p, 200).c_str(), errno);
			same(c, "open", p, rf.n, st);
			if (rf.n->type == img::REG_T && rf.n->c.size) {
				Buf b(64);
				ssize_t k = squash_read(fd, b.p, 64);
				std::string wnt = rf.n->c.read(0, 64);
				CHECK(c, k == (ssize_t)wnt.size() && !memcmp(b.p, wnt.data(), k), "open(%s): its content is another file's", show(p, 200).c_str());
			}
			squash_close(fd);
		}
	}
	if (!rn.unspec && (what & A_NOFOLLOW)) {
		errno = stale(c);
		int fd = squash_open_inner(fs, p.c_str(), 0);
		judge(c, "open without following", p, rn, fd >= 0, errno);
		if (fd >= 0) {
			memset(&st, 0x66, sizeof st);
			CHECK(c, squash_fstat(fd, &st) == 0, "fstat: errno %d", errno);
			same(c, "open without following", p, rn.n, st);
			squash_close(fd);
		}
	}
	if (!rf.unspec && (what & A_OPENDIR)) {
		errno = stale(c);
		SQUASH_DIR *d = squash_opendir(fs, p.c_str());
		int e = errno;
		if (rf.n && rf.n->type != img::DIR_T) {
			CHECK(c, !d, "opendir(%s) succeeded on something else", show(p, 200).c_str());
			CHECK(c, e == ENOTDIR || (rf.may_loop && e == ELOOP), "opendir(%s) of something else: errno %d, not ENOTDIR", show(p, 200).c_str(), e);
		} else {
			judge(c, "opendir", p, rf, d != nullptr, e);
			if (d) {
				memset(&st, 0x66, sizeof st);
				CHECK(c, squash_fstat(squash_dirfd(d), &st) == 0, "fstat of dirfd: errno %d", errno);
				same(c, "opendir", p, rf.n, st);
				struct dirent *x = squash_readdir(d);
				if (rf.n->kids.empty()) CHECK(c, !x, "opendir(%s): the empty directory lists %s", show(p, 200).c_str(), x->d_name);
				else CHECK(c, x && rf.n->kids.begin()->first == x->d_name, "opendir(%s): the first entry is %s", show(p, 200).c_str(), x ? x->d_name : "none");
				squash_closedir(d);
			}
		}
	}
	if (!rn.unspec && (what & A_LOW)) {
		sqfs_inode ino;
		short found = 3;
		CHECK(c, sqfs_inode_get(fs, &ino, sqfs_inode_root(fs)) == SQFS_OK, "the root inode: errno %d", errno);
		errno = stale(c);
		sqfs_err r = sqfs_lookup_path(fs, &ino, p.c_str(), &found);
		int e = errno;
		c.count();
		if (rn.n) {
			if (!(rn.may_loop && r && e == ELOOP)) {
				CHECK(c, r == SQFS_OK && found, "sqfs_lookup_path(%s): %d, found %d, errno %d", show(p, 200).c_str(), (int)r, found, e);
				CHECK(c, ino.base.inode_number == rn.n->ino, "sqfs_lookup_path(%s): inode %u, packed %u", show(p, 200).c_str(), ino.base.inode_number, rn.n->ino);
			}
		} else {
			CHECK(c, r != SQFS_OK || !found, "sqfs_lookup_path(%s) found something", show(p, 200).c_str());
			if (r != SQFS_OK) CHECK(c, rn.err_ok(e), "sqfs_lookup_path(%s): errno %d", show(p, 200).c_str(), e);
			else CHECK(c, rn.e1 == ENOENT || rn.e2 == ENOENT, "sqfs_lookup_path(%s): not found, should be errno %d", show(p, 200).c_str(), rn.e1);
		}
	}
	if (!rn.unspec && (what & A_READLINK)) {
		Buf b(2100);
		errno = stale(c);
		ssize_t k = squash_readlink(fs, p.c_str(), (char *)b.p, b.n);
		int e = errno;
		if (rn.n && rn.n->type != img::LNK_T) {
			CHECK(c, k == -1, "readlink(%s) of something else gave %zd", show(p, 200).c_str(), k);
			CHECK(c, e == EINVAL || (rn.may_loop && e == ELOOP), "readlink(%s) of something else: errno %d, not EINVAL", show(p, 200).c_str(), e);
			c.count();
		} else {
			judge(c, "readlink", p, rn, k >= 0, e);
			if (k >= 0) {
				std::string t = rr.target(rn.n);
				CHECK(c, (size_t)k == t.size() && !memcmp(b.p, t.data(), k), "readlink(%s) is %s, packed %s", show(p, 200).c_str(), show(b.p, k, 200).c_str(),
				      show(t, 200).c_str());
			}
		}
	}
}

static void set_aliases(Case &c, World &w, ref::Resolver &rr) {
	if (!w.g.aliases) return;
	unsigned k = c.draw(4);
	if (k & 1) w.m.fs.root_alias = gen::ALIAS, rr.alias = gen::ALIAS;
	if (k & 2) w.m.fs.root_alias2 = gen::ALIAS2, rr.alias2 = gen::ALIAS2;
}

static void p04(Case &c) {
	begin(c);
	World w;
	w.g.w_lnk = c.chance(1, 4) ? 2 : 0;
	w.g.w_reg = 7, w.g.w_dir = 7;
	w.g.max_blocks = 1, w.g.big_blocks = false;
	w.g.max_nodes = c.chance(1, 6) ? 120 : 24;
	w.g.wide = 6, w.g.wide_max = c.thorough ? 6000 : 1800;
	w.g.chains = false;
	if (c.chance(1, 5)) w.g.only_chars = c.chance(1, 2) ? "ab" : "a.-~";
	gen::image(c, w.im, w.g);
	gen::describe(c, w.im);
	mount_ok(c, w.m, w.im);
	w.es = gen::entries(w.im);
	ref::Resolver rr(w.im);
	unsigned k = 12 + c.draw(20), hits = 0, misses = 0;
	for (unsigned i = 0; i < k; ++i) {
		std::string p = query(c, w, rr);
		ref::Result r = rr.resolve(p, true);
		if (!r.unspec) (r.n ? hits : misses)++;
		probe(c, w, rr, p, c.chance(1, 4) ? A_ALL : A_STAT | A_LOW);
	}
	// lookups from a directory of the image, by name and by path without links
	for (unsigned i = 0; i < 8; ++i) {
		Node *d = ops::any_dir(c, w.im);
		sqfs_inode ino, dn;
		CHECK(c, inode_of(&w.m.fs, d, &dn), "inode of a directory: errno %d", errno);
		std::string nm = "x";
		if (!d->kids.empty()) {
			auto it = d->kids.begin();
			std::advance(it, c.draw(d->kids.size()));
			nm = it->first;
		}
		if (c.chance(1, 2)) nm = near_miss(c, nm);
		if (nm.size() > 255) nm.resize(255);
		auto it = d->kids.find(nm);
		sqfs_name nb;
		sqfs_dir_entry e;
		memset(&e, 0, sizeof e);
		sqfs_dentry_init(&e, nb);
		short found = 9;
		// the name need not be terminated
		Buf b(nm.size());
		memcpy(b.p, nm.data(), nm.size());
		CHECK(c, sqfs_dir_lookup(&w.m.fs, &dn, (char *)b.p, nm.size(), &e, &found) == SQFS_OK, "sqfs_dir_lookup(%s): errno %d", show(nm).c_str(), errno);
		c.count();
		CHECK(c, !!found == (it != d->kids.end()), "sqfs_dir_lookup(%s): found %d, packed %d", show(nm, 300).c_str(), found, it != d->kids.end());
		if (found) {
			CHECK(c, sqfs_dentry_inode(&e) == it->second->ref && sqfs_dentry_inode_num(&e) == it->second->ino, "sqfs_dir_lookup(%s): another inode", show(nm).c_str());
			CHECK(c, nm == sqfs_dentry_name(&e) && sqfs_dentry_name_size(&e) == nm.size(), "sqfs_dir_lookup(%s): name %s", show(nm).c_str(), sqfs_dentry_name(&e));
		}
		ino = dn;
		found = 9;
		sqfs_err r = sqfs_lookup_path(&w.m.fs, &ino, nm.c_str(), &found);
		if (it == d->kids.end()) CHECK(c, r || !found, "lookup of %s from a directory found something", show(nm).c_str());
		else if (it->second->type != img::LNK_T)
			CHECK(c, !r && found && ino.base.inode_number == it->second->ino, "lookup of %s from a directory: %d %d", show(nm).c_str(), (int)r, found);
	}
	for (auto &n : w.im.nodes)
		if (n->type == img::DIR_T) {
			if (n->kids.size() > 256) c.label("more than 256 entries");
			if (n->listing > 8192) c.label("listing over 8 KiB");
		}
	if (w.im.nindex) c.label("with a directory index");
	if (hits >= 3 && misses >= 3) c.nontrivial();
	w.m.unmount();
}

static void p05(Case &c) {
	begin(c);
	World w;
	w.g.w_lnk = 10, w.g.w_dir = 6, w.g.w_reg = 4;
	w.g.min_nodes = 4, w.g.max_nodes = 26;
	w.g.max_blocks = 1, w.g.big_blocks = false;
	w.g.aliases = c.chance(1, 3);
	w.g.hard_names = c.chance(1, 3);
	if (c.chance(1, 2)) w.g.only_chars = "ab";
	gen::image(c, w.im, w.g);
	gen::describe(c, w.im);
	mount_ok(c, w.m, w.im);
	w.es = gen::entries(w.im);
	ref::Resolver rr(w.im);
	set_aliases(c, w, rr);
	std::vector<gen::Entry> links;
	for (auto &e : w.es)
		if (e.n->type == img::LNK_T) links.push_back(e);
	unsigned k = 14 + c.draw(20), multi = 0;
	for (unsigned i = 0; i < k; ++i) {
		std::string p;
		if (!links.empty() && c.chance(2, 3)) {
			World v;
			const gen::Entry &e = links[c.draw(links.size())];
			p = e.path;
			for (unsigned z = 0; z < 3; ++z) {
				ref::Result r = rr.resolve(p, true);
				if (r.n && r.n->type == img::DIR_T && !r.n->kids.empty() && c.chance(2, 3)) {
					auto it = r.n->kids.begin();
					std::advance(it, c.draw(r.n->kids.size()));
					p += "/" + it->first;
				} else {
					if (c.chance(1, 6)) p += "/none";
					break;
				}
			}
			if (p.size() > 4000) p = e.path;
			std::vector<std::string> cs = ref::split(p);
			p = gen::spell(c, w.im, nullptr, cs, !c.chance(1, 5), w.g);
		} else p = query(c, w, rr);
		ref::Result r = rr.resolve(p, true);
		if (!r.unspec && r.links) {
			++multi;
			if (r.n && r.links > 1) c.label(r.may_loop ? "over more than 32 links" : r.links > 8 ? "over 9-32 links" : "over 2-8 links");
			if (r.n && r.links == 1) c.label("over one link");
			if (!r.n) c.label(r.e1 == ELOOP ? "link loop" : r.e1 == ENOENT ? "dangling" : "through a file behind a link");
		}
		probe(c, w, rr, p, c.chance(1, 2) ? A_ALL : A_STAT | A_LSTAT | A_OPENDIR);
		CHECK(c, vf_locks_held() == 0, "a mutex is left locked");
	}
	if (multi >= 4) c.nontrivial();
	w.m.unmount();
}

static void p06(Case &c) {
	begin(c);
	World w;
	w.g.w_spec = 6, w.g.w_hard = 3, w.g.w_lnk = 4, w.g.hard_names = false;
	w.g.min_nodes = 3, w.g.max_nodes = 30;
	w.g.max_blocks = 3, w.g.chains = false;
	gen::opts(c, w.im, w.g);
	if (c.chance(1, 6)) w.im.o.bs_log = 20;
	gen::tree(c, w.im, w.g);
	// extreme attributes
	for (auto &n : w.im.nodes) {
		if (c.chance(1, 6)) n->mode = (uint16_t)c.draw(010000);
		if (n->nlink && c.chance(1, 12)) {
			static const uint32_t many[] = {255, 256, 32767, 32768, 65535, 65536, 70000, 0x7fffffff};
			n->nlink = many[c.draw(8)] - (c.chance(1, 2) ? 0 : c.draw(100));
			c.label("many links");
		}
		if (c.chance(1, 12) && n->type == img::REG_T && n->share < 0) {
			bool shared = false;
			for (auto &x : w.im.nodes) shared |= x->share == n->index;
			if (shared) continue;
			// a hole with an end
			uint64_t blocks = w.im.o.bs_log >= 17 ? 30000 : 3000;
			w.im.o.sparse = true;
			n->c.kinds.clear();
			n->c.rest = img::HOLE;
			n->c.size = c.draw(blocks) * w.im.bs() + c.draw(w.im.bs());
			if (n->c.size > 0xffffffffull) c.label("beyond 4 GiB");
		}
	}
	w.im.write();
	gen::describe(c, w.im);
	mount_ok(c, w.m, w.im);
	w.es = gen::entries(w.im);
	ref::Resolver rr(w.im);
	sqfs *fs = &w.m.fs;
	struct Open {
		int fd;
		const Node *n;
		std::string p;
	};
	std::vector<Open> open;
	std::set<int> kinds;
	auto es = w.es;
	es.push_back({nullptr, "", w.im.root, "/"});
	unsigned k = 10 + c.draw(es.size() > 20 ? 30 : 20);
	for (unsigned i = 0; i < k; ++i) {
		const gen::Entry &e = es[i < es.size() ? i : c.draw(es.size())];
		ref::Result r = rr.resolve(e.path, true);
		struct stat a, b, l;
		memset(&a, 0x11, sizeof a), memset(&b, 0x22, sizeof b), memset(&l, 0x33, sizeof l);
		CHECK(c, squash_lstat(fs, e.path.c_str(), &l) == 0, "lstat(%s): errno %d", show(e.path, 200).c_str(), errno);
		same(c, "lstat", e.path, e.n, l);
		c.count();
		kinds.insert(e.n->type * 2 + e.n->ext);
		sqfs_inode ino;
		CHECK(c, inode_of(fs, e.n, &ino), "inode of %s: errno %d", show(e.path, 200).c_str(), errno);
		memset(&b, 0x22, sizeof b);
		CHECK(c, sqfs_stat(fs, &ino, &b) == SQFS_OK, "sqfs_stat: errno %d", errno);
		same(c, "sqfs_stat", e.path, e.n, b);
		if (r.n && !r.may_loop) {
			CHECK(c, squash_stat(fs, e.path.c_str(), &a) == 0, "stat(%s): errno %d", show(e.path, 200).c_str(), errno);
			same(c, "stat", e.path, r.n, a);
			int fd = squash_open(fs, e.path.c_str());
			CHECK(c, fd >= 0, "open(%s): errno %d", show(e.path, 200).c_str(), errno);
			CHECK(c, squash_fstat(fd, &b) == 0, "fstat(%s): errno %d", show(e.path, 200).c_str(), errno);
			same(c, "fstat", e.path, r.n, b);
			if (a.st_mode != b.st_mode || a.st_size != b.st_size || a.st_nlink != b.st_nlink || a.st_mtime != b.st_mtime || a.st_rdev != b.st_rdev)
				c.fail("stat and fstat disagree about %s", show(e.path, 200).c_str());
			if (r.n == e.n && (a.st_mode != l.st_mode || a.st_size != l.st_size || a.st_nlink != l.st_nlink || a.st_rdev != l.st_rdev))
				c.fail("stat and lstat disagree about %s", show(e.path, 200).c_str());
			open.push_back({fd, r.n, e.path});
			if (c.chance(1, 4)) {
				size_t j = c.draw(open.size());
				squash_close(open[j].fd);
				open.erase(open.begin() + j);
			}
		}
		if (i % 4 == 3)
			for (auto &o : open) {
				memset(&b, 0x44, sizeof b);
				CHECK(c, squash_fstat(o.fd, &b) == 0, "fstat(%s) later: errno %d", show(o.p, 200).c_str(), errno);
				same(c, "fstat later", o.p, o.n, b);
			}
		if (c.chance(1, 6)) {
			ops::Op o = ops::gen_op(c, w.im, w.es);
			if (o.k != ops::READALL) ops::exec(fs, o);
		}
	}
	for (auto &o : open) {
		struct stat b;
		memset(&b, 0x44, sizeof b);
		CHECK(c, squash_fstat(o.fd, &b) == 0, "fstat(%s) at the end: errno %d", show(o.p, 200).c_str(), errno);
		same(c, "fstat at the end", o.p, o.n, b);
		squash_close(o.fd);
	}
	for (int x : kinds) c.label("kind %d %s", x / 2, x & 1 ? "extended" : "basic");
	if (kinds.size() >= 4) c.nontrivial();
	w.m.unmount();
}

static void p07(Case &c) {
	begin(c);
	World w;
	w.g.w_lnk = 14, w.g.w_dir = 4, w.g.w_reg = 2, w.g.w_spec = 1;
	w.g.min_nodes = 2, w.g.max_nodes = 16, w.g.max_blocks = 1, w.g.big_blocks = false;
	w.g.aliases = c.chance(1, 2);
	w.g.hard_names = c.chance(1, 2);
	gen::opts(c, w.im, w.g);
	gen::tree(c, w.im, w.g);
	// targets that need not lead anywhere
	for (auto &n : w.im.nodes)
		if (n->type == img::LNK_T && c.chance(1, 3)) {
			static const size_t len[] = {1, 2, 3, 7, 8, 15, 16, 17, 63, 64, 100, 255, 256, 1023, 1024, 2046, 2047};
			std::string t;
			size_t want = len[c.draw(17)];
			if (w.g.aliases && c.chance(1, 2)) {
				t = c.chance(1, 2) ? gen::ALIAS : gen::ALIAS2;
				unsigned how = c.draw(5);
				if (how == 1) t.resize(t.size() - 1);        // look-alikes
				else if (how == 2) t[t.size() - 2] ^= 1;
				else if (how == 3) t = "/x" + t;
			}
			uint64_t s = c.draw(1 << 20);
			while (t.size() < want) {
				s = img::hash64(s);
				char ch = (char)(1 + s % 255);
				t += ch;
			}
			n->target = t;
		}
	w.im.write();
	gen::describe(c, w.im);
	mount_ok(c, w.m, w.im);
	w.es = gen::entries(w.im);
	ref::Resolver rr(w.im);
	set_aliases(c, w, rr);
	unsigned k = 10 + c.draw(20), links = 0;
	for (unsigned i = 0; i < k; ++i) {
		std::string p;
		if (w.es.empty()) break;
		const gen::Entry &e = w.es[c.draw(w.es.size())];
		p = c.chance(1, 6) ? query(c, w, rr) : e.path;
		ref::Result r = rr.resolve(p, false);
		if (r.unspec) continue;
		size_t packed = r.n && r.n->type == img::LNK_T ? r.n->target.size() : 20;
		size_t n;
		switch (c.pick({3, 2, 3, 3, 1, 1, 2})) {
		case 0: n = packed + 1; break;
		case 1: n = packed + 2 + c.draw(200); break;
		case 2: n = packed; break;
		case 3: n = c.draw(packed + 1); break;
		case 4: n = 0; break;
		case 5: n = 1; break;
		default: n = 4096; break;
		}
		if (c.chance(1, 40) && r.n && r.n->type == img::LNK_T && !r.may_loop) {
			Vast v;
			uint64_t room = Vast::length(c);
			std::string t = rr.target(r.n);
			ssize_t got = squash_readlink(&w.m.fs, p.c_str(), (char *)v.p, room);
			CHECK(c, got == (ssize_t)t.size() && !memcmp(v.p, t.data(), t.size()) && v.intact(r.n->target.size() + 1), "readlink(%s) with room for %llu bytes: %zd errno %d, the target has %zu", show(p, 200).c_str(),
			      (unsigned long long)room, got, errno, t.size());
			c.count();
			c.label("room for billions of bytes");
			continue;
		}
		Buf b(n);
		errno = stale(c);
		ssize_t got = squash_readlink(&w.m.fs, p.c_str(), (char *)b.p, n);
		int err = errno;
		c.count();
		c.note("readlink %s with %zu bytes -> %zd", show(p, 100).c_str(), n, got);
		if (r.n && r.n->type != img::LNK_T) {
			CHECK(c, got == -1 && (err == EINVAL || (r.may_loop && err == ELOOP)), "readlink(%s), not a link: %zd errno %d", show(p, 200).c_str(), got, err);
			CHECK(c, b.intact(0), "readlink(%s), not a link, wrote to the buffer", show(p, 200).c_str());
			c.label("not a link");
			continue;
		}
		if (!r.n) {
			CHECK(c, got == -1 && r.err_ok(err), "readlink(%s), missing: %zd errno %d", show(p, 200).c_str(), got, err);
			CHECK(c, b.intact(0), "readlink(%s), missing, wrote to the buffer", show(p, 200).c_str());
			c.label("missing");
			continue;
		}
		if (r.may_loop && got == -1 && err == ELOOP) continue;
		++links;
		std::string t = rr.target(r.n);
		if (t.size() != packed) c.label("behind an alias");
		if (n > packed) {
			CHECK(c, got == (ssize_t)t.size(), "readlink(%s) with %zu bytes for %zu: %zd errno %d", show(p, 200).c_str(), n, packed, got, err);
			CHECK(c, !memcmp(b.p, t.data(), got), "readlink(%s): %s, packed %s", show(p, 200).c_str(), show(b.p, got, 200).c_str(), show(t, 200).c_str());
			CHECK(c, b.intact(packed + 1), "readlink(%s) wrote far behind the target", show(p, 200).c_str());
			c.label(n == packed + 1 ? "just fits" : "large buffer");
		} else {
			CHECK(c, (got == -1 && err == ENAMETOOLONG) || (got >= 0 && (size_t)got <= n && (size_t)got <= t.size()), "readlink(%s) with %zu bytes for %zu: %zd errno %d",
			      show(p, 200).c_str(), n, packed, got, err);
			if (got > 0) CHECK(c, !memcmp(b.p, t.data(), got), "readlink(%s) with %zu bytes: not a prefix", show(p, 200).c_str(), n);
			c.label(n == packed ? "one byte short" : n ? "small buffer" : "empty buffer");
		}
		if (c.chance(1, 3)) {
			// the low-level one cuts off, and always adds a null
			sqfs_inode ino;
			CHECK(c, !sqfs_inode_get(&w.m.fs, &ino, r.n->ref), "sqfs_inode_get of %s", show(p, 200).c_str());
			size_t need = 7777;
			CHECK(c, !sqfs_readlink(&w.m.fs, &ino, nullptr, &need) && need == packed + 1, "sqfs_readlink(%s) asks for %zu bytes, the target has %zu", show(p, 200).c_str(), need, packed);
			Buf q(n);
			size_t m = n;
			errno = stale(c);
			sqfs_err e = sqfs_readlink(&w.m.fs, &ino, (char *)q.p, &m);
			c.count();
			c.note("sqfs_readlink of %s with %zu bytes -> %d", show(p, 100).c_str(), n, (int)e);
			if (!n) {
				CHECK(c, q.intact(0), "sqfs_readlink(%s) wrote to an empty buffer", show(p, 200).c_str());
				continue;
			}
			size_t put = std::min(n - 1, packed);
			CHECK(c, !e && !memcmp(q.p, r.n->target.data(), put) && !q.p[put] && q.intact(put + 1), "sqfs_readlink(%s) with %zu bytes for %zu: %d or other bytes", show(p, 200).c_str(), n, packed, (int)e);
			c.label("low-level readlink");
		}
	}
	if (links >= 5) c.nontrivial();
	w.m.unmount();
}

// calls that fail for a reason known from the model
static void p18(Case &c) {
	begin(c);
	World w;
	w.g.w_lnk = 7, w.g.w_dir = 5, w.g.w_reg = 5, w.g.w_spec = 2;
	w.g.min_nodes = 3, w.g.max_nodes = 22, w.g.max_blocks = 1, w.g.big_blocks = false, w.g.hard_names = false;
	if (c.chance(1, 2)) w.g.only_chars = "ab";
	gen::image(c, w.im, w.g);
	gen::describe(c, w.im);
	mount_ok(c, w.m, w.im);
	w.es = gen::entries(w.im);
	ref::Resolver rr(w.im);
	sqfs *fs = &w.m.fs;
	std::set<int> seen;
	unsigned k = 15 + c.draw(30), nfail = 0;
	int keep = squash_open(fs, "/");
	CHECK(c, keep >= 0, "open(/): errno %d", errno);
	// a failure is -1, as documented
	auto is_fail = [&](long long r) {
		CHECK(c, r >= -1, "a call returned %lld", r);
		return r == -1;
	};
	auto expect = [&](const char *what, bool failed, std::initializer_list<int> es) {
		int e = errno;
		c.count();
		++nfail;
		if (!failed) c.fail("%s succeeded", what);
		for (int x : es)
			if (x == e) {
				seen.insert(e);
				return;
			}
		c.fail("%s: errno %d", what, e);
	};
	for (unsigned i = 0; i < k; ++i) {
		int pre = stale(c);
		char what[512];
		unsigned kind = c.pick({8, 3, 3, 2, 3, 3});
		if (kind == 0) {
			// path calls
			std::string p = query(c, w, rr);
			unsigned call = c.draw(8);
			bool follow = call != 1 && call != 4;
			ref::Result r = rr.resolve(p, follow);
			if (r.unspec || r.may_loop) continue;
			struct stat st;
			Buf b(3000);
			static const char *nm[] = {"stat", "lstat", "open", "opendir", "readlink", "scandir", "extract", "open, fstat"};
			snprintf(what, sizeof what, "%s(%s) with errno %d before", nm[call], show(p, 200).c_str(), pre);
			c.note("%s", what);
			bool failed;
			errno = pre;
			std::vector<int> want;
			if (!r.n) want = {r.e1, r.e2};
			switch (call) {
			case 0: failed = is_fail(squash_stat(fs, p.c_str(), &st)); break;
			case 1: failed = is_fail(squash_lstat(fs, p.c_str(), &st)); break;
			case 2:
			case 7: {
				int fd = squash_open(fs, p.c_str());
				failed = is_fail(fd);
				if (fd >= 0) squash_close(fd);
				break;
			}
			case 3: {
				SQUASH_DIR *d = squash_opendir(fs, p.c_str());
				failed = !d;
				if (d) squash_closedir(d);
				if (r.n && r.n->type != img::DIR_T) want = {ENOTDIR, ENOTDIR};
				break;
			}
			case 4:
				failed = is_fail(squash_readlink(fs, p.c_str(), (char *)b.p, b.n));
				if (r.n && r.n->type != img::LNK_T) want = {EINVAL, EINVAL};
				break;
			case 5: {
				struct dirent **l = nullptr;
				int n = squash_scandir(fs, p.c_str(), &l, nullptr, nullptr);
				failed = is_fail(n);
				for (int q = 0; q < n; ++q) vf_free(l[q]);
				if (n >= 0) vf_free(l);
				if (r.n && r.n->type != img::DIR_T) want = {ENOTDIR, ENOTDIR};
				break;
			}
			default:
				failed = !squash_extract(fs, p.c_str(), nullptr);
				if (r.n && r.n->type == img::DIR_T) want = {EISDIR, EISDIR};
				else if (r.n && r.n->type != img::REG_T) want = {EINVAL, EINVAL};
			}
			if (want.empty()) {
				int e = errno;
				if (failed) c.fail("%s failed with errno %d", what, e);
				c.count();
			} else expect(what, failed, {want[0], want[1]});
			c.label("%s %s", nm[call], want.empty() ? "succeeds" : strerrorname_np(want[0]));
		} else if (kind == 1) {
			// dead descriptors
			int fd = c.chance(1, 2) ? (int)c.draw(1000) + 50 : -(int)c.draw(100) - 1;
			unsigned call = c.draw(4);
			char b[8];
			struct stat st;
			errno = pre;
			bool f = is_fail(call == 0 ? squash_read(fd, b, c.draw(2) * 8) : call == 1 ? squash_lseek(fd, c.draw(10), c.draw(4)) : call == 2 ? squash_fstat(fd, &st) : squash_close(fd));
			snprintf(what, sizeof what, "call %u on dead descriptor %d with errno %d before", call, fd, pre);
			expect(what, f, {EBADF});
		} else if (kind == 2) {
			// seeks
			Node *n = ops::any_reg(c, w.im);
			std::string p;
			for (auto &e : w.es)
				if (e.n == n) p = e.path;
			if (p.empty()) continue;
			int fd = squash_open(fs, p.c_str());
			CHECK(c, fd >= 0, "open(%s): errno %d", show(p, 200).c_str(), errno);
			unsigned call = c.draw(4);
			off_t off = call == 0 ? -(off_t)(1 + c.sized(1ull << 50)) : call == 1 ? (off_t)c.draw(1000) : -(off_t)(1 + c.draw(100));
			static const int odd[] = {3, 4, 5, -1, 100, INT32_MIN, INT32_MAX};
			int wh = call == 0 ? SQUASH_SEEK_SET : call == 1 ? odd[c.draw(7)] : SQUASH_SEEK_CUR;
			errno = pre;
			off_t r = squash_lseek(fd, off, wh);
			snprintf(what, sizeof what, "lseek(%lld, whence %d) from 0 with errno %d before", (long long)off, wh, pre);
			expect(what, r == -1, {EINVAL});
			squash_close(fd);
			c.label("lseek EINVAL");
		} else if (kind == 3) {
			// reading what is not a file
			std::vector<const gen::Entry *> v;
			for (auto &e : w.es)
				if (e.n->type != img::REG_T && e.n->type != img::LNK_T) v.push_back(&e);
			std::string p = v.empty() ? "/" : v[c.draw(v.size())]->path;
			Node *n = rr.resolve(p, true).n;
			int fd = squash_open(fs, p.c_str());
			CHECK(c, fd >= 0, "open(%s): errno %d", show(p, 200).c_str(), errno);
			Buf b(100);
			errno = pre;
			ssize_t r = squash_read(fd, b.p, 1 + c.draw(100));
			snprintf(what, sizeof what, "read of %s, not a file, with errno %d before", show(p, 200).c_str(), pre);
			expect(what, is_fail(r), {n && n->type == img::DIR_T ? EISDIR : EINVAL});
			CHECK(c, b.intact(0), "%s wrote to the buffer", what);
			squash_close(fd);
			c.label("read of no file");
		} else if (kind == 4) {
			// readlink into too little, or of no link
			std::vector<const gen::Entry *> v;
			for (auto &e : w.es)
				if (e.n->type == img::LNK_T) v.push_back(&e);
			if (v.empty()) continue;
			const gen::Entry *e = v[c.draw(v.size())];
			size_t n = c.draw(e->n->target.size() + 1);
			Buf b(n);
			errno = pre;
			ssize_t r = squash_readlink(fs, e->path.c_str(), (char *)b.p, n);
			if (!is_fail(r)) continue;
			snprintf(what, sizeof what, "readlink(%s) with %zu bytes and errno %d before", show(e->path, 200).c_str(), n, pre);
			expect(what, true, {ENAMETOOLONG});
			c.label("readlink ENAMETOOLONG");
		} else {
			// low level
			unsigned call = c.draw(3);
			errno = pre;
			if (call == 0) {
				Node *n = ops::any_reg(c, w.im);
				sqfs_inode ino;
				sqfs_dir d;
				if (!n || !inode_of(fs, n, &ino)) continue;
				errno = pre;
				expect("sqfs_dir_open of a file", sqfs_dir_open(fs, &ino, &d, 0) != SQFS_OK, {ENOTDIR});
			} else if (call == 1) {
				sqfs_inode ino;
				sqfs_dir d;
				Node *n = ops::any_dir(c, w.im);
				if (!inode_of(fs, n, &ino)) continue;
				char b[8];
				sqfs_off_t len = 8;
				errno = pre;
				expect("sqfs_read_range of a directory", sqfs_read_range(fs, &ino, 0, &len, b) != SQFS_OK, {EISDIR});
			} else {
				struct dirent **l;
				expect("scandir without a list", squash_scandir(fs, "/", nullptr, nullptr, nullptr) == -1, {EINVAL});
				errno = pre;
				expect("scandir without a name", squash_scandir(fs, nullptr, &l, nullptr, nullptr) == -1, {EINVAL});
			}
		}
	}
	if (seen.size() >= 3 && nfail >= 6) c.nontrivial();
	squash_close(keep);
	squash_extract_clear_cache();
	w.m.unmount();
}

int main(int argc, char **argv) {
	return pbt::run_main(argc, argv, {
		{"P04", p04, 7000, 300000, "case = image and 12-32 paths (packed, near misses, noise, dot-dot, any length) put to stat, lstat, open, opendir and the low-level lookups; "
		 "non-trivial = at least 3 that exist and 3 that do not", nullptr},
		{"P05", p05, 4500, 400000, "case = image with many links and 14-34 paths over them; non-trivial = at least 4 lookups follow a link", nullptr},
		{"P06", p06, 8000, 300000, "case = image with entries of every kind, stated by path, by descriptor and by inode; non-trivial = at least 4 of the 14 kinds and forms", nullptr},
		{"P07", p07, 16000, 500000, "case = image with links and 10-30 readlinks with buffers around the target's size; non-trivial = at least 5 of links", nullptr},
		{"P18", p18, 14000, 400000, "case = image and 15-45 calls, most of which fail for a reason known from the model, with a random errno before; "
		 "non-trivial = at least 6 failures with at least 3 different values of errno", nullptr},
	});
}
