// An image below the mount point of the interposition layer, and a real tree
#pragma once
#include "lib.hpp"
#include <dlfcn.h>
#include <ftw.h>
#include <sys/uio.h>
extern "C" {
#include "enclose_io_common.h"
}
#include "iocalls.hpp"
#undef assert
#include <assert.h>
using img::Image;
using img::Node;

static const std::string SCOPE = "/__enclose_io_memfs__";
extern "C" char *mkdir_workdir;

static std::string base_dir, tmp, real_dir;   // scratch of this case; the temporary directory; a real tree

static std::vector<std::string> files_in(const std::string &d) {
	std::vector<std::string> v;
	DIR *p = opendir(d.c_str());
	if (!p) return v;
	while (struct dirent *e = readdir(p))
		if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(d + "/" + e->d_name);
	closedir(p);
	std::sort(v.begin(), v.end());
	return v;
}
static void rm_tree(const std::string &d) {
	chmod(d.c_str(), 0700);
	for (auto &f : files_in(d)) {
		struct stat st;
		if (!lstat(f.c_str(), &st) && S_ISDIR(st.st_mode)) rm_tree(f);
		else unlink(f.c_str());
	}
	rmdir(d.c_str());
}
static void put(const std::string &f, const std::string &s) {
	int fd = open(f.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
	if (write(fd, s.data(), s.size())) {}
	close(fd);
}
static bool slurp(const std::string &f, std::string &out) {
	int fd = open(f.c_str(), O_RDONLY);
	if (fd < 0) return false;
	out.clear();
	char b[4096];
	ssize_t k;
	while ((k = read(fd, b, sizeof b)) > 0) out.append(b, k);
	close(fd);
	return k == 0;
}
static std::string text(uint64_t seed, size_t n) {
	std::string s(n, 0);
	for (size_t i = 0; i < n; ++i) s[i] = (char)(img::hash64(seed * 1000003 + i / 3) >> (i % 3 * 8));
	return s;
}

// entries of the real tree, relative to it
static std::vector<std::string> real_names;
static void make_real(const std::string &d) {
	mkdir(d.c_str(), 0700);
	put(d + "/a", text(1, 300));
	put(d + "/b", "");
	mkdir((d + "/d").c_str(), 0755);
	put(d + "/d/x", text(2, 9000));
	mkdir((d + "/d/e").c_str(), 0700);
	put(d + "/d/e/y", "y");
	if (symlink("a", (d + "/l").c_str())) {}
	if (symlink("/__enclose_io_memfs__/a", (d + "/v").c_str())) {}
	if (symlink("nothing", (d + "/dangling").c_str())) {}
	if (symlink("d", (d + "/ld").c_str())) {}
	if (symlink("loop", (d + "/loop").c_str())) {}
	mkdir((d + "/__enclose_io_memfs__").c_str(), 0700);
	put(d + "/__enclose_io_memfs__/a", "real a");
	put(d + "/locked", "no");
	chmod((d + "/locked").c_str(), 0);
	mkfifo((d + "/pipe").c_str(), 0600);
}
static void env_dirs(Case &c) {
	const char *s = getenv("VF_SCRATCH");
	base_dir = std::string(s ? s : "/nonexistent-scratch") + "/c" + std::to_string(getpid());
	rm_tree(base_dir);
	if (mkdir(base_dir.c_str(), 0700)) c.fail("cannot make the scratch directory %s", base_dir.c_str());
	tmp = base_dir + "/t";
	mkdir(tmp.c_str(), 0700);
	real_dir = base_dir + "/r";
	make_real(real_dir);
	real_names = {"a", "b", "d", "d/x", "d/e", "d/e/y", "l", "v", "dangling", "ld", "loop", "__enclose_io_memfs__", "__enclose_io_memfs__/a", "locked", "missing", "a/x", "d/missing", "ld/x", "loop/x", "", ".", "..", "d/", "v/x"};
	if (chdir(real_dir.c_str())) c.fail("chdir to %s", real_dir.c_str());
	setenv("TMPDIR", tmp.c_str(), 1);
	umask(022);
}

struct World {
	Image im;
	Mounted m;
	Node *base = nullptr;             // the directory at SCOPE
	std::vector<gen::Entry> es;       // of everything below the image's root
	std::vector<gen::Entry> in;       // of everything below SCOPE
	std::vector<gen::Entry> dirs;     // directories of `in`
};
// a chain of directories, at its end names such that a path of the whole length cut off at 2048 bytes names another one
static void deep_chain(Case &c, World &w, Node *top) {
	unsigned tail = 2 + c.draw(150), len = SCOPE.size();      // so much is left below the deepest directory
	Node *d = top;
	auto sub = [&](Node *in, const std::string &nm, bool dir) {
		Node *x = w.im.add(dir ? img::DIR_T : img::REG_T);
		x->mode = dir ? 0755 : 0644;
		if (!dir) {
			x->c.bs = w.im.bs();
			x->c.size = 1 + c.draw(40);
			x->c.seed = c.draw(1000);
			x->c.rest = img::TEXT;
		} else x->parent = in;
		in->kids[nm] = x;
		return x;
	};
	for (int i = 0; len + tail < 2047; ++i) {
		unsigned k = 2047 - tail - len;                   // of "/name"
		k = k > 250 ? 100 + c.draw(130) : k > 120 ? k / 2 : k;
		if (k < 2) break;
		std::string nm(k - 1, 'A' + i);
		if (nm.size() > 4 && c.chance(1, 3)) sub(d, nm.substr(0, nm.size() - 1 - c.draw(3)), c.chance(1, 2));
		if (d->kids.count(nm)) break;
		d = sub(d, nm, true);
		len += k;
	}
	unsigned room = 2047 - len;                               // of names that end the path at 2048 bytes
	std::vector<unsigned> sizes = {1, 2};
	for (int i = -4; i <= 6; ++i) sizes.push_back(room + i);
	for (int i = 0; i < 4; ++i) sizes.push_back(1 + c.draw(250));
	for (unsigned k : sizes) {
		if (k < 1 || k > 250 || d->kids.count(std::string(k, 'x'))) continue;
		Node *x = sub(d, std::string(k, 'x'), c.chance(1, 3));
		if (x->type == img::DIR_T) sub(x, "x", false), sub(x, "xx", true);
	}
	c.label("deep");
}
static void make_world(Case &c, World &w, bool hard, bool deep = false) {
	gen::Cfg g;
	g.max_nodes = 14;
	g.min_nodes = 3;
	g.w_reg = 7, g.w_lnk = 3, g.w_dir = 6, g.w_spec = 1;
	g.hard_names = hard;
	g.max_blocks = 4;
	g.big_blocks = false;
	gen::opts(c, w.im, g);
	gen::tree(c, w.im, g);
	Node *old = w.im.root, *top = w.im.add(img::DIR_T);
	top->mode = 0755;
	w.base = old;
	old->parent = top;
	top->kids[SCOPE.substr(1)] = old;
	if (deep) deep_chain(c, w, old);
	// neighbours that are not below it
	for (const char *nm : {"__enclose_io_memfs__2", "__enclose_io_memfs_", "other"})
		if (c.chance(1, 2)) {
			Node *x = w.im.add(img::REG_T);
			x->c.bs = w.im.bs();
			x->c.size = 5;
			x->c.rest = img::TEXT;
			x->mode = 0644;
			top->kids[nm] = x;
		}
	w.im.root = top;
	for (auto &n : w.im.nodes)
		if (n->type == img::LNK_T && n->target[0] == '/' && n->target.size() + SCOPE.size() < 2000 && n->index % 4) n->target = SCOPE + n->target;
	w.im.links();
	w.im.write();
	w.m.mount(w.im.bytes);
	CHECK(c, w.m.open, "opening the image: %d", (int)w.m.err);
	enclose_io_fs = &w.m.fs;
	w.es = gen::entries(w.im);
	for (auto &e : w.es)
		if (e.path.compare(0, SCOPE.size() + 1, SCOPE + "/") == 0 && e.path.size() < (deep ? 3900 : 1500)) {
			w.in.push_back(e);
			if (e.n->type == img::DIR_T) w.dirs.push_back(e);
		}
	gen::describe(c, w.im, 24);
}
