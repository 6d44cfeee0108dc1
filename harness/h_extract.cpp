// P11 extraction, P12 its failures
#include "ops.hpp"
#include <sys/resource.h>
using img::Image;
using img::Node;

static std::string base_dir, tmp;         // scratch of this case; the temporary directory

static std::vector<std::string> files_in(const std::string &d) {
	std::vector<std::string> v;
	DIR *p = opendir(d.c_str());
	if (!p) return v;
	while (struct dirent *e = readdir(p))
		if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(d + "/" + e->d_name);
	closedir(p);
	std::sort(v.begin(), v.end());
	return v;
}
static void rm_tree(const std::string &d) {
	chmod(d.c_str(), 0700);
	for (auto &f : files_in(d)) {
		struct stat st;
		if (!lstat(f.c_str(), &st) && S_ISDIR(st.st_mode)) rm_tree(f);
		else unlink(f.c_str());
	}
	rmdir(d.c_str());
}
static bool slurp(const std::string &f, std::string &out) {
	int fd = open(f.c_str(), O_RDONLY);
	if (fd < 0) return false;
	struct stat st;
	out.clear();
	if (fstat(fd, &st) || !S_ISREG(st.st_mode)) {
		close(fd);
		return false;
	}
	out.resize(st.st_size);
	size_t at = 0;
	while (at < out.size()) {
		ssize_t k = read(fd, &out[at], out.size() - at);
		if (k <= 0) break;
		at += k;
	}
	close(fd);
	return at == out.size();
}
static void env_dirs(Case &c, bool make) {
	const char *s = getenv("VF_SCRATCH");
	base_dir = std::string(s ? s : "/nonexistent-scratch") + "/c" + std::to_string(getpid());
	rm_tree(base_dir);
	if (mkdir(base_dir.c_str(), 0700)) c.fail("cannot make the scratch directory %s", base_dir.c_str());
	mkdir((base_dir + "/o1").c_str(), 0700);
	mkdir((base_dir + "/o2").c_str(), 0700);
	tmp = base_dir + "/t";
	if (c.chance(1, 6)) tmp += std::string(1 + c.draw(150), 'q');
	if (make) mkdir(tmp.c_str(), 0700);
	unsetenv("TMPDIR"), unsetenv("TMP"), unsetenv("TEMP");
	std::string t = tmp + (c.chance(1, 4) ? "/" : "");
	switch (c.draw(3)) {
	case 0:
		setenv("TMPDIR", t.c_str(), 1);
		if (c.chance(1, 2)) setenv("TMP", (base_dir + "/o1").c_str(), 1);
		if (c.chance(1, 2)) setenv("TEMP", (base_dir + "/o2").c_str(), 1);
		break;
	case 1:
		setenv("TMP", t.c_str(), 1);
		if (c.chance(1, 2)) setenv("TEMP", (base_dir + "/o2").c_str(), 1);
		break;
	default: setenv("TEMP", t.c_str(), 1);
	}
}

static gen::Cfg cfg(Case &c) {
	gen::Cfg g;
	g.max_nodes = 10;
	g.w_reg = 10, g.w_lnk = 4, g.w_dir = 3, g.w_spec = 1;
	g.max_blocks = c.chance(1, 3) ? 18 : 6;
	g.hard_names = c.chance(1, 3);
	return g;
}

struct World {
	Image im;
	Mounted m;
	std::vector<gen::Entry> es;
	int life = 0;                     // how often this handle was opened
};
static const char *exts[] = {nullptr, "so", "txt", "x", "tar.gz", "node", "with space", "0"};

static void check_file(Case &c, const char *p, const Node *n, const char *ext, const std::string &path) {
	std::string s = p, got;
	size_t k = s.rfind('/');
	CHECK(c, k != std::string::npos && s.substr(0, k) == tmp, "extract of %s gives %s, the temporary directory is %s", show(path, 80).c_str(), p, tmp.c_str());
	if (ext) {
		std::string e = std::string(".") + ext;
		CHECK(c, s.size() - k - 1 > e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0, "extract of %s gives %s, the extension asked for is %s", show(path, 80).c_str(), p, ext);
	}
	CHECK(c, slurp(s, got), "extract of %s gives %s, which is no regular file", show(path, 80).c_str(), p);
	CHECK(c, got.size() == n->c.size, "the extract of %s has %zu bytes, packed %llu", show(path, 80).c_str(), got.size(), (unsigned long long)n->c.size);
	std::string want = n->c.read(0, n->c.size);
	CHECK(c, got == want, "the extract of %s differs at byte %llu of %zu", show(path, 80).c_str(), (unsigned long long)first_diff((const uint8_t *)got.data(), want), got.size());
}

static void p11(Case &c) {
	begin(c);
	env_dirs(c, true);
	unsigned nw = 1 + c.draw(3);
	std::vector<std::unique_ptr<World>> ws;
	for (unsigned i = 0; i < nw; ++i) {
		ws.emplace_back(new World);
		World &w = *ws.back();
		if (i && c.chance(1, 2)) {
			// the same tree, other contents
			gen::Cfg g = cfg(c);
			gen::opts(c, w.im, g);
			std::map<const Node *, Node *> cp;
			std::function<Node *(const Node *)> copy = [&](const Node *n) -> Node * {
				if (cp.count(n)) return cp[n];
				Node *x = w.im.add(n->type);
				int ix = x->index;
				*x = *n;
				x->index = ix;
				x->share = -1;
				x->kids.clear();
				x->c.bs = w.im.bs();
				if (x->c.bs != n->c.bs) x->c.kinds.clear(), x->c.special.clear(), x->c.rest = img::TEXT;
				x->c.seed += 1000003 * i;
				cp[n] = x;
				for (auto &k : n->kids) x->kids[k.first] = copy(k.second);
				return x;
			};
			w.im.root = copy(ws[0]->im.root);
			w.im.write();
			c.label("same tree in two images");
		} else gen::image(c, w.im, cfg(c));
		gen::describe(c, w.im, 14);
		w.m.mount(w.im.bytes);
		CHECK(c, w.m.open, "opening the image: %d", (int)w.m.err);
		w.es = gen::entries(w.im);
	}
	if (c.chance(1, 4)) vf_rand_range = 2 + c.draw(40);
	// what is there already is not touched
	std::string theirs, their_ext;
	bool links = false;                   // which lead to where there is no file
	if (c.chance(1, 2)) {
		links = c.chance(1, 3);
		if (c.chance(1, 2)) their_ext = std::string(".") + exts[1 + c.draw(7)];
		for (int i = 0; i < 6; ++i) {
			std::string f = tmp + "/libsquash-" + std::to_string(i) + their_ext;
			if (links) {
				if (symlink((base_dir + "/o1/f" + std::to_string(i)).c_str(), f.c_str())) {}
				continue;
			}
			int fd = open(f.c_str(), O_CREAT | O_WRONLY, 0600);
			if (write(fd, "theirs", 6)) {}
			close(fd);
		}
		theirs = "theirs";
	}
	struct Key {
		unsigned w;
		int life;
		std::string path;
		bool operator<(const Key &o) const { return std::tie(w, life, path) < std::tie(o.w, o.life, o.path); }
	};
	std::map<Key, std::string> cached;
	std::map<std::string, std::pair<Key, const Node *>> owner;   // of every extracted file
	std::vector<std::pair<std::string, std::string>> zombies;    // of images gone: path and content
	unsigned n = 4 + c.draw(20), fresh = 0, repeats = 0;
	bool leaves = c.chance(1, 3);
	Leaver leaver;
	if (leaves) leaver.begin(c);
	char *buf = (char *)malloc(8192);     // the caller's, for every path
	int fds0 = count_fds();
	for (unsigned i = 0; i < n; ++i) {
		unsigned wi = c.draw(ws.size());
		World &w = *ws[wi];
		unsigned what = c.pick({12, 6, 2, 2, 2, 1, 2});
		if (what == 6) {
			// a child that ends takes what it extracted with it, and nothing else
			unsigned m = c.draw(3);
			int st = in_child(c, [&]() {
				ref::Resolver rr(w.im);
				for (unsigned j = 0; j < m && !w.es.empty(); ++j) {
					const gen::Entry &e = w.es[c.draw(w.es.size())];
					ref::Result r = rr.resolve(e.path, true);
					if (!r.n || r.unspec || r.may_loop || r.n->type != img::REG_T) continue;
					const char *got = squash_extract(&w.m.fs, e.path.c_str(), nullptr);
					c.note("image %u: a child extracts %s -> %s", wi, show(e.path, 60).c_str(), got ? got + base_dir.size() : "NULL");
					CHECK(c, got || (vf_rand_range && errno == EEXIST), "extract of %s in a child: errno %d", show(e.path, 80).c_str(), errno);
					if (got) check_file(c, got, r.n, nullptr, e.path);
				}
				if (c.chance(1, 3)) squash_extract_clear_cache();
			});
			c.note("a child ends");
			CHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == 0, "a child with extracted files ends with status %x", st);
			c.label("child");
			what = 2;
		}
		if (what <= 1) {
			std::string p;
			if (what == 1 && !cached.empty()) {
				auto it = cached.begin();
				std::advance(it, c.draw(cached.size()));
				if (it->first.life != ws[it->first.w]->life) continue;
				wi = it->first.w;
				p = it->first.path;
			} else {
				std::vector<const gen::Entry *> v;
				for (auto &e : w.es)
					if (e.n->type == img::REG_T || e.n->type == img::LNK_T) v.push_back(&e);
				if (!v.empty() && !c.chance(1, 8)) p = v[c.draw(v.size())]->path;
				else if (!w.es.empty() && c.chance(3, 4)) p = w.es[c.draw(w.es.size())].path;
				else p = "/missing";
				if (c.chance(1, 10)) p += c.chance(1, 2) ? "x" : "/y";
				else if (c.chance(1, 8)) p = "/" + p;
				else if (c.chance(1, 8)) p = "/." + p;
			}
			World &v = *ws[wi];
			ref::Resolver rr(v.im);
			ref::Result r = rr.resolve(p, true);
			if (r.unspec || r.may_loop) continue;
			const char *ext = exts[c.draw(8)];
			strcpy(buf, p.c_str());
			bool reuse_ext = ext && c.chance(1, 2);
			char *eb = reuse_ext ? buf + 4200 : nullptr;
			if (reuse_ext) strcpy(eb, ext);
			errno = c.chance(1, 2) ? 0 : ENOSPC;
			const char *got = squash_extract(&v.m.fs, buf, reuse_ext ? eb : ext);
			int e = errno;
			memset(buf, 'Z', 8191);
			buf[8191] = 0;
			c.count();
			c.note("image %u: extract %s .%s -> %s", wi, show(p, 60).c_str(), ext ? ext : "-", got ? got + base_dir.size() : "NULL");
			CHECK(c, count_fds() == fds0, "extract of %s leaves a descriptor", show(p, 80).c_str());
			Key k{wi, v.life, p};
			if (!r.n || r.n->type != img::REG_T) {
				CHECK(c, !got, "extract of %s gives %s", show(p, 80).c_str(), got);
				CHECK(c, r.n ? e != 0 && (e != ENOSPC) : r.err_ok(e), "extract of %s: errno %d", show(p, 80).c_str(), e);
				c.label("refused");
			} else if (cached.count(k)) {
				CHECK(c, got, "extract of %s again: errno %d", show(p, 80).c_str(), e);
				CHECK(c, cached[k] == got, "extract of %s gives %s, earlier %s", show(p, 80).c_str(), got, cached[k].c_str());
				check_file(c, got, r.n, nullptr, p);
				++repeats;
			} else {
				if (!got && vf_rand_range && e == EEXIST) {
					c.label("no free name");
					continue;
				}
				CHECK(c, got, "extract of %s: errno %d", show(p, 80).c_str(), e);
				auto it = owner.find(got);
				bool same = it != owner.end() && it->second.first.w == wi && it->second.first.life == v.life && it->second.second == r.n;
				CHECK(c, it == owner.end() || same, "extract of %s gives %s, which is the extract of %s of image %u", show(p, 80).c_str(), got, it == owner.end() ? "" : show(it->second.first.path, 80).c_str(),
				      it == owner.end() ? 0 : it->second.first.w);
				for (auto &z : zombies) CHECK(c, z.first != got, "extract of %s gives %s, which is that of an image destroyed", show(p, 80).c_str(), got);
				check_file(c, got, r.n, same ? nullptr : ext, p);
				cached[k] = got;
				if (it == owner.end()) owner[got] = {k, r.n};
				++fresh;
				if (r.links) c.label("through links");
				if (r.n->c.size > 16384) c.label("over 16 KiB");
			}
		} else if (what == 2) {
			// every extract is still as it was
			for (auto &o : owner) check_file(c, o.first.c_str(), o.second.second, nullptr, o.second.first.path);
			for (auto &z : zombies) {
				std::string s;
				CHECK(c, slurp(z.first, s) && s == z.second, "%s of an image destroyed is not what it was", z.first.c_str());
			}
		} else if (what == 3) {
			squash_extract_clear_cache();
			for (auto &o : owner) CHECK(c, access(o.first.c_str(), F_OK) == -1, "%s is there after the cache is cleared", o.first.c_str());
			for (auto &z : zombies) CHECK(c, access(z.first.c_str(), F_OK) == -1, "%s is there after the cache is cleared", z.first.c_str());
			size_t left = files_in(tmp).size();
			CHECK(c, left == (theirs.empty() ? 0 : 6), "%zu files are in the temporary directory after the cache is cleared", left);
			cached.clear(), owner.clear(), zombies.clear();
			c.note("clear");
			c.label("cache cleared");
		} else if (what == 4) {
			// another image in the same place
			w.m.unmount();
			for (auto it = owner.begin(); it != owner.end();) {
				if (it->second.first.w == wi && it->second.first.life == w.life) {
					zombies.push_back({it->first, it->second.second->c.read(0, it->second.second->c.size)});
					it = owner.erase(it);
				} else ++it;
			}
			++w.life;
			if (c.chance(2, 3))
				for (auto &nd : w.im.nodes) nd->c.seed += 77;
			w.im.ext.clear();
			w.im.write();
			w.m.mount(w.im.bytes);
			CHECK(c, w.m.open, "opening the image: %d", (int)w.m.err);
			c.note("image %u is opened anew", wi);
			c.label("handle reused");
		} else if (!w.es.empty()) {
			// something else in between
			squash_stat(&w.m.fs, w.es[c.draw(w.es.size())].path.c_str(), new struct stat);
		}
		// exactly our files are there
		size_t have = files_in(tmp).size(), want = owner.size() + zombies.size() + (theirs.empty() ? 0 : 6);
		CHECK(c, have == want, "%zu files are in the temporary directory, %zu should be", have, want);
	}
	if (!theirs.empty())
		for (int i = 0; i < 6; ++i) {
			std::string f = tmp + "/libsquash-" + std::to_string(i) + their_ext, s;
			struct stat st;
			if (links) CHECK(c, !lstat(f.c_str(), &st) && S_ISLNK(st.st_mode) && stat(f.c_str(), &st), "a link that was there was used for a temporary file");
			else CHECK(c, slurp(f, s) && s == theirs, "a file that was there was overwritten");
		}
	CHECK(c, files_in(base_dir + "/o1").empty() && files_in(base_dir + "/o2").empty(), "files are in another directory than the temporary one");
	if (leaves) {
		// a process that ends normally leaves nothing
		for (auto &w : ws)
			if (c.chance(1, 2)) w->m.unmount();
		int st = leaver.leave(c);
		CHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == 0, "exiting with extracted files ends with status %x", st);
		size_t left = files_in(tmp).size();
		CHECK(c, left == (theirs.empty() ? 0 : 6), "%zu extracted files are left after the exit", left - (theirs.empty() ? 0 : 6));
		c.label("exit");
	} else {
		squash_extract_clear_cache();
		for (auto &w : ws) w->m.unmount();
	}
	rm_tree(base_dir);
	if (fresh >= 2 && repeats >= 1) c.nontrivial();
}

static void p12(Case &c) {
	begin(c);
	signal(SIGXFSZ, SIG_IGN);
	unsigned fault = c.pick({5, 2, 5, 2, 5, 2, 2, 1});
	static const char *names[] = {"no memory once", "no memory", "disk full", "no descriptor for the file", "damaged block", "no temporary directory", "temporary directory not writable",
	                              "no descriptor at all"};
	bool nodir = fault == 5;
	env_dirs(c, !nodir);
	World w;
	gen::Cfg g = cfg(c);
	g.min_nodes = 3;
	if (fault == 4) g.compressed_only = true;
	gen::image(c, w.im, g);
	gen::describe(c, w.im, 14);
	w.m.mount(w.im.bytes);
	CHECK(c, w.m.open, "opening the image: %d", (int)w.m.err);
	w.es = gen::entries(w.im);
	std::vector<std::pair<std::string, Node *>> fs;
	ref::Resolver rr(w.im);
	for (auto &e : w.es) {
		if (e.n->type != img::REG_T && e.n->type != img::LNK_T) continue;
		ref::Result r = rr.resolve(e.path, true);
		if (r.n && !r.unspec && !r.may_loop && r.n->type == img::REG_T) fs.push_back({e.path, r.n});
	}
	if (fs.empty()) {
		rm_tree(base_dir);
		c.discard();
	}
	// some are extracted before, unless the directory cannot be used from the start
	std::set<std::string> have, done;
	int fds0 = count_fds();
	if (!nodir && fault != 6)
		for (unsigned i = c.draw(3); i; --i) {
			auto &f = fs[c.draw(fs.size())];
			const char *p = squash_extract(&w.m.fs, f.first.c_str(), nullptr);
			CHECK(c, p, "extract of %s: errno %d", show(f.first, 80).c_str(), errno);
			have.insert(p);
			done.insert(f.first);
		}
	if (fault == 6) chmod(tmp.c_str(), 0500);
	unsigned rounds = 1 + c.draw(4), faulted = 0;
	struct rlimit fsz, nof;
	getrlimit(RLIMIT_FSIZE, &fsz);
	getrlimit(RLIMIT_NOFILE, &nof);
	for (unsigned i = 0; i < rounds; ++i) {
		auto &f = fs[c.draw(fs.size())];
		Node *n = f.second;
		const char *ext = exts[c.draw(8)];
		std::vector<std::pair<const img::Extent *, img::Bytes>> hurt;
		struct rlimit rl;
		vf_failed = vf_dup_failed = 0;
		long live0 = vf_live();
		switch (fault) {
		case 0:
			vf_fail_at = vf_allocs + 1 + c.draw(c.chance(1, 2) ? 8 : 60);
			vf_fail_on = 0;
			break;
		case 1:
			vf_fail_at = vf_allocs + 1 + c.draw(c.chance(1, 2) ? 8 : 60);
			vf_fail_on = 1;
			break;
		case 2:
			rl = fsz;
			rl.rlim_cur = c.chance(1, 3) ? 0 : c.draw(n->c.size + 1);
			setrlimit(RLIMIT_FSIZE, &rl);
			break;
		case 3: {
			// the lowest free number is the virtual descriptor's, the next the file's
			int a = dup(0), b = dup(0);
			close(a), close(b);
			rl = nof;
			rl.rlim_cur = b;
			setrlimit(RLIMIT_NOFILE, &rl);
			break;
		}
		case 4: {
			std::vector<const img::Extent *> v;
			for (auto &e : w.im.ext)
				if (e.compressed && ((e.kind == img::X_DATA && e.owner->start == n->start) || (e.kind == img::X_FRAG && e.idx == n->fragidx && n->fragidx != 0xffffffff))) v.push_back(&e);
			if (v.empty()) break;
			const img::Extent *e = v[c.draw(v.size())];
			img::Bytes d = img::damaged(w.im.bytes, *e, c.draw(1 << 30));
			hurt.push_back({e, d});
			img::poke(w.m.m, e->pos, d.data(), d.size());
			break;
		}
		case 7: vf_dup_fail_at = vf_dups + 1; break;
		}
		errno = 0;
		const char *got = squash_extract(&w.m.fs, f.first.c_str(), ext);
		int e = errno;
		vf_fail_at = vf_fail_on = 0;
		vf_dup_fail_at = 0;
		setrlimit(RLIMIT_FSIZE, &fsz);
		setrlimit(RLIMIT_NOFILE, &nof);
		for (auto &h : hurt) img::poke(w.m.m, h.first->pos, w.im.bytes.data() + h.first->pos, h.first->len);
		c.count();
		std::string gs = got ? got : "";
		c.note("%s: extract %s (%llu bytes) -> %s, errno %d", names[fault], show(f.first, 60).c_str(), (unsigned long long)n->c.size, got ? got + base_dir.size() : "NULL", got ? 0 : e);
		CHECK(c, count_fds() == fds0, "%s: extract of %s leaves %d descriptors", names[fault], show(f.first, 80).c_str(), count_fds() - fds0);
		CHECK(c, vf_locks_held() == 0, "%s: a lock is held", names[fault]);
		if (got) {
			check_file(c, got, n, done.count(f.first) ? nullptr : ext, f.first);
			have.insert(gs);
			done.insert(f.first);
		} else {
			CHECK(c, e != 0, "%s: extract of %s fails without errno", names[fault], show(f.first, 80).c_str());
			CHECK(c, !done.count(f.first) || vf_failed, "%s: extract of %s, extracted before, fails", names[fault], show(f.first, 80).c_str());
			CHECK(c, vf_live() <= live0 + 40, "%s: extract of %s leaves %ld blocks", names[fault], show(f.first, 80).c_str(), vf_live() - live0);
			++faulted;
			c.label("%s", names[fault]);
			if (fault == 4) CHECK(c, e == EIO, "damaged block: extract of %s: errno %d", show(f.first, 80).c_str(), e);
		}
		if (!nodir) {
			chmod(tmp.c_str(), 0700);
			std::vector<std::string> l = files_in(tmp);
			CHECK(c, l == std::vector<std::string>(have.begin(), have.end()), "%s: after extract of %s (%s) %zu files are there, %zu should be", names[fault], show(f.first, 80).c_str(), got ? "done" : "failed",
			      l.size(), have.size());
			if (fault == 6) chmod(tmp.c_str(), 0500);
		} else CHECK(c, access(tmp.c_str(), F_OK) == -1 || i, "the temporary directory was made");
		CHECK(c, files_in(base_dir + "/o1").empty() && files_in(base_dir + "/o2").empty(), "files are in another directory than the temporary one");
		if (!got && c.chance(2, 3)) {
			// the cause is gone
			if (nodir) mkdir(tmp.c_str(), 0700);
			chmod(tmp.c_str(), 0700);
			const char *q = squash_extract(&w.m.fs, f.first.c_str(), ext);
			CHECK(c, q, "%s: extract of %s fails afterwards: errno %d", names[fault], show(f.first, 80).c_str(), errno);
			check_file(c, q, n, ext, f.first);
			have.insert(q);
			done.insert(f.first);
			if (nodir) break;
			if (fault == 6) chmod(tmp.c_str(), 0500);
		}
	}
	// nothing adds up
	if (fault == 0 || fault == 2 || fault == 4) {
		auto &f = fs[c.draw(fs.size())];
		if (!done.count(f.first) && c.chance(1, 2)) {
			long l0 = 0, failed = 0;
			struct rlimit rl = fsz;
			rl.rlim_cur = 0;
			for (int z = 0; z < 80; ++z) {
				if (fault == 2) setrlimit(RLIMIT_FSIZE, &rl);
				else vf_fail_at = vf_allocs + 1 + z % 20;
				const char *p = squash_extract(&w.m.fs, f.first.c_str(), nullptr);
				setrlimit(RLIMIT_FSIZE, &fsz);
				vf_fail_at = 0;
				if (p) {
					squash_extract_clear_cache();
					have.clear(), done.clear();
				} else ++failed;
				if (z == 39) l0 = vf_live(), failed = 0;
			}
			// caches vary by a few blocks, a leak adds up
			CHECK(c, failed < 20 || vf_live() - l0 < 20, "40 extracts of %s, %ld of them failed, leave %ld blocks", show(f.first, 80).c_str(), failed, vf_live() - l0);
		}
	}
	chmod(tmp.c_str(), 0700);
	squash_extract_clear_cache();
	CHECK(c, files_in(tmp).empty(), "%zu files are there after the cache is cleared", files_in(tmp).size());
	w.m.unmount();
	CHECK(c, count_fds() == fds0, "descriptors are left");
	rm_tree(base_dir);
	if (faulted) c.nontrivial();
}

int main(int argc, char **argv) {
	return pbt::run_main(argc, argv, {
		{"P11", p11, 6000, 150000, "case = 1-3 images and 4-23 steps of extracting, repeating, clearing, reopening; non-trivial = at least 2 files extracted and 1 repeated", nullptr},
		{"P12", p12, 8000, 200000, "case = an image and 1-4 extracts under one kind of fault, each looked at and repeated without it; non-trivial = at least 1 extract failed", nullptr},
	});
}
