// P16 opening, P17 damaged blocks, P19 independence of history, P22 no memory
#include "needs.hpp"
using img::Image;
using img::Node;
using ops::Op;

static gen::Cfg mixed(Case &c) {
	gen::Cfg g;
	g.max_nodes = c.chance(1, 4) ? 60 : 18;
	g.wide = 6, g.wide_max = 1200;
	g.max_blocks = c.chance(1, 4) ? 30 : 6;
	g.big_tables = c.chance(1, 8);
	g.large = 16;
	return g;
}

// ---- P16

static void p16_refuse(Case &c) {
	static const uint32_t magics[] = {0, 0x68737173, 0x73717368 ^ 1, 0x71736873, 0xffffffff, 0x73717367, 0x01020304};
	unsigned n = 1 + c.draw(4);
	for (unsigned i = 0; i < n; ++i) {
		img::Bytes b(96);
		if (c.chance(1, 2)) {
			uint64_t h = c.draw(1 << 20);
			for (size_t k = 0; k < 96; ++k) b[k] = (uint8_t)img::hash64(h * 100 + k);
		} else if (c.chance(1, 2)) std::fill(b.begin(), b.end(), (uint8_t)c.draw(256));
		uint32_t magic = 0x73717368;
		uint16_t major = 4, minor = 0, comp = 1;
		unsigned what = 1 + c.draw(7);
		if (what & 1 && c.chance(1, 2)) magic = c.chance(1, 2) ? magics[c.draw(7)] : magic ^ (1u << c.draw(32));
		if (magic == 0x73717368 && (what & 2)) {
			if (c.chance(2, 3)) {
				static const uint16_t mj[] = {0, 1, 2, 3, 5, 6, 0x104, 0xff04, 0x400, 0xffff};
				major = mj[c.draw(10)];
			} else minor = c.chance(1, 2) ? 1 + c.draw(10) : 1u << c.draw(16);
		}
		if (what & 4 || (magic == 0x73717368 && major == 4 && !minor)) {
			comp = c.chance(2, 3) ? (uint16_t)c.draw(10) : (uint16_t)(0x101 + c.draw(60000));
			if (comp == 1) comp = 2;
		}
		memcpy(&b[0], &magic, 4);
		memcpy(&b[20], &comp, 2);
		memcpy(&b[28], &major, 2);
		memcpy(&b[30], &minor, 2);
		size_t off = c.chance(1, 2) ? 0 : c.draw(6000);
		long live0 = vf_live();
		int fds0 = count_fds();
		Mounted m;
		m.mount(b, off, c.chance(1, 2));
		c.count();
		c.note("magic %08x version %u.%u compression %u -> %d", magic, major, minor, comp, (int)m.err);
		sqfs_err want;
		bool ok = false;
		if (magic != 0x73717368) ok = m.err == (want = SQFS_BADFORMAT);
		else if (major != 4 || minor) {
			ok = m.err == (want = SQFS_BADVERSION);
			if (comp != 1 && m.err == SQFS_BADCOMP) ok = true;
		} else ok = m.err == (want = SQFS_BADCOMP);
		CHECK(c, ok, "magic %08x version %u.%u compression %u: opening the image says %d, should say %d", magic, major, minor, comp, (int)m.err, (int)want);
		m.open = false;
		CHECK(c, vf_live() == live0, "a refused image leaves %ld blocks", vf_live() - live0);
		CHECK(c, count_fds() == fds0, "a refused image leaves a descriptor");
		m.unmount();
		c.label(want == SQFS_BADFORMAT ? "not SquashFS" : want == SQFS_BADVERSION ? "another version" : "another compression");
	}
}

static void p16(Case &c) {
	begin(c);
	if (c.chance(1, 4)) {
		p16_refuse(c);
		c.nontrivial();
		return;
	}
	Image im;
	gen::Cfg g = mixed(c);
	g.gaps = 8;
	gen::image(c, im, g);
	gen::describe(c, im);
	auto es = gen::entries(im);
	unsigned n = 2 + c.draw(3);
	std::vector<Mounted> ms(n);
	for (unsigned i = 0; i < n; ++i) {
		size_t off;
		switch (c.draw(6)) {
		case 0: off = 0; break;
		case 1: off = 1 + c.draw(8); break;
		case 2: off = 4096 * (1 + c.draw(4)); break;
		case 3: off = c.sized(1ull << 40); break;
		case 4: off = 8192 + c.range(-3, 3); break;
		default: off = c.draw(70000);
		}
		bool st = c.chance(1, 2);
		if (st) off = off > (1ull << 30) ? off % (1 << 20) : off;
		ms[i].mount(im.bytes, i ? off : 0, i && st);
		CHECK(c, ms[i].err == SQFS_OK, "opening the image at offset %zu says %d", off, (int)ms[i].err);
		int a = 9, b = 9, d = 9, e = 9;
		sqfs_version(&ms[i].fs, &a, &b);
		CHECK(c, a == 4 && b == 0, "sqfs_version says %d.%d", a, b);
		CHECK(c, sqfs_compression(&ms[i].fs) == ZLIB_COMPRESSION, "sqfs_compression says %d", (int)sqfs_compression(&ms[i].fs));
		sqfs_version_supported(&a, &b, &d, &e);
		CHECK(c, a == 4 && b == 0 && d == 4 && e == 0, "sqfs_version_supported says %d.%d to %d.%d", a, b, d, e);
		c.note("mounted at offset %zu%s", ms[i].m.offset, i && st ? ", guarded before" : ", guarded after");
		if (off > (1ull << 31)) c.label("offset over 2 GiB");
	}
	CHECK(c, sqfs_inode_root(&ms[0].fs) == im.root->ref, "sqfs_inode_root");
	unsigned k = 5 + c.draw(20), good = 0;
	for (unsigned i = 0; i < k; ++i) {
		Op o = ops::gen_op(c, im, es);
		std::string r0 = ops::exec(&ms[0].fs, o);
		c.note("%s: %s", o.str().c_str(), r0.c_str());
		for (unsigned q = 1; q < n; ++q) {
			std::string r = ops::exec(&ms[q].fs, o);
			CHECK(c, r == r0, "%s at offset %zu: %s, at offset 0: %s", o.str().c_str(), ms[q].m.offset, r.c_str(), r0.c_str());
			c.count();
		}
		if (!ops::failed(r0)) ++good;
		CHECK(c, ms[0].m.offset == 0 && img::same(ms[0].m, im.bytes), "the image was changed");
	}
	for (auto &m : ms) m.unmount();
	if (good >= 3) c.nontrivial();
}

// ---- P17

static bool lies(const std::string &r) {
	// the errnos that say something about the tree
	static const int e[] = {0, ENOENT, ENOTDIR, ELOOP, EISDIR, ENAMETOOLONG, EBADF};
	char b[32];
	for (int x : e) {
		snprintf(b, sizeof b, "errno %d", x);
		if (r.size() >= strlen(b) && r.compare(r.size() - strlen(b), strlen(b), b) == 0) return true;
	}
	return false;
}

static void p17(Case &c) {
	begin(c);
	Image im;
	gen::Cfg g = mixed(c);
	g.compressed_only = true;
	g.wide = 3;
	g.w_dir = 6;
	g.min_nodes = 4;
	gen::image(c, im, g);
	gen::describe(c, im);
	auto es = gen::entries(im);
	needs::Map map(im);
	// what is damaged
	std::vector<size_t> cand[5];
	for (size_t i = 0; i < im.ext.size(); ++i)
		if (im.ext[i].compressed) cand[im.ext[i].kind].push_back(i);
	needs::Blocks bad;
	img::Bytes hurt = im.bytes;
	unsigned nd = 1 + c.draw(3);
	for (unsigned i = 0; i < nd; ++i) {
		unsigned k = c.pick({5, 3, 3, 4, 1});
		if (cand[k].empty()) continue;
		size_t x = cand[k][c.chance(1, 3) ? cand[k].size() - 1 : c.draw(cand[k].size())];
		// without the inodes and entries of the root little is left
		if ((k == img::X_INODE || k == img::X_DIR) && cand[k].size() == 1 && !c.chance(1, 3)) continue;
		if (!bad.insert(x).second) continue;
		img::Bytes d = img::damaged(im.bytes, im.ext[x], c.draw(1 << 30));
		std::copy(d.begin(), d.end(), hurt.begin() + im.ext[x].pos);
		static const char *kn[] = {"data", "fragment", "inodes", "directories", "table"};
		c.note("damaged: %s block %llu at %llu", kn[k], (unsigned long long)im.ext[x].idx, (unsigned long long)im.ext[x].pos);
		c.label("damaged %s", kn[k]);
	}
	if (bad.empty()) c.discard();
	Mounted ok, dm;
	ok.mount(im.bytes);
	dm.mount(hurt);
	CHECK(c, ok.open && dm.open, "opening the image: %d %d", (int)ok.err, (int)dm.err);
	int fds0 = count_fds();
	unsigned k = 6 + c.draw(24), failed = 0, fine = 0;
	std::vector<Op> done;
	for (unsigned i = 0; i < k; ++i) {
		unsigned what = c.pick({12, 4, 2, 2});
		if (what <= 1) {
			Op o = what == 1 && !done.empty() ? done[c.draw(done.size())] : ops::gen_op(c, im, es);
			done.push_back(o);
			std::string want = ops::exec(&ok.fs, o);
			std::string r = ops::exec(&dm.fs, o, c.chance(1, 2) ? 0 : ENOENT);
			needs::Needs nd = map.of(o);
			bool mustfail = nd.known && needs::meets(nd.must, bad), mustwork = nd.known && !needs::meets(nd.may, bad);
			c.count();
			c.note("%s: %s%s", o.str().c_str(), r.c_str(), mustfail ? " (has to fail)" : mustwork ? " (has to work)" : "");
			if (r != want) {
				CHECK(c, ops::failed(r), "%s: %s, undamaged: %s", o.str().c_str(), r.c_str(), want.c_str());
				CHECK(c, !mustwork, "%s: %s, but needs no damaged block; undamaged: %s", o.str().c_str(), r.c_str(), want.c_str());
				CHECK(c, !lies(r), "%s: %s because of a damaged block; undamaged: %s", o.str().c_str(), r.c_str(), want.c_str());
				++failed;
			} else {
				CHECK(c, !mustfail, "%s: %s, but needs a damaged block", o.str().c_str(), r.c_str());
				if (!ops::failed(r)) ++fine;
			}
			if (c.chance(1, 3)) {
				Mounted fresh;
				fresh.mount(hurt);
				std::string f = ops::exec(&fresh.fs, o, ENOENT);
				if (r != f && !lies(f)) CHECK(c, r == f, "%s: %s, but %s when the image is opened anew", o.str().c_str(), r.c_str(), f.c_str());
				fresh.unmount();
			}
			CHECK(c, count_fds() == fds0, "%s leaves a descriptor", o.str().c_str());
			CHECK(c, vf_locks_held() == 0, "%s leaves a lock", o.str().c_str());
		} else if (what == 2) {
			// a descriptor over damaged and sound blocks
			Node *n = ops::any_reg(c, im);
			if (!n || !n->c.size) continue;
			std::string p;
			for (auto &e : es)
				if (e.n == n) p = e.path;
			int fd = squash_open(&dm.fs, p.c_str());
			if (fd < 0) continue;
			uint64_t pos = 0;
			unsigned reads = 2 + c.draw(8);
			for (unsigned q = 0; q < reads; ++q) {
				if (c.chance(1, 2)) {
					pos = c.draw(n->c.size + 1);
					CHECK(c, squash_lseek(fd, pos, SQUASH_SEEK_SET) == (off_t)pos, "lseek to %llu", (unsigned long long)pos);
				}
				size_t len = 1 + c.draw(std::min<uint64_t>(2 * im.bs(), 200000));
				needs::Needs nd;
				map.content(n, pos, len, nd);
				nd.may.insert(nd.must.begin(), nd.must.end());
				Buf b(len);
				errno = 0;
				ssize_t r = squash_read(fd, b.p, len);
				int e = errno;
				c.count();
				c.note("read %s at %llu, %zu bytes: %zd", show(p, 60).c_str(), (unsigned long long)pos, len, r);
				std::string want = n->c.read(pos, len);
				if (r < 0) {
					CHECK(c, needs::meets(nd.may, bad), "read of %s at %llu, %zu bytes: errno %d, but it needs no damaged block", show(p, 80).c_str(), (unsigned long long)pos, len, e);
					CHECK(c, e != 0, "a failed read sets no errno");
					CHECK(c, squash_lseek(fd, 0, SQUASH_SEEK_CUR) == (off_t)pos, "a failed read moved the position from %llu to %lld", (unsigned long long)pos,
					      (long long)squash_lseek(fd, 0, SQUASH_SEEK_CUR));
					++failed;
				} else {
					CHECK(c, !needs::meets(nd.must, bad), "read of %s at %llu, %zu bytes gives %zd, but needs a damaged block", show(p, 80).c_str(), (unsigned long long)pos, len, r);
					CHECK(c, (size_t)r == want.size() && !memcmp(b.p, want.data(), r), "read of %s at %llu, %zu bytes gives %zd other bytes", show(p, 80).c_str(), (unsigned long long)pos, len, r);
					pos += r;
					++fine;
				}
			}
			squash_close(fd);
		} else {
			// a stream into a damaged block
			std::vector<std::string> ps(1, "/");
			for (auto &e : es)
				if (e.n->type == img::DIR_T) ps.push_back(e.path);
			std::string p = ps[c.draw(ps.size())];
			Node *d = p == "/" ? im.root : nullptr;
			for (auto &e : es)
				if (e.path == p) d = e.n;
			needs::Needs nd;
			map.listing(d, nd);
			SQUASH_DIR *s = squash_opendir(&dm.fs, p.c_str());
			if (!s) continue;
			auto it = d->kids.begin();
			for (;;) {
				errno = 0;
				struct dirent *e = squash_readdir(s);
				if (!e) break;
				CHECK(c, it != d->kids.end() && it->first == e->d_name, "readdir of %s gives %s, not packed there", show(p, 80).c_str(), show(e->d_name, strlen(e->d_name), 80).c_str());
				++it;
			}
			int e = errno;
			c.count();
			c.note("stream over %s: %zu of %zu entries, errno %d", show(p, 60).c_str(), (size_t)std::distance(d->kids.begin(), it), d->kids.size(), e);
			if (e) {
				CHECK(c, needs::meets(nd.must, bad), "readdir of %s: errno %d, but the listing is not damaged", show(p, 80).c_str(), e);
				for (int z = 0; z < 2; ++z) {
					errno = 0;
					CHECK(c, !squash_readdir(s) && errno, "readdir of %s fails, then %s", show(p, 80).c_str(), errno ? "gives an entry" : "reports the end");
				}
				// what was read before is still there
				squash_rewinddir(s);
				for (auto q = d->kids.begin(); q != it; ++q) {
					struct dirent *x = squash_readdir(s);
					CHECK(c, x && q->first == x->d_name, "readdir of %s again: %s", show(p, 80).c_str(), x ? x->d_name : "NULL");
				}
				++failed;
			} else {
				CHECK(c, it == d->kids.end(), "readdir of %s reports the end after %zu of %zu entries", show(p, 80).c_str(), (size_t)std::distance(d->kids.begin(), it), d->kids.size());
				CHECK(c, !needs::meets(nd.must, bad), "readdir of %s works on a damaged listing", show(p, 80).c_str());
				++fine;
			}
			CHECK(c, squash_closedir(s) == 0, "closedir");
		}
	}
	// once repaired, no failure is remembered
	if (c.chance(1, 3)) {
		for (size_t x : bad) img::poke(dm.m, im.ext[x].pos, im.bytes.data() + im.ext[x].pos, im.ext[x].len);
		for (auto &o : done) {
			std::string want = ops::exec(&ok.fs, o), r = ops::exec(&dm.fs, o);
			c.count();
			CHECK(c, r == want, "%s after the repair: %s, should be %s", o.str().c_str(), r.c_str(), want.c_str());
		}
		c.label("repaired");
	}
	dm.unmount();
	ok.unmount();
	if (failed && fine) c.nontrivial();
}

// ---- P19

// another tree of the same names and kinds: other bytes, and maybe other attributes
static void twin_of(Case &c, const Image &im, Image &tw, unsigned nth, std::map<const Node *, Node *> &cp) {
	tw.o = im.o;
	bool attrs = c.chance(2, 3);
	std::function<Node *(const Node *)> copy = [&](const Node *x) -> Node * {
		if (cp.count(x)) return cp[x];
		Node *y = tw.add(x->type);
		int ix = y->index;
		*y = *x;
		y->index = ix;
		y->share = -1;
		y->kids.clear();
		y->c.seed += 999 * nth;
		if (attrs) {
			y->mode ^= 0111 * nth;
			y->mtime += 77 * nth;
			y->uid += nth, y->gid += 2 * nth;
			y->major ^= nth, y->minor ^= 4 * nth;
			if (!y->target.empty() && y->target[0] != '/') y->target[y->target.size() - 1] ^= 1;
		}
		cp[x] = y;
		for (auto &k : x->kids) y->kids[k.first] = copy(k.second);
		return y;
	};
	tw.root = copy(im.root);
	tw.write();
}

static void p19(Case &c) {
	begin(c);
	unsigned n = 1 + c.draw(3);
	struct W {
		Image im;
		std::unique_ptr<Mounted> m;
		std::vector<gen::Entry> es;
		std::map<std::string, std::string> fresh;
		std::map<const Node *, Node *> twin;   // what the nodes of image 0 are here
		bool is_twin = false;
	};
	std::vector<std::unique_ptr<W>> ws;
	for (unsigned i = 0; i < n; ++i) {
		ws.emplace_back(new W);
		ws[i]->m.reset(new Mounted);
		gen::Cfg g = mixed(c);
		g.max_blocks = 12;
		g.gaps = 8;
		if (i && c.chance(1, 2)) {
			gen::opts(c, ws[i]->im, g);
			twin_of(c, ws[0]->im, ws[i]->im, i, ws[i]->twin);
			ws[i]->is_twin = true;
			c.label("two of the same layout");
		} else gen::image(c, ws[i]->im, g);
		gen::describe(c, ws[i]->im, 12);
		ws[i]->es = gen::entries(ws[i]->im);
	}
	// the history: operations, and what happens to the handles before them
	enum { NOTHING, REOPEN, SWAP };
	struct Step {
		unsigned wi;
		Op o;
		int before;
		unsigned with;
		size_t off, off2;
		std::string key;
	};
	unsigned k = 10 + c.draw(50), good = 0;
	std::vector<Step> steps;
	for (unsigned i = 0; i < k; ++i) {
		Step s{c.draw(n), Op(), NOTHING, 0, 0, 0, ""};
		const Step *echo = nullptr;
		if (!steps.empty() && n > 1 && !steps.back().wi && c.chance(1, 4)) {
			// the same operation on the same path of an image like the one before, in its handle
			unsigned t = 1 + c.draw(n - 1);
			if (ws[t]->is_twin) {
				echo = &steps.back();
				s.wi = t, s.o = echo->o;
				if (s.o.n) s.o.n = ws[t]->twin[s.o.n];
				s.before = SWAP, s.with = 0;
			}
		}
		if (!echo) {
			if (!steps.empty() && c.chance(2, 5)) {
				auto &d = steps[c.draw(steps.size())];
				s.wi = d.wi, s.o = d.o;
			} else s.o = ops::gen_op(c, ws[s.wi]->im, ws[s.wi]->es);
			if (c.chance(1, 30)) s.before = REOPEN;
			else if (n > 1 && c.chance(1, 12)) s.before = SWAP, s.with = (s.wi + 1 + c.draw(n - 1)) % n;
		}
		if (s.before) s.off = c.draw(3000), s.off2 = c.draw(3000);
		s.key = s.o.str();
		char tail[64];
		snprintf(tail, sizeof tail, " %p", (void *)s.o.n);
		s.key += tail;
		s.key += s.o.path + "\n" + s.o.name;
		steps.push_back(s);
	}
	// what each gives on an image just opened
	std::vector<std::unique_ptr<Mounted>> used;
	for (auto &s : steps) {
		W &w = *ws[s.wi];
		if (w.fresh.count(s.key)) continue;
		used.emplace_back(new Mounted);
		used.back()->mount(w.im.bytes);
		w.fresh[s.key] = ops::exec(&used.back()->fs, s.o);
		used.back()->unmount();
	}
	for (auto &w : ws) mount_ok(c, *w->m, w->im, c.chance(1, 2) ? 0 : c.draw(9000));
	for (auto &s : steps) {
		W &w = *ws[s.wi];
		if (s.before == REOPEN) {
			w.m->unmount();
			mount_ok(c, *w.m, w.im, s.off);
			c.note("image %u opened anew", s.wi);
		} else if (s.before == SWAP) {
			// the same handles, for other images
			W &o = *ws[s.with];
			w.m->unmount(), o.m->unmount();
			std::swap(w.m, o.m);
			mount_ok(c, *w.m, w.im, s.off);
			mount_ok(c, *o.m, o.im, s.off2);
			c.note("images %u and %u change handles", s.wi, s.with);
			c.label("handles changed");
		}
		std::string r = ops::exec(&w.m->fs, s.o, c.chance(1, 2) ? 0 : EIO);
		c.count();
		const std::string &want = w.fresh[s.key];
		CHECK(c, r == want, "image %u: %s: %s, on the image just opened: %s", s.wi, s.o.str().c_str(), r.c_str(), want.c_str());
		if (!ops::failed(r)) ++good;
	}
	c.note("%u operations on %u images, %u of them successful", k, n, good);
	for (auto &w : ws) w->m->unmount();
	if (good >= 8) c.nontrivial();
}

// ---- P22

static void p22(Case &c) {
	begin(c);
	Image im;
	gen::Cfg g = mixed(c);
	g.wide = 12, g.wide_max = 500;
	g.max_nodes = 14;
	g.big_tables = false;
	gen::image(c, im, g);
	gen::describe(c, im, 14);
	auto es = gen::entries(im);
	int fds0 = count_fds();
	// the table of descriptors stays: let it be there
	Mounted base;
	base.mount(im.bytes);
	squash_close(squash_open(&base.fs, "/"));
	unsigned many = c.chance(1, 3) ? c.draw(70) : 0;
	std::vector<int> held;
	std::string anyreg;
	for (auto &e : es)
		if (e.n->type == img::REG_T) anyreg = e.path;
	for (unsigned i = 0; i < many && !anyreg.empty(); ++i) held.push_back(squash_open(&base.fs, anyreg.c_str()));
	int fds1 = count_fds();
	unsigned n = 1 + c.draw(4), faults = 0, failed = 0;
	for (unsigned i = 0; i < n; ++i) {
		int kind = c.pick({6, 2, 2, 1});
		bool all_after = c.chance(1, 3);
		Op o = ops::gen_op(c, im, es);
		c.note("%s, %s", kind == 1 ? "opening an image" : kind == 2 ? "stream" : kind == 3 ? "many opens" : o.str().c_str(), all_after ? "no memory from the k-th allocation on" : "the k-th allocation fails");
		if (kind == 0) {
			std::string want = ops::exec(&base.fs, o);
			bool warm = c.chance(1, 2);
			for (long k = 1; k < 400; ++k) {
				Mounted m;
				long l0 = vf_live();
				m.mount(im.bytes);
				CHECK(c, m.open, "opening the image");
				if (warm) ops::exec(&m.fs, o);
				vf_failed = 0;
				vf_fail_at = vf_allocs + k;
				vf_fail_on = all_after;
				int preset = k & 1 ? 0 : ENOENT;
				std::string r = ops::exec(&m.fs, o, preset);
				vf_fail_at = vf_fail_on = 0;
				bool hit = vf_failed;
				c.count();
				if (hit) ++faults;
				if (r != want) {
					CHECK(c, hit, "%s: %s, before: %s", o.str().c_str(), r.c_str(), want.c_str());
					CHECK(c, ops::failed(r), "%s with allocation %ld failing: %s, otherwise: %s", o.str().c_str(), k, r.c_str(), want.c_str());
					CHECK(c, ops::failed_with_errno(r) && (!preset || !lies(r)), "%s with allocation %ld failing: %s, errno was %d before", o.str().c_str(), k, r.c_str(), preset);
					++failed;
				}
				CHECK(c, vf_locks_held() == 0, "%s with allocation %ld failing: a lock is held", o.str().c_str(), k);
				CHECK(c, count_fds() == fds1, "%s with allocation %ld failing: a descriptor is left", o.str().c_str(), k);
				std::string again = ops::exec(&m.fs, o);
				CHECK(c, again == want, "%s with allocation %ld failing, then with memory: %s, otherwise: %s", o.str().c_str(), k, again.c_str(), want.c_str());
				m.unmount();
				CHECK(c, vf_live() <= l0, "%s with allocation %ld failing: %ld blocks stay after the image is destroyed", o.str().c_str(), k, vf_live() - l0);
				if (!hit) break;
			}
			c.label("operations");
		} else if (kind == 1) {
			for (long k = 1; k < 60; ++k) {
				long live0 = vf_live();
				vf_failed = 0;
				vf_fail_at = vf_allocs + k;
				vf_fail_on = all_after;
				Mounted m;
				errno = 0;
				m.mount(im.bytes);
				int e = errno;
				vf_fail_at = vf_fail_on = 0;
				c.count();
				bool hit = vf_failed;
				if (hit) ++faults;
				if (m.err != SQFS_OK) {
					CHECK(c, hit, "opening the image: %d", (int)m.err);
					CHECK(c, e != 0, "opening with allocation %ld failing: errno is not set", k);
					CHECK(c, vf_live() == live0, "opening with allocation %ld failing leaves %ld blocks", k, vf_live() - live0);
					++failed;
				} else {
					CHECK(c, ops::exec(&m.fs, o) == ops::exec(&base.fs, o), "an image opened with allocation %ld failing differs", k);
				}
				CHECK(c, vf_locks_held() == 0, "opening with allocation %ld failing: a lock is held", k);
				m.unmount();
				if (!hit) break;
			}
			c.label("opening the image");
		} else if (kind == 2) {
			// a stream that runs out of memory goes on where it was
			std::vector<std::pair<std::string, Node *>> ds(1, {"/", im.root});
			for (auto &e : es)
				if (e.n->type == img::DIR_T) ds.push_back({e.path, e.n});
			auto &d = ds[c.draw(ds.size())];
			Mounted m;
			m.mount(im.bytes);
			SQUASH_DIR *s = squash_opendir(&m.fs, d.first.c_str());
			CHECK(c, s, "opendir %s: errno %d", show(d.first, 80).c_str(), errno);
			auto it = d.second->kids.begin();
			unsigned rate = 1 + c.draw(3);
			for (unsigned q = 0; q < 3000; ++q) {
				vf_failed = 0;
				vf_fail_at = c.draw(4) < rate ? vf_allocs + 1 + c.draw(3) : 0;
				vf_fail_on = vf_fail_at && all_after;
				errno = 0;
				struct dirent *e = squash_readdir(s);
				int er = errno;
				vf_fail_at = vf_fail_on = 0;
				c.count();
				if (vf_failed) ++faults;
				if (e) {
					CHECK(c, it != d.second->kids.end() && it->first == e->d_name, "readdir of %s gives %s, should give %s", show(d.first, 80).c_str(), e->d_name,
					      it == d.second->kids.end() ? "the end" : it->first.c_str());
					++it;
				} else if (er) {
					CHECK(c, vf_failed, "readdir of %s: errno %d", show(d.first, 80).c_str(), er);
					++failed;
				} else {
					CHECK(c, it == d.second->kids.end(), "readdir of %s reports the end after %zu of %zu entries%s", show(d.first, 80).c_str(),
					      (size_t)std::distance(d.second->kids.begin(), it), d.second->kids.size(), vf_failed ? ", an allocation failed" : "");
					break;
				}
			}
			CHECK(c, squash_closedir(s) == 0, "closedir");
			CHECK(c, count_fds() == fds1, "a descriptor is left");
			m.unmount();
			c.label("streams");
		} else if (!anyreg.empty()) {
			// descriptors over and over while the table grows
			std::set<int> mine;
			unsigned q = 5 + c.draw(60);
			for (unsigned z = 0; z < q; ++z) {
				vf_failed = 0;
				vf_fail_at = c.chance(1, 3) ? vf_allocs + 1 + c.draw(5) : 0;
				vf_fail_on = vf_fail_at && all_after;
				errno = 0;
				int fd = squash_open(&base.fs, anyreg.c_str());
				int er = errno;
				vf_fail_at = vf_fail_on = 0;
				c.count();
				if (vf_failed) ++faults;
				if (fd < 0) {
					CHECK(c, vf_failed && er, "open: errno %d", er);
					++failed;
				} else {
					CHECK(c, mine.insert(fd).second, "open gives %d twice", fd);
				}
				for (int f : held) CHECK(c, f != fd, "open gives %d, which is open", fd);
				struct stat st;
				for (int f : mine) CHECK(c, squash_fstat(f, &st) == 0, "descriptor %d is lost", f);
				for (int f : held) CHECK(c, squash_fstat(f, &st) == 0, "descriptor %d is lost", f);
				CHECK(c, count_fds() == fds1 + (int)mine.size(), "%d descriptors, %d should be", count_fds(), fds1 + (int)mine.size());
			}
			for (int f : mine) CHECK(c, squash_close(f) == 0, "close");
			c.label("many opens");
		}
	}
	for (int f : held) squash_close(f);
	CHECK(c, count_fds() == fds0, "%d descriptors are left", count_fds() - fds0);
	base.unmount();
	c.note("%u calls met a failing allocation, %u of them failed", faults, failed);
	if (faults >= 5) c.nontrivial();
}

int main(int argc, char **argv) {
	return pbt::run_main(argc, argv, {
		{"P16", p16, 7000, 200000, "case = an image opened at 2-4 offsets and 5-24 operations on each, or 1-4 headers to refuse; non-trivial = at least 3 operations succeed, or headers", nullptr},
		{"P17", p17, 7000, 200000, "case = an image with 1-3 damaged blocks and 6-29 operations, reads and streams; non-trivial = at least one failed and one succeeded", nullptr},
		{"P19", p19, 5000, 150000, "case = 1-3 images and 10-59 operations in any order; non-trivial = at least 8 succeed", nullptr},
		{"P22", p22, 4000, 100000, "case = 1-4 operations, each repeated with its k-th allocation failing for every k; non-trivial = at least 5 calls met a failing allocation", nullptr},
	});
}
