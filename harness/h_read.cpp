// P01 content, P02 sequential reading, P23 large files
#include "needs.hpp"
using img::Image;
using img::Node;

static std::vector<Node *> regular(const Image &im) {
	std::vector<Node *> v;
	for (auto &n : im.nodes)
		if (n->type == img::REG_T && n->nlink) v.push_back(n.get());
	return v;
}
static std::map<Node *, std::string> names(const Image &im) {
	std::map<Node *, std::string> m;
	for (auto &e : gen::entries(im)) m.insert({e.n, e.path});
	return m;
}

// a position worth looking at
static uint64_t position(Case &c, const Node *n, uint32_t bs) {
	uint64_t size = n->c.size;
	if (size > 2000ull * bs && !n->c.special.empty() && c.chance(1, 2)) {
		// a block between holes
		auto it = n->c.special.begin();
		std::advance(it, c.draw(n->c.special.size()));
		int64_t p = (int64_t)(it->first * bs + c.draw(bs)) - (int64_t)c.draw(20);
		return p < 0 ? 0 : p;
	}
	switch (c.pick({4, 4, 2, 1, 1})) {
	case 0: return c.draw(size + 1);
	case 1: {
		int64_t p = (int64_t)(c.draw(size / bs + 2) * bs) + c.range(-3, 3);
		return p < 0 ? 0 : p;
	}
	case 2: return size > 10 ? size - c.draw(10) : 0;
	case 3: return size + c.draw(3 * bs);
	default: return c.chance(1, 2) ? 0 : c.chance(1, 3) ? (uint64_t)INT64_MAX - c.sized(1ull << 40) : size + c.sized(1ull << 40);
	}
}
static uint64_t length(Case &c, uint64_t size, uint32_t bs) {
	switch (c.pick({3, 3, 3, 1, 1})) {
	case 0: return c.draw(100);
	case 1: return c.draw(3 * bs);
	case 2: {
		int64_t p = (int64_t)(c.draw(4) * bs) + c.range(-2, 2);
		return p < 0 ? 0 : p;
	}
	case 3: return size + c.draw(100);
	default: return 0;
	}
}
static void classify(Case &c, const Image &im, const Node *n, uint64_t off, uint64_t got) {
	if (!got) {
		c.label("empty read");
		return;
	}
	uint64_t bs = im.bs(), b0 = off / bs, b1 = (off + got - 1) / bs, tail = n->c.size % bs;
	bool frag = n->fragidx != 0xffffffff;
	if (b0 != b1) c.label("over a block boundary");
	if (frag && b1 == n->c.size / bs) c.label(b0 != b1 ? "blocks and fragment" : n->fragoff ? "fragment at an offset" : "fragment");
	for (uint64_t b = b0; b <= b1 && b < b0 + 64; ++b) {
		if (frag && b == n->c.size / bs) break;
		if (b >= n->hdrs.size()) break;
		uint32_t h = n->hdrs[b];
		if (!h) c.label(b == n->c.size / bs && tail ? "hole at the tail" : "hole");
		else if (h >> 24) c.label("stored block");
		else c.label(b == n->c.size / bs && tail ? "short last block" : "compressed block");
	}
	if (n->share >= 0) c.label("shared blocks");
}

static void check_read(Case &c, const Image &im, const Node *n, uint64_t off, uint64_t len, const Buf &b, int64_t got, const char *how) {
	uint64_t want = off >= n->c.size ? 0 : std::min(len, n->c.size - off);
	c.count();
	CHECK(c, got == (int64_t)want, "%s of %llu bytes at %llu of a file of %llu bytes gave %lld, not %llu", how, (unsigned long long)len,
	      (unsigned long long)off, (unsigned long long)n->c.size, (long long)got, (unsigned long long)want);
	std::string w = n->c.read(off, want);
	uint64_t d = first_diff(b.p, w);
	CHECK(c, d == want, "%s at %llu: byte %llu is %02x, packed %02x", how, (unsigned long long)off, (unsigned long long)(off + d), b.p[d],
	      (uint8_t)w[d]);
	CHECK(c, b.intact(want), "%s wrote behind the %llu bytes it returned", how, (unsigned long long)want);
	classify(c, im, n, off, want);
}

static void check_vast(Case &c, const Image &im, const Node *n, uint64_t off, uint64_t len, const Vast &v, int64_t got, const char *how) {
	uint64_t want = off >= n->c.size ? 0 : n->c.size - off;
	c.count();
	CHECK(c, got == (int64_t)want, "%s of %llu bytes at %llu of a file of %llu bytes gave %lld, not %llu", how, (unsigned long long)len,
	      (unsigned long long)off, (unsigned long long)n->c.size, (long long)got, (unsigned long long)want);
	std::string w = n->c.read(off, want);
	uint64_t d = first_diff(v.p, w);
	CHECK(c, d == want, "%s at %llu: byte %llu is %02x, packed %02x", how, (unsigned long long)off, (unsigned long long)(off + d), v.p[d], (uint8_t)w[d]);
	CHECK(c, v.intact(want), "%s wrote behind the %llu bytes it returned", how, (unsigned long long)want);
	c.label("billions of bytes asked for");
}

static void p01(Case &c) {
	begin(c);
	gen::Cfg g;
	g.gaps = 8;
	g.large = 14, g.giant = true;
	g.w_reg = 16, g.w_dir = 2, g.w_lnk = 1, g.max_nodes = 10, g.hard_names = false, g.chains = false;
	g.max_blocks = c.chance(1, 8) ? 40 : 10;
	Image im;
	gen::image(c, im, g);
	gen::describe(c, im);
	Mounted m;
	mount_ok(c, m, im, c.chance(1, 3) ? c.draw(9000) : 0);
	auto files = regular(im);
	auto nm = names(im);
	if (files.empty()) c.discard();
	unsigned k = 6 + c.draw(c.thorough ? 60 : 24);
	for (unsigned i = 0; i < k; ++i) {
		Node *n = files[c.draw(files.size())];
		uint64_t off = position(c, n, im.bs()), len = length(c, n->c.size, im.bs());
		if (len > (4u << 20)) len = 4u << 20;
		if (len) c.nontrivial();
		if (c.chance(1, 40) && n->c.size < (8u << 20)) {
			Vast v;
			len = Vast::length(c);
			c.note("%s: %llu bytes at %llu", show(nm[n]).c_str(), (unsigned long long)len, (unsigned long long)off);
			if (c.chance(1, 2)) {
				sqfs_inode ino;
				CHECK(c, inode_of(&m.fs, n, &ino), "sqfs_inode_get failed for %s", nm[n].c_str());
				sqfs_off_t sz = len;
				CHECK(c, sqfs_read_range(&m.fs, &ino, off, &sz, v.p) == SQFS_OK, "sqfs_read_range failed with errno %d", errno);
				check_vast(c, im, n, off, len, v, sz, "sqfs_read_range");
			} else {
				int fd = squash_open(&m.fs, nm[n].c_str());
				CHECK(c, fd >= 0 && squash_lseek(fd, off, SQUASH_SEEK_SET) == (off_t)off, "open or lseek failed, errno %d", errno);
				check_vast(c, im, n, off, len, v, squash_read(fd, v.p, len), "squash_read");
				squash_close(fd);
			}
			continue;
		}
		Buf b(len);
		c.note("%s: %llu bytes at %llu", show(nm[n]).c_str(), (unsigned long long)len, (unsigned long long)off);
		if (c.chance(1, 2)) {
			sqfs_inode ino;
			CHECK(c, inode_of(&m.fs, n, &ino), "sqfs_inode_get failed for %s", nm[n].c_str());
			sqfs_off_t sz = len;
			errno = 0;
			sqfs_err e = sqfs_read_range(&m.fs, &ino, off, &sz, b.p);
			CHECK(c, e == SQFS_OK, "sqfs_read_range of %llu bytes at %llu (size %llu) failed with %d, errno %d", (unsigned long long)len,
			      (unsigned long long)off, (unsigned long long)n->c.size, (int)e, errno);
			check_read(c, im, n, off, len, b, sz, "sqfs_read_range");
		} else {
			int fd = squash_open(&m.fs, nm[n].c_str());
			CHECK(c, fd >= 0, "squash_open(%s): errno %d", nm[n].c_str(), errno);
			off_t at = squash_lseek(fd, off, SQUASH_SEEK_SET);
			CHECK(c, at == (off_t)off, "lseek to %llu gave %lld", (unsigned long long)off, (long long)at);
			errno = 0;
			ssize_t r = squash_read(fd, b.p, len);
			CHECK(c, r >= 0, "squash_read of %llu bytes at %llu (size %llu) failed with errno %d", (unsigned long long)len, (unsigned long long)off,
			      (unsigned long long)n->c.size, errno);
			check_read(c, im, n, off, len, b, r, "squash_read");
			CHECK(c, squash_close(fd) == 0, "close failed");
		}
	}
	m.unmount();
}

struct Desc {
	int fd;
	Node *n;
	uint64_t pos;
};

static void p02(Case &c) {
	begin(c);
	gen::Cfg g;
	g.w_reg = 16, g.w_dir = 2, g.w_lnk = 1, g.max_nodes = 6, g.hard_names = false, g.chains = false, g.max_blocks = 5;
	Image im;
	gen::image(c, im, g);
	gen::describe(c, im);
	Mounted m;
	mount_ok(c, m, im);
	auto files = regular(im);
	auto nm = names(im);
	if (files.empty()) c.discard();
	needs::Map map(im);
	needs::Blocks bad;
	if (c.chance(1, 5)) bad = needs::damage_data(c, im, m.m);
	// what a failed read may be because of
	auto broken = [&](Desc &d, uint64_t len, ssize_t r, int e) {
		needs::Needs nd = map.reading(d.n, d.pos, len);
		if (r >= 0) {
			CHECK(c, !needs::meets(nd.must, bad), "read of %llu at %llu of %llu gives %zd, but needs a damaged block", (unsigned long long)len, (unsigned long long)d.pos,
			      (unsigned long long)d.n->c.size, r);
			return false;
		}
		CHECK(c, needs::meets(nd.may, bad) && e, "read of %llu at %llu of %llu failed with errno %d", (unsigned long long)len, (unsigned long long)d.pos,
		      (unsigned long long)d.n->c.size, e);
		off_t p = squash_lseek(d.fd, 0, SQUASH_SEEK_CUR);
		CHECK(c, p == (off_t)d.pos, "a failed read moved the position from %llu to %lld", (unsigned long long)d.pos, (long long)p);
		c.label("failed read");
		return true;
	};
	std::vector<Desc> ds;
	unsigned k = 5 + c.draw(c.thorough ? 120 : 50);
	uint64_t moves = 0;
	for (unsigned i = 0; i < k; ++i) {
		unsigned op = ds.empty() ? 0 : c.pick({3, 10, 8, 1});
		if (op == 0) {
			if (ds.size() >= 12) continue;
			Node *n = files[c.draw(files.size())];
			int fd = squash_open(&m.fs, nm[n].c_str());
			CHECK(c, fd >= 0, "squash_open(%s): errno %d", nm[n].c_str(), errno);
			for (auto &d : ds) {
				CHECK(c, d.fd != fd, "open returned %d, which is open", fd);
				if (d.n == n) c.label("two descriptors of a file");
			}
			ds.push_back({fd, n, 0});
			c.note("open %s -> %d", show(nm[n]).c_str(), (int)ds.size() - 1);
			continue;
		}
		size_t j = c.draw(ds.size());
		Desc &d = ds[j];
		if (op == 1) {
			uint64_t len = length(c, d.n->c.size, im.bs());
			if (len > (2u << 20)) len = 2u << 20;
			if (c.chance(1, 60) && bad.empty()) {
				Vast v;
				len = Vast::length(c);
				c.note("#%zu at %llu: read %llu", j, (unsigned long long)d.pos, (unsigned long long)len);
				ssize_t r = squash_read(d.fd, v.p, len);
				check_vast(c, im, d.n, d.pos, len, v, r, "squash_read");
				d.pos += r;
				continue;
			}
			Buf b(len);
			c.note("#%zu at %llu: read %llu", j, (unsigned long long)d.pos, (unsigned long long)len);
			errno = 0;
			ssize_t r = squash_read(d.fd, b.p, len);
			if (broken(d, len, r, errno)) {
				c.count();
				continue;
			}
			check_read(c, im, d.n, d.pos, len, b, r, "squash_read");
			d.pos += r;
			++moves;
			if (r && moves > 3 && ds.size() > 1) c.nontrivial();
		} else if (op == 2) {
			static const int ws[] = {SQUASH_SEEK_SET, SQUASH_SEEK_CUR, SQUASH_SEEK_END, 3, -1, 7, 1000000};
			unsigned wi = c.pick({6, 6, 3, 1, 1, 1, 1});
			int wh = ws[wi];
			int64_t off;
			if (wi == 0) off = c.chance(1, 8) ? -1 - (int64_t)c.sized(1ull << 40) : (int64_t)position(c, d.n, im.bs());
			else if (wi == 1) {
				switch (c.pick({3, 3, 2, 1, 1})) {
				case 0: off = c.range(-20, 20); break;
				case 1: off = (int64_t)position(c, d.n, im.bs()) - (int64_t)d.pos; break;
				case 2: off = 0; break;
				case 3: off = c.chance(1, 3) ? INT64_MAX - (int64_t)c.sized(1ull << 40) : c.chance(1, 8) ? INT64_MIN + (int64_t)c.draw(9) : -(int64_t)d.pos - 1 - (int64_t)c.draw(5); break;
				default: off = -(int64_t)d.pos; break;
				}
			} else if (wi == 2) off = c.chance(1, 4) ? c.range(-10, 10) : 0;
			else off = c.draw(10);
			c.note("#%zu at %llu: lseek %lld whence %d", j, (unsigned long long)d.pos, (long long)off, wh);
			errno = 0;
			off_t r = squash_lseek(d.fd, off, wh);
			c.count();
			if (wi == 2) {
				// the header says the size, the README (and POSIX) size plus offset
				int64_t a = d.n->c.size, b2 = (int64_t)d.n->c.size + off;
				if (b2 < 0 && r == -1) {
					CHECK(c, errno == EINVAL, "errno %d", errno);
					c.label("seek refused");
				} else {
					CHECK(c, r == a || (b2 >= 0 && r == b2), "lseek END %lld of a file of %llu gave %lld", (long long)off,
					      (unsigned long long)d.n->c.size, (long long)r);
					d.pos = r;
					c.label("seek END");
				}
				continue;
			}
			__int128 sum = (__int128)d.pos + off;
			bool over = wi == 1 && sum > INT64_MAX;      // no position
			int64_t want = wi == 0 ? off : wi == 1 && !over ? (int64_t)sum : -1;
			if (over) c.label("seek behind the last position");
			if (want < 0) {
				CHECK(c, r == -1, "lseek %lld whence %d at %llu gave %lld, not an error", (long long)off, wh, (unsigned long long)d.pos, (long long)r);
				CHECK(c, errno == EINVAL || (over && errno == EOVERFLOW), "lseek %lld whence %d sets errno %d, not EINVAL", (long long)off, wh, errno);
				off_t p = squash_lseek(d.fd, 0, SQUASH_SEEK_CUR);
				CHECK(c, p == (off_t)d.pos, "a refused seek moved the position from %llu to %lld", (unsigned long long)d.pos, (long long)p);
				c.label("seek refused");
			} else {
				CHECK(c, r == want, "lseek %lld whence %d at %llu gave %lld (errno %d), not %lld", (long long)off, wh, (unsigned long long)d.pos,
				      (long long)r, errno, (long long)want);
				d.pos = want;
				c.label(wi == 0 ? "seek SET" : "seek CUR");
			}
		} else {
			c.note("close #%zu", j);
			CHECK(c, squash_close(d.fd) == 0, "close failed with errno %d", errno);
			ds.erase(ds.begin() + j);
		}
	}
	for (auto &d : ds) {
		off_t p = squash_lseek(d.fd, 0, SQUASH_SEEK_CUR);
		CHECK(c, p == (off_t)d.pos, "position is %lld, should be %llu", (long long)p, (unsigned long long)d.pos);
		// the rest of the file in pieces
		uint64_t left = d.pos < d.n->c.size ? d.n->c.size - d.pos : 0;
		uint64_t step = 1 + c.draw(2 * im.bs());
		if (left / step > 40) step = left / 40 + 1;
		for (;;) {
			Buf b(step);
			errno = 0;
			ssize_t r = squash_read(d.fd, b.p, step);
			if (broken(d, step, r, errno)) break;
			check_read(c, im, d.n, d.pos, step, b, r, "squash_read");
			d.pos += r;
			if (!r) break;
		}
		squash_close(d.fd);
	}
	m.unmount();
}

static void p23(Case &c) {
	begin(c);
	Image im;
	gen::Cfg g;
	g.gaps = 4;
	gen::opts(c, im, g);
	static const unsigned logs[] = {12, 20, 17, 13, 16, 18};
	im.o.bs_log = logs[c.pick({8, 3, 3, 1, 1, 1})];
	uint64_t bs = im.bs();
	im.o.sparse = true;
	im.root = im.add(img::DIR_T);
	im.root->mtime = 5;
	// where the inode of a large file starts
	unsigned pads = c.draw(40);
	for (unsigned i = 0; i < pads; ++i) {
		Node *x = im.add(c.chance(1, 2) ? img::LNK_T : img::FIFO_T);
		x->target = std::string(1 + c.draw(300), 'p');
		char b[16];
		snprintf(b, sizeof b, "p%u", i);
		im.root->kids[b] = x;
	}
	unsigned nf = c.pick({5, 3, 2}) == 0 ? 1 : c.chance(1, 2) ? 2 + c.draw(3) : 9 + c.draw(5);
	std::vector<Node *> fs;
	for (unsigned i = 0; i < nf; ++i) {
		Node *x = im.add(img::REG_T);
		char b[16];
		snprintf(b, sizeof b, "big%u", i);
		im.root->kids[b] = x;
		uint64_t nb;
		if (nf > 4) nb = 2040 + c.draw(2500);
		else
			switch (c.pick({5, 4, 2, c.thorough ? 2u : 0u})) {
			case 0: nb = 2046 + c.draw(6); break;
			case 1: nb = 2049 + c.draw(9000); break;
			case 2: nb = 2049 + c.draw(70000); break;
			default: nb = 1048570 + c.draw(200000); break;
			}
		x->c.bs = bs;
		x->c.seed = 77 + i;
		x->c.size = nb * bs;
		if (c.chance(2, 3)) x->c.size -= c.draw(bs);
		x->frag = c.chance(1, 2);
		x->ext = true;
		bool dense = bs == 4096 && nb < 5000 && c.chance(1, 3);
		x->c.rest = dense ? img::CONST_ : img::HOLE;
		if (dense) c.label("dense");
		unsigned ns = 4 + c.draw(40);
		if (bs * nf > 65536) ns = 3 + c.draw((12u << 20) / (bs * nf) + 1);
		for (unsigned k = 0; k < ns; ++k) {
			uint64_t at = c.chance(1, 2) ? c.draw(nb) : c.draw(nb / 2048 + 1) * 2048 + c.range(-45, 45);
			if (at < nb) x->c.special[at] = c.chance(1, 6) && bs < 200000 ? img::RANDOM : c.chance(1, 3) ? img::CONST_ : img::TEXT;
		}
		if (c.chance(1, 2)) x->c.special[nb - 1] = img::TEXT;
		if (nf > 1 && c.chance(1, 4)) {
			// nothing is stored of it: the next file begins at the same place
			x->c.special.clear();
			x->c.rest = img::HOLE;
			if (c.chance(1, 2)) x->c.size = nb * bs;
			c.label("holes only");
		}
		fs.push_back(x);
		if (x->c.size > 0xffffffffull) c.label("beyond 4 GiB");
		c.label(nb > 100000 ? "> 100000 blocks" : nb > 10000 ? "> 10000 blocks" : "2040-10000 blocks");
	}
	if (nf > 8) c.label("more large files than index slots");
	if (!im.o.shuffle) im.o.shuffle = c.draw(50);
	im.write();
	c.note("image %zu bytes, block %llu, %u large files, inode blocks %u", im.bytes.size(), (unsigned long long)bs, nf, im.nmd_inode);
	for (unsigned i = 0; i < nf; ++i)
		c.note("big%u: %llu bytes, %zu data blocks marked, inode at offset %llu", i, (unsigned long long)fs[i]->c.size, fs[i]->c.special.size(),
		       (unsigned long long)(fs[i]->ref & 0xffff));
	Mounted m;
	mount_ok(c, m, im, c.chance(1, 2) ? c.draw(5000) : 0);
	unsigned k = 10 + c.draw(nf > 4 ? 60 : 40);
	std::vector<int> fds(nf, -1);
	for (unsigned i = 0; i < k; ++i) {
		unsigned f = c.draw(nf);
		Node *n = fs[f];
		uint64_t nb = n->c.size / bs + 1, at;
		unsigned how = c.pick({4, 4, 3, 1});
		if (how == 0) {
			at = c.draw(nb / 2048 + 1) * 2048 * bs;
			// the first entry of a metadata block is up to 14 blocks away from that
			at += (uint64_t)c.range(-20, 20) * bs;
		} else if (how == 1 && !n->c.special.empty()) {
			auto it = n->c.special.begin();
			std::advance(it, c.draw(n->c.special.size()));
			at = it->first * bs + c.draw(bs);
		} else if (how == 2) at = c.draw(n->c.size + 10);
		else at = n->c.size - std::min<uint64_t>(n->c.size, c.draw(3 * bs));
		if ((int64_t)at < 0) at = c.draw(bs);
		uint64_t len = c.chance(1, 4) ? 1 + c.draw(3 * bs) : 1 + c.draw(5000);
		if (len > 300000) len = 300000;
		Buf b(len);
		c.note("big%u: %llu bytes at %llu", f, (unsigned long long)len, (unsigned long long)at);
		char nm[16];
		snprintf(nm, sizeof nm, "/big%u", f);
		if (fds[f] < 0) {
			fds[f] = squash_open(&m.fs, nm);
			CHECK(c, fds[f] >= 0, "open failed with errno %d", errno);
			struct stat st;
			CHECK(c, squash_fstat(fds[f], &st) == 0 && (uint64_t)st.st_size == n->c.size, "size %lld, packed %llu", (long long)st.st_size,
			      (unsigned long long)n->c.size);
		}
		off_t p;
		unsigned wh = c.draw(3);
		if (wh == 0) p = squash_lseek(fds[f], at, SQUASH_SEEK_SET);
		else if (wh == 1) {
			off_t cur = squash_lseek(fds[f], 0, SQUASH_SEEK_CUR);
			p = squash_lseek(fds[f], (off_t)at - cur, SQUASH_SEEK_CUR);
		} else {
			off_t end = squash_lseek(fds[f], 0, SQUASH_SEEK_END);
			CHECK(c, end == (off_t)n->c.size, "the end of a file of %llu bytes is at %lld", (unsigned long long)n->c.size, (long long)end);
			p = squash_lseek(fds[f], (off_t)at - end, SQUASH_SEEK_CUR);
		}
		CHECK(c, p == (off_t)at, "lseek to %llu gave %lld", (unsigned long long)at, (long long)p);
		errno = 0;
		ssize_t r = squash_read(fds[f], b.p, len);
		CHECK(c, r >= 0, "read of %llu bytes at %llu of big%u (%llu bytes) failed with errno %d", (unsigned long long)len, (unsigned long long)at, f,
		      (unsigned long long)n->c.size, errno);
		check_read(c, im, n, at, len, b, r, "squash_read");
		if (at / bs > 2000 && r) c.nontrivial();
		if (at / bs > 2000) c.label("behind the first index entry");
		if (c.chance(1, 6)) squash_close(fds[f]), fds[f] = -1;
	}
	for (int f : fds)
		if (f >= 0) squash_close(f);
	m.unmount();
}

int main(int argc, char **argv) {
	return pbt::run_main(argc, argv, {
		{"P01", p01, 16000, 400000, "case = generated image (block size, compression, holes, fragments, sharing, inode order) and 6-30 ranges of its files, "
		 "read by inode and by descriptor; non-trivial = at least one range of more than 0 bytes", nullptr},
		{"P02", p02, 16000, 400000, "case = generated image and a history of open, read, seek and close on up to 12 descriptors against a model of positions; "
		 "non-trivial = bytes read after at least three moves with two or more descriptors open", nullptr},
		{"P23", p23, 2000, 30000, "case = image with 1-14 files of 2040 to 1.2 million blocks (mostly holes, marked data blocks around index boundaries) and "
		 "10-70 seeks and reads; non-trivial = bytes read behind the first 2000 blocks", nullptr},
	});
}
