// Which blocks of an image an operation has to read, and which it may read.
#pragma once
#include "ops.hpp"

namespace needs {
using img::Image;
using img::Node;
typedef std::set<size_t> Blocks;          // numbers of extents

struct Needs {
	bool known = false;
	Blocks must, may;                 // must is part of may
};

struct Map {
	const Image &im;
	std::vector<size_t> ino, dir;     // extents of the metadata blocks
	std::map<uint64_t, size_t> tab[3], frag;
	std::map<std::pair<const Node *, uint64_t>, size_t> data;
	explicit Map(const Image &i) : im(i) {
		for (size_t k = 0; k < im.ext.size(); ++k) {
			const img::Extent &e = im.ext[k];
			switch (e.kind) {
			case img::X_INODE: ino.resize(std::max<size_t>(ino.size(), e.idx + 1)); ino[e.idx] = k; break;
			case img::X_DIR: dir.resize(std::max<size_t>(dir.size(), e.idx + 1)); dir[e.idx] = k; break;
			case img::X_TABLE: tab[e.tab][e.idx] = k; break;
			case img::X_FRAG: frag[e.idx] = k; break;
			case img::X_DATA: data[{e.owner, e.idx}] = k; break;
			}
		}
	}
	static void span(const std::vector<size_t> &v, uint64_t lo, uint64_t hi, Blocks &b) {
		if (hi <= lo) return;
		for (uint64_t k = lo / 8192; k <= (hi - 1) / 8192; ++k) b.insert(v[k]);
	}
	void fixed(const Node *n, Needs &r) const { span(ino, n->ilo, n->ifix, r.must); }
	void whole(const Node *n, Blocks &b) const { span(ino, n->ilo, n->ihi, b); }
	// a name looked up in a directory: where it is is needed, all before it may be
	void lookup(const Node *d, const std::string &name, Needs &r) const {
		fixed(d, r);
		whole(d, r.may);
		span(dir, d->dlo, d->dlo + d->listing, r.may);
		auto it = d->kids.find(name);
		if (it == d->kids.end()) return;
		size_t i = std::distance(d->kids.begin(), it);
		span(dir, d->epos[i].first, d->epos[i].first + 12, r.must);
		span(dir, d->epos[i].second, d->epos[i].second + 8 + name.size(), r.must);
	}
	void listing(const Node *d, Needs &r) const {
		fixed(d, r);
		span(dir, d->dlo, d->dlo + d->listing, r.must);
	}
	void content(const Node *n, uint64_t off, uint64_t len, Needs &r) const {
		fixed(n, r);
		if (off >= n->c.size || !len) return;
		if (len > n->c.size - off) len = n->c.size - off;
		uint64_t bs = im.bs();
		if (n->hdrs.size() >= 2000) whole(n, r.may);   // an index of the list may be made first
		const Node *o = n->share >= 0 && im.o.dedup ? im.nodes[n->share].get() : n;
		for (uint64_t b = off / bs; b <= (off + len - 1) / bs; ++b) {
			if (b < n->hdrs.size()) {
				span(ino, n->ifix + 4 * b, n->ifix + 4 * b + 4, r.must);
				span(ino, n->ilo, n->ifix + 4 * b + 4, r.may);
				if (n->hdrs[b]) r.must.insert(data.at({o, b}));
			} else {
				r.must.insert(tab[0].at(n->fragidx * 16ull / 8192));
				r.must.insert(frag.at(n->fragidx));
			}
		}
	}
	Needs reading(const Node *n, uint64_t off, uint64_t len) const {
		Needs r;
		r.known = true;
		content(n, off, len, r);
		r.may.insert(r.must.begin(), r.must.end());
		return r;
	}
	Node *path(const std::string &p, bool follow, Needs &r) const {
		ref::Resolver rr(im);
		std::vector<ref::Step> tr;
		rr.trace = &tr;
		ref::Result res = rr.resolve(p, follow);
		if (res.unspec || res.may_loop || res.links > 32) return nullptr;
		r.known = true;
		fixed(im.root, r);
		for (auto &s : tr) {
			lookup(s.dir, s.name, r);
			if (s.n) fixed(s.n, r);
			if (s.n && s.followed) span(ino, s.n->ilo, s.n->ihi, r.must);
		}
		return res.n;
	}
	void subtree(const Node *d, Needs &r) const {
		listing(d, r);
		for (auto &k : d->kids)
			if (k.second->type == img::DIR_T) subtree(k.second, r);
	}
	Needs of(const ops::Op &o) const {
		Needs r;
		Node *n;
		switch (o.k) {
		case ops::STAT: path(o.path, true, r); break;
		case ops::LSTAT: path(o.path, false, r); break;
		case ops::FSTAT: path(o.path, true, r); break;
		case ops::READ:
			n = path(o.path, true, r);
			if (n && n->type == img::REG_T) content(n, o.a, o.b, r);
			break;
		case ops::READALL:
			n = path(o.path, true, r);
			if (n && n->type == img::REG_T) content(n, 0, n->c.size, r);
			break;
		case ops::READLINK:
			n = path(o.path, false, r);
			if (n && n->type == img::LNK_T) span(ino, n->ilo, n->ihi, r.must);
			break;
		case ops::LIST:
		case ops::SCANDIR:
			n = path(o.path, true, r);
			if (n && n->type == img::DIR_T) listing(n, r);
			break;
		case ops::TRAVERSE:
			r.known = true;
			subtree(o.n, r);
			break;
		case ops::LOWITER:
			r.known = o.a == 0;
			listing(o.n, r);
			break;
		case ops::LOOKUP:
			r.known = true;
			lookup(o.n, o.name, r);
			break;
		case ops::IREAD:
			r.known = true;
			content(o.n, o.a, o.b, r);
			break;
		case ops::EXPORT:
			r.known = true;
			if (im.o.exportable) r.must.insert(tab[1].at((o.a - 1) * 8 / 8192));
			break;
		case ops::ID:
			r.known = true;
			r.must.insert(tab[2].at(o.a * 4 / 8192));
			break;
		default: break;
		}
		r.may.insert(r.must.begin(), r.must.end());
		return r;
	}
};
// damage some of the compressed data and fragment blocks in place
static Blocks damage_data(Case &c, const Image &im, img::Mapped &m) {
	Blocks bad;
	std::vector<size_t> v;
	for (size_t i = 0; i < im.ext.size(); ++i)
		if (im.ext[i].compressed && (im.ext[i].kind == img::X_DATA || im.ext[i].kind == img::X_FRAG)) v.push_back(i);
	if (v.empty()) return bad;
	unsigned n = 1 + c.draw(3);
	for (unsigned i = 0; i < n; ++i) {
		size_t x = v[c.draw(v.size())];
		if (!bad.insert(x).second) continue;
		img::Bytes d = img::damaged(im.bytes, im.ext[x], c.draw(1 << 30));
		img::poke(m, im.ext[x].pos, d.data(), d.size());
		c.note("damaged: block at %llu", (unsigned long long)im.ext[x].pos);
	}
	c.label("damaged data");
	return bad;
}
static bool meets(const Blocks &a, const Blocks &b) {
	for (size_t x : a)
		if (b.count(x)) return true;
	return false;
}

}  // namespace needs
