// Generators of images.
#pragma once
#include "img.hpp"
#include "pbt.hpp"
#include "ref.hpp"

namespace gen {

using img::Content;
using img::Image;
using img::Node;

struct Cfg {
	unsigned min_nodes = 1, max_nodes = 20;
	unsigned w_dir = 5, w_reg = 6, w_lnk = 3, w_spec = 1, w_hard = 1;   // kinds of entries
	unsigned max_blocks = 8;          // of a file with 4 KiB blocks
	bool big_blocks = true;           // block sizes above 64 KiB
	bool hard_names = true;           // long names and arbitrary bytes
	unsigned wide = 0;                // 1 in `wide` images has a very wide directory (0 never)
	unsigned wide_max = 1500;
	bool chains = true;               // chains of links
	bool aliases = false;             // targets behind a root alias
	bool dotdot = true;
	bool relnoise = true;
	bool big_tables = false;
	unsigned large = 0;               // 1 in `large` images has files of more than 2048 blocks (0 never)
	bool giant = false;               // some of those are beyond 4 GiB
	unsigned gaps = 0;                // 1 in `gaps` images is torn apart by gaps of 4 GiB (0 never)
	bool export_only = false;
	bool stored = true;
	bool compressed_only = false;
	std::string only_chars;           // names from these
};

static const char *ALIAS = "/__enclose_io_memfs__/";
static const char *ALIAS2 = "/usr/local/app/";

static std::string name_in(Case &c, Node *d, const Cfg &g) {
	static const char *plain[] = {"a", "b", "c", "d", "e", "f", "file", "dir", "x.txt", "lib", "A", "Z", "0", "_", "~", "data.bin"};
	for (int tries = 0;; ++tries) {
		std::string s;
		unsigned k = g.hard_names ? c.pick({6, 4, 4, 1, 1, 1, 1}) : c.pick({6, 4, 4});
		if (!g.only_chars.empty()) k = 1;
		switch (k) {
		case 0: s = plain[c.draw(16)]; break;
		case 1: {
			std::string al = g.only_chars.empty() ? "ab.-" : g.only_chars;
			unsigned n = 1 + c.draw(5);
			for (unsigned i = 0; i < n; ++i) s += al[c.draw(al.size())];
			break;
		}
		case 2: {
			// next to a name that is there
			if (d->kids.empty()) s = "n";
			else {
				auto it = d->kids.begin();
				std::advance(it, c.draw(d->kids.size()));
				s = it->first;
			}
			unsigned how = c.draw(4);
			if (how == 0) s += (char)('a' + c.draw(26));
			else if (how == 1 && s.size() > 1) s.resize(1 + c.draw(s.size() - 1));
			else if (how == 2) s[c.draw(s.size())] = (char)('a' + c.draw(26));
			else s.insert(s.begin() + c.draw(s.size() + 1), (char)('a' + c.draw(26)));
			break;
		}
		case 3: s = std::string(200 + c.draw(56), (char)('a' + c.draw(26))); if (c.chance(1, 2)) s[s.size() - 1] = 'z'; break;
		case 4: {
			unsigned n = 1 + c.draw(12);
			for (unsigned i = 0; i < n; ++i) {
				unsigned ch = 1 + c.draw(255);
				s += (char)(ch == '/' ? 0xff : ch);
			}
			break;
		}
		case 5: {
			static const char *odd[] = {"...", "..a", ".a", ".hidden", " ", "-", "\\", "*", "\xff", "\xc3\xa4", "\x01", "a b", "\x7f", "\x80"};
			s = odd[c.draw(14)];
			break;
		}
		default: s = std::string(255, (char)('A' + c.draw(26))); break;
		}
		if (s.size() > 255) s.resize(255);
		if (tries > 20) {
			char b[24];
			snprintf(b, sizeof b, "%s%d", g.only_chars.empty() ? "n" : g.only_chars.substr(0, 1).c_str(), (int)(d->kids.size() + tries));
			s = b;
		}
		if (s.empty() || s == "." || s == ".." || d->kids.count(s)) continue;
		return s;
	}
}

static void content(Case &c, Image &im, Content &ct, const Cfg &g, uint64_t seed) {
	uint64_t bs = im.bs();
	ct.bs = bs;
	ct.seed = seed;
	uint64_t maxb = g.max_blocks * 4096ull / bs;
	if (maxb < 2) maxb = 2;
	switch (c.pick({2, 3, 6, 2, 3})) {
	case 0: ct.size = 0; break;
	case 1: ct.size = 1 + c.draw(200); break;
	case 2: ct.size = c.draw(maxb + 1) * bs + c.draw(bs); break;
	case 3: ct.size = (1 + c.draw(maxb)) * bs; break;
	default: ct.size = (1 + c.draw(maxb)) * bs + c.range(-2, 2); break;
	}
	uint64_t n = (ct.size + bs - 1) / bs;
	ct.kinds.resize(n);
	for (auto &k : ct.kinds) k = (uint8_t)(c.pick({3, 5, 3, 1}) == 0 ? img::HOLE : c.pick({5, 3, 1}) == 0 ? img::TEXT : c.chance(2, 3) ? img::RANDOM : img::CONST_);
	ct.rest = img::TEXT;
}

static void opts(Case &c, Image &im, const Cfg &g) {
	img::Opts &o = im.o;
	static const unsigned logs[] = {12, 13, 14, 15, 16, 17, 18, 20};
	o.bs_log = logs[g.big_blocks ? c.pick({40, 8, 6, 3, 3, 4, 1, 2}) : c.pick({40, 8, 6})];
	unsigned st = g.stored && !g.compressed_only ? c.draw(16) : 0;
	// most images compress everything; the rest store some of the four parts
	if (st >= 10) {
		unsigned m = 1 + c.draw(15);
		o.store_data = m & 1, o.store_inodes = m & 2, o.store_frags = m & 4, o.store_dirs = m & 8;
	}
	o.exportable = g.export_only || !c.chance(1, 3);
	o.pad = !c.chance(1, 2);
	o.comp_opts = c.chance(1, 4);
	o.sparse = !c.chance(1, 6);
	o.dedup = true;
	o.index_mode = c.pick({3, 2, 2}) == 0 ? 1 : c.chance(1, 2) ? 2 : 0;
	o.split = c.chance(1, 3) ? 1 + c.draw(6) : 0;
	o.files_first = c.chance(1, 3);
	o.shuffle = c.chance(1, 2) ? 1 + c.draw(1000) : 0;
	o.sparse_inos = !o.exportable && c.chance(1, 2);
	o.junk = c.draw(1 << 16);
	o.pad_ids = g.big_tables ? (c.chance(1, 2) ? 2000 + c.draw(5000) : c.draw(10)) : c.chance(1, 12) ? 2040 + c.draw(20) : 0;
	o.pad_frags = 0;
	if (g.gaps && c.chance(1, g.gaps)) {
		o.gap = 1 + c.draw(1 << 16);
		c.label("parts of the image 4 GiB apart");
	}
}

static void attrs(Case &c, Node *n) {
	static const uint16_t modes[] = {0644, 0755, 0600, 0444, 0, 07777, 04755, 01777};
	n->mode = modes[c.draw(8)];
	if (c.chance(1, 5)) n->mode = (uint16_t)c.draw(010000);
	n->uid = c.chance(1, 3) ? (uint32_t)c.draw(1ull << 32) : (uint32_t)c.draw(4) * 500;
	n->gid = c.chance(1, 3) ? (uint32_t)c.draw(1ull << 32) : (uint32_t)c.draw(4) * 100;
	n->mtime = (c.chance(1, 4) ? 0xc0000000u : 0x50000000u) + (uint32_t)n->index;   // tells inodes apart
	n->ext = c.chance(1, 3);
}

// "/a/b" of a directory, or of an entry of it
static std::string path_of(const Image &im, Node *d) {
	std::string p;
	while (d != im.root) {
		for (auto &k : d->parent->kids)
			if (k.second == d) {
				p = "/" + k.first + p;
				break;
			}
		d = d->parent;
	}
	return p.empty() ? "/" : p;
}
static std::string join(const std::string &d, const std::string &n) { return d == "/" ? "/" + n : d + "/" + n; }

struct Entry {
	Node *dir;
	std::string name;
	Node *n;
	std::string path;
};
static void all_entries(const Image &im, Node *d, const std::string &p, std::vector<Entry> &v) {
	for (auto &k : d->kids) {
		v.push_back({d, k.first, k.second, join(p, k.first)});
		if (k.second->type == img::DIR_T) all_entries(im, k.second, join(p, k.first), v);
	}
}
static std::vector<Entry> entries(const Image &im) {
	std::vector<Entry> v;
	all_entries(im, im.root, "/", v);
	return v;
}

// a path from directory `from` (NULL: the root) down to components `comps`, with
// harmless noise; `abs` says whether it begins at the root
static std::string spell(Case &c, const Image &im, Node *from, const std::vector<std::string> &comps, bool abs, const Cfg &g) {
	std::string s;
	Node *cur = abs || !from ? im.root : from;
	if (abs) {
		s = "/";
		if (c.chance(1, 12)) s += std::string(1 + c.draw(3), '/');
	}
	for (size_t i = 0; i < comps.size(); ++i) {
		if (g.relnoise && c.chance(1, 8)) {
			unsigned k = c.draw(3);
			if (k == 0) s += "./";
			else if (k == 1 && !s.empty() && s.back() == '/') s += "/";
			else if (k == 2 && g.dotdot && cur) {
				for (auto &e : cur->kids)
					if (e.second->type == img::DIR_T && c.chance(1, 2)) {
						s += e.first + "/../";
						break;
					}
			}
		}
		s += comps[i];
		if (cur) {
			if (comps[i] == "..") cur = cur->parent;
			else {
				auto it = cur->kids.find(comps[i]);
				cur = it != cur->kids.end() && it->second->type == img::DIR_T ? it->second : nullptr;
			}
		}
		if (i + 1 < comps.size()) s += c.chance(1, 14) ? "//" : "/";
	}
	return s;
}

// how to get from directory `from` to entry `e`: components
static std::vector<std::string> relative(Case &c, const Image &im, Node *from, const Entry &e, bool dotdot) {
	std::vector<Node *> a, b;
	for (Node *d = from; d; d = d->parent) a.insert(a.begin(), d);
	for (Node *d = e.dir; d; d = d->parent) b.insert(b.begin(), d);
	size_t k = 0;
	while (k < a.size() && k < b.size() && a[k] == b[k]) ++k;
	if (dotdot && k > 1 && c.chance(1, 4)) k = 1 + c.draw(k);   // further up than needed
	std::vector<std::string> r;
	for (size_t i = k; i < a.size(); ++i) r.push_back("..");
	for (size_t i = k; i < b.size(); ++i) {
		for (auto &x : b[i]->parent->kids)
			if (x.second == b[i]) {
				r.push_back(x.first);
				break;
			}
	}
	r.push_back(e.name);
	return r;
}

static void target(Case &c, Image &im, Node *l, Node *dir, const std::vector<Entry> &es, const Cfg &g) {
	std::string s;
	bool abs = c.chance(1, 2);
	unsigned k = c.pick({10, 2, 3, 1, 1, 1});
	std::vector<std::string> comps;
	if (es.empty()) k = 1;
	auto comps_to = [&](const Entry &e) {
		if (abs) return ref::split(e.path);
		return relative(c, im, dir, e, g.dotdot);
	};
	switch (k) {
	case 0: comps = comps_to(es[c.draw(es.size())]); break;
	case 1: {
		// dangling, or a root of its own
		if (!es.empty() && c.chance(1, 2)) comps = comps_to(es[c.draw(es.size())]);
		comps.push_back("missing");
		break;
	}
	case 2: {
		// through another link
		std::vector<const Entry *> ls;
		for (auto &e : es)
			if (e.n->type == img::LNK_T) ls.push_back(&e);
		if (ls.empty()) comps = comps_to(es[c.draw(es.size())]);
		else {
			comps = comps_to(*ls[c.draw(ls.size())]);
			if (c.chance(3, 4)) comps.push_back(es[c.draw(es.size())].name);
		}
		break;
	}
	case 3: {
		// itself
		for (auto &e : es)
			if (e.n == l) {
				comps = comps_to(e);
				if (c.chance(1, 3)) comps.push_back("x");
				break;
			}
		if (comps.empty()) comps.push_back("self");
		break;
	}
	case 4:
		if (abs) comps.clear();
		else comps.push_back(".");
		break;
	default:
		comps = comps_to(es[c.draw(es.size())]);
		if (c.chance(1, 2)) comps.push_back(".");
	}
	s = spell(c, im, dir, comps, abs, g);
	if (abs && g.aliases && c.chance(2, 3)) s = std::string(c.chance(1, 3) ? ALIAS2 : ALIAS) + s.substr(1);
	if (c.chance(1, 24) && s.size() < 1800) {
		// as long as a target can be
		std::string pad;
		size_t want = c.chance(1, 2) ? 2047 : 256 + c.draw(1790);
		while (pad.size() + s.size() + 2 <= want) pad += "./";
		if (!abs) s = pad + s;
		else if (!g.aliases || s.compare(0, 2, "/_") != 0) s = "/" + pad + s.substr(1);
		if (s.size() < want && !s.empty() && s[0] != '.') s = (abs ? "/" : "./") + s;
	}
	if (s.size() > 2047) s.resize(2047);
	if (s.empty()) s = ".";
	l->target = s;
}

static void tree(Case &c, Image &im, const Cfg &g) {
	im.root = im.add(img::DIR_T);
	im.root->mode = 0755;
	attrs(c, im.root);
	std::vector<Node *> dirs(1, im.root), regs;
	std::vector<std::pair<Node *, Node *>> links;   // link, directory
	unsigned n = g.min_nodes + c.draw(g.max_nodes - g.min_nodes + 1);
	for (unsigned i = 0; i < n; ++i) {
		Node *d = dirs[c.chance(1, 3) ? 0 : c.chance(1, 2) ? dirs.size() - 1 : c.draw(dirs.size())];
		unsigned k = c.pick({g.w_reg, g.w_dir, g.w_lnk, g.w_spec, g.w_hard});
		std::string nm = name_in(c, d, g);
		Node *x;
		if (k == 4) {
			std::vector<Node *> cand;
			for (auto &y : im.nodes)
				if (y->type != img::DIR_T && y->type != img::LNK_T) cand.push_back(y.get());
			if (cand.empty()) k = 0;
			else {
				d->kids[nm] = cand[c.draw(cand.size())];
				continue;
			}
		}
		switch (k) {
		case 1:
			x = im.add(img::DIR_T);
			x->parent = d;
			dirs.push_back(x);
			break;
		case 2:
			x = im.add(img::LNK_T);
			x->target = ".";
			links.push_back({x, d});
			break;
		case 3:
			x = im.add((img::Type)(img::BLK_T + c.draw(4)));
			x->major = c.draw(4096);
			x->minor = c.chance(1, 2) ? c.draw(256) : c.draw(1 << 20);
			break;
		default:
			x = im.add(img::REG_T);
			content(c, im, x->c, g, (uint64_t)x->index * 7 + 1 + (c.draw(1000) << 16));
			x->frag = c.pick({5, 2}) == 0;
			if (x->frag && c.chance(1, 3)) x->frag = x->c.size < im.bs();   // only small files
			if (!regs.empty() && c.chance(1, 8)) {
				Node *s = regs[c.draw(regs.size())];
				x->c = s->c;
				x->frag = s->frag;
				x->share = s->share >= 0 ? s->share : s->index;
			}
			regs.push_back(x);
		}
		attrs(c, x);
		d->kids[nm] = x;
	}
	if (g.wide && c.chance(1, g.wide)) {
		Node *d = dirs[c.draw(dirs.size())];
		unsigned m = 300 + c.draw(g.wide_max - 300);
		unsigned style = c.draw(4), len = c.draw(3) == 0 ? 200 : 0;
		for (unsigned i = 0; i < m; ++i) {
			char b[64];
			if (style == 0) snprintf(b, sizeof b, "%05u", i);
			else if (style == 1) snprintf(b, sizeof b, "w%u", i);
			else if (style == 2) snprintf(b, sizeof b, "%x", (unsigned)img::hash64(i));
			else snprintf(b, sizeof b, "%c%s%u", 'a' + i % 3, i % 5 ? "x" : "", i / 3);
			std::string nm = b;
			if (len && i % 2) nm += std::string(len + i % 46, 'l');
			if (d->kids.count(nm)) continue;
			Node *x = im.add(i % 16 == 7 ? img::FIFO_T : img::REG_T);
			x->c.bs = im.bs();
			x->c.seed = i;
			x->c.size = i % 9 == 0 ? i % 100 : 0;
			x->c.rest = img::TEXT;
			x->mtime = 0x60000000u + x->index;
			x->mode = 0600 + i % 64;
			d->kids[nm] = x;
		}
		c.label("wide directory");
	}
	if (g.large && c.chance(1, g.large)) {
		bool giant = g.giant && c.chance(1, 3);   // beyond 4 GiB
		im.o.bs_log = giant ? 19 + c.draw(2) : 12;
		for (auto &x : im.nodes)
			x->c.bs = im.bs();
		unsigned k = giant ? 1 : 1 + (c.chance(1, 4) ? c.draw(10) : c.draw(2));
		for (unsigned i = 0; i < k; ++i) {
			Node *x = im.add(img::REG_T);
			char b[24];
			snprintf(b, sizeof b, "large%u", i);
			if (im.root->kids.count(b)) break;
			uint64_t nb = 2040 + (c.chance(1, 2) ? c.draw(20) : c.draw(6000)), four = (1ull << 32) / im.bs();
			if (giant) nb = four + c.draw(200) + 1;
			x->c.bs = im.bs();
			x->c.seed = 5000 + i;
			x->c.size = nb * im.bs() - (c.chance(1, 2) ? c.draw(im.bs()) : 0);
			x->c.rest = img::HOLE;
			unsigned ns = 1 + (giant ? 0 : c.draw(20));
			if (giant) {
				x->c.special[four - 1 + c.draw(2)] = img::TEXT;
				im.o.sparse = true;
				c.label("beyond 4 GiB");
			}
			for (unsigned q = 0; q < ns; ++q) x->c.special[c.draw(nb)] = c.chance(1, 4) && g.stored ? img::RANDOM : img::TEXT;
			x->frag = c.chance(1, 2);
			attrs(c, x);
			im.root->kids[b] = x;
		}
		c.label("large files");
	}
	im.links();
	if (g.chains && g.w_lnk && c.chance(1, 5)) {
		// a chain of links, some of them over directories
		unsigned len = 1 + (c.chance(1, 2) ? c.draw(6) : c.draw(40));
		Node *prev = nullptr, *pd = nullptr;
		std::string pname;
		for (unsigned i = 0; i < len; ++i) {
			Node *d = dirs[c.draw(dirs.size())];
			Node *x = im.add(img::LNK_T);
			attrs(c, x);
			char b[24];
			snprintf(b, sizeof b, "chain%u", i);
			if (d->kids.count(b)) break;
			d->kids[b] = x;
			im.links();
			if (!prev) links.push_back({x, d});
			else {
				Entry e{pd, pname, prev, join(path_of(im, pd), pname)};
				bool abs = c.chance(1, 2);
				x->target = spell(c, im, d, abs ? ref::split(e.path) : relative(c, im, d, e, g.dotdot), abs, g);
				if (x->target.size() > 2047) x->target = "chain0";
			}
			prev = x, pd = d, pname = b;
		}
		c.label("chain of %s links", len > 32 ? ">32" : len > 8 ? "9-32" : "<=8");
	}
	im.links();
	std::vector<Entry> es = entries(im);
	for (auto &l : links) target(c, im, l.first, l.second, es, g);
}

static void image(Case &c, Image &im, const Cfg &g) {
	opts(c, im, g);
	tree(c, im, g);
	im.write();
}

static void describe(Case &c, const Image &im, unsigned cap = 30) {
	if (!c.want_notes) return;
	const img::Opts &o = im.o;
	c.note("image: %zu bytes, block %u, %zu nodes, stored%s%s%s%s, export %d, index mode %d, split %u, headers %u, index entries %u, fragments %u",
	       im.bytes.size(), im.bs(), im.nodes.size(), o.store_data ? " data" : "", o.store_frags ? " fragments" : "", o.store_inodes ? " inodes" : "",
	       o.store_dirs ? " dirs" : "", o.exportable, o.index_mode, o.split, im.nheaders, im.nindex, im.nfrags);
	std::vector<Entry> es = entries(im);
	unsigned i = 0;
	for (auto &e : es) {
		if (++i > cap) {
			c.note("  ... %zu entries", es.size());
			break;
		}
		std::string k;
		if (e.n->type == img::REG_T) {
			static const char *kn = "0ctr";
			k = "file " + std::to_string(e.n->c.size) + (e.n->frag ? " frag " : " ");
			for (size_t b = 0; b < e.n->c.kinds.size() && b < 16; ++b) k += kn[e.n->c.kinds[b]];
		} else if (e.n->type == img::LNK_T) k = "-> " + show(e.n->target, 80);
		else if (e.n->type == img::DIR_T) k = "dir";
		else k = "special";
		c.note("  %s %s%s ino %u", show(e.path, 80).c_str(), k.c_str(), e.n->ext ? " ext" : "", e.n->ino);
	}
}

}  // namespace gen
