// A model of a file tree and a writer that packs it into a SquashFS 4.0 image.
// The model is the oracle: it says what every name, attribute and byte of the
// image is, without any code of the library under test.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <zlib.h>

namespace img {

typedef std::vector<uint8_t> Bytes;

enum Type { DIR_T = 1, REG_T, LNK_T, BLK_T, CHR_T, FIFO_T, SOCK_T };
enum Kind { HOLE, CONST_, TEXT, RANDOM };

static inline uint64_t hash64(uint64_t z) {
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

// What a file holds: every byte is a function of its position.
struct Content {
	uint64_t size = 0, seed = 0;
	uint32_t bs = 4096;               // the block size of the image
	std::vector<uint8_t> kinds;       // of the first blocks
	std::map<uint64_t, uint8_t> special;
	uint8_t rest = HOLE;              // of all others

	uint8_t kind(uint64_t i) const {
		if (i < kinds.size()) return kinds[i];
		if (!special.empty()) {
			auto it = special.find(i);
			if (it != special.end()) return it->second;
		}
		return rest;
	}
	void gen(uint64_t off, uint64_t n, uint8_t *out) const {
		while (n) {
			uint64_t b = off / bs, in = off % bs;
			uint64_t take = bs - in < n ? bs - in : n;
			switch (kind(b)) {
			case HOLE: memset(out, 0, take); break;
			case CONST_: memset(out, 1 + (int)(hash64(seed ^ (b << 20)) % 255), take); break;
			case TEXT:
				for (uint64_t k = 0; k < take; ++k) {
					uint64_t o = off + k, w = o >> 4;
					unsigned p = o & 15;
					if (p < 8) out[k] = "0123456789abcdef"[(w >> (4 * (7 - p))) & 15];
					else if (p < 15) out[k] = 'a' + (((seed * 0x9e3779b97f4a7c15ull) >> 20 >> (4 * (p - 8))) & 15);
					else out[k] = '\n';
				}
				break;
			default:
				for (uint64_t k = 0; k < take;) {
					uint64_t o = off + k, v = hash64(seed ^ 0x5555 ^ ((o >> 3) << 8));
					for (unsigned p = o & 7; p < 8 && k < take; ++p, ++k) out[k] = (uint8_t)(v >> (8 * p));
				}
			}
			out += take;
			off += take;
			n -= take;
		}
	}
	std::string read(uint64_t off, uint64_t n) const {
		if (off >= size) return std::string();
		if (n > size - off) n = size - off;
		std::string s(n, 0);
		gen(off, n, (uint8_t *)&s[0]);
		return s;
	}
};

struct Node {
	Type type = REG_T;
	uint16_t mode = 0644;
	uint32_t uid = 0, gid = 0, mtime = 0;
	bool ext = false;                 // use the extended inode
	Content c;
	int frag = 1;                     // tail of a file: 0 block, 1 fragment
	int share = -1;                   // content shared with node of this index
	std::string target;
	uint32_t major = 0, minor = 0;
	std::map<std::string, Node *> kids;   // sorted as unsigned bytes
	Node *parent = nullptr;           // of directories
	uint32_t nlink = 0;               // as packed
	int index = 0;
	// set by the writer
	uint32_t ino = 0;
	uint64_t ref = 0;                 // inode reference
	uint64_t listing = 0;             // bytes of a directory
	// where things are in the uncompressed inode and directory streams
	uint64_t ilo = 0, ifix = 0, ihi = 0, dlo = 0;
	std::vector<std::pair<uint64_t, uint64_t>> epos;   // of each entry: header, entry
	bool done = false;
	uint64_t start = 0;
	uint32_t fragidx = 0xffffffff, fragoff = 0;
	std::vector<uint32_t> hdrs;
	bool packed = false;
};

enum ExtKind { X_DATA, X_FRAG, X_INODE, X_DIR, X_TABLE };
struct Extent {
	ExtKind kind;
	uint64_t pos, len;                // of the compressed bytes in the image
	bool compressed;
	Node *owner;                      // X_DATA
	uint64_t idx;                     // block of the owner; fragment; number of the metadata block
	uint64_t lo, hi;                  // X_INODE, X_DIR, X_TABLE: bytes of the uncompressed stream
	int tab = -1;                     // X_TABLE: 0 fragments, 1 inode numbers, 2 ids
};

// An image, and the places where it is torn apart: what follows byte `at` lies `shift` further up.
struct Gap {
	size_t at;
	uint64_t shift;
};
struct ImgBytes : Bytes {
	std::vector<Gap> gaps;
	uint64_t pos(size_t real) const { return real + (gaps.empty() ? 0 : gaps.back().shift); }
};

struct Opts {
	uint32_t bs_log = 12;
	bool store_data = false, store_inodes = false, store_frags = false, store_dirs = false;
	bool exportable = true;
	bool pad = true, comp_opts = false;
	bool sparse = true;               // zero blocks become holes
	bool dedup = true;
	int index_mode = 1;               // 0 none, 1 each 8 KiB, 2 each header
	unsigned split = 0;               // 1 in split headers ends early (0 never)
	bool files_first = false;
	uint64_t shuffle = 0;             // order of inodes and numbers (0: as is)
	bool sparse_inos = false;         // numbers with gaps (only without export table)
	unsigned pad_ids = 0, pad_frags = 0;
	uint64_t junk = 0;                // seed
	uint64_t gap = 0;                 // seed of gaps of some 4 GiB between parts of the image (0 none)
};

class MdWriter {
public:
	Bytes out, cur;
	std::vector<uint64_t> starts;     // of the blocks, in out
	std::vector<std::pair<uint64_t, bool>> blocks;   // compressed length, compressed?
	bool store;
	explicit MdWriter(bool s) : store(s) {}
	uint64_t block() const { return out.size(); }
	uint16_t off() const { return (uint16_t)cur.size(); }
	uint64_t pos() const { return starts.size() * 8192 + cur.size(); }
	void put(const void *p, size_t n) {
		const uint8_t *q = (const uint8_t *)p;
		while (n) {
			size_t take = 8192 - cur.size() < n ? 8192 - cur.size() : n;
			cur.insert(cur.end(), q, q + take);
			q += take;
			n -= take;
			if (cur.size() == 8192) flush();
		}
	}
	void u16(uint16_t v) { put(&v, 2); }
	void u32(uint32_t v) { put(&v, 4); }
	void u64(uint64_t v) { put(&v, 8); }
	void flush() {
		if (cur.empty()) return;
		starts.push_back(out.size());
		uint8_t b[8192 + 1024];
		uLongf n = sizeof b;
		bool comp = !store && compress2(b, &n, cur.data(), cur.size(), 6) == Z_OK && n < cur.size();
		uint16_t h = comp ? (uint16_t)n : (uint16_t)(cur.size() | 0x8000);
		out.push_back(h & 255);
		out.push_back(h >> 8);
		if (comp) out.insert(out.end(), b, b + n);
		else out.insert(out.end(), cur.begin(), cur.end()), n = cur.size();
		blocks.push_back({n, comp});
		cur.clear();
	}
};

class Image {
public:
	std::vector<std::unique_ptr<Node>> nodes;
	Node *root = nullptr;
	Opts o;
	std::vector<uint32_t> ids;        // the id table
	ImgBytes bytes;
	std::vector<Extent> ext;
	std::vector<Node *> by_ino;
	uint64_t bytes_used = 0;
	unsigned nheaders = 0, nindex = 0, nfrags = 0, nmd_inode = 0, nmd_dir = 0;

	Node *add(Type t) {
		nodes.emplace_back(new Node);
		Node *n = nodes.back().get();
		n->type = t;
		n->index = (int)nodes.size() - 1;
		return n;
	}
	uint32_t bs() const { return 1u << o.bs_log; }

	void write() {
		ext.clear();
		for (auto &n : nodes) {
			n->done = n->packed = false;
			n->hdrs.clear();
		}
		links();
		number();
		bytes.assign(96, 0);
		bytes.gaps.clear();
		marks.clear();
		if (o.comp_opts) {
			uint8_t c[10] = {8, 0x80, 9, 0, 0, 0, 15, 0, 1, 0};
			bytes.insert(bytes.end(), c, c + 10);
		}
		for (auto &n : nodes)
			if (n->type == REG_T && n->nlink) data(n.get());
		flush_frag();
		ids.clear();
		idx.clear();
		for (unsigned i = 0; i < o.pad_ids; ++i) id(0x40000000u + i * 7);
		MdWriter it(o.store_inodes), dt(o.store_dirs);
		if (o.files_first) {
			std::vector<Node *> v;
			for (auto &n : nodes)
				if (n->type != DIR_T && n->nlink) v.push_back(n.get());
			shuffle(v, 11);
			for (Node *n : v) inode(it, n);
		}
		dir(it, dt, root);
		it.flush();
		dt.flush();
		uint64_t it_start = place(it, X_INODE), dt_start = place(dt, X_DIR);
		nmd_inode = it.starts.size();
		nmd_dir = dt.starts.size();
		// tables
		nfrags = frags.size();
		while (frags.size() < (size_t)o.pad_frags) frags.push_back(frags.empty() ? Frag{96, 0} : frags[hash64(frags.size()) % frags.size()]);
		Bytes t;
		for (auto &f : frags) le(t, f.pos, 8), le(t, f.hdr, 4), le(t, 0, 4);
		uint64_t ft = frags.empty() ? (o.junk & 1 ? ~0ull : vpos()) : table(t, 0);
		uint64_t xt = ~0ull;
		if (o.exportable) {
			t.clear();
			for (size_t i = 1; i < by_ino.size(); ++i) le(t, by_ino[i]->ref, 8);
			xt = table(t, 1);
		}
		t.clear();
		for (uint32_t v : ids) le(t, v, 4);
		uint64_t idt = table(t, 2);
		bytes_used = vpos();
		size_t n_in = 0;
		for (auto &n : nodes) n_in += n->nlink > 0;
		Bytes sb;
		le(sb, 0x73717368, 4);
		le(sb, n_in, 4);
		le(sb, 1500000000, 4);
		le(sb, bs(), 4);
		le(sb, frags.size(), 4);
		le(sb, 1, 2);
		le(sb, o.bs_log, 2);
		uint16_t fl = (o.store_inodes ? 1 : 0) | (o.store_data ? 2 : 0) | (o.store_frags ? 8 : 0) | (o.exportable ? 128 : 0) |
		              (o.dedup ? 64 : 0) | (o.comp_opts ? 1024 : 0) | 512;
		le(sb, fl, 2);
		le(sb, ids.size(), 2);
		le(sb, 4, 2);
		le(sb, 0, 2);
		le(sb, root->ref, 8);
		le(sb, bytes_used, 8);
		le(sb, idt, 8);
		le(sb, ~0ull, 8);
		le(sb, it_start, 8);
		le(sb, dt_start, 8);
		le(sb, ft, 8);
		le(sb, xt, 8);
		assert(sb.size() == 96);
		memcpy(bytes.data(), sb.data(), 96);
		if (o.pad) bytes.resize((bytes.size() + 4095) / 4096 * 4096, 0);
		frags.clear();
		fragbuf.clear();
		chains.clear();
	}

	// what to fix up in the tree before writing: link counts and parents
	void links() {
		for (auto &n : nodes) n->nlink = 0;
		root->nlink = 0;
		root->parent = nullptr;
		walk(root);
	}

private:
	struct Frag { uint64_t pos; uint32_t hdr; };
	std::vector<Frag> frags;
	Bytes fragbuf;
	std::unordered_map<int, Node *> chains;
	std::map<uint32_t, uint16_t> idx;

	// a gap before what comes next, such that its place and that of something of the same kind
	// before differ by a multiple of 4 GiB, or by a little more or less than that
	std::vector<std::pair<int, uint64_t>> marks;
	uint64_t vpos() const { return bytes.pos(bytes.size()); }
	void tear(int kind) {
		if (!o.gap || bytes.gaps.size() >= 4) return;
		uint64_t h = hash64(o.gap * 7919 + marks.size() * 31 + kind);
		if (h % 3) return;
		h >>= 8;
		std::vector<uint64_t> v;
		for (auto &m : marks)
			if (m.first == kind) v.push_back(m.second);
		uint64_t target = v.empty() ? 96 : v[h % v.size()];
		h >>= 16;
		uint64_t now = vpos(), want = target + ((h % 2 + 1) << 32);
		if (h >> 1 & 1) want += (h >> 8) % 4096;
		while (want < now + 65536) want += 1ull << 32;
		uint64_t shift = want - now;
		bytes.gaps.push_back({bytes.size(), shift + (bytes.gaps.empty() ? 0 : bytes.gaps.back().shift)});
	}
	static void le(Bytes &b, uint64_t v, int n) {
		for (int i = 0; i < n; ++i) b.push_back((uint8_t)(v >> (8 * i)));
	}
	uint16_t id(uint32_t v) {
		auto it = idx.find(v);
		if (it != idx.end()) return it->second;
		uint16_t i = (uint16_t)ids.size();
		ids.push_back(v);
		idx[v] = i;
		return i;
	}
	template <class T> void shuffle(std::vector<T> &v, uint64_t salt) const {
		if (!o.shuffle) return;
		for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[hash64(o.shuffle * 1000003 + salt * 7919 + i) % i]);
	}
	void walk(Node *d) {
		d->nlink += 2;
		for (auto &k : d->kids) {
			Node *n = k.second;
			if (n->type == DIR_T) {
				n->parent = d;
				++d->nlink;
				walk(n);
			} else ++n->nlink;
		}
	}
	void number() {
		std::vector<Node *> v;
		for (auto &n : nodes)
			if (n->nlink) v.push_back(n.get());
		shuffle(v, 3);
		by_ino.assign(1, nullptr);
		uint32_t next = 1;
		for (Node *n : v) {
			n->ino = next;
			if (o.sparse_inos && !o.exportable) next += 1 + hash64(o.shuffle + next) % 50000;
			else ++next, by_ino.push_back(n);
		}
	}
	uint32_t block(const uint8_t *p, size_t n, bool store, Node *owner, uint64_t i) {
		static Bytes b;
		if (b.size() < compressBound(n)) b.resize(compressBound(n));
		uLongf z = b.size();
		bool comp = !store && compress2(b.data(), &z, p, n, o.bs_log > 16 ? 1 : 6) == Z_OK && z < n;
		if (o.gap) marks.push_back({owner ? 0 : 1, vpos()});
		Extent e{owner ? X_DATA : X_FRAG, bytes.size(), comp ? z : n, comp, owner, i, 0, 0};
		ext.push_back(e);
		if (comp) bytes.insert(bytes.end(), b.begin(), b.begin() + z);
		else bytes.insert(bytes.end(), p, p + n);
		return comp ? (uint32_t)z : (uint32_t)(n | (1u << 24));
	}
	void flush_frag() {
		if (fragbuf.empty()) return;
		Frag f;
		tear(1);
		f.pos = vpos();
		f.hdr = block(fragbuf.data(), fragbuf.size(), o.store_frags, nullptr, frags.size());
		frags.push_back(f);
		fragbuf.clear();
	}
	void data(Node *n) {
		if (n->packed) return;
		n->packed = true;
		if (n->share >= 0 && o.dedup) {
			Node *s = nodes[n->share].get();
			data(s);
			n->start = s->start;
			n->hdrs = s->hdrs;
			n->fragidx = s->fragidx;
			n->fragoff = s->fragoff;
			return;
		}
		uint64_t size = n->c.size, b = bs();
		uint64_t tail = size % b;
		bool frag = tail && n->frag;
		uint64_t nb = size / b + (tail && !frag ? 1 : 0);
		if (nb) tear(0);
		n->start = vpos();
		n->fragidx = 0xffffffff;
		n->fragoff = 0;
		Bytes buf(b);
		n->hdrs.resize(nb);
		for (uint64_t i = 0; i < nb; ++i) {
			size_t len = i == size / b ? tail : b;
			if (n->c.kind(i) == HOLE && o.sparse) {
				n->hdrs[i] = 0;
				continue;
			}
			n->c.gen(i * b, len, buf.data());
			n->hdrs[i] = block(buf.data(), len, o.store_data, n, i);
		}
		if (frag) {
			if (fragbuf.size() + tail > b) flush_frag();
			n->fragidx = (uint32_t)frags.size();
			n->fragoff = (uint32_t)fragbuf.size();
			n->c.gen(nb * b, tail, buf.data());
			fragbuf.insert(fragbuf.end(), buf.begin(), buf.begin() + tail);
		}
	}
	void base(MdWriter &w, Node *n, int type) {
		n->ref = (w.block() << 16) | w.off();
		n->ilo = w.pos();
		w.u16((uint16_t)type);
		w.u16(n->mode);
		w.u16(id(n->uid));
		w.u16(id(n->gid));
		w.u32(n->mtime);
		w.u32(n->ino);
	}
	void inode(MdWriter &w, Node *n) {
		if (n->done) return;
		n->done = true;
		switch (n->type) {
		case REG_T: {
			bool ext = n->ext || n->nlink > 1 || n->c.size > 0xffffffffull || n->start > 0xffffffffull;
			base(w, n, ext ? 9 : 2);
			if (ext) {
				uint64_t sp = 0;
				for (uint32_t h : n->hdrs) sp += h ? 0 : bs();
				w.u64(n->start);
				w.u64(n->c.size);
				w.u64(sp > n->c.size ? n->c.size : sp);
				w.u32(n->nlink);
				w.u32(n->fragidx);
				w.u32(n->fragoff);
				w.u32(0xffffffff);
			} else {
				w.u32((uint32_t)n->start);
				w.u32(n->fragidx);
				w.u32(n->fragoff);
				w.u32((uint32_t)n->c.size);
			}
			n->ifix = w.pos();
			w.put(n->hdrs.data(), n->hdrs.size() * 4);
			break;
		}
		case LNK_T:
			base(w, n, n->ext ? 10 : 3);
			w.u32(n->nlink);
			w.u32((uint32_t)n->target.size());
			n->ifix = w.pos();
			w.put(n->target.data(), n->target.size());
			if (n->ext) w.u32(0xffffffff);
			break;
		case BLK_T:
		case CHR_T: {
			base(w, n, (n->type == BLK_T ? 4 : 5) + (n->ext ? 7 : 0));
			w.u32(n->nlink);
			w.u32((n->major << 8) | (n->minor & 0xff) | ((n->minor & 0xfff00) << 12));
			if (n->ext) w.u32(0xffffffff);
			break;
		}
		default:
			base(w, n, (n->type == FIFO_T ? 6 : 7) + (n->ext ? 7 : 0));
			w.u32(n->nlink);
			if (n->ext) w.u32(0xffffffff);
		}
		n->ihi = w.pos();
		if (n->type != REG_T && n->type != LNK_T) n->ifix = n->ihi;
	}
	void dir(MdWriter &it, MdWriter &dt, Node *d) {
		std::vector<Node *> v;
		for (auto &k : d->kids) v.push_back(k.second);
		shuffle(v, 5 + d->index);
		for (Node *n : v)
			if (n->type == DIR_T) dir(it, dt, n);
			else inode(it, n);
		// the listing
		struct Index { uint32_t index, start; std::string name; };
		std::vector<Index> index;
		uint32_t start = (uint32_t)dt.block();
		uint16_t off = dt.off();
		uint64_t pos0 = dt.pos(), last_md = pos0 / 8192;
		d->dlo = pos0;
		d->epos.clear();
		struct Ent { const std::string *name; Node *n; };
		std::vector<Ent> run;
		auto flush = [&]() {
			if (run.empty()) return;
			bool want = o.index_mode == 2 || (o.index_mode == 1 && dt.pos() / 8192 != last_md);
			if (want && dt.pos() != pos0) {
				index.push_back({(uint32_t)(dt.pos() - pos0), (uint32_t)dt.block(), *run[0].name});
				last_md = dt.pos() / 8192;
			} else if (o.index_mode == 2 && (o.junk & 2)) {
				index.push_back({0, (uint32_t)dt.block(), *run[0].name});
			}
			++nheaders;
			uint64_t hpos = dt.pos();
			dt.u32((uint32_t)run.size() - 1);
			dt.u32((uint32_t)(run[0].n->ref >> 16));
			dt.u32(run[0].n->ino);
			for (auto &e : run) {
				d->epos.push_back({hpos, dt.pos()});
				dt.u16(e.n->ref & 0xffff);
				dt.u16((uint16_t)(int16_t)((int64_t)e.n->ino - run[0].n->ino));
				dt.u16((uint16_t)e.n->type);
				dt.u16((uint16_t)(e.name->size() - 1));
				dt.put(e.name->data(), e.name->size());
			}
			run.clear();
		};
		uint64_t pend = 0, i = 0;
		for (auto &k : d->kids) {
			Node *n = k.second;
			if (!run.empty()) {
				int64_t diff = (int64_t)n->ino - run[0].n->ino;
				bool cut = run.size() == 256 || (n->ref >> 16) != (run[0].n->ref >> 16) || diff > 32767 || diff < -32768;
				if (o.split && hash64(o.junk + d->index * 131 + i) % o.split == 0) cut = true;
				// mksquashfs begins a header wherever it wants an index
				if (o.index_mode == 1 && (dt.pos() + pend) / 8192 != last_md) cut = true;
				if (cut) flush(), pend = 0;
			}
			if (run.empty()) pend += 12;
			pend += 8 + k.first.size();
			run.push_back({&k.first, n});
			++i;
		}
		flush();
		d->listing = dt.pos() - pos0;
		bool ext = d->ext || !index.empty() || d->listing + 3 > 65535;
		if (d->listing + 3 > 65535) ext = true;
		base(it, d, ext ? 8 : 1);
		uint32_t par = d->parent ? d->parent->ino : (uint32_t)by_ino.size();
		if (ext) {
			nindex += index.size();
			it.u32(d->nlink);
			it.u32((uint32_t)d->listing + 3);
			it.u32(start);
			it.u32(par);
			it.u16((uint16_t)index.size());
			it.u16(off);
			it.u32(0xffffffff);
			d->ifix = it.pos();
			for (auto &x : index) {
				it.u32(x.index);
				it.u32(x.start);
				it.u32((uint32_t)x.name.size() - 1);
				it.put(x.name.data(), x.name.size());
			}
		} else {
			it.u32(start);
			it.u32(d->nlink);
			it.u16((uint16_t)(d->listing + 3));
			it.u16(off);
			it.u32(par);
			d->ifix = it.pos();
		}
		d->ihi = it.pos();
		d->done = true;
	}
	uint64_t place(MdWriter &w, ExtKind k) {
		tear(2);
		uint64_t at = bytes.size(), v = vpos();
		for (uint64_t st : w.starts) marks.push_back({2, v + st});
		for (size_t i = 0; i < w.starts.size(); ++i)
			ext.push_back({k, at + w.starts[i] + 2, w.blocks[i].first, w.blocks[i].second, nullptr, i, i * 8192, i * 8192 + 8192});
		bytes.insert(bytes.end(), w.out.begin(), w.out.end());
		return v;
	}
	uint64_t table(const Bytes &t, int tab) {
		MdWriter w(o.store_inodes);
		w.put(t.data(), t.size());
		w.flush();
		size_t first = ext.size();
		uint64_t at = place(w, X_TABLE);
		for (size_t i = first; i < ext.size(); ++i) ext[i].tab = tab;
		uint64_t start = vpos();
		for (uint64_t s : w.starts) le(bytes, at + s, 8);
		return start;
	}
};

// An image in memory that nobody may write, with nothing readable around it.
struct Mapped {
	uint8_t *map = nullptr;
	size_t maplen = 0;
	const uint8_t *fd = nullptr;      // what is handed to sqfs_init, with
	size_t offset = 0;                // this offset
	bool huge = false;                // with gaps
	const uint8_t *at() const { return fd + offset; }
};
// offset: distance from the start of the caller's memory to the image
// at_start: nothing readable right before the image, instead of right after it
static inline Mapped map_image(const Bytes &b, size_t offset = 0, bool at_start = false) {
	Mapped m;
	size_t page = 4096;
	size_t body = (b.size() + page - 1) / page * page;
	size_t pre = (offset + page - 1) / page * page + page;
	m.maplen = pre + body + page;
	m.map = (uint8_t *)mmap(NULL, m.maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m.map == MAP_FAILED) abort();
	uint8_t *p = m.map + pre;
	if (mprotect(p, body, PROT_READ | PROT_WRITE)) abort();
	uint8_t *at = at_start ? p : p + (body - b.size());
	memcpy(at, b.data(), b.size());
	// what precedes the image on its first page must not matter
	for (uint8_t *q = p; q < at; ++q) *q = (uint8_t)(0xa5 + (q - p) * 37);
	for (uint8_t *q = at + b.size(); q < p + body; ++q) *q = (uint8_t)(0x5a + (q - p) * 37);
	if (mprotect(p, body, PROT_READ)) abort();
	m.fd = at - offset;
	m.offset = offset;
	return m;
}
// one with gaps: nothing is readable in them
static inline Mapped map_image(const ImgBytes &b, size_t offset = 0, bool at_start = false) {
	if (b.gaps.empty()) return map_image((const Bytes &)b, offset, at_start);
	Mapped m;
	m.huge = true;
	size_t page = 4096;
	uint64_t len = b.pos(b.size());
	size_t body = (len + page - 1) / page * page;
	size_t pre = (offset + page - 1) / page * page + page;
	m.maplen = pre + body + page;
	m.map = (uint8_t *)syscall(SYS_mmap, NULL, m.maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m.map == MAP_FAILED) abort();
	uint8_t *at = at_start ? m.map + pre : m.map + pre + (body - len);
	for (size_t i = 0; i <= b.gaps.size(); ++i) {
		size_t lo = i ? b.gaps[i - 1].at : 0, hi = i < b.gaps.size() ? b.gaps[i].at : b.size();
		if (lo == hi) continue;
		uint8_t *p = at + lo + (i ? b.gaps[i - 1].shift : 0);
		uint8_t *first = (uint8_t *)((uintptr_t)p & ~(page - 1)), *last = (uint8_t *)(((uintptr_t)p + (hi - lo) + page - 1) & ~(page - 1));
		if (mprotect(first, last - first, PROT_READ | PROT_WRITE)) abort();
		memset(first, 0xa5, last - first);
		memcpy(p, b.data() + lo, hi - lo);
		if (mprotect(first, last - first, PROT_READ)) abort();
	}
	m.fd = at - offset;
	m.offset = offset;
	return m;
}
static inline bool same(const Mapped &m, const ImgBytes &b) {
	for (size_t i = 0; i <= b.gaps.size(); ++i) {
		size_t lo = i ? b.gaps[i - 1].at : 0, hi = i < b.gaps.size() ? b.gaps[i].at : b.size();
		if (memcmp(m.at() + lo + (i ? b.gaps[i - 1].shift : 0), b.data() + lo, hi - lo)) return false;
	}
	return true;
}
// overwrite bytes of the image
static inline void poke(Mapped &m, uint64_t pos, const uint8_t *p, size_t n) {
	uint8_t *a = (uint8_t *)m.at() + pos, *page = (uint8_t *)((uintptr_t)a & ~4095ul);
	size_t len = a + n - page;
	if (mprotect(page, len, PROT_READ | PROT_WRITE)) abort();
	memcpy(a, p, n);
	if (mprotect(page, len, PROT_READ)) abort();
}
// compressed bytes that cannot be decompressed, in place of those of e
static inline Bytes damaged(const Bytes &img, const Extent &e, uint64_t how) {
	Bytes b(img.begin() + e.pos, img.begin() + e.pos + e.len);
	static Bytes out(1 << 20);
	for (unsigned t = 0; t < 20; ++t) {
		uint64_t h = hash64(how + t * 77);
		Bytes d = b;
		switch (t < 12 ? h % 5 : 4) {
		case 0: d[(h >> 8) % d.size()] ^= 1 << (h >> 40 & 7); break;
		case 1: for (size_t i = (h >> 8) % d.size(); i < d.size(); ++i) d[i] = (uint8_t)hash64(h + i); break;
		case 2: d[d.size() - 1 - (h >> 8) % std::min<size_t>(4, d.size())] ^= 0x5a; break;   // the checksum
		case 3: std::fill(d.begin() + (h >> 8) % d.size(), d.end(), 0); break;
		default: std::fill(d.begin(), d.end(), (uint8_t)(h >> 8)); d[0] = 0xff;
		}
		uLongf n = out.size();
		if (uncompress(out.data(), &n, d.data(), d.size()) != Z_OK) return d;
	}
	abort();
}
static inline void unmap_image(Mapped &m) {
	if (m.map && m.huge) syscall(SYS_munmap, m.map, m.maplen);
	else if (m.map) munmap(m.map, m.maplen);
	m.map = nullptr;
}

}  // namespace img
