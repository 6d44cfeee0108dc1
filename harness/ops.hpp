// Self-contained operations on an image, each with a result in words: the same
// operation on the same image has one right result, whatever happened before.
#pragma once
#include "lib.hpp"

namespace ops {

using img::Image;
using img::Node;

enum Kind { STAT, LSTAT, READ, READALL, READLINK, LIST, SCANDIR, TRAVERSE, LOWITER, EXPORT, ID, FSTAT, LOOKUP, IREAD, NKINDS };
static const char *kind_name[] = {"stat", "lstat", "read", "readall", "readlink", "list", "scandir", "traverse", "iterate", "export", "id", "fstat", "lookup", "iread"};

struct Op {
	Kind k = STAT;
	std::string path, name;
	uint64_t a = 0, b = 0;
	Node *n = nullptr;
	std::string str() const {
		char t[96];
		snprintf(t, sizeof t, " %llu %llu", (unsigned long long)a, (unsigned long long)b);
		return std::string(kind_name[k]) + " " + show(path, 60) + (name.empty() ? "" : " " + show(name, 30)) + t;
	}
};

struct Sum {
	uint64_t h = 1469598103934665603ull, n = 0;
	void add(const void *p, size_t k) {
		const uint8_t *q = (const uint8_t *)p;
		for (size_t i = 0; i < k; ++i) h = (h ^ q[i]) * 1099511628211ull;
		n += k;
	}
	std::string str() const {
		char b[64];
		snprintf(b, sizeof b, "%llu bytes %016llx", (unsigned long long)n, (unsigned long long)h);
		return b;
	}
};

// the documented value of a failure is -1
static std::string fail_str(const char *f, long r = -1) {
	char b[80];
	if (r != -1) {
		snprintf(b, sizeof b, "%s returned %ld", f, r);
		return b;
	}
	snprintf(b, sizeof b, "FAIL %s errno %d", f, errno);
	return b;
}
static bool failed(const std::string &r) { return r.compare(0, 5, "FAIL ") == 0; }
static bool failed_with_errno(const std::string &r) { return failed(r) && r.find("errno 0") == std::string::npos; }

static std::string stat_str(const struct stat &st) {
	char b[160];
	snprintf(b, sizeof b, "mode %o nlink %llu size %lld mtime %lld rdev %llx", st.st_mode, (unsigned long long)st.st_nlink, (long long)st.st_size,
	         (long long)st.st_mtime, (unsigned long long)st.st_rdev);
	return b;
}

static int name_cmp(const struct dirent **a, const struct dirent **b) { return strcmp((*b)->d_name, (*a)->d_name); }

// errno is whatever it was before the call, so set it
static std::string exec(sqfs *fs, const Op &o, int preset = 0) {
	struct stat st;
	int ret;
	memset(&st, 0x77, sizeof st);
	errno = preset;
	switch (o.k) {
	case STAT: return (ret = squash_stat(fs, o.path.c_str(), &st)) ? fail_str("stat", ret) : stat_str(st);
	case LSTAT: return (ret = squash_lstat(fs, o.path.c_str(), &st)) ? fail_str("lstat", ret) : stat_str(st);
	case FSTAT: {
		int fd = squash_open(fs, o.path.c_str());
		if (fd < 0) return fail_str("open", fd);
		errno = preset;
		std::string r = (ret = squash_fstat(fd, &st)) ? fail_str("fstat", ret) : stat_str(st);
		squash_close(fd);
		return r;
	}
	case READ: {
		int fd = squash_open(fs, o.path.c_str());
		if (fd < 0) return fail_str("open", fd);
		std::string r;
		if (squash_lseek(fd, (off_t)o.a, SQUASH_SEEK_SET) != (off_t)o.a) r = fail_str("lseek");
		else {
			Buf b(o.b);
			errno = preset;
			ssize_t k = squash_read(fd, b.p, o.b);
			if (k < 0) r = fail_str("read", k);
			else {
				Sum s;
				s.add(b.p, k);
				r = s.str();
			}
		}
		squash_close(fd);
		return r;
	}
	case READALL: {
		int fd = squash_open(fs, o.path.c_str());
		if (fd < 0) return fail_str("open", fd);
		Sum s;
		std::string r;
		for (;;) {
			Buf b(o.b ? o.b : 1);
			errno = preset;
			ssize_t k = squash_read(fd, b.p, b.n);
			if (k < 0) {
				r = fail_str("read", k);
				break;
			}
			if (!k) {
				r = s.str();
				break;
			}
			s.add(b.p, k);
		}
		squash_close(fd);
		return r;
	}
	case IREAD: {
		sqfs_inode ino;
		if (sqfs_inode_get(fs, &ino, o.n->ref)) return fail_str("inode_get");
		Buf b(o.b);
		sqfs_off_t n = o.b;
		errno = preset;
		if (sqfs_read_range(fs, &ino, o.a, &n, b.p)) return fail_str("read_range");
		Sum s;
		s.add(b.p, n);
		return s.str();
	}
	case READLINK: {
		Buf b(2100);
		ssize_t k = squash_readlink(fs, o.path.c_str(), (char *)b.p, b.n);
		if (k < 0) return fail_str("readlink", k);
		return show(b.p, k, 3000);
	}
	case LIST: {
		SQUASH_DIR *d = squash_opendir(fs, o.path.c_str());
		if (!d) return fail_str("opendir");
		Sum s;
		char t[64];
		std::string r;
		size_t cnt = 0;
		for (;;) {
			errno = 0;
			struct dirent *e = squash_readdir(d);
			if (!e) break;
			++cnt;
			snprintf(t, sizeof t, "|%llu %d ", (unsigned long long)e->d_ino, e->d_type);
			s.add(t, strlen(t));
			s.add(e->d_name, strlen(e->d_name));
		}
		if (errno) r = fail_str("readdir");
		else snprintf(t, sizeof t, "%zu entries ", cnt), r = t + s.str();
		squash_closedir(d);
		return r;
	}
	case SCANDIR: {
		struct dirent **l = nullptr;
		int n = squash_scandir(fs, o.path.c_str(), &l, nullptr, o.a & 1 ? name_cmp : nullptr);
		if (n < 0) return fail_str("scandir", n);
		Sum s;
		char t[64];
		for (int i = 0; i < n; ++i) {
			snprintf(t, sizeof t, "|%llu %d ", (unsigned long long)l[i]->d_ino, l[i]->d_type);
			s.add(t, strlen(t));
			s.add(l[i]->d_name, strlen(l[i]->d_name));
			vf_free(l[i]);
		}
		vf_free(l);
		snprintf(t, sizeof t, "%d entries ", n);
		return t + s.str();
	}
	case TRAVERSE: {
		sqfs_traverse t;
		memset(&t, 0x5a, sizeof t);
		sqfs_err e;
		if ((e = sqfs_traverse_open(&t, fs, o.n->ref))) return fail_str("traverse_open");
		Sum s;
		size_t cnt = 0;
		std::string r;
		while (sqfs_traverse_next(&t, &e)) {
			++cnt;
			char b[32];
			snprintf(b, sizeof b, "|%d ", t.dir_end);
			s.add(b, strlen(b));
			s.add(t.path, strlen(t.path));
			if (cnt > 1000000) break;
		}
		if (e) r = fail_str("traverse_next");
		else {
			char b[40];
			snprintf(b, sizeof b, "%zu visits ", cnt);
			r = b + s.str();
		}
		int saved = errno;
		sqfs_traverse_close(&t);
		errno = saved;
		return r;
	}
	case LOWITER: {
		sqfs_inode ino;
		if (sqfs_inode_get(fs, &ino, o.n->ref)) return fail_str("inode_get");
		sqfs_dir d;
		if (sqfs_dir_open(fs, &ino, &d, (off_t)o.a)) return fail_str("dir_open");
		sqfs_name nb;
		sqfs_dir_entry e;
		memset(&e, 0x5a, sizeof e);
		sqfs_dentry_init(&e, nb);
		sqfs_err err;
		Sum s;
		size_t cnt = 0;
		while (sqfs_dir_next(fs, &d, &e, &err)) {
			++cnt;
			char b[96];
			snprintf(b, sizeof b, "|%llx %u %lld %lld ", (unsigned long long)sqfs_dentry_inode(&e), sqfs_dentry_inode_num(&e),
			         (long long)sqfs_dentry_offset(&e), (long long)sqfs_dentry_next_offset(&e));
			s.add(b, strlen(b));
			s.add(sqfs_dentry_name(&e), sqfs_dentry_name_size(&e));
		}
		if (err) return fail_str("dir_next");
		char b[40];
		snprintf(b, sizeof b, "%zu entries ", cnt);
		return b + s.str();
	}
	case LOOKUP: {
		sqfs_inode ino;
		if (sqfs_inode_get(fs, &ino, o.n->ref)) return fail_str("inode_get");
		sqfs_name nb;
		sqfs_dir_entry e;
		memset(&e, 0, sizeof e);
		sqfs_dentry_init(&e, nb);
		short found = 7;
		if (sqfs_dir_lookup(fs, &ino, o.name.data(), o.name.size(), &e, &found)) return fail_str("dir_lookup");
		if (!found) return "not found";
		char b[64];
		snprintf(b, sizeof b, "found %llx", (unsigned long long)sqfs_dentry_inode(&e));
		return b;
	}
	case EXPORT: {
		sqfs_inode_id id = 0;
		sqfs_err e = sqfs_export_inode(fs, (sqfs_inode_num)o.a, &id);
		char b[64];
		if (e == SQFS_UNSUP) return "unsupported";
		if (e) return fail_str("export_inode");
		snprintf(b, sizeof b, "id %llx", (unsigned long long)id);
		return b;
	}
	case ID: {
		sqfs_id_t v = 0;
		if (sqfs_id_get(fs, (uint16_t)o.a, &v)) return fail_str("id_get");
		return "id " + std::to_string(v);
	}
	default: return "?";
	}
}

static Node *any_dir(Case &c, const Image &im) {
	std::vector<Node *> v;
	for (auto &n : im.nodes)
		if (n->type == img::DIR_T) v.push_back(n.get());
	return v[c.draw(v.size())];
}
static Node *any_reg(Case &c, const Image &im) {
	std::vector<Node *> v;
	for (auto &n : im.nodes)
		if (n->type == img::REG_T && n->nlink) v.push_back(n.get());
	return v.empty() ? nullptr : v[c.draw(v.size())];
}

// an operation on this image; mostly one that succeeds
static Op gen_op(Case &c, const Image &im, const std::vector<gen::Entry> &es) {
	Op o;
	static const Kind ks[] = {READ, READALL, STAT, LSTAT, LIST, LOOKUP, READLINK, SCANDIR, TRAVERSE, LOWITER, EXPORT, ID, FSTAT, IREAD};
	o.k = ks[c.pick({8, 4, 4, 3, 4, 2, 3, 2, 2, 2, 2, 1, 2, 3})];
	auto path_with = [&](int want) {
		// an entry of the wanted type first, anything sometimes
		std::vector<const gen::Entry *> v;
		for (auto &e : es)
			if (want < 0 || e.n->type == want) v.push_back(&e);
		std::string p = "/";
		if (!v.empty() && !c.chance(1, 10)) p = v[c.draw(v.size())]->path;
		else if (!es.empty()) p = es[c.draw(es.size())].path;
		if (c.chance(1, 12)) p += c.chance(1, 2) ? "x" : "/missing";
		return p;
	};
	switch (o.k) {
	case STAT:
	case LSTAT:
	case FSTAT: o.path = path_with(-1); break;
	case READ:
	case READALL: {
		o.path = path_with(img::REG_T);
		uint64_t size = 5000;
		for (auto &e : es)
			if (e.path == o.path && e.n->type == img::REG_T) size = e.n->c.size;
		if (size > 5u << 20) o.k = READ;   // a file of thousands of blocks
		o.a = o.k == READ ? c.draw(size + 10) : 0;
		o.b = o.k == READ ? c.draw(3 * im.bs()) : 1 + c.draw(2 * im.bs());
		if (o.b > 200000) o.b = 200000;
		if (o.k == READALL && size / o.b > 50) o.b = size / 50 + 1;
		break;
	}
	case IREAD:
		o.n = any_reg(c, im);
		if (!o.n) {
			o.k = STAT;
			o.path = "/";
			break;
		}
		o.a = c.draw(o.n->c.size + 1);
		o.b = c.draw(2 * im.bs());
		if (o.b > 200000) o.b = 200000;
		break;
	case READLINK: o.path = path_with(img::LNK_T); break;
	case LIST:
	case SCANDIR:
		o.path = c.chance(1, 4) ? "/" : path_with(img::DIR_T);
		o.a = c.draw(2);
		break;
	case TRAVERSE:
	case LOWITER:
		o.n = c.chance(1, 2) ? im.root : any_dir(c, im);
		break;
	case LOOKUP: {
		o.n = any_dir(c, im);
		if (!o.n->kids.empty() && !c.chance(1, 4)) {
			auto it = o.n->kids.begin();
			std::advance(it, c.draw(o.n->kids.size()));
			o.name = it->first;
		} else o.name = es.empty() ? "x" : es[c.draw(es.size())].name;
		break;
	}
	case EXPORT: o.a = 1 + c.draw(im.by_ino.size() > 1 ? im.by_ino.size() - 1 : 1); break;
	case ID: o.a = c.draw(im.ids.size()); break;
	default: break;
	}
	return o;
}

}  // namespace ops
