// The library under test.
#pragma once
#include "pbt.hpp"
#include "img.hpp"
#include "gen.hpp"
#include "ref.hpp"
#include "shim.h"
#include <atomic>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
extern "C" {
#include "squash.h"
#undef assert
#include <assert.h>
}

static Case *g_case;
static void lib_bad(const char *what) {
	if (g_case) g_case->fail("%s", what);
	fprintf(stderr, "%s\n", what);
	abort();
}

// The harness is not instrumented, the library is: buffers it gets are from malloc.
struct Buf {
	uint8_t *p;
	size_t n;
	explicit Buf(size_t n_) : p((uint8_t *)malloc(n_ ? n_ : 1)), n(n_) { fill(); }
	~Buf() { free(p); }
	Buf(const Buf &) = delete;
	void fill() {
		for (size_t i = 0; i < n; ++i) p[i] = pat(i);
	}
	static uint8_t pat(size_t i) { return (uint8_t)(0xc3 ^ (i * 29) ^ (i >> 7)); }
	// untouched from `from` on?
	bool intact(size_t from) const {
		for (size_t i = from; i < n; ++i)
			if (p[i] != pat(i)) return false;
		return true;
	}
};

// A buffer of many GiB: a read may be asked for any number of bytes
struct Vast {
	static const uint64_t room = (5ull << 32) + (1 << 20);
	uint8_t *p;
	Vast() {
		p = (uint8_t *)syscall(SYS_mmap, NULL, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) abort();
	}
	~Vast() { syscall(SYS_munmap, p, room); }
	Vast(const Vast &) = delete;
	bool intact(uint64_t from) const {
		for (uint64_t i = from; i < from + 5000; ++i)
			if (p[i]) return false;
		return true;
	}
	static uint64_t length(Case &c) {
		static const uint64_t base[] = {1ull << 31, 1ull << 32, 2ull << 32, 3ull << 31, 5ull << 32};
		uint64_t b = base[c.draw(5)];
		return b + (uint64_t)(c.chance(1, 2) ? 0 : c.range(-3000, 3000));
	}
};
static std::atomic<unsigned> nth_mount{0};
static unsigned first_mount;   // of this case
struct Mounted {
	img::Mapped m;
	sqfs fs;
	sqfs_err err = SQFS_ERR;
	bool open = false;
	void mount(const img::Bytes &b, size_t offset = 0, bool at_start = false) { start(img::map_image(b, offset, at_start)); }
	void mount(const img::ImgBytes &b, size_t offset = 0, bool at_start = false) { start(img::map_image(b, offset, at_start)); }
	void start(const img::Mapped &mm) {
		m = mm;
		memset(&fs, 0x5a, sizeof fs);
		// the two ways in: sqfs_open_image() says on stderr why it refuses
		if ((nth_mount.fetch_add(1) + first_mount) & 1) err = sqfs_open_image(&fs, m.fd, m.offset);
		else err = sqfs_init(&fs, m.fd, m.offset);
		open = err == SQFS_OK;
	}
	void unmount() {
		if (open) sqfs_destroy(&fs);
		open = false;
		img::unmap_image(m);
	}
};

static void begin(Case &c) {
	g_case = &c;
	first_mount = c.draw(2);
	nth_mount = 0;
	vf_bad = lib_bad;
	squash_start();
}
static void mount_ok(Case &c, Mounted &m, const img::Image &im, size_t offset = 0) {
	m.mount(im.bytes, offset);
	CHECK(c, m.err == SQFS_OK, "opening a valid image says %d", (int)m.err);
}

static unsigned ifmt(img::Type t) {
	static const unsigned f[] = {0, S_IFDIR, S_IFREG, S_IFLNK, S_IFBLK, S_IFCHR, S_IFIFO, S_IFSOCK};
	return f[t];
}
static unsigned dtype(img::Type t) {
	static const unsigned f[] = {0, DT_DIR, DT_REG, DT_LNK, DT_BLK, DT_CHR, DT_FIFO, DT_SOCK};
	return f[t];
}

// "" or what is wrong
static std::string stat_diff(const img::Node *n, const struct stat &st) {
	char b[256];
	unsigned mode = ifmt(n->type) | n->mode;
	if (st.st_mode != mode) return snprintf(b, sizeof b, "mode 0%o, packed 0%o", st.st_mode, mode), b;
	if ((uint64_t)st.st_mtime != n->mtime) return snprintf(b, sizeof b, "mtime %lld, packed %u", (long long)st.st_mtime, n->mtime), b;
	if (st.st_nlink != n->nlink) return snprintf(b, sizeof b, "nlink %llu, packed %u", (unsigned long long)st.st_nlink, n->nlink), b;
	if (n->type == img::REG_T && (uint64_t)st.st_size != n->c.size)
		return snprintf(b, sizeof b, "size %lld, packed %llu", (long long)st.st_size, (unsigned long long)n->c.size), b;
	if (n->type == img::LNK_T && (uint64_t)st.st_size != n->target.size())
		return snprintf(b, sizeof b, "size of link %lld, packed %zu", (long long)st.st_size, n->target.size()), b;
	if ((n->type == img::BLK_T || n->type == img::CHR_T) && (major(st.st_rdev) != n->major || minor(st.st_rdev) != n->minor))
		return snprintf(b, sizeof b, "device %u:%u, packed %u:%u", (unsigned)major(st.st_rdev), (unsigned)minor(st.st_rdev), n->major, n->minor), b;
	return "";
}

static uint64_t first_diff(const uint8_t *a, const std::string &b) {
	for (size_t i = 0; i < b.size(); ++i)
		if (a[i] != (uint8_t)b[i]) return i;
	return b.size();
}

// look an entry's inode up without paths: by reference
static bool inode_of(sqfs *fs, const img::Node *n, sqfs_inode *out) {
	return sqfs_inode_get(fs, out, n->ref) == SQFS_OK;
}
static int fd_scan = 512;   // numbers below this are looked at
static int count_fds() {
	int n = 0;
	for (int i = 0; i < fd_scan; ++i)
		if (fcntl(i, F_GETFD) != -1) ++n;
	return n;
}

// Descriptors with few free numbers, far apart: whatever is kept by number has
// to grow while it is used.
static void crowd_fds(Case &c) {
	if (!c.chance(1, 2)) return;
	fd_scan = 1200;
	unsigned keep[3] = {1 + (unsigned)c.draw(3), 1 + (unsigned)c.draw(2), 0};
	int at[3] = {0, 60 + (int)c.draw(10), 730 + (int)c.draw(40)};
	for (int k = 0, i = 3; k < 3; ++k) {
		for (; i < at[k]; ++i)
			if (fcntl(i, F_GETFD) == -1) dup2(0, i);
		for (; keep[k]; ++i)
			if (fcntl(i, F_GETFD) == -1) --keep[k];
	}
	c.label("crowded descriptors");
}

// A case whose process exits as programs do, and is looked at afterwards:
// begin() goes on in a child; at the end, leave() forks a process that knows
// all the case knows, lets the child exit and, once it is gone, returns its
// status in the other.
struct Leaver {
	int alive[2], told[2];

	[[noreturn]] static void outer(Case &c, pid_t p, int alive, int told) {
		int st = 0, slept = 0;
		pid_t w;
		// a case that works is not one that is stuck: seen to be busy now and then
		while ((w = waitpid(p, &st, WNOHANG)) == 0) {
			usleep(slept < 100 ? 200 : 5000);
			if (++slept % 200 == 0) {
				double t = pbt::now() + 0.015;
				while (pbt::now() < t) {}
			}
		}
		if (write(told, &st, sizeof st)) {}
		close(told);
		char b;
		while (read(alive, &b, 1) > 0) {}
		if (c.sh->status != pbt::ST_NONE) syscall(SYS_exit_group, 0);
		if (WIFSIGNALED(st)) {
			signal(WTERMSIG(st), SIG_DFL);
			raise(WTERMSIG(st));
		}
		syscall(SYS_exit_group, WIFEXITED(st) && WEXITSTATUS(st) ? WEXITSTATUS(st) : 99);
		__builtin_unreachable();
	}
	void begin(Case &c) {
		if (pipe(alive) || pipe(told)) c.fail("harness: no pipe");
		// out of the way of the numbers the case works with
		for (int *f : {&alive[0], &alive[1], &told[0], &told[1]}) {
			int n = fcntl(*f, F_DUPFD_CLOEXEC, 900);
			if (n < 0) c.fail("harness: no descriptor");
			close(*f);
			*f = n;
		}
		fflush(stdout);
		pid_t p = fork();
		if (p < 0) c.fail("harness: no process");
		if (p) {
			signal(SIGPIPE, SIG_IGN);
			close(alive[1]), close(told[0]);
			outer(c, p, alive[0], told[1]);
		}
		close(alive[0]), close(told[1]);
	}
	int leave(Case &c) {
		fflush(stdout);
		pid_t p = fork();
		if (p < 0) c.fail("harness: no process");
		if (p) exit(0);
		int st = -1;
		if (read(told[0], &st, sizeof st) != sizeof st) c.fail("harness: the process that exits was not seen");
		return st;
	}
};

// A child of the case that does f and exits: its exit status.
template <class F> static int in_child(Case &c, F f) {
	fflush(stdout);
	pid_t p = fork();
	if (p < 0) c.fail("harness: no process");
	if (p == 0) {
		f();
		exit(0);
	}
	int st = 0;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	if (c.sh->status != pbt::ST_NONE) syscall(SYS_exit_group, 0);   // the child has found something
	return st;
}
