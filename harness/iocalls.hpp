// The harnesses call the layer the way a program does: by the names that enclose_io.h takes over.
// Those are macros for C only; iocalls.c calls them, and what the harness writes as enclose_io_X(...)
// goes to via_X(...) there.  The number of arguments given to open and openat is the macro's to count.
#pragma once
extern "C" {
char *via_getcwd(char *, size_t);
char *via_getwd(char *);
int via_chdir(const char *);
int via_stat(const char *, struct stat *);
int via_fstat(int, struct stat *);
int via_lstat(const char *, struct stat *);
int via_open2(const char *, int);
int via_open3(const char *, int, mode_t);
int via_openat2(int, const char *, int);
int via_openat3(int, const char *, int, mode_t);
int via_close(int);
ssize_t via_read(int, void *, size_t);
off_t via_lseek(int, off_t, int);
ssize_t via_readlink(const char *, char *, size_t);
DIR *via_opendir(const char *);
DIR *via_fdopendir(int);
int via_closedir(DIR *);
struct SQUASH_DIRENT *via_readdir(DIR *);
long via_telldir(DIR *);
void via_seekdir(DIR *, long);
void via_rewinddir(DIR *);
int via_dirfd(DIR *);
int via_scandir(const char *, struct SQUASH_DIRENT ***, int (*)(const struct SQUASH_DIRENT *),
                int (*)(const struct SQUASH_DIRENT **, const struct SQUASH_DIRENT **));
ssize_t via_pread(int, void *, size_t, off_t);
ssize_t via_readv(int, const struct iovec *, int);
void *via_dlopen(const char *, int);
int via_access(const char *, int);
int via_mkdir(const char *, mode_t);
int via_execv(const char *, char *const[]);
}
static inline int via_open(int n, const char *p, int fl, mode_t m = 0) { return n == 3 ? via_open3(p, fl, m) : via_open2(p, fl); }
static inline int via_openat(int n, int d, const char *p, int fl, mode_t m = 0) { return n == 4 ? via_openat3(d, p, fl, m) : via_openat2(d, p, fl); }

// In cases of their own calls may run out of memory or descriptors: such a call either gives what it gives
// otherwise, which the caller checks, or fails and can be made again.
struct Tight {
	Case *c = nullptr;                // NULL: never
	unsigned met = 0, failed = 0;     // calls that met a refusal, that failed for it
	bool (*reached)() = nullptr;      // whether the system was asked (execv, dlopen)
	void (*again)() = nullptr;
};
static Tight tight;
static int next_fd() {
	int fd = fcntl(0, F_DUPFD, 0);
	if (fd >= 0) close(fd);
	return fd;
}
// `finds`: a call that says what is there, and must not say that something is not because of this
template <class F, class B> static auto tightly(const char *name, bool finds, F f, B failed) -> decltype(f()) {
	Case *c = tight.c;
	if (!c || !c->chance(2, 3)) return f();
	int before = errno, fd0 = next_fd();
	long failed0 = vf_failed, dfailed0 = vf_dup_failed;
	unsigned k = 1 + (c->chance(1, 4) ? c->draw(20) : c->draw(6));
	bool dup = c->chance(1, 8);
	if (dup) vf_dup_fail_at = vf_dups + 1;
	else vf_fail_at = vf_allocs + k, vf_fail_on = c->chance(1, 3);
	errno = before;
	auto r = f();
	int e = errno;
	vf_fail_at = vf_fail_on = vf_dup_fail_at = 0;
	c->count();
	bool hit = vf_failed != failed0 || vf_dup_failed != dfailed0;
	if (hit) ++tight.met;
	CHECK(*c, vf_locks_held() == 0, "%s with allocation %u failing: a lock is held", name, k);
	errno = e;
	if (!hit || !failed(r)) return r;
	++tight.failed;
	c->label("%s: %s", dup ? "no descriptor" : "no memory", name);
	CHECK(*c, e != 0 || tight.reached, "%s with allocation %u failing: fails without an errno", name, k);
	CHECK(*c, next_fd() == fd0, "%s with allocation %u failing: a descriptor is left", name, k);
	if (tight.again) tight.again();
	errno = before;
	r = f();
	int e2 = errno;
	if (finds && !failed(r) && before != e)
		CHECK(*c, e != ENOENT && e != ENOTDIR && e != EEXIST && e != ELOOP && e != EISDIR && e != EBADF, "%s with allocation %u failing: errno %d, yet there is nothing wrong with what it was given", name, k, e);
	errno = e2;
	return r;
}
static const auto minus = [](long r) { return r == -1; };
static const auto nothing = [](const void *p) { return !p; };
static inline char * tight_getcwd(char *b, size_t n) { return tightly("getcwd", false, [&] { return via_getcwd(b, n); }, nothing); }
static inline char * tight_getwd(char *b) { return tightly("getwd", false, [&] { return via_getwd(b); }, nothing); }
static inline int tight_chdir(const char *p) { return tightly("chdir", true, [&] { return via_chdir(p); }, minus); }
static inline int tight_stat(const char *p, struct stat *b) { return tightly("stat", true, [&] { return via_stat(p, b); }, minus); }
static inline int tight_lstat(const char *p, struct stat *b) { return tightly("lstat", true, [&] { return via_lstat(p, b); }, minus); }
static inline int tight_fstat(int d, struct stat *b) { return tightly("fstat", true, [&] { return via_fstat(d, b); }, minus); }
static inline int tight_open(int n, const char *p, int fl, mode_t m = 0) { return tightly("open", !(fl & O_CREAT), [&] { return via_open(n, p, fl, m); }, minus); }
static inline int tight_openat(int n, int d, const char *p, int fl, mode_t m = 0) { return tightly("openat", !(fl & O_CREAT), [&] { return via_openat(n, d, p, fl, m); }, minus); }
static inline int tight_close(int d) { return tightly("close", false, [&] { return via_close(d); }, minus); }
static inline ssize_t tight_read(int d, void *b, size_t n) { return tightly("read", true, [&] { return via_read(d, b, n); }, minus); }
static inline off_t tight_lseek(int d, off_t o, int h) { return tightly("lseek", true, [&] { return via_lseek(d, o, h); }, minus); }
static inline ssize_t tight_readlink(const char *p, char *b, size_t n) { return tightly("readlink", true, [&] { return via_readlink(p, b, n); }, minus); }
static inline DIR * tight_opendir(const char *p) { return tightly("opendir", true, [&] { return via_opendir(p); }, nothing); }
static inline DIR * tight_fdopendir(int d) { return tightly("fdopendir", true, [&] { return via_fdopendir(d); }, nothing); }
static inline int tight_closedir(DIR *d) { return tightly("closedir", false, [&] { return via_closedir(d); }, minus); }
// NULL is also the end, without an errno
static inline struct SQUASH_DIRENT *tight_readdir(DIR *d) {
	int before = errno;
	if (tight.c) errno = 0;
	struct SQUASH_DIRENT *r = tightly("readdir", true, [&] { return via_readdir(d); }, [](const void *p) { return !p && errno; });
	if (tight.c && !errno) errno = before;
	return r;
}
#define tight_telldir via_telldir
#define tight_seekdir via_seekdir
#define tight_rewinddir via_rewinddir
static inline int tight_dirfd(DIR *d) { return tightly("dirfd", false, [&] { return via_dirfd(d); }, minus); }
static inline int tight_scandir(const char *p, struct SQUASH_DIRENT ***l, int (*sel)(const struct SQUASH_DIRENT *),
                                int (*cmp)(const struct SQUASH_DIRENT **, const struct SQUASH_DIRENT **)) {
	return tightly("scandir", true, [&] { return via_scandir(p, l, sel, cmp); }, minus);
}
static inline ssize_t tight_pread(int d, void *b, size_t n, off_t o) { return tightly("pread", true, [&] { return via_pread(d, b, n, o); }, minus); }
// what was read before memory ran out is a result as well: go on behind it
static inline ssize_t tight_readv(int d, const struct iovec *v, int n) {
	unsigned met = tight.met;
	ssize_t r = tightly("readv", true, [&] { return via_readv(d, v, n); }, minus);
	if (r <= 0 || tight.met == met) return r;
	int e = errno;
	std::vector<struct iovec> w(v, v + std::max(n, 0));
	size_t skip = r;
	for (auto &x : w) {
		size_t k = std::min(skip, x.iov_len);
		x.iov_base = (char *)x.iov_base + k;
		x.iov_len -= k;
		skip -= k;
	}
	ssize_t more = w.empty() ? 0 : via_readv(d, w.data(), n);
	errno = e;
	return more > 0 ? r + more : r;
}
static inline int tight_access(const char *p, int m) { return tightly("access", true, [&] { return via_access(p, m); }, minus); }
static inline int tight_mkdir(const char *p, mode_t m) { return tightly("mkdir", false, [&] { return via_mkdir(p, m); }, minus); }
static inline int tight_execv(const char *p, char *const a[]) {
	return tightly("execv", false, [&] { return via_execv(p, a); }, [](int) { return tight.reached && !tight.reached(); });
}
static inline void *tight_dlopen(const char *p, int m) {
	return tightly("dlopen", false, [&] { return via_dlopen(p, m); }, [](const void *) { return tight.reached && !tight.reached(); });
}
static inline SQUASH_OS_PATH tight_ifextract(const char *p, const char *x) {
	return tightly("ifextract", false, [&] { return enclose_io_ifextract(p, x); }, nothing);
}
#define enclose_io_getcwd tight_getcwd
#define enclose_io_getwd tight_getwd
#define enclose_io_chdir tight_chdir
#define enclose_io_stat tight_stat
#define enclose_io_fstat tight_fstat
#define enclose_io_lstat tight_lstat
#define enclose_io_open tight_open
#define enclose_io_openat tight_openat
#define enclose_io_close tight_close
#define enclose_io_read tight_read
#define enclose_io_lseek tight_lseek
#define enclose_io_readlink tight_readlink
#define enclose_io_opendir tight_opendir
#define enclose_io_fdopendir tight_fdopendir
#define enclose_io_closedir tight_closedir
#define enclose_io_readdir tight_readdir
#define enclose_io_telldir tight_telldir
#define enclose_io_seekdir tight_seekdir
#define enclose_io_rewinddir tight_rewinddir
#define enclose_io_dirfd tight_dirfd
#define enclose_io_scandir tight_scandir
#define enclose_io_pread tight_pread
#define enclose_io_readv tight_readv
#define enclose_io_dlopen tight_dlopen
#define enclose_io_access tight_access
#define enclose_io_mkdir tight_mkdir
#define enclose_io_execv tight_execv
#define enclose_io_ifextract tight_ifextract
