// The calls of a program that includes enclose_io.h, one function per name the header takes over
#define _GNU_SOURCE
#include <stdlib.h>
#include <stdint.h>
#include <stdio.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include "enclose_io.h"

char *via_getcwd(char *b, size_t n) { return getcwd(b, n); }
char *via_getwd(char *b) { return getwd(b); }
int via_chdir(const char *p) { return chdir(p); }
int via_stat(const char *p, struct stat *b) { return stat(p, b); }
int via_fstat(int fd, struct stat *b) { return fstat(fd, b); }
int via_lstat(const char *p, struct stat *b) { return lstat(p, b); }
int via_open2(const char *p, int fl) { return open(p, fl); }
int via_open3(const char *p, int fl, mode_t m) { return open(p, fl, m); }
int via_openat2(int d, const char *p, int fl) { return openat(d, p, fl); }
int via_openat3(int d, const char *p, int fl, mode_t m) { return openat(d, p, fl, m); }
int via_close(int fd) { return close(fd); }
ssize_t via_read(int fd, void *b, size_t n) { return read(fd, b, n); }
off_t via_lseek(int fd, off_t o, int w) { return lseek(fd, o, w); }
ssize_t via_readlink(const char *p, char *b, size_t n) { return readlink(p, b, n); }
DIR *via_opendir(const char *p) { return opendir(p); }
DIR *via_fdopendir(int fd) { return fdopendir(fd); }
int via_closedir(DIR *d) { return closedir(d); }
struct SQUASH_DIRENT *via_readdir(DIR *d) { return readdir(d); }
long via_telldir(DIR *d) { return telldir(d); }
void via_seekdir(DIR *d, long l) { seekdir(d, l); }
void via_rewinddir(DIR *d) { rewinddir(d); }
int via_dirfd(DIR *d) { return dirfd(d); }
int via_scandir(const char *p, struct SQUASH_DIRENT ***l, int (*sel)(const struct SQUASH_DIRENT *),
                int (*cmp)(const struct SQUASH_DIRENT **, const struct SQUASH_DIRENT **)) {
	return scandir(p, l, sel, (void *)cmp);
}
ssize_t via_pread(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t via_readv(int fd, const struct iovec *v, int n) { return readv(fd, v, n); }
void *via_dlopen(const char *p, int m) { return dlopen(p, m); }
int via_access(const char *p, int m) { return access(p, m); }
int via_mkdir(const char *p, mode_t m) { return mkdir(p, m); }
int via_execv(const char *p, char *const a[]) { return execv(p, a); }
