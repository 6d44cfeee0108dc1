// Stand-ins for the libc calls of the library objects: count, fail on demand,
// watch mutexes, and give a scheduler its switching points.
#define _GNU_SOURCE
#include "shim.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

long vf_allocs, vf_fail_at, vf_failed;
int vf_fail_on, vf_exact = 1;
long vf_dups, vf_dup_fail_at, vf_dup_failed;
long vf_mutex_ops;
void (*vf_yield)(const char *, const void *);
int (*vf_sched_lock)(void *);
int (*vf_sched_unlock)(void *);
void (*vf_bad)(const char *);

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static void bad(const char *w) {
	if (vf_bad) vf_bad(w);
	fprintf(stderr, "%s\n", w);
	abort();
}

// live blocks: open addressing
struct ent { void *p; size_t n; };
static struct ent *tab;
static size_t cap, used;
static long nlive;
static size_t nbytes;
static size_t slot(const void *p) { return (size_t)(((unsigned long)p >> 4) * 0x9e3779b97f4a7c15ul >> 20); }
static void ins(void *p, size_t n) {
	if (used * 2 >= cap) {
		size_t oc = cap, i;
		struct ent *o = tab;
		cap = cap ? cap * 2 : 1024;
		tab = calloc(cap, sizeof *tab);
		used = 0;
		for (i = 0; i < oc; ++i)
			if (o[i].p && o[i].p != (void *)1) {
				size_t s = slot(o[i].p) & (cap - 1);
				while (tab[s].p) s = (s + 1) & (cap - 1);
				tab[s] = o[i];
				++used;
			}
		free(o);
	}
	size_t s = slot(p) & (cap - 1);
	while (tab[s].p && tab[s].p != (void *)1) s = (s + 1) & (cap - 1);
	if (!tab[s].p) ++used;
	tab[s].p = p;
	tab[s].n = n;
	++nlive;
	nbytes += n;
}
static struct ent *find(const void *p) {
	if (!cap) return NULL;
	size_t s = slot(p) & (cap - 1);
	while (tab[s].p) {
		if (tab[s].p == p) return &tab[s];
		s = (s + 1) & (cap - 1);
	}
	return NULL;
}
static void del(const void *p) {
	struct ent *e = find(p);
	if (!e) return;
	nbytes -= e->n;
	--nlive;
	e->p = (void *)1;
}
long vf_live(void) { return nlive; }
size_t vf_live_bytes(void) { return nbytes; }
int vf_is_live(const void *p) {
	pthread_mutex_lock(&mu);
	int r = find(p) != NULL;
	pthread_mutex_unlock(&mu);
	return r;
}
size_t vf_size(const void *p) {
	pthread_mutex_lock(&mu);
	struct ent *e = find(p);
	size_t r = e ? e->n : 0;
	pthread_mutex_unlock(&mu);
	return r;
}
void vf_list_live(void (*f)(const void *, size_t)) {
	size_t i;
	for (i = 0; i < cap; ++i)
		if (tab[i].p && tab[i].p != (void *)1) f(tab[i].p, tab[i].n);
}
static int deny(void) {
	long k = ++vf_allocs;
	if (vf_fail_at && (k == vf_fail_at || (vf_fail_on && k > vf_fail_at))) {
		++vf_failed;
		errno = ENOMEM;
		return 1;
	}
	return 0;
}
#define YIELD(w, o) do { if (vf_yield) vf_yield(w, o); } while (0)
static void *got(void *p, size_t n) {
	if (p) {
		pthread_mutex_lock(&mu);
		ins(p, n);
		pthread_mutex_unlock(&mu);
	}
	return p;
}
void *vf_malloc(size_t n) {
	YIELD("malloc", 0);
	if (deny()) return NULL;
	return got(malloc(n), n);
}
void *vf_calloc(size_t a, size_t b) {
	YIELD("calloc", 0);
	if (deny()) return NULL;
	return got(calloc(a, b), a * b);
}
void *vf_realloc(void *p, size_t n) {
	YIELD("realloc", 0);
	if (deny()) return NULL;
	pthread_mutex_lock(&mu);
	void *q = realloc(p, n);
	if (q || n == 0) {
		if (p) del(p);
		if (q) ins(q, n);
	}
	pthread_mutex_unlock(&mu);
	return q;
}
char *vf_strdup(const char *s) {
	YIELD("strdup", 0);
	if (deny()) return NULL;
	return got(strdup(s), strlen(s) + 1);
}
char *vf_strndup(const char *s, size_t n) {
	YIELD("strndup", 0);
	if (deny()) return NULL;
	char *r = strndup(s, n);
	return got(r, r ? strlen(r) + 1 : 0);
}
void vf_free(void *p) {
	YIELD("free", 0);
	if (!p) return;
	int e = errno;
	pthread_mutex_lock(&mu);
	del(p);
	free(p);
	pthread_mutex_unlock(&mu);
	errno = e;
}
int vf_dup(int fd) {
	YIELD("dup", 0);
	long k = ++vf_dups;
	if (vf_dup_fail_at && k == vf_dup_fail_at) {
		++vf_dup_failed;
		errno = EMFILE;
		return -1;
	}
	return dup(fd);
}
int vf_close_fails;             // the error close gives, 0: none
int vf_close(int fd) {
	YIELD("close", 0);
	if (vf_close_fails) {
		errno = vf_close_fails;
		return -1;
	}
	return close(fd);
}

// mutexes
enum { NM = 8192 };
static struct { pthread_mutex_t *m; pthread_t owner; int held; } ms[NM];
static int nheld, hiwater;
static int mfind(pthread_mutex_t *m) {
	int i, f = -1;
	for (i = 0; i < hiwater; ++i) {
		if (ms[i].m == m) return i;
		if (!ms[i].m && f < 0) f = i;
	}
	if (f < 0) f = hiwater < NM ? hiwater++ : NM - 1;
	ms[f].m = m;
	ms[f].held = 0;
	return f;
}
int vf_locks_held(void) { return nheld; }
int vf_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
	pthread_mutex_lock(&mu);
	int i = mfind(m);
	if (ms[i].held) --nheld;
	ms[i].held = 0;
	pthread_mutex_unlock(&mu);
	return pthread_mutex_init(m, a);
}
int vf_mutex_destroy(pthread_mutex_t *m) {
	pthread_mutex_lock(&mu);
	int i = mfind(m);
	if (ms[i].held) {
		pthread_mutex_unlock(&mu);
		if (vf_exact) bad("a locked mutex is destroyed");
		return EBUSY;
	}
	ms[i].m = NULL;
	pthread_mutex_unlock(&mu);
	return pthread_mutex_destroy(m);
}
int vf_mutex_lock(pthread_mutex_t *m) {
	YIELD("lock", m);
	++vf_mutex_ops;
	if (vf_sched_lock && !vf_sched_lock(m)) return 0;
	pthread_mutex_lock(&mu);
	int i = mfind(m);
	int self = ms[i].held && pthread_equal(ms[i].owner, pthread_self());
	pthread_mutex_unlock(&mu);
	if (self) bad("deadlock: a mutex is locked by the thread that holds it");
	int r = pthread_mutex_lock(m);
	pthread_mutex_lock(&mu);
	i = mfind(m);
	ms[i].held = 1;
	ms[i].owner = pthread_self();
	++nheld;
	pthread_mutex_unlock(&mu);
	return r;
}
int vf_mutex_trylock(pthread_mutex_t *m) {
	YIELD("trylock", m);
	int r = pthread_mutex_trylock(m);
	if (r) return r;
	pthread_mutex_lock(&mu);
	int i = mfind(m);
	ms[i].held = 1;
	ms[i].owner = pthread_self();
	++nheld;
	pthread_mutex_unlock(&mu);
	return 0;
}
int vf_mutex_unlock(pthread_mutex_t *m) {
	if (vf_sched_unlock && !vf_sched_unlock(m)) {
		YIELD("unlock", m);
		return 0;
	}
	pthread_mutex_lock(&mu);
	int i = mfind(m);
	int mine = ms[i].held && pthread_equal(ms[i].owner, pthread_self());
	if (mine) ms[i].held = 0, --nheld;
	pthread_mutex_unlock(&mu);
	if (!mine) bad("a mutex is unlocked by a thread that does not hold it");
	int r = pthread_mutex_unlock(m);
	YIELD("unlock", m);
	return r;
}

// copies: only switching points
void *vf_memcpy(void *d, const void *s, size_t n) {
	YIELD("memcpy", 0);
	return memcpy(d, s, n);
}
void *vf_memset(void *d, int c, size_t n) {
	YIELD("memset", 0);
	return memset(d, c, n);
}
int vf_strcmp(const char *a, const char *b) {
	YIELD("strcmp", 0);
	return strcmp(a, b);
}

// names of temporary files
int vf_rand_range;
int vf_rand_clash;      // so many times a number below 6
int vf_rand(void) {
	YIELD("rand", 0);
	int v = rand();
	if (vf_rand_clash > 0) {
		--vf_rand_clash;
		return v % 6;
	}
	return vf_rand_range ? v % vf_rand_range : v;
}
void vf_srand(unsigned s) {
	srand(s);
	YIELD("srand", 0);
}

// programs and libraries
int (*vf_on_execv)(const char *, char *const *);
void *(*vf_on_dlopen)(const char *, int);
int vf_execv(const char *p, char *const *a) { return vf_on_execv ? vf_on_execv(p, a) : execv(p, a); }
void *vf_dlopen(const char *p, int m) { return vf_on_dlopen ? vf_on_dlopen(p, m) : dlopen(p, m); }

// calls on real files: only switching points
int vf_mkdir(const char *p, mode_t m) {
	YIELD("mkdir", 0);
	return mkdir(p, m);
}
int vf_stat(const char *p, struct stat *st) {
	YIELD("stat", 0);
	return stat(p, st);
}
int vf_lstat(const char *p, struct stat *st) {
	YIELD("lstat", 0);
	return lstat(p, st);
}
