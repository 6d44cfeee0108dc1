// What the library's libc calls are redirected to (see check.py: redefine_syms).
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
extern long vf_allocs;          // allocations made so far
extern long vf_fail_at;         // the allocation with this number fails (0: none)
extern int vf_fail_on;          // ... and all after it
extern long vf_failed;          // how many were made to fail
extern int vf_close_fails;       // the error close gives, 0: none
extern long vf_dups, vf_dup_fail_at, vf_dup_failed;
long vf_live(void);             // blocks not freed yet
size_t vf_live_bytes(void);
int vf_is_live(const void *p);
size_t vf_size(const void *p);  // of a live block
void vf_free(void *p);
void *vf_malloc(size_t n);
int vf_locks_held(void);        // mutexes locked now
extern long vf_mutex_ops;
// called at every redirected call when set; the argument says which
extern void (*vf_yield)(const char *what, const void *obj);
// mutexes under the control of a scheduler: 0 means "handled"
extern int (*vf_sched_lock)(void *m);
extern int (*vf_sched_unlock)(void *m);
// something the library must never do: reported by this, which does not return
extern void (*vf_bad)(const char *what);
void vf_list_live(void (*f)(const void *p, size_t n));
extern int vf_rand_range, vf_rand_clash;       // rand() of the library stays below this (0: as it is)
extern int (*vf_on_execv)(const char *, char *const *);       // instead of execv, dlopen
extern void *(*vf_on_dlopen)(const char *, int);
extern int vf_exact;            // check mutex use
#ifdef __cplusplus
}
#endif
