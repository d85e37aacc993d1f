/* LD_PRELOAD resource monitor.
 *
 * Every heap request, FFTW plan and FILE handle that is made *by code inside a
 * target library* (return address inside its mapping) is logged as a resource
 * event, can be made to fail on demand, is poisoned when obtained and when
 * released, carries a tail canary, and is quarantined so that a second release
 * is recorded instead of corrupting the heap.  Nothing else is touched. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

extern void* __libc_malloc(size_t);
extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t);
extern void* __libc_memalign(size_t, size_t);
extern void __libc_free(void*);

#define MAXR 8
static struct { unsigned long lo, hi; } rng[MAXR];
static int nrng = 0;
static volatile int on = 0;

enum { EV_ALLOC = 1, EV_FREE, EV_FAIL, EV_DFREE, EV_PLAN, EV_PFREE, EV_PFAIL, EV_PDFREE, EV_OVER, EV_OPEN, EV_CLOSE, EV_BADFREE };
typedef struct { int kind, id; long size; } ev_t;
#define MAXEV (1 << 20)
static ev_t* evs;
static int nev, nreq;
static long fail_at = -1;
static int fail_mode;

typedef struct { void* p; void* base; long size; int id; int state; /*1 live 2 dead*/ int what; /*0 heap 1 plan 2 file*/ } ent_t;
static unsigned TAB = 1 << 18; /* grows when half full */
static ent_t* tab;
static unsigned nused;
static int nlive[3], nextid;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
#define CAN 64
#define CANB 0xC7

static int in_target(void* ra) {
  unsigned long a = (unsigned long)ra;
  for (int i = 0; i < nrng; i++)
    if (a >= rng[i].lo && a < rng[i].hi) return 1;
  return 0;
}
static unsigned h(void* p) { unsigned long x = (unsigned long)p; x ^= x >> 17; x *= 0x9E3779B97F4A7C15UL; return (unsigned)(x >> 40) & (TAB - 1); }
/* the most recent entry for p (live preferred) */
static ent_t* find(void* p, int what) {
  ent_t* dead = NULL;
  if (!tab) return NULL;
  for (unsigned i = h(p), c = 0; c < TAB && tab[i].state; i = (i + 1) & (TAB - 1), c++)
    if (tab[i].p == p && tab[i].what == what) { if (tab[i].state == 1) return &tab[i]; dead = &tab[i]; }
  return dead;
}
static void ev(int k, int id, long sz) { if (evs && nev < MAXEV) { evs[nev].kind = k; evs[nev].id = id; evs[nev].size = sz; nev++; } }
static void grow(void) {
  unsigned ot = TAB;
  ent_t *old = tab, *nt = __libc_calloc(2 * (size_t)ot, sizeof *tab);
  if (!nt) return;
  TAB = 2 * ot;
  tab = nt;
  for (unsigned i = 0; i < ot; i++)
    if (old[i].state) {
      unsigned j = h(old[i].p);
      while (tab[j].state) j = (j + 1) & (TAB - 1);
      tab[j] = old[i];
    }
  __libc_free(old);
}
static int add(void* p, void* base, long sz, int what) {
  if (++nused > TAB / 2 && TAB < 1u << 24) grow();
  unsigned i = h(p), c = 0;
  while (tab[i].state && c++ < TAB - 2) i = (i + 1) & (TAB - 1);
  tab[i] = (ent_t){p, base, sz, ++nextid, 1, what};
  nlive[what]++;
  return nextid;
}
static int must_fail(void) {
  int k = nreq++;
  return fail_at >= 0 && (k == fail_at || (fail_mode == 1 && k >= fail_at) || (fail_mode == 2 && k >= fail_at && (k - fail_at) % 2 == 0));
}

static void* tracked(size_t align, size_t sz, int zero) {
  pthread_mutex_lock(&mx);
  if (must_fail()) { ev(EV_FAIL, 0, (long)sz); pthread_mutex_unlock(&mx); errno = ENOMEM; return NULL; }
  char* p = align ? __libc_memalign(align, sz + CAN) : __libc_malloc(sz + CAN);
  if (p) {
    memset(p, zero ? 0 : 0xFF, sz);
    memset(p + sz, CANB, CAN);
    ev(EV_ALLOC, add(p, p, (long)sz, 0), (long)sz);
  }
  pthread_mutex_unlock(&mx);
  return p;
}
void* malloc(size_t n) { return on && in_target(__builtin_return_address(0)) ? tracked(0, n, 0) : __libc_malloc(n); }
void* calloc(size_t a, size_t b) { return on && in_target(__builtin_return_address(0)) ? tracked(0, a * b, 1) : __libc_calloc(a, b); }
void* memalign(size_t al, size_t n) { return on && in_target(__builtin_return_address(0)) ? tracked(al, n, 0) : __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return on && in_target(__builtin_return_address(0)) ? tracked(al, n, 0) : __libc_memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) {
  void* p = on && in_target(__builtin_return_address(0)) ? tracked(al, n, 0) : __libc_memalign(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
static int canary_ok(ent_t* e) {
  unsigned char* c = (unsigned char*)e->p + e->size;
  for (int i = 0; i < CAN; i++) if (c[i] != CANB) return 0;
  return 1;
}
void free(void* p) {
  if (!p) return;
  if (tab) {
    pthread_mutex_lock(&mx);
    ent_t* e = find(p, 0);
    if (e && e->state == 1) {
      if (!canary_ok(e)) ev(EV_OVER, e->id, e->size);
      ev(EV_FREE, e->id, e->size);
      e->state = 2; nlive[0]--;
      memset(p, 0xFF, e->size); /* quarantined: the block is never reused before pre_reset */
      pthread_mutex_unlock(&mx);
      return;
    }
    if (e) { ev(EV_DFREE, e->id, e->size); pthread_mutex_unlock(&mx); return; }
    pthread_mutex_unlock(&mx);
  }
  __libc_free(p);
}
void* realloc(void* p, size_t n) {
  ent_t* e = p ? find(p, 0) : NULL;
  int t = on && in_target(__builtin_return_address(0));
  if (!e && !t) return __libc_realloc(p, n);
  void* q = t ? tracked(0, n, 0) : __libc_malloc(n);
  if (q && p) { size_t m = e ? (size_t)e->size : n; memcpy(q, p, m < n ? m : n); free(p); }
  return q;
}
/* ---- FFTW plans ---- */
typedef void* plan;
static plan reg_plan(plan p) { if (p) ev(EV_PLAN, add(p, p, 0, 1), 0); return p; }
#define PLANFN(name, decl, call)                                                       \
  plan name decl {                                                                     \
    static plan(*real) decl;                                                           \
    if (!real) real = dlsym(RTLD_NEXT, #name);                                         \
    if (!(on && in_target(__builtin_return_address(0)))) return real call;             \
    pthread_mutex_lock(&mx);                                                           \
    int zf = must_fail();                                                              \
    if (zf) ev(EV_PFAIL, 0, 0);                                                        \
    pthread_mutex_unlock(&mx);                                                         \
    if (zf) return NULL;                                                               \
    plan zp = real call;                                                               \
    pthread_mutex_lock(&mx); reg_plan(zp); pthread_mutex_unlock(&mx);                  \
    return zp;                                                                         \
  }
PLANFN(fftw_plan_r2r_1d, (int n, double* a, double* b, int k, unsigned f), (n, a, b, k, f))
PLANFN(fftw_plan_r2r_2d, (int n, int m, double* a, double* b, int k, int l, unsigned f), (n, m, a, b, k, l, f))
PLANFN(fftw_plan_r2r, (int r, const int* n, double* a, double* b, const int* k, unsigned f), (r, n, a, b, k, f))
PLANFN(fftw_plan_many_r2r, (int r, const int* n, int hm, double* a, const int* ie, int is, int id, double* b, const int* oe, int os, int od, const int* k, unsigned f), (r, n, hm, a, ie, is, id, b, oe, os, od, k, f))
void fftw_destroy_plan(plan p) {
  static void (*real)(plan);
  if (!real) real = dlsym(RTLD_NEXT, "fftw_destroy_plan");
  if (p && tab && on && in_target(__builtin_return_address(0))) {
    pthread_mutex_lock(&mx);
    ent_t* e = find(p, 1);
    int bad = !e || e->state != 1;
    if (bad) ev(EV_PDFREE, e ? e->id : 0, 0);
    else { ev(EV_PFREE, e->id, 0); e->state = 2; nlive[1]--; }
    pthread_mutex_unlock(&mx);
    if (bad) return;
  }
  real(p);
}
/* ---- FILE handles ---- */
FILE* fopen(const char* f, const char* m) {
  static FILE* (*real)(const char*, const char*);
  if (!real) real = dlsym(RTLD_NEXT, "fopen");
  FILE* r = real(f, m);
  if (r && on && in_target(__builtin_return_address(0))) { pthread_mutex_lock(&mx); ev(EV_OPEN, add(r, r, 0, 2), 0); pthread_mutex_unlock(&mx); }
  return r;
}
int fclose(FILE* f) {
  static int (*real)(FILE*);
  if (!real) real = dlsym(RTLD_NEXT, "fclose");
  if (tab) {
    pthread_mutex_lock(&mx);
    ent_t* e = find(f, 2);
    if (e && e->state == 1) { ev(EV_CLOSE, e->id, 0); e->state = 2; nlive[2]--; }
    pthread_mutex_unlock(&mx);
  }
  return real(f);
}
/* reads by the target come up short while read_fail is set */
static int read_fail;
size_t fread(void* b, size_t sz, size_t n, FILE* f) {
  static size_t (*real)(void*, size_t, size_t, FILE*);
  if (!real) real = dlsym(RTLD_NEXT, "fread");
  if (read_fail && on && in_target(__builtin_return_address(0))) {
    size_t k = real(b, 1, sz * n / 2, f);
    pthread_mutex_lock(&mx); ev(EV_FAIL, 0, 0); pthread_mutex_unlock(&mx);
    return sz ? k / sz : 0;
  }
  return real(b, sz, n, f);
}
void pre_readfail(int k) { read_fail = k; }
/* ---- control interface (called by the driver through ctypes) ---- */
static const char* want;
static int cb(struct dl_phdr_info* i, size_t s, void* d) {
  (void)s; (void)d;
  if (i->dlpi_name && strstr(i->dlpi_name, want))
    for (int k = 0; k < i->dlpi_phnum; k++)
      if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X) && nrng < MAXR) {
        rng[nrng].lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
        rng[nrng].hi = rng[nrng].lo + i->dlpi_phdr[k].p_memsz;
        nrng++;
      }
  return 0;
}
int pre_target(const char* sub) { int b = nrng; want = sub; dl_iterate_phdr(cb, NULL); return nrng - b; }
void pre_start(void) {
  if (!tab) { tab = __libc_calloc(TAB, sizeof *tab); evs = __libc_calloc(MAXEV, sizeof *evs); }
  on = 1;
}
void pre_stop(void) { on = 0; }
/* forget dead entries (really releasing quarantined memory) and the event log; live entries survive */
void pre_reset(void) {
  pthread_mutex_lock(&mx);
  ent_t* old = tab;
  tab = __libc_calloc(TAB, sizeof *tab);
  nused = 0;
  for (unsigned i = 0; i < TAB; i++) {
    if (old[i].state == 2 && old[i].what == 0) __libc_free(old[i].base);
    if (old[i].state == 1) {
      unsigned j = h(old[i].p);
      while (tab[j].state) j = (j + 1) & (TAB - 1);
      tab[j] = old[i];
      nused++;
    }
  }
  __libc_free(old);
  nev = nreq = 0; fail_at = -1;
  pthread_mutex_unlock(&mx);
}
/* additionally forget what is still live (it is leaked for good) */
void pre_forget(void) {
  pthread_mutex_lock(&mx);
  memset(tab, 0, TAB * sizeof *tab);
  nused = 0;
  nlive[0] = nlive[1] = nlive[2] = 0;
  nev = nreq = 0; fail_at = -1;
  pthread_mutex_unlock(&mx);
}
void pre_fail(long k, int mode) { fail_at = k; fail_mode = mode; nreq = 0; }
int pre_nreq(void) { return nreq; }
int pre_nev(void) { return nev; }
int pre_ev(int i, int f) { return f == 0 ? evs[i].kind : f == 1 ? evs[i].id : (int)evs[i].size; }
int pre_live(int what) { return nlive[what]; }
/* live blocks whose tail canary was damaged */
int pre_damaged(void) { int c = 0; for (unsigned i = 0; i < TAB; i++) if (tab[i].state == 1 && tab[i].what == 0 && !canary_ok(&tab[i])) c++; return c; }
/* bytes from q to the end of the library block that contains it; -1: no such block, -2: the block was released */
long pre_room(char* q) {
  long r = -1;
  pthread_mutex_lock(&mx);
  for (unsigned i = 0; tab && i < TAB; i++)
    if (tab[i].state && tab[i].what == 0 && q >= (char*)tab[i].p && q < (char*)tab[i].p + tab[i].size) {
      if (tab[i].state == 1) { r = (char*)tab[i].p + tab[i].size - q; break; }
      r = -2;
    }
  pthread_mutex_unlock(&mx);
  return r;
}
