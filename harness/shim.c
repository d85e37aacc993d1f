/* Flat C interface to libl1c for the drivers.  Compiled against /repo's own
 * headers, so structure layouts are always those of the tree under test. */
#define _GNU_SOURCE
#include "config.h"
#include <math.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include "TV.h"
#include "bregman.h"
#include "l1c.h"
#include "l1c_logging.h"
#include "l1c_math.h"
#include "l1qc_newton.h"
#include "linesearch.h"
#include "nesta.h"
#include "vcl_math.h"

/* ------------------------------------------------ guarded vectors --------- */
/* data of n bytes starting on a 64-byte boundary, ending less than 64 bytes
 * before an inaccessible page; canaries on both sides, inaccessible page before */
#define PG 4096
void* g_new(long bytes, long* mapped) {
  long pay = (bytes + 63) / 64 * 64;
  long len = (pay + 128 + PG - 1) / PG * PG;
  char* b = mmap(NULL, len + 2 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (b == MAP_FAILED) return NULL;
  mprotect(b, PG, PROT_NONE);
  mprotect(b + PG + len, PG, PROT_NONE);
  memset(b + PG, 0xC7, len);
  *mapped = len;
  return b + PG + len - pay;
}
int g_ok(unsigned char* p, long bytes, long mapped) {
  long pay = (bytes + 63) / 64 * 64;
  for (long i = bytes; i < pay; i++) if (p[i] != 0xC7) return 0;
  unsigned char* s = p + pay - mapped;
  for (; s < p; s++) if (*s != 0xC7) return 0;
  return 1;
}
void g_del(char* p, long bytes, long mapped) {
  long pay = (bytes + 63) / 64 * 64;
  munmap(p + pay - mapped - PG, mapped + 2 * PG);
}

/* ------------------------------------------------ transforms -------------- */
l1c_AxFuns* ax_new(void) { l1c_AxFuns* a = malloc(sizeof *a); memset(a, 0, sizeof *a); return a; }
void ax_poison(l1c_AxFuns* a, int b) { memset(a, b, sizeof *a); }
int ax_size(void) { return sizeof(l1c_AxFuns); }
void ax_bytes(l1c_AxFuns* a, char* o) { memcpy(o, a, sizeof *a); }
int ax_int(l1c_AxFuns* a, const char* f) { return *f == 'n' ? a->n : *f == 'q' ? a->q : *f == 'm' ? a->m : a->p; }
double ax_norm(l1c_AxFuns* a) { return a->norm_W; }
void ax_setdims(l1c_AxFuns* a, int n, int q, int m, int p, double norm) { a->n = n; a->q = q; a->m = m; a->p = p; a->norm_W = norm; }
typedef void (*op_t)(double*, double*);
static op_t* slot(l1c_AxFuns* a, const char* o) {
  if (!strcmp(o, "Ax")) return &a->Ax;
  if (!strcmp(o, "Aty")) return &a->Aty;
  if (!strcmp(o, "AtAx")) return &a->AtAx;
  if (!strcmp(o, "Mx")) return &a->Mx;
  if (!strcmp(o, "Mty")) return &a->Mty;
  if (!strcmp(o, "Wz")) return &a->Wz;
  if (!strcmp(o, "Wtx")) return &a->Wtx;
  if (!strcmp(o, "Rx")) return &a->Rx;
  return &a->Rty;
}
int ax_has(l1c_AxFuns* a, const char* o) { return *slot(a, o) != NULL; }
void ax_setop(l1c_AxFuns* a, const char* o, op_t f) { *slot(a, o) = f; }
void ax_setdestroy(l1c_AxFuns* a, void (*f)(void)) { a->destroy = f; }
void ax_call(l1c_AxFuns* a, const char* o, double* x, double* y) { (*slot(a, o))(x, y); }
void ax_destroy(l1c_AxFuns* a) { a->destroy(); }
int setup_dct1(int n, int m, int* idx, l1c_AxFuns* a) { return l1c_dct1_setup(n, m, idx, a); }
int setup_dct2(int n, int r, int c, int* idx, l1c_AxFuns* a) { return l1c_dct2_setup(n, r, c, idx, a); }
int setup_dct(int n, int r, int c, int mode, int* idx, l1c_AxFuns* a) { return l1c_setup_dct_transforms(n, r, c, (DctMode)mode, idx, a); }
int setup_dcttv(int n, int r, int c, double av, double ah, int mode, int bp, int* idx, l1c_AxFuns* a) { return l1c_setup_dctTV_transforms(n, r, c, av, ah, (DctMode)mode, bp == 1 ? analysis : synthesis, idx, a); }
int setup_matrix(int n, int m, double* A, l1c_AxFuns* a) { return l1c_setup_matrix_transforms(n, m, A, a); }

/* -------------------- dense operators usable as l1c_AxFuns (no logging) ---- */
static double *dA, *dW; static int dn, dm, dp; static long d_calls;
static double* dtmp;
/* fault: from the fk-th gradient on (distinct arguments of A'), points that fit fb
   within feps cannot be evaluated (NaN), until the point of that gradient is evaluated again */
static int fk, fcnt, farmed; static double *fb, feps, *fX, *fR;
void ax_fail(int k, double* b, double eps) {
  fk = k; fcnt = farmed = 0; fb = b; feps = eps;
  fX = realloc(fX, sizeof(double) * (dm + 1)); fR = realloc(fR, sizeof(double) * (dn + 1));
}
static void dAx0(double* x, double* y) { for (int i = 0; i < dn; i++) { double s = 0; for (int j = 0; j < dm; j++) s += dA[i * dm + j] * x[j]; y[i] = s; } }
static void dAx(double* x, double* y) {
  d_calls++; dAx0(x, y);
  if (!fk) return;
  if (!farmed) { if (fcnt < fk) memcpy(fX, x, dm * sizeof(double)); return; }
  if (!memcmp(fX, x, dm * sizeof(double))) { farmed = 0; return; }
  double s = 0;
  for (int i = 0; i < dn; i++) s += (y[i] - fb[i]) * (y[i] - fb[i]);
  if (!(s > feps * feps * 1.000001)) for (int i = 0; i < dn; i++) y[i] = NAN;
}
static void dAty0(double* y, double* x) { for (int j = 0; j < dm; j++) x[j] = 0; for (int i = 0; i < dn; i++) for (int j = 0; j < dm; j++) x[j] += dA[i * dm + j] * y[i]; }
static void dAty(double* y, double* x) {
  d_calls++;
  if (fk && fcnt < fk && (!fcnt || memcmp(fR, y, dn * sizeof(double)))) { memcpy(fR, y, dn * sizeof(double)); if (++fcnt == fk) farmed = 1; }
  dAty0(y, x);
}
static void dAtAx(double* x, double* z) { d_calls += 2; dAx0(x, dtmp); dAty0(dtmp, z); }
static void dWz(double* z, double* x) { d_calls++; for (int i = 0; i < dm; i++) { double s = 0; for (int j = 0; j < dp; j++) s += dW[i * dp + j] * z[j]; x[i] = s; } }
static void dWtx(double* x, double* z) { d_calls++; for (int j = 0; j < dp; j++) z[j] = 0; for (int i = 0; i < dm; i++) for (int j = 0; j < dp; j++) z[j] += dW[i * dp + j] * x[i]; }
static void dId(double* x, double* y) { memcpy(y, x, dm * sizeof(double)); }
static void dnop(void) {}
/* A: n x m row major; W: m x p row major (NULL: identity) */
void ax_dense(l1c_AxFuns* a, int n, int m, int p, double* A, double* W, double norm) {
  fk = 0; dA = A; dW = W; dn = n; dm = m; dp = W ? p : m;
  dtmp = realloc(dtmp, sizeof(double) * (n + m + p + 8));
  memset(a, 0, sizeof *a);
  a->n = n; a->m = m; a->q = m; a->p = dp; a->norm_W = norm;
  a->Ax = a->Rx = dAx; a->Aty = a->Rty = dAty; a->AtAx = dAtAx; a->Mx = a->Mty = dId;
  a->Wz = W ? dWz : dId; a->Wtx = W ? dWtx : dId; a->destroy = dnop;
}

/* ------------------------------------------------ TV ---------------------- */
void tv(const char* o, int n, int m, double al, double* x, double* y) {
  if (!strcmp(o, "Dx")) l1c_Dx(n, m, al, x, y);
  else if (!strcmp(o, "DxT")) l1c_DxT(n, m, al, x, y);
  else if (!strcmp(o, "DxTDx")) l1c_DxTDx(n, m, al, x, y);
  else if (!strcmp(o, "Dy")) l1c_Dy(n, m, al, x, y);
  else if (!strcmp(o, "DyT")) l1c_DyT(n, m, al, x, y);
  else l1c_DyTDy(n, m, al, x, y);
}

/* ------------------------------------------------ CG ---------------------- */
static int cgN; static double* cgA; static long cg_calls;
static void cg_ax(l1c_int n, double* x, double* b, void* d) {
  double* A = d; cg_calls++;
  for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += A[i * n + j] * x[j]; b[i] = s; }
}
int cg(int N, double* x, double* b, double* Minv, double** D, double* A, double tol, int maxit, int verbose, double* res) {
  l1c_CgResults r = {.cgres = -1, .cgiter = -1};
  l1c_CgParams p = {.verbose = verbose, .max_iter = maxit, .tol = tol};
  cg_calls = 0;
  int st = Minv ? l1c_cgsolve_diag_precond(N, x, b, Minv, D, cg_ax, A, &r, p) : l1c_cgsolve(N, x, b, D, cg_ax, A, &r, p);
  res[0] = r.cgres; res[1] = r.cgiter; res[2] = cg_calls;
  return st;
}

/* the caller's own operator */
int cg_cb(int N, double* x, double* b, double* Minv, double** D, void (*f)(l1c_int, double*, double*, void*), void* data, double tol, int maxit, double* res) {
  l1c_CgResults r = {.cgres = -1, .cgiter = -1};
  l1c_CgParams p = {.verbose = 0, .max_iter = maxit, .tol = tol};
  int st = Minv ? l1c_cgsolve_diag_precond(N, x, b, Minv, D, f, data, &r, p) : l1c_cgsolve(N, x, b, D, f, data, &r, p);
  res[0] = r.cgres; res[1] = r.cgiter;
  return st;
}

/* ------------------------------------------------ line search ------------- */
typedef double (*f1_t)(void*, double*);
typedef double (*f2_t)(void*, double*, double*);
void ls1(int n, double* x, double* dx, double* fx, double slope, f1_t f, double s, double al, double be, double* W, double* out) {
  LSParams p = {.s = s, .alpha = al, .beta = be};
  LSStat r = l1c_linesearch(n, x, dx, fx, slope, NULL, f, p, W);
  out[0] = r.flin; out[1] = r.step; out[2] = r.iter; out[3] = r.status;
}
void ls2(int m, double* x, double* u, double* dx, double* du, double* fx, double slope, f2_t f, double s, double al, double be, double** W, double* out) {
  LSParams p = {.s = s, .alpha = al, .beta = be};
  LSStat r = l1c_linesearch_xu(m, x, u, dx, du, fx, slope, NULL, f, p, W);
  out[0] = r.flin; out[1] = r.step; out[2] = r.iter; out[3] = r.status;
}

void ls_cb(int two, int m, double* x, double* u, double* dx, double* du, double* fx, double slope, void* data, void* f, double s, double al, double be, double** W, double* out) {
  LSParams p = {.s = s, .alpha = al, .beta = be};
  LSStat r = two ? l1c_linesearch_xu(m, x, u, dx, du, fx, slope, data, (f2_t)f, p, W) : l1c_linesearch(m, x, dx, fx, slope, data, (f1_t)f, p, W[0]);
  out[0] = r.flin; out[1] = r.step; out[2] = r.iter; out[3] = r.status;
}

/* ------------------------------------------------ l1qc -------------------- */
/* o: epsilon mu lbtol newton_tol l1_tol cg_tol tau | i: lbiter newton_max_iter verbose cg_maxiter cg_verbose warm dct_mode */
static l1c_L1qcOpts mkopts(double* o, int* i) {
  l1c_L1qcOpts p = {.epsilon = o[0], .mu = o[1], .lbtol = o[2], .newton_tol = o[3], .l1_tol = o[4], .cg_tol = o[5], .tau = o[6],
                    .lbiter = i[0], .newton_max_iter = i[1], .verbose = i[2], .cg_maxiter = i[3], .cg_verbose = i[4], .warm_start_cg = i[5], .dct_mode = (DctMode)i[6]};
  return p;
}
static void put(l1c_LBResult r, double* out) { out[0] = r.l1; out[1] = r.total_newton_iter; out[2] = r.total_cg_iter; out[3] = r.status; }
void l1qc(int m, double* x, int n, double* b, double* o, int* i, l1c_AxFuns* a, double* out) { put(l1c_l1qc_newton(m, x, n, b, mkopts(o, i), *a), out); }
int l1qc_d(int r, int c, double* x, int n, double* b, int* idx, double* o, int* i, double* out) {
  l1c_LBResult lb = {.l1 = -1, .total_newton_iter = -1, .total_cg_iter = -1, .status = -1};
  int st = l1qc_dct(r, c, x, n, b, idx, mkopts(o, i), &lb);
  put(lb, out);
  return st;
}
int _l1c_l1qcProb_new(l1c_l1qcProb*, l1c_int, l1c_int, double*, l1c_L1qcOpts, l1c_AxFuns);
void _l1c_l1qcProb_delete(l1c_l1qcProb*);
l1c_l1qcProb* qp_new(int m, int n, double* b, double* o, int* i, l1c_AxFuns* a) {
  l1c_l1qcProb* p = malloc(sizeof *p);
  if (_l1c_l1qcProb_new(p, m, n, b, mkopts(o, i), *a)) { free(p); return NULL; }
  return p;
}
void qp_del(l1c_l1qcProb* p) { _l1c_l1qcProb_delete(p); free(p); }
void qp_tau(l1c_l1qcProb* p, double t) { p->tau = t; }
double* qp_vec(l1c_l1qcProb* p, const char* f) {
  if (!strcmp(f, "r")) return p->r;
  if (!strcmp(f, "fu1")) return p->fu1;
  if (!strcmp(f, "fu2")) return p->fu2;
  if (!strcmp(f, "dx")) return p->dx;
  if (!strcmp(f, "du")) return p->du;
  return p->gradf;
}
double qp_fval(l1c_l1qcProb* p) { return p->f_val; }
double qp_feval(l1c_l1qcProb* p, double* x, double* u) { return _l1c_l1qc_f_eval(p, x, u); }
int qp_descent(l1c_l1qcProb* p, double tol, int maxit, double* res) {
  l1c_CgParams c = {.tol = tol, .max_iter = maxit, .verbose = 0}; l1c_CgResults r;
  int st = _l1c_l1qc_descent_dir(p, c, &r); res[0] = r.cgres; res[1] = r.cgiter; return st;
}
void qp_h11(int m, double* z, double* y, double fe, double* atr, double* sigx, double* work, l1c_AxFuns* a) {
  Hess_data h = {.one_by_fe = 1.0 / fe, .one_by_fe_sqrd = 1.0 / (fe * fe), .atr = atr, .sigx = sigx, .Dwork_1m = work, .AtAx = a->AtAx};
  _l1c_l1qc_H11pfun(m, z, y, &h);
}
void qp_hessgrad(l1c_l1qcProb* p, double* sigx, double* atr) { _l1c_l1qc_hess_grad(p, sigx, atr); }
double qp_maxstep(l1c_l1qcProb* p) { return _l1c_l1qc_find_max_step(p); }
int qp_feas(l1c_l1qcProb* p, double* x) { return _l1c_l1qc_check_feasible_start(p, x); }
int qp_init(int m, double* x, double* u, double* o, int* i, double* out) {
  l1c_L1qcOpts p = mkopts(o, i); int st = _l1c_l1qc_newton_init(m, x, u, &p); out[0] = p.tau; out[1] = p.lbiter; return st;
}

/* ------------------------------------------------ nesta ------------------- */
int nesta(int m, double* x, int n, double* b, l1c_AxFuns* a, double mu, double tol, double sigma, int ncont, int verbose) {
  l1c_NestaOpts o = {.mu = mu, .tol = tol, .sigma = sigma, .n_continue = ncont, .verbose = verbose};
  return l1c_nesta(m, x, n, b, *a, o);
}
l1c_NestaProb* np_new(l1c_AxFuns* a) { return _l1c_NestaProb_new(*a); }
void np_del(l1c_NestaProb* p) { l1c_free_nesta_problem(p); }
int np_setup(l1c_NestaProb* p, double* b, l1c_AxFuns* a, double mu, double tol, double sigma, int ncont, double* out) {
  l1c_NestaOpts o = {.mu = mu, .tol = tol, .sigma = sigma, .n_continue = ncont, .verbose = 0};
  double bm = -1, bt = -1;
  int st = l1c_nesta_setup(p, &bm, &bt, b, *a, &o);
  out[0] = bm; out[1] = bt; out[2] = p->mu_j; out[3] = p->tol_j; out[4] = p->L; out[5] = p->sigma; out[6] = p->mu; out[7] = p->tol; out[8] = p->n_continue;
  return st;
}
void np_setmu(l1c_NestaProb* p, double mu) { p->mu_j = mu; }
double* np_vec(l1c_NestaProb* p, const char* f) {
  if (!strcmp(f, "xo")) return p->xo;
  if (!strcmp(f, "xk")) return p->xk;
  if (!strcmp(f, "Atb")) return p->Atb;
  return p->gradf;
}
double np_feval(l1c_NestaProb* p) { l1c_nesta_feval(p); return p->fx; }
void np_project(l1c_NestaProb* p, double* xx, double* g, double* v) { l1c_nesta_project(p, xx, g, v); }
static struct l1c_fmean_fifo ff;
int nmean(void) { return L1C_NESTA_NMEAN; }
int fifo_new(void) { ff = _l1c_new_fmean_fifo(); return ff.f_vals != NULL; }
void fifo_push(double v) { _l1c_push_fmeans_fifo(&ff, v); }
double fifo_mean(void) { return _l1c_mean_fmean_fifo(&ff); }
int fifo_total(void) { return ff.n_total; }
void fifo_del(void) { free(ff.f_vals); }

/* ------------------------------------------------ bregman ----------------- */
int breg(int n, int m, double* u, double* f, double mu, double tol, int mi, int mj) { return l1c_breg_anistropic_TV(n, m, u, f, mu, tol, mi, mj); }
void b_shrink(int N, double* x, double* d, double g) { breg_get_functions().breg_shrink1(N, x, d, g); }
void b_mxpy(int N, double* x, double* y, double* z) { breg_get_functions().breg_mxpy_z(N, x, y, z); }
void b_gs(int n, int m, double* u, double* rhs, double mu, double la) { breg_get_functions().breg_anis_guass_seidel(n, m, u, rhs, mu, la); }
void b_jac(int n, int m, double* uk, double* w, double* rhs, double* D, double la) { breg_get_functions().breg_anis_jacobi(n, m, uk, w, rhs, D, la); }
void b_rhs(int n, int m, double* f, double* dx, double* bx, double* dy, double* by, double* rhs, double mu, double la, double* w1, double* w2) { breg_get_functions().breg_anis_rhs(n, m, f, dx, bx, dy, by, rhs, mu, la, w1, w2); }
void b_hid(int n, int m, double mu, double la, double* D) { breg_get_functions().hess_inv_diag(n, m, mu, la, D); }

/* ------------------------------------------------ kernels ----------------- */
double k_call(const char* o, int N, double a, double b, double* x, double* y, double* z) {
  if (!strcmp(o, "daxpby")) { l1c_daxpby(N, a, x, b, y); return 0; }
  if (!strcmp(o, "daxpby0")) { __l1c_daxpby(N, a, x, b, y); return 0; }
  if (!strcmp(o, "init")) { l1c_init_vec(N, y, a); return 0; }
  if (!strcmp(o, "dxmuly")) { l1c_dxmuly_z(N, x, y, z); return 0; }
  if (!strcmp(o, "daxpbyz")) { l1c_daxpby_z(N, a, x, b, y, z); return 0; }
  if (!strcmp(o, "daxpyz")) { l1c_daxpy_z(N, a, x, y, z); return 0; }
  if (!strcmp(o, "norm1")) return l1c_dnorm1(N, x);
  if (!strcmp(o, "sum")) return l1c_dsum(N, x);
  if (!strcmp(o, "logsum")) return l1c_dlogsum(N, a, x);
  if (!strcmp(o, "relerr")) return l1c_dnrm2_rel_err(N, x, y);
  if (!strcmp(o, "err")) return l1c_dnrm2_err(N, x, y);
  if (!strcmp(o, "max")) return l1c_max_vec(N, x);
  if (!strcmp(o, "abs")) { l1c_abs_vec(N, x, y); return 0; }
  if (!strcmp(o, "vlogsum")) return vcl_logsum(N, a, x);
  if (!strcmp(o, "vsum")) return vcl_sum(N, x);
  if (!strcmp(o, "vmulpz")) { vcl_dxMy_pz(N, x, y, z); return 0; }
  return -1;
}

/* ------------------------------------------------ memory ------------------ */
double* m_alloc(int N, int zero) { return zero ? l1c_calloc_double(N) : l1c_malloc_double(N); }
double** m_alloc2(int r, int c, int zero) { return zero ? l1c_calloc_double_2D(r, c) : l1c_malloc_double_2D(r, c); }
void m_free(double* p) { l1c_free_double(p); }
void m_free2(int r, double** p) { l1c_free_double_2D(r, p); }
int dalign(void) { return DALIGN; }

/* ------------------------------------------------ logging ----------------- */
static char* sink[4]; static long sinklen[4], sinkcalls[4];
static int vput(int k, const char* f, va_list ap) {
  char buf[4096]; int n = vsnprintf(buf, sizeof buf, f, ap);
  sink[k] = realloc(sink[k], sinklen[k] + n + 1); memcpy(sink[k] + sinklen[k], buf, n + 1); sinklen[k] += n; sinkcalls[k]++;
  return n;
}
#define SINK(k) static int s##k(const char* f, ...) { va_list ap; va_start(ap, f); int n = vput(k, f, ap); va_end(ap); return n; }
SINK(0) SINK(1) SINK(2) SINK(3)
static l1c_printf_t* sinks[5] = {s0, s1, s2, s3, (l1c_printf_t*)printf};
/* installs sink k (4 = printf); returns the number of the previous sink, or -1 */
int log_replace(int k) { l1c_printf_t* o = l1c_replace_printf(sinks[k]); for (int i = 0; i < 5; i++) if (o == sinks[i]) return i; return -1; }
int log_current(void) { for (int i = 0; i < 5; i++) if (l1c_printf == sinks[i]) return i; return -1; }
long log_len(int k) { return sinklen[k]; }
long log_calls(int k) { return sinkcalls[k]; }
char* log_text(int k) { return sink[k] ? sink[k] : (char*)""; }
void log_clear(void) { for (int k = 0; k < 4; k++) { sinklen[k] = sinkcalls[k] = 0; if (sink[k]) sink[k][0] = 0; } }
void log_say(const char* s) { l1c_printf("%s", s); }
void flush_all(void) { fflush(NULL); }

/* error codes as compiled */
int errcode(const char* n) {
  if (!strcmp(n, "OK")) return L1C_SUCCESS;
  if (!strcmp(n, "INFEAS")) return L1C_INFEASIBLE_START;
  if (!strcmp(n, "OOM")) return L1C_OUT_OF_MEMORY;
  if (!strcmp(n, "DCT")) return L1C_DCT_INIT_FAILURE;
  if (!strcmp(n, "FILE")) return L1C_FILE_READ_FAILURE;
  if (!strcmp(n, "CG")) return L1C_CGSOLVE_FAILURE;
  if (!strcmp(n, "INVAL")) return L1C_INVALID_ARGUMENT;
  return L1C_INCONSISTENT_ARGUMENTS;
}

/* ------------------------------------------------ JSON -------------------- */
#include "json_utils.h"
void* j_box(void* v) { void** b = malloc(sizeof *b); *b = v; return b; }
int j_load(char* f, cJSON** out) { return load_file_to_json(f, out); }
void j_del(cJSON* j) { cJSON_Delete(j); }
int j_text(char* f, char** out) { return load_file_as_text(f, out); }
int j_int(cJSON* j, char* n, int* v) { l1c_int t = *v; int s = extract_json_int(j, n, &t); *v = t; return s; }
int j_dbl(cJSON* j, char* n, double* v) { return extract_json_double(j, n, v); }
int j_darr(cJSON* j, char* n, double** x, int* N) { l1c_int t = *N; int s = extract_json_double_array(j, n, x, &t); *N = t; return s; }
int j_iarr(cJSON* j, char* n, int** x, int* N) { l1c_int t = *N; int s = extract_json_int_array(j, n, (l1c_int**)x, &t); *N = t; return s; }
void j_freed(double* x) { l1c_free_double(x); }
void j_freei(int* x) { free(x); }
long j_flen(char* f) { FILE* p = fopen(f, "r"); if (!p) return -2; long n = get_file_length(p); long at = ftell(p); fclose(p); return at == 0 ? n : -3; }
