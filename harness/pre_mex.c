/* Octave's hand on the resource monitor (preload.c):
   premon("init")            look up the library and the mex modules
   premon("begin", k, mode)  start recording; let request k fail (k < 0: none)
   premon("end")             stop; [requests, failed, heap, plans, bad releases, damaged]
   premon("reset")           forget what was released */
#define _GNU_SOURCE
#include "mex.h"
#include <dlfcn.h>
#include <string.h>
static void* f(const char* n) {
  void* p = dlsym(RTLD_DEFAULT, n);
  if (!p) mexErrMsgTxt("resource monitor not loaded");
  return p;
}
void mexFunction(int nl, mxArray** pl, int nr, const mxArray** pr) {
  char c[16];
  mxGetString(pr[0], c, sizeof c);
  (void)nl;
  if (!strcmp(c, "init")) {
    int (*t)(const char*) = (int (*)(const char*))f("pre_target");
    pl[0] = mxCreateDoubleScalar(t("libl1c.so") + t("l1qc_dct.mex") + t("nesta_dctTV.mex") + t("breg_anistropic_TV.mex"));
  } else if (!strcmp(c, "begin")) {
    ((void (*)(void))f("pre_start"))();
    ((void (*)(long, int))f("pre_fail"))((long)mxGetScalar(pr[1]), (int)mxGetScalar(pr[2]));
    pl[0] = mxCreateDoubleMatrix(1, 2, mxREAL);
    for (int k = 0; k < 2; k++) mxGetPr(pl[0])[k] = ((int (*)(int))f("pre_live"))(k);
  } else if (!strcmp(c, "end")) {
    int nev = ((int (*)(void))f("pre_nev"))(), hit = 0, bad = 0;
    int (*e)(int, int) = (int (*)(int, int))f("pre_ev");
    for (int k = 0; k < nev; k++) {
      int t = e(k, 0);
      hit += t == 3 || t == 7;
      bad += t == 4 || t == 8 || t == 9 || t == 12;
    }
    pl[0] = mxCreateDoubleMatrix(1, 6, mxREAL);
    double* o = mxGetPr(pl[0]);
    o[0] = ((int (*)(void))f("pre_nreq"))(), o[1] = hit;
    for (int k = 0; k < 2; k++) o[2 + k] = ((int (*)(int))f("pre_live"))(k);
    o[4] = bad, o[5] = ((int (*)(void))f("pre_damaged"))();
    ((void (*)(long, int))f("pre_fail"))(-1, 0);
    ((void (*)(void))f("pre_stop"))();
  } else {
    ((void (*)(void))f("pre_start"))();
    ((void (*)(void))f("pre_reset"))();
    ((void (*)(void))f("pre_stop"))();
    pl[0] = mxCreateDoubleScalar(0);
  }
}
