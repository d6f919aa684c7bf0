// Runs the real DREAM sampler on analytic log-likelihoods and records every evaluation.
// usage: mcmc_rec IN OUT ; the chain files (numbers as C99 hex floats) are written by dream() itself
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <string>
#include <vector>
#include "definitions.h"
#include "model_object.h"
#include "dream_params.h"
#include "dream.h"
#include <rng/GSLStream.h>

volatile sig_atomic_t stopSignal_flag = 0;
static FILE *out;

class Rec : public ModelObject {
public:
  int n; std::string kind; std::vector<double> a;
  std::string PrintModelParamsHorizontalString(const double params[], const std::string &separator = "\t") {
    std::string s; char b[64];
    for (int i = 0; i < n; i++) { snprintf(b, 64, "%a", params[i]); s += (i ? " " : ""); s += b; }
    return s;
  }
  // all values are multiples of 1/1000, so that a specification with integers can follow them exactly
  double LogLik(const double *x) {
    double s = 0;
    for (int i = 0; i < n; i++) { double d = a[2*i+1]*(x[i] - a[2*i]); s += d*d; }
    if (kind == "flat") s = 7;
    if (kind == "wells") { double u = 0; for (int i = 0; i < n; i++) { double d = a[2*i+1]*(x[i] + a[2*i]); u += d*d; } u += a[2*n]; s = s < u ? s : u; }
    if (kind == "plateau") s = std::floor(s);
    if (kind == "hole" && x[n - 1] > a[2*n]) return NAN;
    if (kind == "wall" && x[n - 1] > a[2*n]) return -INFINITY;
    if (s > 500) s = 500 + (s - 500 > 100000 ? 1 : (s - 500)/1e5);
    return -std::floor(500*s)/1000;
  }
};

static double Fun(int chain, int gen, const double *x, const void *extra, bool recalc) {
  Rec *m = (Rec *)extra; double v = m->LogLik(x);
  fprintf(out, "E %d %d %d %a", chain, gen, recalc ? 1 : 0, v);
  for (int i = 0; i < m->n; i++) fprintf(out, " %a", x[i]);
  fprintf(out, "\n");
  return v;
}

int main(int argc, char **argv) {
  FILE *in = fopen(argv[1], "r"); out = fopen(argv[2], "w");
  char root[256], kind[64]; int seed, maxe, nch, burn, app, gel, coll, adapt, n, na; double noise, bstar, crit;
  if (fscanf(in, "%255s %d %d %d %d %d %d %d %d %lf %lf %lf", root, &seed, &maxe, &nch, &burn, &app, &gel, &coll, &adapt, &noise, &bstar, &crit) != 12) return 3;
  if (fscanf(in, "%d", &n) != 1) return 3;
  std::vector<double> init(n), lo(n), hi(n); std::vector<int> lock(n); std::vector<std::string> names(n);
  for (int i = 0; i < n; i++) { if (fscanf(in, "%d %lf %lf", &lock[i], &lo[i], &hi[i]) != 3) return 3; init[i] = lo[i]; names[i] = "p"; }
  if (fscanf(in, "%63s %d", kind, &na) != 2) return 3;
  Rec *m = new Rec; m->n = n; m->kind = kind; m->a.resize(na);
  for (int i = 0; i < na; i++) if (fscanf(in, "%lf", &m->a[i]) != 1) return 3;
  dream_pars p;
  SetupDreamParams(&p, n, &init[0], &names[0], &lock[0], &lo[0], &hi[0]);
  p.verboseLevel = 0; p.outputRootname = root; p.appendFile = app; p.numChains = nch; p.maxEvals = maxe; p.burnIn = burn;
  p.gelmanEvals = gel; p.scaleReductionCrit = crit; p.noise = noise; p.bstar_zero = bstar; p.collapseOutliers = coll; p.pCR_update = adapt;
  p.parameterNames = names; p.fun = &Fun; p.extraData = m;
  std::vector<std::string> head(1, "# header\n"); SetHeaderDreamParams(&p, head);
  rng::GSLStream rng; rng.alloc(seed);
  int st = dream(&p, &rng);
  fprintf(out, "R %d %d\n", st, p.nfree);
  fclose(out);
  return 0;
}
