// Drives the real solvers (through DispatchToSolver) on analytic objectives and records every
// evaluation.  usage: solver_rec IN OUT ; numbers are written as C99 hex floats.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <string>
#include <vector>
#include "definitions.h"
#include "model_object.h"
#include "param_struct.h"
#include "solver_results.h"
#include "dispatch_solver.h"

volatile sig_atomic_t stopSignal_flag = 0;
static FILE *out;
static long nEval = 0, sigAt = 0;
static bool recording = true;

class Rec : public ModelObject {
public:
  int n; std::string kind; std::vector<double> a; int m;
  int Count() {
    if (kind == "rosen") return 2;
    if (kind == "flat") return n + 1;
    return n + 1;
  }
  void Dev(const double *p, double *d) {
    for (int i = 0; i < m; i++) d[i] = 0;
    if (kind == "bowl") { for (int i = 0; i < n; i++) d[i] = a[2*i+1]*(p[i] - a[2*i]); }
    else if (kind == "offbowl") { for (int i = 0; i < n; i++) d[i] = a[2*i+1]*(p[i] - a[2*i]); d[n] = 5; }
    else if (kind == "skew") { double s = 0; for (int i = 0; i < n; i++) { d[i] = a[2*i+1]*(p[i] - a[2*i]); s += p[i] - a[2*i]; } d[n] = 0.7*s; }
    else if (kind == "rosen") { d[0] = 10*(p[1] - p[0]*p[0]); d[1] = 1 - p[0]; }
    else if (kind == "flat") { d[0] = 3; }
    else if (kind == "slope") { for (int i = 0; i < n; i++) d[i] = std::exp(a[2*i+1]*(p[i] - a[2*i])); }
    else if (kind == "quartic") { for (int i = 0; i < n; i++) d[i] = a[2*i+1]*(p[i] - a[2*i])*(p[i] - a[2*i]); d[n] = 1; }
    else if (kind == "step") { for (int i = 0; i < n; i++) d[i] = std::floor(a[2*i+1]*std::fabs(p[i] - a[2*i])); d[n] = 1; }
    else if (kind == "nan") { for (int i = 0; i < n; i++) d[i] = a[2*i+1]*(p[i] - a[2*i]); d[n] = 1; if (p[0] > a[2*n]) d[0] = NAN; }
    else if (kind == "allnan") { d[0] = NAN; }
    else if (kind == "huge") { for (int i = 0; i < n; i++) d[i] = 1e11*(2 + std::fabs(p[i] - a[2*i])); }
  }
  double Stat(const double *p) {
    std::vector<double> d(m); Dev(p, &d[0]);
    double s = 0; for (int i = 0; i < m; i++) s += d[i]*d[i];
    return s;
  }
  void Log(const double *p) {
    if (!recording) return;
    nEval++;
    fprintf(out, "E %a", Stat(p));
    for (int i = 0; i < n; i++) fprintf(out, " %a", p[i]);
    if (sigAt && nEval == sigAt) { fprintf(out, " S"); stopSignal_flag = 1; }
    fprintf(out, "\n");
  }
  double GetFitStatistic(double *p) { Log(p); return Stat(p); }
  void ComputeDeviates(double *y, double *p) { Log(p); Dev(p, y); }
};

int main(int argc, char **argv) {
  FILE *in = fopen(argv[1], "r"); out = fopen(argv[2], "w");
  char sname[64], nlo[64], kind[64]; double ftol; unsigned long seed; int lhs, lim, n, na, nfits;
  if (fscanf(in, "%63s %63s %lf %lu %d %d %ld %d", sname, nlo, &ftol, &seed, &lhs, &lim, &sigAt, &nfits) != 8) return 3;
  if (fscanf(in, "%d", &n) != 1) return 3;
  std::vector<double> start(n); std::vector<mp_par> info(n); int nfree = 0;
  for (int i = 0; i < n; i++) {
    mp_par q = mp_par(); int f, l; double lo, hi;
    if (fscanf(in, "%lf %d %d %lf %lf", &start[i], &f, &l, &lo, &hi) != 5) return 3;
    q.fixed = f; q.limited[0] = q.limited[1] = l; q.limits[0] = lo; q.limits[1] = hi;
    info[i] = q; if (!f) nfree++;
  }
  if (fscanf(in, "%63s %d", kind, &na) != 2) return 3;
  Rec *model = new Rec; model->n = n; model->kind = kind; model->a.resize(na);
  for (int i = 0; i < na; i++) if (fscanf(in, "%lf", &model->a[i]) != 1) return 3;
  model->m = model->Count();
  std::string S = sname; int id = S == "LM" ? MPFIT_SOLVER : S == "DE" ? DIFF_EVOLN_SOLVER : S == "NM" ? NMSIMPLEX_SOLVER : GENERIC_NLOPT_SOLVER;
  for (int k = 0; k < nfits; k++) {
    SolverResults res; std::string name = nlo;
    std::vector<double> p = start;
    nEval = 0; stopSignal_flag = 0; recording = true;
    fprintf(out, "B\n");
    int st = DispatchToSolver(id, n, nfree, model->m, &p[0], info, model, ftol, lim != 0, -1, &res, name, seed, lhs != 0);
    recording = false;
    fprintf(out, "R %d %d %a %a %d", st, res.GetNFunctionEvals(), res.GetBestfitStatisticValue(), res.GetInitialStatisticValue(), res.GetSolverType());
    for (int i = 0; i < n; i++) fprintf(out, " %a", p[i]);
    fprintf(out, "\nF %a %a\n", model->Stat(&p[0]), model->Stat(&start[0]));
  }
  fclose(out);
  return 0;
}
