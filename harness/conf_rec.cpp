// Calls the real configuration-file parser (both forms) and prints what it understood, one JSON line per call.
// usage: conf_rec FILE...
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <map>
#include <string>
#include <vector>
#include "definitions.h"
#include "param_struct.h"
#include "config_file_parser.h"

volatile sig_atomic_t stopSignal_flag = 0;
static std::string esc(const std::string &s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static void report(int full, int st, std::vector<std::string> &fn, std::vector<std::string> &lab, std::vector<double> &p,
                   std::vector<mp_par> &lim, std::vector<int> &starts, bool found, configOptions &o,
                   std::vector<std::map<std::string, std::string>> &xs) {
  printf("{\"full\":%d,\"st\":%d,\"opts\":[", full, st);
  for (size_t i = 0; i < o.optionNames.size(); i++) printf("%s[%s,%s]", i ? "," : "", esc(o.optionNames[i]).c_str(), esc(o.optionValues[i]).c_str());
  printf("],\"fns\":[");
  for (size_t i = 0; i < fn.size(); i++) printf("%s%s", i ? "," : "", esc(fn[i]).c_str());
  printf("],\"labs\":[");
  for (size_t i = 0; i < lab.size(); i++) printf("%s%s", i ? "," : "", esc(lab[i]).c_str());
  printf("],\"starts\":[");
  for (size_t i = 0; i < starts.size(); i++) printf("%s%d", i ? "," : "", starts[i]);
  printf("],\"xs\":[");
  for (size_t i = 0; i < xs.size(); i++) {
    printf("%s{", i ? "," : ""); bool first = true;
    for (auto &k : xs[i]) { printf("%s%s:%s", first ? "" : ",", esc(k.first).c_str(), esc(k.second).c_str()); first = false; }
    printf("}");
  }
  printf("],\"found\":%d,\"ps\":[", found ? 1 : 0);
  for (size_t i = 0; i < p.size(); i++) {
    printf("%s[\"%.17g\"", i ? "," : "", p[i]);
    if (full && i < lim.size()) printf(",%d,%d,%d,\"%.17g\",\"%.17g\"", lim[i].fixed, lim[i].limited[0], lim[i].limited[1], lim[i].limits[0], lim[i].limits[1]);
    printf("]");
  }
  printf("]}\n");
}
int main(int argc, char **argv) {
  for (int a = 1; a < argc; a++)
    for (int full = 1; full >= 0; full--) {
      std::vector<std::string> fn, lab; std::vector<double> p; std::vector<mp_par> lim; std::vector<int> starts; bool found = false;
      configOptions o; o.nOptions = 0; std::vector<std::map<std::string, std::string>> xs;
      std::string f = argv[a];
      int st = full ? ReadConfigFile(f, true, fn, lab, p, lim, starts, found, o, xs) : ReadConfigFile(f, true, fn, lab, p, starts, o, xs);
      report(full, st, fn, lab, p, lim, starts, found, o, xs);
      fflush(stdout);
    }
  return 0;
}
