// Gives command lines to the real option parser and prints its answers, one JSON line per input line.
// input line (tab-separated): strict, definitions (f:short:long, o:..., q:...), "|", the words
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <iostream>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/wait.h>
#include "commandline_parser.h"

volatile sig_atomic_t stopSignal_flag = 0;
static std::string esc(const std::string &s) {
  std::string r = "\"";
  for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; }
  return r + "\"";
}
static void one(const std::vector<std::string> &t) {
  CLineParser p;
  if (t[0] == "1") p.UnrecognizedAreErrors();
  std::vector<std::string> flags, opts;
  size_t i = 1;
  for (; i < t.size() && t[i] != "|"; i++) {
    char k = t[i][0]; size_t c = t[i].find(':', 2);
    std::string a = t[i].substr(2, c - 2), b = t[i].substr(c + 1);
    auto &v = k == 'f' ? flags : opts; v.push_back(a); if (!b.empty()) v.push_back(b);
    if (k == 'f') { if (b.empty()) p.AddFlag(a); else p.AddFlag(a, b); }
    else if (k == 'o') { if (b.empty()) p.AddOption(a); else p.AddOption(a, b); }
    else { if (b.empty()) p.AddQueueOption(a); else p.AddQueueOption(a, b); }
  }
  std::vector<char *> argv; argv.push_back((char *)"prog");
  for (i++; i < t.size(); i++) argv.push_back((char *)t[i].c_str());
  int st = p.ParseCommandLine((int)argv.size(), argv.data());
  printf("{\"st\":%d,\"empty\":%d,\"args\":[", st, p.CommandLineEmpty() ? 1 : 0);
  for (int k = 0; k < p.nArguments(); k++) printf("%s%s", k ? "," : "", esc(p.GetArgument(k)).c_str());
  printf("],\"flags\":[");
  for (size_t k = 0; k < flags.size(); k++) printf("%s[%s,%d]", k ? "," : "", esc(flags[k]).c_str(), p.FlagSet(flags[k]) ? 1 : 0);
  printf("],\"opts\":[");
  for (size_t k = 0; k < opts.size(); k++) {
    printf("%s[%s,%d,[", k ? "," : "", esc(opts[k]).c_str(), p.OptionSet(opts[k]) ? 1 : 0);
    for (int n = 0; n < p.GetNTargets(opts[k]); n++) printf("%s%s", n ? "," : "", esc(p.GetTargetString(opts[k], n)).c_str());
    printf("],%s]", p.OptionSet(opts[k]) ? esc(p.GetTargetString(opts[k])).c_str() : "\"\"");
  }
  printf("]}\n"); fflush(stdout);
}
int main() {
  std::string line;
  std::vector<std::vector<std::string>> all;
  while (std::getline(std::cin, line)) {
    std::vector<std::string> t; size_t a = 0;
    for (;;) { size_t b = line.find('\t', a); t.push_back(line.substr(a, b == std::string::npos ? b : b - a)); if (b == std::string::npos) break; a = b + 1; }
    all.push_back(t);
  }
  for (auto &t : all) {
    pid_t q = fork();
    if (q == 0) { one(t); _exit(0); }
    int ws; waitpid(q, &ws, 0);
    if (ws != 0) { printf("{\"crash\":1}\n"); fflush(stdout); }
  }
  return 0;
}
