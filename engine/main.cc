#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <cstdio>
#include <cstring>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;

static std::string js(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static void pairs(FILE* f, const std::vector<std::pair<std::string, std::string>>& v, bool obj) {
  fputs(obj ? "{" : "[", f);
  for (size_t i = 0; i < v.size(); i++) {
    if (obj) fprintf(f, "%s%s:%s", i ? "," : "", js(v[i].first).c_str(), js(v[i].second).c_str());
    else fprintf(f, "%s[%s,%s]", i ? "," : "", js(v[i].first).c_str(), js(v[i].second).c_str());
  }
  fputs(obj ? "}" : "]", f);
}

int main(int argc, char** argv) {
  std::string bc, out = "/dev/stdout", entry = "sym_main", dump; 
  std::map<std::string, long> params; double maxTime = 600; unsigned maxViol = 3, samples = 0; long pb = -1; bool race = true, delay = false; unsigned dumpMax = 0, qto = 60000;
  std::string prefix = "/repo/";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "-o") out = nx();
    else if (a == "-e") entry = nx();
    else if (a == "-p") { std::string p = nx(); size_t q = p.find('='); params[p.substr(0, q)] = atol(p.c_str() + q + 1); }
    else if (a == "-t") maxTime = atof(nx().c_str());
    else if (a == "--max-viol") maxViol = atoi(nx().c_str());
    else if (a == "--samples") samples = atoi(nx().c_str());
    else if (a == "--preempt") pb = atol(nx().c_str());
    else if (a == "--delay") delay = true;
    else if (a == "--no-race") race = false;
    else if (a == "--dump") { dump = nx(); dumpMax = 200; }
    else if (a == "--query-ms") qto = atoi(nx().c_str());
    else if (a == "--prefix") prefix = nx();
    else bc = a;
  }
  LLVMContext C; SMDiagnostic err;
  std::unique_ptr<Module> M = parseIRFile(bc, err, C);
  if (!M) { err.print("iqsym", errs()); return 2; }
  Exec X(*M);
  X.params = params; X.maxTime = maxTime; X.maxViol = maxViol; X.sampleMax = samples; X.preemptBound = pb; X.delayBound = delay; X.raceDetect = race; X.repoPrefix = prefix;
  X.solver.dumpDir = dump; X.solver.dumpMax = dumpMax; X.solver.timeout_ms = qto;
  X.entry = M->getFunction(entry);
  if (!X.entry) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  X.run();
  FILE* f = fopen(out.c_str(), "w");
  if (!f) return 2;
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  fprintf(f, "{\"complete\":%s,\n\"incomplete\":{", X.incomplete.empty() ? "true" : "false");
  bool first = true;
  for (auto& p : X.incomplete) { fprintf(f, "%s%s:%llu", first ? "" : ",", js(p.first).c_str(), (unsigned long long)p.second); first = false; }
  fprintf(f, "},\n\"paths\":%llu,\"paths_error\":%llu,\"paths_infeasible\":%llu,\"forks\":%llu,\"instructions\":%llu,\n",
    (unsigned long long)X.pathsDone, (unsigned long long)X.pathsErr, (unsigned long long)X.pathsInfeasible, (unsigned long long)X.totalForks, (unsigned long long)X.totalInstr);
  fprintf(f, "\"checks_symbolic\":%llu,\"checks_concrete\":%llu,\"sched_points\":%llu,\n", (unsigned long long)X.checksSym, (unsigned long long)X.checksConcrete, (unsigned long long)X.schedPoints);
  fprintf(f, "\"branch_queries\":%llu,\"domain_decided\":%llu,\"cache_hits\":%llu,\"solver_queries\":%llu,\"solver_sat\":%llu,\"solver_unsat\":%llu,\"solver_unknown\":%llu,\"property_queries\":%llu,\"solver_s\":%.3f,\"solver_max_s\":%.3f,\"wall_s\":%.3f,\"rss_mb\":%ld,\n",
    (unsigned long long)g_ss.branch_queries, (unsigned long long)g_ss.fast_decided, (unsigned long long)g_ss.cache_hits, (unsigned long long)g_ss.z3_queries, (unsigned long long)g_ss.z3_sat, (unsigned long long)g_ss.z3_unsat, (unsigned long long)g_ss.z3_unknown, (unsigned long long)g_ss.assert_queries, g_ss.z3_time, g_ss.z3_max, X.elapsed(), ru.ru_maxrss / 1024);
  fprintf(f, "\"confirm_queries\":%llu,\"confirm_paths\":%llu,\"confirm_s\":%.3f,\"enumerated\":%llu,\n", (unsigned long long)g_ss.x_queries, (unsigned long long)g_ss.x_paths, g_ss.x_time, (unsigned long long)g_ss.small_decided);
  fprintf(f, "\"covers\":{");
  first = true;
  for (auto& p : X.covers) { fprintf(f, "%s%s:%llu", first ? "" : ",", js(p.first).c_str(), (unsigned long long)p.second); first = false; }
  fprintf(f, "},\n\"functions\":[");
  first = true;
  std::set<std::string> fns, lines; X.collectCoverage(fns, lines);
  for (auto& n : fns) { fprintf(f, "%s%s", first ? "" : ",", js(n).c_str()); first = false; }
  fprintf(f, "],\n\"lines_covered\":%zu,\"lines\":[", lines.size());
  first = true;
  for (auto& n : lines) { fprintf(f, "%s%s", first ? "" : ",", js(n).c_str()); first = false; }
  fprintf(f, "],\n\"unmodelled\":[");
  first = true;
  for (auto& p : X.unmodelled) { fprintf(f, "%s%s", first ? "" : ",", js(p).c_str()); first = false; }
  fprintf(f, "],\n\"violations\":[");
  for (size_t i = 0; i < X.viol.size(); i++) {
    auto& v = X.viol[i];
    fprintf(f, "%s\n{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"stack\":[", i ? "," : "", js(v.kind).c_str(), js(v.msg).c_str(), js(v.loc).c_str());
    for (size_t k = 0; k < v.stack.size(); k++) fprintf(f, "%s%s", k ? "," : "", js(v.stack[k]).c_str());
    fprintf(f, "],\"sched\":[");
    for (size_t k = 0; k < v.sched.size(); k++) fprintf(f, "%s%s", k ? "," : "", js(v.sched[k]).c_str());
    fprintf(f, "],\"assign\":");
    pairs(f, v.assign, true);
    fprintf(f, "}");
  }
  fprintf(f, "],\n\"samples\":[");
  for (size_t i = 0; i < X.samples.size(); i++) {
    fprintf(f, "%s\n{\"assign\":", i ? "," : ""); pairs(f, X.samples[i].assign, true);
    fprintf(f, ",\"log\":"); pairs(f, X.samples[i].log, false); fprintf(f, ",\"sched\":[");
    for (size_t k = 0; k < X.samples[i].sched.size(); k++) fprintf(f, "%s%s", k ? "," : "", js(X.samples[i].sched[k]).c_str());
    fprintf(f, "]}");
  }
  fprintf(f, "]}\n");
  fclose(f);
  fflush(stdout);
  _exit(0);
}
