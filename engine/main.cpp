#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/resource.h>
#include <csignal>
using namespace llvm;
int main(int argc, char** argv) {
  Options o; std::string out = "-"; std::vector<std::string> files; 
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto val = [&]() { return std::string(argv[++i]); };
    if (a == "-entry") o.entry = val(); else if (a == "-o") out = val(); else if (a == "-max-time") o.maxTime = std::stod(val()); else if (a == "-max-paths") o.maxPaths = std::stoull(val()); else if (a == "-max-steps") o.maxSteps = std::stoull(val()); else if (a == "-max-visible") o.maxVisible = std::stoul(val()); else if (a == "-max-errors") o.maxErrors = std::stoul(val()); else if (a == "-rr") { o.rr = true; o.spinCheck = false; } else if (a == "-preempt") o.preemptBound = std::stoi(val()); else if (a == "-fp-uf") g_fpUF = true; else if (a == "-uninit-branch") o.uninitBranch = true; else if (a == "-query-ms") g_queryTimeoutMs = std::stoul(val()); else if (a == "-v") o.verbose = true; else if (a == "-part") o.part = std::stoull(val()); else if (a == "-parts") o.parts = std::stoull(val()); else if (a == "-max-cand") o.maxCand = std::stoul(val()); else if (a == "-spin") o.spinLimit = std::stoul(val()); else if (a == "-sc") o.weak = false; else if (a == "-mem") o.maxMemMB = std::stoull(val()); else files.push_back(a); }
  signal(SIGTERM, [](int) { g_stop = 1; });   // wrap up: report what has been explored
  struct rlimit rl{1ull << 30, 1ull << 30}; setrlimit(RLIMIT_STACK, &rl);
  LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> m;
  for (auto& f : files) { auto x = parseIRFile(f, err, ctx); if (!x) { err.print("clsym", errs()); return 3; } if (!m) m = std::move(x); else if (Linker::linkModules(*m, std::move(x))) { fprintf(stderr, "link failed\n"); return 3; } }
  Exec ex(m.get(), o); ex.run(); ex.report(out);
  fprintf(stderr, "%s: %llu paths (%llu complete), %llu checks, %llu queries (%.1fs), %zu errors, %zu incomplete kinds, %.1fs\n", o.entry.c_str(), (unsigned long long)ex.st.paths, (unsigned long long)ex.st.complete, (unsigned long long)ex.st.checks, (unsigned long long)g_sstats.queries, g_sstats.time, ex.errors.size(), ex.incomplete.size(), ex.elapsed);
  fflush(nullptr); _exit(ex.errors.empty() ? (ex.incomplete.empty() ? 0 : 2) : 1);
}
