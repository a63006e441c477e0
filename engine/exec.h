#pragma once
#include "state.h"
#include "solver.h"
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <functional>
#include <chrono>
#include <cmath>
#include <cstring>
#include <algorithm>
struct PathEnd {};                 // thrown to end the current path
struct ErrorRec { std::string kind, msg, where; std::vector<std::string> stack; std::vector<std::pair<std::string, std::pair<unsigned, u128>>> inputs; std::vector<std::string> trace; uint64_t count = 1; };
struct Options {
  std::string entry = "harness"; uint64_t maxPaths = 2000000; uint64_t maxSteps = 20000000; double maxTime = 600; unsigned maxVisible = 400; unsigned maxErrors = 5; int preemptBound = -1; bool rr = false; bool uninitBranch = false; bool verbose = false; uint64_t part = 0, parts = 1; unsigned maxCand = 5000; bool spinCheck = true; bool weak = true; uint64_t maxMemMB = 12000; unsigned spinLimit = 6;
};
struct Stats { uint64_t paths = 0, complete = 0, infeasible = 0, errored = 0, pruned = 0, truncated = 0, instrs = 0, forks = 0, checks = 0, checksSolver = 0, visible = 0, memChecks = 0; };
class Exec {
public:
  Exec(llvm::Module* m, Options o);
  void run();
  void report(const std::string& outFile);
  Options opt; Stats st; std::vector<ErrorRec> errors; std::map<std::string, uint64_t> incomplete; std::map<std::string, uint64_t> reach; std::map<std::string, uint64_t> checkHits;
  double elapsed = 0;
private:
  typedef std::function<bool(State&, const llvm::CallBase*, std::vector<Val>&, Val&)> Handler;
  llvm::Module* mod; const llvm::DataLayout& DL;
  std::vector<std::unique_ptr<State>> work; uint64_t nextStateId = 1; std::vector<std::string> samples; std::vector<std::vector<std::pair<std::string, std::pair<unsigned, u128>>>> sampleInputs;
  llvm::DenseMap<const llvm::Function*, FuncInfo*> finfo; llvm::DenseMap<const llvm::Value*, uint64_t> gaddr; std::unordered_map<uint64_t, llvm::Function*> faddr;
  llvm::DenseMap<const llvm::Constant*, Val> constCache; std::unordered_map<std::string, Handler> ext; llvm::DenseMap<const llvm::Function*, Handler*> extCache;
  std::unordered_map<uint64_t, int> typeIds;
  struct GepInfo { uint64_t off; std::vector<std::pair<const llvm::Value*, uint64_t>> var; };
  llvm::DenseMap<const llvm::Value*, GepInfo*> gepCache;
  std::chrono::steady_clock::time_point t0;

  FuncInfo* info(llvm::Function* f);
  void setup(State& s);
  void writeConst(State& s, const llvm::Constant* c, Obj& o, uint64_t off);
  Val evalConst(const llvm::Constant* c);
  Val zeroVal(llvm::Type* t); Val undefVal(llvm::Type* t);
  Val eval(State& s, Frame& f, const llvm::Value* v);
  E evalE(State& s, Frame& f, const llvm::Value* v);
  void setReg(State& s, Frame& f, const llvm::Instruction* i, Val v);
  void loop(State& s);
  void step(State& s);
  void doCall(State& s, const llvm::CallBase* cb);
  void enter(State& s, llvm::Function* f, std::vector<Val>& args, const llvm::CallBase* cb);
  void doReturn(State& s, Val v, bool has);
  void advance(State& s, Frame& f);                 // to the next instruction, or an invoke's normal successor
  void jump(State& s, Frame& f, const llvm::BasicBlock* bb);
  void branch(State& s, E c, const llvm::BasicBlock* t, const llvm::BasicBlock* f);
  bool intrinsic(State& s, const llvm::CallBase* cb, llvm::Function* f, std::vector<Val>& a, Val& ret);
  void registerExternals();
  void unwind(State& s);
  bool catchMatch(const llvm::Constant* clause, uint64_t ti);
  Val fpUnary(State& s, const std::string& n, E a); 
  // memory
public:
  Obj* newObj(State& s, uint64_t size, ObjKind k, uint64_t align, const std::string& name);
  Obj* objRO(State& s, uint32_t id); Obj* objRW(State& s, uint32_t id);
  bool findObj(State& s, uint64_t addr, uint32_t& id);
  MByte getByte(State& s, Obj* o, uint64_t off);
  void setByte(Obj* o, uint64_t off, MByte b);
  E readC(State& s, uint32_t id, uint64_t off, unsigned n, bool track = true);
  void writeC(State& s, uint32_t id, uint64_t off, E v);
  struct Acc { uint32_t id; E off; uint64_t lo, hi; bool bytewise = false; uint64_t caddr = 0; };
  Acc resolve(State& s, E addr, uint64_t n, bool write);
  E load(State& s, E addr, unsigned n); void store(State& s, E addr, E v);
  Val loadT(State& s, E addr, llvm::Type* t); void storeT(State& s, E addr, Val v, llvm::Type* t);
  bool translate(State& s, uint64_t addr, bool write, uint32_t& id, uint64_t& off);
  std::string readStr(State& s, E addr);
  void copyMem(State& s, E dst, E src, uint64_t n);
  E simp(State& s, E e);
  // path conditions
  void addC(State& s, E c);
  bool may(State& s, E c, Model& m);      // satisfiable together with the path?
  void assume(State& s, E c);
  void check(State& s, E c, const std::string& kind, const std::string& msg);
  uint64_t concretize(State& s, E e);
  std::pair<u128, u128> range(State& s, E e);
  State* fork(State& s);
  void error(State& s, const std::string& kind, const std::string& msg, const Model* m = nullptr);
  void noteError(State& s, const std::string& kind, const std::string& msg, const Model& m);
  void incompletePath(State& s, const std::string& why);
  std::string where(State& s, std::vector<std::string>* stack);
  // threads
  bool multi(State& s); Op opOf(State& s, unsigned t); bool visibleInst(State& s, Thread& t, Op& op);
  void schedule(State& s); bool enabled(State& s, unsigned t, const Op& op);
  void raceCheck(State& s, uint32_t obj, uint64_t off, unsigned n, bool write);
  uint64_t atomLoc(State& s, E addr, unsigned n);
  E atomicLoad(State& s, E addr, unsigned n, llvm::AtomicOrdering o, bool rmw = false);
  void atomicStore(State& s, E addr, E v, unsigned n, llvm::AtomicOrdering o, bool rmw = false);
  void fence(State& s, llvm::AtomicOrdering o);
  void retVal(State& s, const llvm::CallBase* cb, Val v);
};
