#pragma once
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/ADT/DenseMap.h>
#include <map>
#include <set>
#include <memory>
#include <array>

struct Val { E e = nullptr; std::shared_ptr<std::vector<Val>> agg; Val() {} Val(E x) : e(x) {} };

struct MByte { E e; uint32_t v; };          // e==nullptr: concrete byte v (256 = uninitialised); else byte v of e
static const unsigned PAGE = 64;
struct Page { MByte b[PAGE]; };
enum ObjKind : uint8_t { OK_GLOBAL, OK_STACK, OK_HEAP, OK_FILE, OK_FUNC, OK_EXC };
struct Obj {
  uint64_t base, size; ObjKind kind; bool readonly = false, alive = true; uint16_t fill = 256; std::string name; uint8_t allocFn = 0; uint32_t id = 0;
  std::vector<std::shared_ptr<Page>> pages;
};
struct Chunk { std::array<std::shared_ptr<Obj>, 64> o; };
struct Region { uint64_t len; int32_t obj; uint64_t off; bool access; };   // obj -1: reserved without access

struct FuncInfo { llvm::Function* f; llvm::DenseMap<const llvm::Value*, unsigned> slot; unsigned nslots = 0; std::string name; uint64_t calls = 0; bool harness = false; std::string file; };
struct Frame {
  FuncInfo* fi; const llvm::Instruction* pc; const llvm::BasicBlock* prev = nullptr; std::vector<Val> regs; std::vector<uint32_t> allocas; std::vector<Val> varargs; const llvm::CallBase* call = nullptr;
  bool atexitLike = false;
};
typedef std::vector<uint32_t> VC;
enum OpT : uint8_t { OP_NONE, OP_LOAD, OP_STORE, OP_FENCE, OP_JOIN, OP_LOCK, OP_YIELD, OP_OTHER };
struct Op { OpT t = OP_NONE; uint64_t loc = 0; };
struct Thread {
  std::vector<Frame> stack; VC vc; VC acqPending, relFence; bool finished = false; uint64_t yieldedAt = ~0ull; bool yielded = false;
  std::vector<std::pair<uint64_t, uint64_t>> caught;  // (exception ptr, typeinfo)
  uint64_t curExc = 0, curTi = 0;
  std::map<uint64_t, int> lastRead;      // atomic location -> index of the store last read
  std::map<uint64_t, int> spin;          // repeated identical reads
};
struct StoreRec { E val; VC rel; uint32_t tid; uint32_t epoch; bool sc; };
struct AtomicLoc { std::vector<StoreRec> h; unsigned size; };
struct RaceRec { uint32_t wt = 0xffff, we = 0; std::vector<std::pair<uint32_t, uint32_t>> reads; bool watomic = false; };
struct Input { std::string name; E e; };
struct State {
  std::vector<std::shared_ptr<Chunk>> chunks; uint32_t nobj = 0; uint64_t nextAddr = 0x100000;
  std::map<uint64_t, Region> maps; uint64_t nextMap = 0x700000000000ull;
  std::vector<Thread> th; unsigned cur = 0; bool scheduled = false; std::vector<std::pair<unsigned, Op>> sleep; uint64_t storeCount = 0; unsigned visible = 0; unsigned preempt = 0;
  std::vector<E> cs; std::unordered_set<E> csSet; std::shared_ptr<Model> model; std::unordered_map<E, E> known;
  std::vector<Input> inputs; std::map<uint64_t, AtomicLoc> atoms; std::unordered_map<uint64_t, RaceRec> race; bool everMulti = false;
  std::map<uint64_t, std::pair<int, VC>> mutexes;   // addr -> owner (-1 free), clock
  uint64_t steps = 0; unsigned forks = 0; std::vector<std::string> reached; std::vector<std::string> trace; std::map<std::string, unsigned> nameCount;
  uint64_t id = 0; std::string label; int forced = -1; uint64_t liveHeap = 0, heapBytes = 0; std::map<uint64_t, uint64_t> userKV;
};
