// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <optional>
#include <functional>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Kind : uint8_t {
  K_CONST, K_SYM, K_UF,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  // floating point, operands and results are bit patterns
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FREM, K_FSQRT, K_FMA,
  K_FOEQ, K_FOLT, K_FOLE, K_FUNO,          // 1-bit results
  K_FPTOSI, K_FPTOUI, K_SITOFP, K_UITOFP, K_FPEXT, K_FPTRUNC, K_FRINT
};

struct Expr;
typedef const Expr* E;
typedef std::vector<uint32_t> SymSet;   // sorted

struct Expr {
  Kind k; uint16_t w; uint32_t id; uint32_t aux;   // aux: extract offset / symbol id / uf id / rint mode
  u128 val; E a, b, c;
  std::vector<E> args;                             // K_UF only
  mutable const SymSet* syms = nullptr;
  mutable void* z3bv = nullptr; mutable void* z3fp = nullptr;
  mutable uint32_t tz = 0xffffffff;
  bool isConst() const { return k == K_CONST; }
  bool isTrue() const { return k == K_CONST && val == 1; }
  bool isFalse() const { return k == K_CONST && val == 0; }
};

inline u128 maskOf(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sx(u128 v, unsigned w) { if (w >= 128) return (s128)v; u128 m = (u128)1 << (w - 1); v &= maskOf(w); return (s128)((v ^ m) - m); }

struct SymInfo { std::string name; unsigned w; bool uninit; };
extern std::vector<SymInfo> g_syms;       // symbol id -> info
struct UFInfo { std::string name; };
extern std::vector<UFInfo> g_ufs;
extern uint64_t g_exprCount;

E mkConst(u128 v, unsigned w);
E mkSym(const std::string& name, unsigned w, bool uninit = false);
E mkUF(const std::string& name, unsigned w, const std::vector<E>& args);
E mkBin(Kind k, E a, E b);          // arithmetic/logic/compare
E mkIte(E c, E t, E f);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned off, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkNot(E a);                       // bitwise
inline E mkBool(bool b) { return mkConst(b, 1); }
inline E mkEq(E a, E b) { return mkBin(K_EQ, a, b); }
inline E mkAnd(E a, E b) { return mkBin(K_AND, a, b); }
inline E mkOr(E a, E b) { return mkBin(K_OR, a, b); }
inline E mkAdd(E a, E b) { return mkBin(K_ADD, a, b); }
inline E mkSub(E a, E b) { return mkBin(K_SUB, a, b); }
inline E mkMul(E a, E b) { return mkBin(K_MUL, a, b); }
inline E mkUlt(E a, E b) { return mkBin(K_ULT, a, b); }
inline E mkUle(E a, E b) { return mkBin(K_ULE, a, b); }
E mkFp(Kind k, E a, E b = nullptr, E c = nullptr, unsigned w = 0, unsigned aux = 0);
unsigned trailingZeros(E e);        // provable number of low zero bits

const SymSet* symsOf(E e);
std::string toStr(E e, int depth = 6);

// fold one operation on constants (shared by the simplifier and the evaluator)
bool foldOp(Kind k, unsigned w, unsigned aw, unsigned aux, u128 a, u128 b, u128 c, u128& out);

struct Model {
  std::unordered_map<uint32_t, u128> v;    // expr id of SYM / UF application -> value
};
// evaluate under a model; missing symbols are 0; a UF application without entry makes it fail
std::optional<u128> evalModel(E e, const Model& m);
