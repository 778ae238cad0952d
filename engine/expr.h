// Hash-consed symbolic expressions: bit-vectors (width 1..64) and exact reals.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <deque>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <memory>
#include <stdexcept>
#include <cmath>
#include <gmpxx.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef unsigned __int128 u128;
typedef __int128 i128;

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

enum Op : u8 {
    // bit-vectors
    O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_UREM, O_SDIV, O_SREM, O_AND, O_OR, O_XOR, O_NOT,
    O_SHL, O_LSHR, O_ASHR, O_EXTRACT, O_CONCAT, O_ZEXT, O_SEXT, O_ITE, O_EQ, O_ULT, O_ULE, O_SLT,
    O_SLE, O_F2B,
    // real predicates (width 1)
    O_RLT, O_RLE, O_REQ,
    // reals
    O_RCONST, O_RVAR, O_RADD, O_RSUB, O_RMUL, O_RDIV, O_RNEG, O_RFUN
};

enum Fun : u8 { F_SQRT, F_SIN, F_COS, F_TAN, F_EXP, F_LOG, F_ASIN, F_ACOS, F_ATAN, F_ATAN2, F_POW, F_SINH, F_COSH, F_TANH, F_CBRT, F_N };
extern const char *fun_names[];
extern std::unordered_map<struct Node*,struct Node*> g_hyp;   // radius sqrt(x^2+y^2) belonging to atan2(y,x)

struct Node {
    Op op;
    u8 w;        // width for bit-vectors (1 for booleans), 0 for reals
    u8 fun;      // for O_RFUN
    u32 id;
    u64 c;       // constant value / variable index / extract low bit
    Node *a, *b, *d;
    mpq_class *q;    // for O_RCONST
    u64 mask;    // variable-signature (bloom) for quick independence tests
    bool isReal() const { return w == 0; }
};

struct VarInfo { std::string name; bool real; u8 w; i64 lo, hi; mpq_class rlo, rhi; bool rbounded; Node *node; };
extern std::vector<VarInfo> g_vars;

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sext(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

Node *mkConst(u64 v, unsigned w);
Node *mkBin(Op op, Node *a, Node *b);          // BV binary (same widths) or predicate
Node *mkNot(Node *a);
Node *mkExtract(Node *a, unsigned lo, unsigned w);
Node *mkConcat(Node *hi, Node *lo);
Node *mkExt(Node *a, unsigned w, bool sgn);
Node *mkIte(Node *c, Node *a, Node *b);
Node *mkIntVar(const std::string &name, unsigned w, i64 lo, i64 hi);
Node *mkRealVar(const std::string &name, bool bounded, const mpq_class &lo, const mpq_class &hi);
Node *mkRConst(const mpq_class &q);
Node *mkRBin(Op op, Node *a, Node *b);
Node *mkRNeg(Node *a);
Node *mkRFun(Fun f, Node *a, Node *b = nullptr);
Node *mkRPred(Op op, Node *a, Node *b);
Node *mkF2B(Node *r);
std::string show(Node *n, int depth = 6);
Node *ddx(Node *y, Node *x);

inline double asD(u64 b) { double d; memcpy(&d, &b, 8); return d; }
inline u64 asU(double d) { u64 b; memcpy(&b, &d, 8); return b; }

struct Model { std::vector<mpq_class> r; std::vector<u64> i; std::vector<char> has; };
struct Evaluator {
    const Model *m; std::unordered_map<Node *, double> rd; std::unordered_map<Node *, u64> bv;
    explicit Evaluator(const Model *mm) : m(mm) {}
    double evalR(Node *n);
    u64 eval(Node *n);
};
void collectVars(Node *n, std::vector<int> &out);
const std::vector<int> &varsOf(Node *n);
size_t nodeCount();
