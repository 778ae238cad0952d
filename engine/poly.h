// Polynomial / rational normal form of real expressions.
#pragma once
#include "expr.h"
#include <algorithm>

typedef std::vector<std::pair<int,int>> Mono;    // sorted (atom, exponent>0)
struct MonoH { size_t operator()(const Mono &m) const { u64 h=1469598103934665603ull; for(auto&p:m){ h=(h^(u64)p.first)*1099511628211ull; h=(h^(u64)p.second)*1099511628211ull; } return h; } };
struct Poly {
    std::unordered_map<Mono, mpq_class, MonoH> t;
    bool zero() const { return t.empty(); }
    bool isConst() const { return t.empty()||(t.size()==1&&t.begin()->first.empty()); }
    mpq_class constant() const { return t.empty()?mpq_class(0):t.begin()->second; }
    void add(const Mono&m,const mpq_class&c){ if(c==0) return; auto [it,ins]=t.emplace(m,c); if(!ins){ it->second+=c; if(it->second==0) t.erase(it);} }
    std::string key() const;
};
struct Frac { Poly n; std::vector<std::pair<int,int>> d; };  // n / prod factor_i^e_i

struct AtomInfo { Node *node; int sq; };  // sq: kind of reduction for squares: 0 none, 1 sqrt, 2 sin (sin^2 -> 1-cos^2), 3 cube root (cubes)
extern std::vector<AtomInfo> g_atoms;
extern std::vector<Poly> g_factors;
const Frac &normal(Node *r);
Poly padd(const Poly&a,const Poly&b,const mpq_class&s=1);
Poly pmul(const Poly&a,const Poly&b);
Poly denPoly(const Frac&f);
Frac fsub(const Frac&a,const Frac&b);
int atomOf(Node*n);
extern size_t g_poly_limit;
struct TooBig : std::runtime_error { using std::runtime_error::runtime_error; };
Poly lazyDiff(Node*a,Node*b);   // difference over definition atoms; the zero polynomial when it is recognised to vanish
bool polySqrt(const Poly&p,Poly&q);   // q*q==p modulo the algebraic relations of the atoms
Node*polyNode(const Poly&p);
struct Iv { bool lo,hi; mpq_class l,h; };
Iv polyIv(const Poly&p); Iv atomIv(int a);
