#include "poly.h"
std::vector<AtomInfo> g_atoms; std::vector<Poly> g_factors;
size_t g_poly_limit=60000;
static std::unordered_map<Node*,int> atomIdx; static std::unordered_map<std::string,int> factorIdx;
static std::unordered_map<Node*,Frac> memo;
static std::unordered_map<std::string,int> funIdx;
std::string Poly::key() const { std::vector<std::string> v; for(auto&[m,c]:t){ std::string s; for(auto&p:m) s+=std::to_string(p.first)+"^"+std::to_string(p.second)+"*"; s+=c.get_str(62); v.push_back(s);} std::sort(v.begin(),v.end()); std::string r; for(auto&s:v) r+=s+"+"; return r; }
int atomOf(Node*n){ auto it=atomIdx.find(n); if(it!=atomIdx.end()) return it->second; int i=g_atoms.size(); g_atoms.push_back({n,0}); atomIdx[n]=i; return i; }
Poly padd(const Poly&a,const Poly&b,const mpq_class&s){ Poly r=a; for(auto&[m,c]:b.t) r.add(m,mpq_class(c*s)); return r; }
static void pscale(Poly&p,const mpq_class&s){ if(s==0){p.t.clear();return;} for(auto&[m,c]:p.t) c*=s; }
static Mono mmul(const Mono&a,const Mono&b){ Mono r; r.reserve(a.size()+b.size()); size_t i=0,j=0; while(i<a.size()||j<b.size()){ if(j==b.size()||(i<a.size()&&a[i].first<b[j].first)) r.push_back(a[i++]); else if(i==a.size()||b[j].first<a[i].first) r.push_back(b[j++]); else { r.push_back({a[i].first,a[i].second+b[j].second}); i++;j++; } } return r; }
static bool needsReduce(const Mono&m){ for(auto&p:m) if(g_atoms[p.first].sq&&p.second>=(g_atoms[p.first].sq==3?3:2)) return true; return false; }
static Poly atomPoly(int a){ Poly p; p.add(Mono{{a,1}},1); return p; }
static Poly constPoly(const mpq_class&q){ Poly p; p.add(Mono{},q); return p; }
static Poly ppow(const Poly&p,int e){ Poly r=constPoly(1); for(int i=0;i<e;i++) r=pmul(r,p); return r; }
static Poly reduceMono(const Mono&m,const mpq_class&c);
Poly pmul(const Poly&a,const Poly&b){
    Poly r; std::vector<std::pair<Mono,mpq_class>> red;
    if(a.t.size()*b.t.size()>40*g_poly_limit) throw TooBig("polynomial too large");
    for(auto&[m,c]:a.t) for(auto&[n,d]:b.t){ Mono k=mmul(m,n); mpq_class q=c*d; if(needsReduce(k)) { Poly x=reduceMono(k,q); for(auto&[mm,cc]:x.t) r.add(mm,cc);} else r.add(k,q); }
    if(r.t.size()>g_poly_limit) throw TooBig("polynomial too large");
    return r;
}
static Poly reduceMono(const Mono&m,const mpq_class&c){
    Mono rest; Poly acc=constPoly(c);
    std::vector<std::pair<int,int>> todo;
    for(auto&p:m){ int k=g_atoms[p.first].sq==3?3:2; if(g_atoms[p.first].sq&&p.second>=k){ todo.push_back({p.first,p.second/k}); if(p.second%k) rest.push_back({p.first,p.second%k}); } else rest.push_back(p); }
    Poly rp; rp.add(rest,1); acc=pmul(acc,rp);
    for(auto&[a,e]:todo){ Poly sq; if(g_atoms[a].sq!=2){ sq=normal(g_atoms[a].node->a).n; /* sqrt atoms always have polynomial arguments */ }
        else { Poly c2; int ca=atomOf(mkRFun(F_COS,g_atoms[a].node->a)); c2.add(Mono{{ca,2}},1); sq=padd(constPoly(1),c2,-1);} 
        acc=pmul(acc,ppow(sq,e)); }
    return acc;
}
// canonical sign/scale: make the coefficient of the least monomial 1
static mpq_class makePrimitive(Poly&p){ const Mono*best=nullptr; const mpq_class*bc=nullptr; for(auto&[m,c]:p.t) if(!best||m<*best){best=&m;bc=&c;} mpq_class s=*bc; pscale(p,1/s); return s; }
static int factorOf(const Poly&p){ std::string k=p.key(); auto it=factorIdx.find(k); if(it!=factorIdx.end()) return it->second; int i=g_factors.size(); g_factors.push_back(p); factorIdx[k]=i; return i; }
static Mono content(const Poly&p){ Mono r; bool first=true; for(auto&[m,c]:p.t){ if(first){r=m;first=false;continue;} Mono x; size_t i=0,j=0; while(i<r.size()&&j<m.size()){ if(r[i].first<m[j].first)i++; else if(m[j].first<r[i].first)j++; else { x.push_back({r[i].first,std::min(r[i].second,m[j].second)}); i++;j++; } } r.swap(x); if(r.empty()) break; } return r; }
static Mono mdiv(const Mono&a,const Mono&b,bool&ok){ Mono r; size_t j=0; ok=true; for(auto&p:a){ if(j<b.size()&&b[j].first==p.first){ int e=p.second-b[j].second; if(e<0){ok=false;return r;} if(e) r.push_back({p.first,e}); j++; } else r.push_back(p);} if(j!=b.size()) ok=false; return r; }
// exact multivariate division a/b with lexicographic order; false if not exact
static bool pdiv(const Poly&a,const Poly&b,Poly&q){
    if(b.t.size()==1){ auto&[bm,bc]=*b.t.begin(); for(auto&[m,c]:a.t){ bool ok; Mono r=mdiv(m,bm,ok); if(!ok) return false; q.add(r,c/bc);} return true; }
    if(a.t.size()<b.t.size()) return false;
    if(a.t.size()*b.t.size()>2000000) return false;
    auto less=[](const Mono&x,const Mono&y){ // lex order on exponent vectors (atom 0 most significant)
        size_t i=0,j=0; while(true){ if(i==x.size()&&j==y.size()) return false; if(i==x.size()) return true; if(j==y.size()) return false; if(x[i].first!=y[j].first) return x[i].first>y[j].first; if(x[i].second!=y[j].second) return x[i].second<y[j].second; i++;j++; } };
    std::map<Mono,mpq_class,decltype(less)> rem(less); for(auto&[m,c]:a.t) rem.emplace(m,c);
    const Mono*lm=nullptr; const mpq_class*lc=nullptr; for(auto&[m,c]:b.t) if(!lm||less(*lm,m)){lm=&m;lc=&c;}
    for(auto&p:*lm) if(g_atoms[p.first].sq) return false;
    size_t steps=0; size_t cap=a.t.size()+50;
    while(!rem.empty()){ if(++steps>cap) return false; auto it=std::prev(rem.end()); bool ok; Mono d=mdiv(it->first,*lm,ok); if(!ok) return false; mpq_class k=it->second / *lc; q.add(d,k);
        for(auto&[m,c]:b.t){ Mono x=mmul(m,d); if(needsReduce(x)) return false; mpq_class v=c*k; auto [jt,ins]=rem.emplace(x,-v); if(!ins){ jt->second-=v; if(jt->second==0) rem.erase(jt);} } }
    return true;
}
static void normDen(Frac&f){ std::map<int,int> m; for(auto&[i,e]:f.d) m[i]+=e; f.d.assign(m.begin(),m.end()); }
static void cancel(Frac&f){
    if(f.n.zero()){ f.d.clear(); return; }
    for(size_t i=0;i<f.d.size();){ auto&[id,e]=f.d[i]; bool any=false; while(e>0){ Poly q; if(!pdiv(f.n,g_factors[id],q)) break; f.n.t.swap(q.t); e--; any=true; } (void)any; if(e==0) f.d.erase(f.d.begin()+i); else i++; }
}
static Poly factorPow(int id,int e){ return ppow(g_factors[id],e); }
static Frac fadd(const Frac&a,const Frac&b,const mpq_class&s){
    Frac r; std::map<int,int> ma(a.d.begin(),a.d.end()),mb(b.d.begin(),b.d.end()),l=ma; for(auto&[i,e]:mb) l[i]=std::max(l[i],e);
    Poly na=a.n,nb=b.n; for(auto&[i,e]:l){ int ea=e-(ma.count(i)?ma[i]:0),eb=e-(mb.count(i)?mb[i]:0); if(ea) na=pmul(na,factorPow(i,ea)); if(eb) nb=pmul(nb,factorPow(i,eb)); }
    r.n=padd(na,nb,s); r.d.assign(l.begin(),l.end()); if(r.n.zero()) r.d.clear(); else if(!a.d.empty()||!b.d.empty()) cancel(r); return r;
}
static Frac fmul(const Frac&a,const Frac&b){ Frac r;
    if(a.d.empty()&&b.d.empty()){ r.n=pmul(a.n,b.n); return r; }
    // cross-cancel before multiplying
    Frac x{a.n,b.d},y{b.n,a.d}; cancel(x); cancel(y); r.n=pmul(x.n,y.n); r.d=x.d; r.d.insert(r.d.end(),y.d.begin(),y.d.end()); normDen(r);
    bool red=false; for(auto&p:g_atoms) if(p.sq){red=true;break;} if(red) cancel(r); return r; }
static Frac finv(const Frac&a){
    if(a.n.zero()) throw Unsupported("division by zero polynomial");
    Frac r; r.n=constPoly(1); for(auto&[i,e]:a.d) r.n=pmul(r.n,factorPow(i,e));
    Poly p=a.n; Mono c=content(p); if(!c.empty()){ Poly q; Poly cm; cm.add(c,1); pdiv(p,cm,q); p.t.swap(q.t); }
    mpq_class s=makePrimitive(p); pscale(r.n,1/s);
    for(auto&[a0,e]:c){ if(g_atoms[a0].sq==1||g_atoms[a0].sq==3){ // 1/s^e = s^e / t^e for a square root, s^2e / t^e for a cube root
            bool cube=g_atoms[a0].sq==3;
            Poly t=normal(g_atoms[a0].node->a).n; Poly sp; sp.add(Mono{{a0,1}},1); r.n=pmul(r.n,ppow(sp,cube?2*e:e)); Poly tp=t; Mono tc=content(tp); if(!tc.empty()){ Poly q,cm; cm.add(tc,1); pdiv(tp,cm,q); tp.t.swap(q.t);} mpq_class ts=makePrimitive(tp); for(int k=0;k<e;k++) pscale(r.n,1/ts);
            if(!tp.isConst()) r.d.push_back({factorOf(tp),e}); for(auto&[a1,e1]:tc) r.d.push_back({factorOf(atomPoly(a1)),e*e1}); }
        else r.d.push_back({factorOf(atomPoly(a0)),e}); }
    for(size_t i=0,n=g_factors.size();i<n&&p.t.size()>2;i++){ const Poly&g=g_factors[i]; if(g.t.size()<2||g.t.size()>=p.t.size()) continue; Poly q; while(p.t.size()>=g.t.size()&&pdiv(p,g,q)){ p=q; q=Poly(); r.d.push_back({(int)i,1}); } }
    if(p.isConst()&&!p.zero()) pscale(r.n,1/p.constant());
    if(!p.isConst()) r.d.push_back({factorOf(p),1});
    normDen(r); cancel(r); return r;
}
Poly denPoly(const Frac&f){ Poly r=constPoly(1); for(auto&[i,e]:f.d) r=pmul(r,factorPow(i,e)); return r; }
Frac fsub(const Frac&a,const Frac&b){ return fadd(a,b,-1); }
// canonical node for a normalised fraction used as a function argument: reuse first node seen with the same normal form
static Node* canonArg(Node*n){ static std::unordered_map<std::string,Node*> seen; const Frac&f=normal(n); std::string k=f.n.key()+"/"; for(auto&[i,e]:f.d) k+=std::to_string(i)+"^"+std::to_string(e)+","; auto it=seen.find(k); if(it!=seen.end()) return it->second; seen[k]=n; return n; }
const Frac &normal(Node*r){
    auto it=memo.find(r); if(it!=memo.end()) return it->second;
    Frac f;
    switch(r->op){
    case O_RCONST: f.n=constPoly(*r->q); break;
    case O_RVAR: f.n=atomPoly(atomOf(r)); break;
    case O_RADD: { Frac a=normal(r->a),b=normal(r->b); f=fadd(a,b,1); break; }
    case O_RSUB: { Frac a=normal(r->a),b=normal(r->b); f=fadd(a,b,-1); break; }
    case O_RNEG: f=normal(r->a); pscale(f.n,-1); break;
    case O_RMUL: { if(r->a==r->b&&r->a->op==O_RFUN&&r->a->fun==F_SQRT){ f=normal(r->a->a); break; } Frac a=normal(r->a),b=normal(r->b); f=fmul(a,b); break; }
    case O_RDIV: { Frac a=normal(r->a),b=finv(normal(r->b)); f=fmul(a,b); break; }
    case O_RFUN: {
        Node*arg=canonArg(r->a); Node*arg2=r->b?canonArg(r->b):nullptr;
        if(r->fun==F_SQRT){
            Frac af=normal(arg);
            // sqrt(N/D) = sqrt(N*D)/D   (valid for D>0; D is a product of squares times factors; keep exact by using N*D/D^2 with |D|: only done for D with even powers or when D has known positive sign)
            if(af.d.empty()&&af.n.isConst()){ mpq_class q=af.n.constant(); if(q>=0){ mpz_class a=q.get_num(),b=q.get_den(); if(mpz_perfect_square_p(a.get_mpz_t())&&mpz_perfect_square_p(b.get_mpz_t())){ f.n=constPoly(mpq_class(sqrt(a),sqrt(b))); break; } } }
            if(!af.d.empty()){ Poly D=denPoly(af); Iv v=polyIv(D); if(v.lo&&v.l>0){ Node*root=mkRFun(F_SQRT,polyNode(pmul(af.n,D))); Frac x=normal(root),y; Frac dd; dd.n=D; y=finv(dd); f=fmul(x,y); break; } }
            Node*nn=mkRFun(F_SQRT,arg); int a=atomOf(nn); if(af.d.empty()) g_atoms[a].sq=1; f.n=atomPoly(a); break; }
        if(r->fun==F_POW&&r->b->op==O_RCONST&&r->b->q->get_den()==1){ int e=r->b->q->get_num().get_si(); Frac base=normal(arg); if(e<0){ base=finv(base); e=-e; } f.n=constPoly(1); for(int i=0;i<e;i++) f=fmul(f,base); break; }
        if(arg->op==O_RNEG||true){ // parity normalisation through sign of the leading coefficient
            if((r->fun==F_SIN||r->fun==F_COS)&&!arg2){ Frac af=normal(arg); if(!af.n.zero()){ const Mono*best=nullptr; const mpq_class*bc=nullptr; for(auto&[m,c]:af.n.t) if(!best||m<*best){best=&m;bc=&c;} if(*bc<0){ Node*neg=canonArg(mkRNeg(arg)); const Frac&x=normal(mkRFun((Fun)r->fun,neg)); f=x; if(r->fun==F_SIN) pscale(f.n,-1); break; } } } }
        Node*nn=mkRFun((Fun)r->fun,arg,arg2); if(nn!=r&&nn->op!=O_RFUN){ f=normal(nn); break; }
        int a=atomOf(nn); if(r->fun==F_SIN) { g_atoms[a].sq=2; } if(r->fun==F_CBRT&&normal(arg).d.empty()) g_atoms[a].sq=3; f.n=atomPoly(a); break; }
    default: throw Unsupported("normal form of non-real node");
    }
    return memo.emplace(r,std::move(f)).first->second;
}

// ---- lazy normal form: reciprocals and large sums of function values become definition atoms, and are only
// expanded where that is needed to see that a polynomial vanishes
struct Def { int kind; Poly p; };   // 1: atom = 1/p   2: atom = p
static std::map<int,Def> defs; static std::map<std::string,int> defIdx;
static std::unordered_map<Node*,Poly> lmemo;
static int newDef(int kind,const Poly&p){ std::string k=std::to_string(kind)+":"+p.key(); auto it=defIdx.find(k); if(it!=defIdx.end()) return it->second; int i=g_atoms.size(); g_atoms.push_back({nullptr,0}); defs[i]={kind,p}; defIdx[k]=i; return i; }
static const Poly&lazyN(Node*r);
static Poly lazyInv(Node*r){
    if(r->op==O_RMUL) return pmul(lazyInv(r->a),lazyInv(r->b));
    if(r->op==O_RDIV) return pmul(lazyInv(r->a),lazyN(r->b));
    if(r->op==O_RNEG){ Poly p=lazyInv(r->a); pscale(p,-1); return p; }
    Poly b=lazyN(r); if(b.zero()) throw Unsupported("division by zero polynomial");
    if(b.isConst()) return constPoly(1/b.constant());
    Mono c=content(b); Poly q=b; if(!c.empty()){ q=Poly(); Poly cm; cm.add(c,1); pdiv(b,cm,q); }
    mpq_class s=makePrimitive(q); Poly d=constPoly(1/s);
    for(auto&[x,e]:c) d=pmul(d,defs.count(x)&&defs[x].kind==1? ppow(defs[x].p,e) : ppow(atomPoly(newDef(1,atomPoly(x))),e));
    std::vector<std::pair<int,Poly>> known; if(q.t.size()>2) for(auto&[i,f]:defs) if(f.kind==1&&f.p.t.size()>=2&&f.p.t.size()<q.t.size()) known.push_back({i,f.p});
    for(auto&[i,f]:known){ Poly t; while(q.t.size()>=f.t.size()&&pdiv(q,f,t)){ q=t; t=Poly(); d=pmul(d,atomPoly(i)); } }
    if(q.isConst()) pscale(d,1/q.constant()); else d=pmul(d,atomPoly(newDef(1,q)));
    return d;
}
static const Poly&lazyN(Node*r){
    auto it=lmemo.find(r); if(it!=lmemo.end()) return it->second;
    Poly f;
    switch(r->op){
    case O_RCONST: f=constPoly(*r->q); break;
    case O_RVAR: f=atomPoly(atomOf(r)); break;
    case O_RADD: f=padd(lazyN(r->a),lazyN(r->b),1); break;
    case O_RSUB: f=padd(lazyN(r->a),lazyN(r->b),-1); break;
    case O_RNEG: f=lazyN(r->a); pscale(f,-1); break;
    case O_RMUL: f=pmul(lazyN(r->a),lazyN(r->b)); break;
    case O_RDIV: f=pmul(lazyN(r->a),lazyInv(r->b)); break;
    case O_RFUN: { if(r->fun==F_POW&&r->b&&r->b->op==O_RCONST&&r->b->q->get_den()==1&&*r->b->q>=0){ f=ppow(lazyN(r->a),r->b->q->get_num().get_si()); break; }
        try { const Frac&x=normal(r); if(x.d.empty()) f=x.n; else { f=x.n; for(auto&[i,e]:x.d) f=pmul(f,ppow(atomPoly(newDef(1,g_factors[i])),e)); } } catch(TooBig&){ f=atomPoly(atomOf(r)); } break; }
    default: throw Unsupported("normal form of non-real node");
    }
    if((r->op==O_RADD||r->op==O_RSUB)&&f.t.size()>=16){ bool fun=false; for(auto&[m,c]:f.t){ for(auto&p:m) if(g_atoms[p.first].node&&g_atoms[p.first].node->op==O_RFUN){fun=true;break;} if(fun) break; } bool small=true; for(auto&[m,c]:f.t) for(auto&p:m) if(defs.count(p.first)) small=false;
        if(fun&&small){ Poly g=f; mpq_class s=makePrimitive(g); f=atomPoly(newDef(2,g)); pscale(f,s); } }
    return lmemo.emplace(r,std::move(f)).first->second;
}
// is p zero once the definitions in `open` are expanded (the others stay opaque)?
static bool zeroWith(Poly p,const std::vector<int>&open){
    for(int a:open){ Def&d=defs[a]; if(d.kind!=2) continue; Poly r; for(auto&[m,c]:p.t){ Mono k; int e=0; for(auto&x:m) if(x.first==a) e=x.second; else k.push_back(x); Poly q; q.add(k,c); if(e) q=pmul(q,ppow(d.p,e)); r=padd(r,q); } p=r; if(p.zero()) return true; }
    for(int a:open){ Def&d=defs[a]; if(d.kind!=1) continue; int mx=0; for(auto&[m,c]:p.t) for(auto&x:m) if(x.first==a) mx=std::max(mx,x.second); if(!mx) continue; std::map<int,Poly> g; for(auto&[m,c]:p.t){ Mono k; int e=0; for(auto&x:m) if(x.first==a) e=x.second; else k.push_back(x); g[mx-e].add(k,c); } Poly r; for(auto&[e,q]:g) r=padd(r,pmul(q,ppow(d.p,e))); p=r; if(p.zero()) return true; }
    return p.zero();
}
Poly lazyDiff(Node*a,Node*b){
    Poly p=padd(lazyN(a),lazyN(b),-1); if(p.zero()) return p;
    std::vector<int> ds; for(auto&[m,c]:p.t) for(auto&x:m) if(defs.count(x.first)&&std::find(ds.begin(),ds.end(),x.first)==ds.end()) ds.push_back(x.first);
    std::sort(ds.begin(),ds.end()); if(ds.size()>6) ds.resize(6);
    if(getenv("SX_LAZY")){ fprintf(stderr,"lazy: %zu terms, defs:",p.t.size()); for(int a:ds) fprintf(stderr," %d:%zu",defs[a].kind,defs[a].p.t.size()); fprintf(stderr,"\n"); }
    std::vector<int> masks; for(int m=1;m<(1<<ds.size());m++) masks.push_back(m); std::stable_sort(masks.begin(),masks.end(),[](int x,int y){return __builtin_popcount(x)<__builtin_popcount(y);});
    for(int m:masks){ std::vector<int> o; for(size_t i=0;i<ds.size();i++) if(m>>i&1) o.push_back(ds[i]); try { if(zeroWith(p,o)) return Poly(); } catch(TooBig&){} }
    return p;
}

Node*polyNode(const Poly&p){ Node*r=mkRConst(0); std::vector<std::pair<Mono,mpq_class>> l(p.t.begin(),p.t.end()); std::sort(l.begin(),l.end(),[](auto&x,auto&y){return x.first<y.first;}); for(auto&[m,c]:l){ Node*k=mkRConst(c); for(auto&[a,e]:m) for(int i=0;i<e;i++) k=mkRBin(O_RMUL,k,g_atoms[a].node); r=mkRBin(O_RADD,r,k); } return r; }
// square root of a polynomial over free atoms (no relation applied)
static bool rawSqrt(const Poly&p,Poly&q){
    auto less=[](const Mono&x,const Mono&y){ size_t i=0,j=0; while(true){ if(i==x.size()&&j==y.size()) return false; if(i==x.size()) return true; if(j==y.size()) return false; if(x[i].first!=y[j].first) return x[i].first>y[j].first; if(x[i].second!=y[j].second) return x[i].second<y[j].second; i++;j++; } };
    std::map<Mono,mpq_class,decltype(less)> rem(less); for(auto&[m,c]:p.t) rem.emplace(m,c); if(rem.empty()) return false;
    auto top=std::prev(rem.end()); Mono lm=top->first; for(auto&x:lm){ if(x.second&1) return false; x.second/=2; } mpq_class lc=top->second; if(lc<0||!mpz_perfect_square_p(lc.get_num().get_mpz_t())||!mpz_perfect_square_p(lc.get_den().get_mpz_t())) return false; lc=mpq_class(sqrt(lc.get_num()),sqrt(lc.get_den()));
    q=Poly(); auto sub=[&](const Mono&m,const mpq_class&v){ auto [jt,ins]=rem.emplace(m,-v); if(!ins){ jt->second-=v; if(jt->second==0) rem.erase(jt); } };
    std::vector<std::pair<Mono,mpq_class>> ts; Mono m=lm; mpq_class c=lc; size_t cap=p.t.size()+4;
    while(true){ for(auto&[n,d]:ts) sub(mmul(n,m),mpq_class(2*d*c)); sub(mmul(m,m),mpq_class(c*c)); ts.push_back({m,c}); q.add(m,c); if(rem.empty()) return true; if(ts.size()>cap) return false;
        auto it=std::prev(rem.end()); bool ok; m=mdiv(it->first,lm,ok); if(!ok) return false; c=it->second/(2*lc); if(!less(m,ts.back().first)) return false; }
}
bool polySqrt(const Poly&p,Poly&q){
    if(p.t.size()>200||p.zero()) return false;
    if(rawSqrt(p,q)&&padd(pmul(q,q),p,-1).zero()) return true;
    // cosines in p may hide 1-sin^2: write chosen arguments through the sine instead
    std::vector<int> cs; for(auto&[m,c]:p.t) for(auto&x:m){ Node*n=g_atoms[x.first].node; if(n&&n->op==O_RFUN&&n->fun==F_COS&&x.second>=2&&std::find(cs.begin(),cs.end(),x.first)==cs.end()) cs.push_back(x.first); }
    if(cs.size()>4) return false;
    for(int k=1;k<(1<<cs.size());k++){ Poly cur=p; for(size_t i=0;i<cs.size();i++) if(k>>i&1){ Node*sn=mkRFun(F_SIN,g_atoms[cs[i]].node->a); normal(sn); int sa=atomOf(sn); Poly r; for(auto&[m,c]:cur.t){ Mono rest; int e=0; for(auto&x:m) if(x.first==cs[i]) e=x.second; else rest.push_back(x); if(e&1){ Mono one{{cs[i],1}}; rest=mmul(rest,one); } e/=2; mpq_class b=1; for(int j=0;j<=e;j++){ Mono s2; if(j) s2.push_back({sa,2*j}); r.add(mmul(rest,s2),mpq_class(c*b*((j&1)?-1:1))); b=b*(e-j)/(j+1); } } cur=r; }
        if(rawSqrt(cur,q)){ Poly red; red.add(Mono{},1); q=pmul(q,red); if(padd(pmul(q,q),p,-1).zero()) return true; } }
    return false;
}
