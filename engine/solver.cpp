#include "solver.h"
#include <chrono>
SolverStats g_st;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
Solver::Solver():bv(c,"QF_BV"){ z3::params p(c); p.set("timeout",bvTimeout); bv.set(p); }
static bool hasReal(Node*n){ static std::unordered_map<Node*,bool> m; if(n->isReal()) return true; auto it=m.find(n); if(it!=m.end()) return it->second; bool r=false; for(Node*k:{n->a,n->b,n->d}) if(k&&hasReal(k)){r=true;break;} m[n]=r; return r; }
z3::expr Solver::tr(Node*n){
    auto it=memo.find(n); if(it!=memo.end()) return it->second;
    z3::expr r(c);
    auto B=[&](z3::expr e){ return z3::ite(e,c.bv_val(1,1),c.bv_val(0,1)); };
    auto A=[&]{return tr(n->a);}; auto Bx=[&]{return tr(n->b);};
    switch(n->op){
    case O_CONST: r=c.bv_val((uint64_t)n->c,n->w); break;
    case O_VAR: r=c.bv_const(("v"+std::to_string(n->c)).c_str(),n->w); break;
    case O_ADD: r=A()+Bx(); break; case O_SUB: r=A()-Bx(); break; case O_MUL: r=A()*Bx(); break;
    case O_UDIV: r=z3::udiv(A(),Bx()); break; case O_UREM: r=z3::urem(A(),Bx()); break;
    case O_SDIV: r=A()/Bx(); break; case O_SREM: r=z3::srem(A(),Bx()); break;
    case O_AND: r=A()&Bx(); break; case O_OR: r=A()|Bx(); break; case O_XOR: r=A()^Bx(); break; case O_NOT: r=~A(); break;
    case O_SHL: r=z3::shl(A(),Bx()); break; case O_LSHR: r=z3::lshr(A(),Bx()); break; case O_ASHR: r=z3::ashr(A(),Bx()); break;
    case O_EXTRACT: r=A().extract(n->c+n->w-1,n->c); break; case O_CONCAT: r=z3::concat(A(),Bx()); break;
    case O_ZEXT: r=z3::zext(A(),n->w-n->a->w); break; case O_SEXT: r=z3::sext(A(),n->w-n->a->w); break;
    case O_ITE: r=z3::ite(A()==c.bv_val(1,1),Bx(),tr(n->d)); break;
    case O_EQ: r=B(A()==Bx()); break; case O_ULT: r=B(z3::ult(A(),Bx())); break; case O_ULE: r=B(z3::ule(A(),Bx())); break;
    case O_SLT: r=B(z3::slt(A(),Bx())); break; case O_SLE: r=B(z3::sle(A(),Bx())); break;
    default: throw Unsupported("solver translation of real node in BV query");
    }
    memo.emplace(n,r); return r;
}
Res Solver::checkBV(const std::vector<Node*>&pc, Node*goal, const Model&cur, Model&out){
    // (re)declare variable ranges at the base level
    if(ndecl<(int)g_vars.size()){
        bv.pop(stack.size()); stack.clear();
        for(;ndecl<(int)g_vars.size();ndecl++){ auto&v=g_vars[ndecl]; if(v.real) continue; z3::expr e=tr(v.node); bv.add(z3::sle(c.bv_val((int64_t)v.lo,v.w),e)); bv.add(z3::sle(e,c.bv_val((int64_t)v.hi,v.w))); }
    }
    std::vector<Node*> want; for(Node*n:pc) if(!hasReal(n)) want.push_back(n);
    size_t k=0; while(k<stack.size()&&k<want.size()&&stack[k]==want[k]) k++;
    if(stack.size()>k){ bv.pop(stack.size()-k); stack.resize(k); }
    for(;k<want.size();k++){ bv.push(); bv.add(tr(want[k])==c.bv_val(1,1)); stack.push_back(want[k]); }
    bv.push(); bv.add(tr(goal)==c.bv_val(1,1)); g_st.bvq++;
    z3::check_result r=bv.check(); Res res= r==z3::sat?SAT:r==z3::unsat?UNSAT:UNKNOWN;
    if(res==SAT){ z3::model m=bv.get_model(); out=cur; out.i.resize(g_vars.size(),0); out.r.resize(g_vars.size()); out.has.resize(g_vars.size(),0);
        for(size_t i=0;i<g_vars.size();i++) if(!g_vars[i].real){ z3::expr e=m.eval(tr(g_vars[i].node),true); uint64_t v; if(Z3_get_numeral_uint64(c,e,&v)){ out.i[i]=v; out.has[i]=1; } } }
    bv.pop(); return res;
}

static Iv ivMul(const Iv&a,const Iv&b){ if(!a.lo||!a.hi||!b.lo||!b.hi) return {false,false,0,0}; mpq_class p[4]={a.l*b.l,a.l*b.h,a.h*b.l,a.h*b.h}; Iv r{true,true,p[0],p[0]}; for(int i=1;i<4;i++){ if(p[i]<r.l) r.l=p[i]; if(p[i]>r.h) r.h=p[i]; } return r; }
static Iv monoIv(const Mono&m){ Iv r{true,true,1,1}; for(auto&[a,e]:m){ Iv x=atomIv(a); Iv p{true,true,1,1}; for(int i=0;i<e;i++) p=ivMul(p,x); if(e%2==0){ if(p.lo){ if(p.l<0) p.l=0; } else { p.lo=true; p.l=0; } if(x.lo&&x.l>0&&p.lo){ } } 
        if(m.size()==1){ return p; } r=ivMul(r,p); } return r; }
static Iv sumIv(const Poly&p){ Iv r{true,true,0,0}; for(auto&[m,c]:p.t){ Iv x=monoIv(m); Iv k{true,true,c,c}; Iv y=ivMul(x,k); if(!y.lo) r.lo=false; else r.l+=y.l; if(!y.hi) r.hi=false; else r.h+=y.h; } return r; }
static Iv meet(const Iv&a,const Iv&b){ Iv r=a; if(b.lo&&(!r.lo||b.l>r.l)){ r.lo=true; r.l=b.l; } if(b.hi&&(!r.hi||b.h<r.h)){ r.hi=true; r.h=b.h; } return r; }
// M - M cos^2 is M sin^2: the normal form replaces squares of sines, which loses their sign
static bool sinSquares(const Poly&p,Poly&q){
    bool any=false; if(p.t.size()>300) return false;
    auto isCos=[](int a,int e){ Node*n=g_atoms[a].node; return e>=2&&n&&n->op==O_RFUN&&n->fun==F_COS; };
    { bool cand=false; for(auto&[m,c]:p.t) for(auto&[a,e]:m) if(isCos(a,e)) cand=true; if(!cand) return false; }
    q=p;
    for(bool ch=true;ch;){ ch=false;
        for(auto&[m,c]:q.t){ for(size_t i=0;i<m.size()&&!ch;i++) if(isCos(m[i].first,m[i].second)){
                Mono M=m; if((M[i].second-=2)==0) M.erase(M.begin()+i);
                auto it=q.t.find(M); if(it==q.t.end()||sgn(it->second)==sgn(c)) continue;
                mpq_class k=abs(c)<abs(it->second)?mpq_class(abs(c)):mpq_class(abs(it->second)); if(sgn(it->second)<0) k=-k;
                Mono mm=m,S=M; int sa=atomOf(mkRFun(F_SIN,g_atoms[m[i].first].node->a)); bool in=false; for(auto&x:S) if(x.first==sa){ x.second+=2; in=true; } if(!in){ S.push_back({sa,2}); std::sort(S.begin(),S.end()); }
                q.add(M,-k); q.add(mm,k); q.add(S,k); ch=any=true; }
            if(ch) break; } }
    return any; }
Iv polyIv(const Poly&p){ Iv r=sumIv(p); Poly q; if(sinSquares(p,q)) r=meet(r,sumIv(q)); return r; }
static Iv atomIv1(int a);
Iv atomIv(int a){ static std::unordered_map<int,Iv> memo; auto it=memo.find(a); if(it!=memo.end()) return it->second; Iv r=atomIv1(a); memo.emplace(a,r); return r; }
static Iv atomIv1(int a){ Node*n=g_atoms[a].node; if(!n) return {false,false,0,0}; if(n->op==O_RVAR){ auto&v=g_vars[n->c]; return {v.rbounded,v.rbounded,v.rlo,v.rhi}; }
    if(n->op==O_RFUN) switch(n->fun){ case F_SIN: case F_COS: { const Frac&f=normal(n->a); if(f.d.empty()){ Iv t=polyIv(f.n); if(t.lo&&t.hi&&t.h-t.l<7){ // range over the argument's interval, rounded outwards
                double l=t.l.get_d()-1e-12,h=t.h.get_d()+1e-12,sh=n->fun==F_COS?M_PI/2:0; double a0=sin(l+sh),b0=sin(h+sh),mn=std::min(a0,b0),mx=std::max(a0,b0); if(fabs(l)<1e6) { for(double k=std::floor((l+sh)/(M_PI/2))-1;k*(M_PI/2)<=h+sh+1e-9;k++){ double x=k*M_PI/2; if(x<l+sh-1e-9) continue; int q=((int)k%4+4)%4; if(q==1) mx=1; if(q==3) mn=-1; } mn=std::max(-1.0,mn-1e-12); mx=std::min(1.0,mx+1e-12); return {true,true,mpq_class(mn),mpq_class(mx)}; } } } return {true,true,-1,1}; }
        case F_TANH: return {true,true,-1,1}; case F_ATAN: case F_ASIN: return {true,true,mpq_class(-1.570796326794897),mpq_class(1.570796326794897)}; case F_ACOS: return {true,true,0,mpq_class(3.1415926535897936)};
        case F_ATAN2: { const Frac&f=normal(n->a); Iv t=polyIv(f.n); bool up=f.d.empty()&&t.lo&&t.l>=0; const Frac&g=normal(n->b); Iv u=polyIv(g.n); bool right=g.d.empty()&&u.lo&&u.l>=0; mpq_class m(right?1.570796326794897:3.1415926535897936); return {true,true,up?mpq_class(0):mpq_class(-m),m}; }
        case F_CBRT: { const Frac&f=normal(n->a); if(f.d.empty()){ Iv t=polyIv(f.n); if(t.lo&&t.hi) return {true,true,mpq_class(cbrt(t.l.get_d())-1e-9),mpq_class(cbrt(t.h.get_d())+1e-9)}; } return {false,false,0,0}; }
        case F_EXP: { const Frac&f=normal(n->a); if(f.d.empty()){ Iv t=polyIv(f.n); if(t.hi){ double s=exp(t.h.get_d()); if(std::isfinite(s)) return {true,true,0,mpq_class(s*1.0001+1)}; } } return {true,false,0,0}; }
        case F_COSH: return {true,false,1,0};
        case F_SQRT: { const Frac&f=normal(n->a); if(f.d.empty()){ Iv t=polyIv(f.n); if(t.hi&&t.h>=0){ double s=sqrt(t.h.get_d())*1.0001+1e-9; double l=t.lo&&t.l>0?sqrt(t.l.get_d())*0.9999:0; return {true,true,mpq_class(l),mpq_class(s)}; } } return {true,false,0,0}; } default: break; }
    return {false,false,0,0}; }

struct Solver::Tr {
    Solver&S; z3::solver&s; bool lin; std::map<Mono,z3::expr> monos; std::vector<char> atomDone; std::unordered_map<Node*,z3::expr> bm; std::vector<Iv> dummy; std::set<int> nz; bool approx=false,lazy=false; // approx: uninterpreted atoms present
    Tr(Solver&SS,z3::solver&ss,bool l):S(SS),s(ss),lin(l){}
    z3::context&c(){return S.c;}
    z3::expr num(const mpq_class&q){ return c().real_val(q.get_str().c_str()); }
    z3::expr atom(int a){ std::string nm="a"+std::to_string(a); z3::expr e=c().real_const(nm.c_str()); if((int)atomDone.size()<=a) atomDone.resize(a+1,0); if(!atomDone[a]){ atomDone[a]=1; Iv v=atomIv(a); if(v.lo) s.add(e>=num(v.l)); if(v.hi) s.add(e<=num(v.h));
            Node*n=g_atoms[a].node; if(!n) approx=true; else if(n->op==O_RFUN){ if(n->fun!=F_SQRT&&n->fun!=F_CBRT) approx=true; if(n->fun==F_EXP) s.add(e>0); if(!lin){ if(n->fun==F_SQRT||n->fun==F_CBRT){ const Frac&f=normal(n->a); z3::expr N=poly(f.n),D=poly(denPoly(f)); s.add(n->fun==F_SQRT? e*e*D==N : e*e*e*D==N); }
                if(n->fun==F_SIN||n->fun==F_COS){ z3::expr o=atom(atomOf(mkRFun(n->fun==F_SIN?F_COS:F_SIN,n->a))); s.add(e*e+o*o==1); } } } } return e; }
    z3::expr mono(const Mono&m){ if(m.empty()) return c().real_val(1); if(m.size()==1&&m[0].second==1) return atom(m[0].first); auto it=monos.find(m); if(it!=monos.end()) return it->second;
        z3::expr e(c()); if(lin){ e=c().real_const(("m"+std::to_string(monos.size())).c_str()); Iv v=monoIv(m); if(v.lo) s.add(e>=num(v.l)); if(v.hi) s.add(e<=num(v.h)); for(auto&p:m) atom(p.first); }
        else { bool first=true; for(auto&[a,k]:m) for(int i=0;i<k;i++){ z3::expr x=atom(a); if(first){e=x;first=false;} else e=e*x; } }
        monos.emplace(m,e); return e; }
    z3::expr poly(const Poly&p){ z3::expr_vector v(c()); std::vector<std::pair<Mono,mpq_class>> l(p.t.begin(),p.t.end()); std::sort(l.begin(),l.end(),[](auto&x,auto&y){return x.first<y.first;}); for(auto&[m,q]:l){ if(m.empty()) v.push_back(num(q)); else v.push_back(num(q)*mono(m)); } if(v.empty()) return c().real_val(0); return z3::sum(v); }
    // decided by the range of the polynomial over the boxes of its atoms?
    bool decided(Op op,const Poly&p,z3::expr&r){ Iv v=refined(p); if(op==O_RLT){ if(v.hi&&v.h<0){ r=c().bool_val(true); return true; } if(v.lo&&v.l>=0){ r=c().bool_val(false); return true; } } else if(op==O_RLE){ if(v.hi&&v.h<=0){ r=c().bool_val(true); return true; } if(v.lo&&v.l>0){ r=c().bool_val(false); return true; } } else if((v.lo&&v.l>0)||(v.hi&&v.h<0)){ r=c().bool_val(false); return true; } return false; }
    // ranges of polynomials that follow from the path conditions (each of the form p <= constant); the polynomials are
    // kept without their constant terms and scaled to a leading coefficient of one
    struct Fact { Mono m; Poly t; Iv v; };
    std::vector<Fact> facts; std::unordered_map<std::string,size_t> factKey;
    static bool leading(const Poly&p,Mono&m){ bool any=false; for(auto&[k,v]:p.t) if(!k.empty()&&(!any||k<m)){ m=k; any=true; } return any; }
    void fact(Node*n,bool neg){
        if(n->op==O_NOT){ fact(n->a,!neg); return; } if(n->op==O_AND&&!neg){ fact(n->a,false); fact(n->b,false); return; } if(n->op==O_OR&&neg){ fact(n->a,true); fact(n->b,true); return; }
        if(n->op!=O_RLT&&n->op!=O_RLE) return; try { Frac f=fsub(normal(n->a),normal(n->b)); Mono m; if(!f.d.empty()||!leading(f.n,m)) return; mpq_class L=f.n.t[m],c0=0; if(f.n.t.count(Mono{})) c0=f.n.t[Mono{}]; Poly t; for(auto&[k,v]:f.n.t) if(!k.empty()) t.add(k,v/L);
            mpq_class b=-c0/L; bool upper=(L>0)!=neg; std::string key=t.key(); auto [it,ins]=factKey.emplace(key,facts.size()); if(ins) facts.push_back({m,t,{false,false,0,0}}); // L t + c0 <= 0, or >= 0 when negated
            Iv&v=facts[it->second].v; if(upper){ if(!v.hi||b<v.h){ v.hi=true; v.h=b; } } else if(!v.lo||b>v.l){ v.lo=true; v.l=b; } } catch(TooBig&){} }
    Iv refined(const Poly&p){ Iv v=polyIv(p); for(auto&f:facts){ auto it=p.t.find(f.m); if(it==p.t.end()||p.t.size()+2<f.t.t.size()) continue; const mpq_class&L=it->second; Iv t{false,false,0,0};
            if(f.v.lo){ if(L>0){ t.lo=true; t.l=L*f.v.l; } else { t.hi=true; t.h=L*f.v.l; } } if(f.v.hi){ if(L>0){ t.hi=true; t.h=L*f.v.h; } else { t.lo=true; t.l=L*f.v.h; } }
            Iv q=polyIv(padd(p,f.t,-L)); if(t.lo&&q.lo&&(!v.lo||t.l+q.l>v.l)){ v.lo=true; v.l=t.l+q.l; } if(t.hi&&q.hi&&(!v.hi||t.h+q.h<v.h)){ v.hi=true; v.h=t.h+q.h; } }
        return v; }
    // range of a fraction whose denominator is bounded away from zero
    bool rangeOf(const Frac&f,Iv&r){ r=refined(f.n); for(auto&[i,e]:f.d){ Iv v=refined(g_factors[i]); Iv w{false,false,0,0}; if(v.lo&&v.l>0){ w={true,true,0,1/v.l}; if(v.hi) w.l=1/v.h; } else if(v.hi&&v.h<0){ w={true,true,1/v.h,0}; if(v.lo) w.h=1/v.l; } else return false; for(int k=0;k<e;k++) r=ivMul(r,w); } return true; }
    // a sum of products in which every factor occurs an even number of times or is bounded from below by zero
    bool nonnegUnder(Node*n,int depth=40){ if(depth<=0) return false; if(n->op==O_RCONST) return *n->q>=0; if(n->op==O_RADD) return nonnegUnder(n->a,depth-1)&&nonnegUnder(n->b,depth-1);
        if(n->op==O_RMUL){ std::vector<Node*> todo{n}; std::map<Node*,int> par; bool neg=false; while(!todo.empty()){ Node*x=todo.back(); todo.pop_back(); if(x->op==O_RMUL){ todo.push_back(x->a); todo.push_back(x->b); } else if(x->op==O_RNEG){ neg=!neg; todo.push_back(x->a); } else if(x->op==O_RCONST){ if(*x->q<0) neg=!neg; else if(*x->q==0) return true; } else par[x]^=1; }
            for(auto&[x,odd]:par) if(odd){ if(nonnegUnder(x,depth-1)) continue; Iv v; if(x->op!=O_RADD&&x->op!=O_RSUB&&x->op!=O_RVAR&&x->op!=O_RDIV) return false; if(!rangeOf(normal(x),v)) return false; if(v.hi&&v.h<=0) neg=!neg; else if(!(v.lo&&v.l>=0)) return false; } return !neg; }
        if(n->op==O_RDIV) return nonnegUnder(n->a,depth-1)&&nonnegUnder(n->b,depth-1); if(n->op==O_RFUN) return n->fun==F_SQRT||n->fun==F_EXP||n->fun==F_COSH;
        Iv v; return (n->op==O_RSUB||n->op==O_RVAR)&&rangeOf(normal(n),v)&&v.lo&&v.l>=0; }
    z3::expr pred(Node*n){ // real predicate a (<,<=,==) b
        if(lazy){ Poly q; if(n->a->op==O_RCONST){ q=padd(q,lazyDiff(n->b,mkRConst(0)),-1); q.add(Mono{},*n->a->q); } else if(n->b->op==O_RCONST){ q=lazyDiff(n->a,mkRConst(0)); q.add(Mono{},mpq_class(-*n->b->q)); } else q=lazyDiff(n->a,n->b); z3::expr y(c()); if(decided(n->op,q,y)) return y; y=poly(q); return n->op==O_RLT? y<0 : n->op==O_RLE? y<=0 : y==0; }
        if(n->op==O_RLT&&n->b->op==O_RCONST&&*n->b->q<=0&&!facts.empty()&&nonnegUnder(n->a)) return c().bool_val(false);
        if(n->a->op==O_RCONST||n->b->op==O_RCONST){ const bool left=n->a->op==O_RCONST; const Frac&g=normal(left?n->b:n->a); Iv v; if(!g.d.empty()&&rangeOf(g,v)){ const mpq_class&k=left?*n->a->q:*n->b->q; Iv w{v.lo,v.hi,v.l-k,v.h-k}; if(left) w={v.hi,v.lo,k-v.h,k-v.l}; bool known=true,truth=false; if(n->op==O_RLT){ if(w.hi&&w.h<0) truth=true; else if(!(w.lo&&w.l>=0)) known=false; } else if(n->op==O_RLE){ if(w.hi&&w.h<=0) truth=true; else if(!(w.lo&&w.l>0)) known=false; } else if(!((w.lo&&w.l>0)||(w.hi&&w.h<0))) known=false; if(known) return c().bool_val(truth); } }
        Frac f=fsub(normal(n->a),normal(n->b)); Poly p=f.n; if(!lin) for(auto&[i,e]:f.d) if(!nz.count(i)){ nz.insert(i); Iv v=refined(g_factors[i]); if(!((v.lo&&v.l>0)||(v.hi&&v.h<0))) s.add(poly(g_factors[i])!=0); /* divisions by zero were excluded when executed */ }
        if(n->op!=O_REQ) for(auto&[i,e]:f.d) if(e&1){ Iv v=refined(g_factors[i]); if(v.lo&&v.l>0) continue; if(v.hi&&v.h<0){ p=padd(Poly(),p,-1); continue; } p=pmul(p,g_factors[i]); }
        z3::expr x(c()); if(decided(n->op,p,x)) return x; x=poly(p); return n->op==O_RLT? x<0 : n->op==O_RLE? x<=0 : x==0; }
    z3::expr boo(Node*n){ auto it=bm.find(n); if(it!=bm.end()) return it->second; z3::expr r(c());
        if(!hasReal(n)){ r=S.tr(n)==c().bv_val(1,1); for(int v:varsOf(n)) { auto&vi=g_vars[v]; z3::expr e=S.tr(vi.node); s.add(z3::sle(c().bv_val((int64_t)vi.lo,vi.w),e)); s.add(z3::sle(e,c().bv_val((int64_t)vi.hi,vi.w))); } }
        else switch(n->op){ case O_RLT: case O_RLE: case O_REQ: r=pred(n); break; case O_AND: r=boo(n->a)&&boo(n->b); break; case O_OR: r=boo(n->a)||boo(n->b); break; case O_XOR: r=boo(n->a)!=boo(n->b); break; case O_NOT: r=!boo(n->a); break;
            case O_EQ: if(n->a->w==1){ r=boo(n->a)==boo(n->b); break; } throw Unsupported("mixed real/bit-vector equality"); case O_ITE: if(n->w==1){ r=z3::ite(boo(n->a),boo(n->b),boo(n->d)); break; } throw Unsupported("mixed ite"); default: throw Unsupported("mixed real/bit-vector term"); }
        bm.emplace(n,r); return r; }
};
static mpq_class z3q(z3::context&c,const z3::expr&e){ if(e.is_numeral()){ std::string s=Z3_get_numeral_string(c,e); mpq_class q(s); q.canonicalize(); return q; } if(e.is_algebraic()){ z3::expr a=z3::expr(c,Z3_get_algebraic_number_lower(c,e,30)); return z3q(c,a);} return 0; }
static bool numericOk(const std::vector<Node*>&rel,const Model&m){ Evaluator ev(&m); try { std::vector<int> vs; for(Node*n:rel) collectVars(n,vs); for(int v:vs) if(g_vars[v].real&&g_vars[v].rbounded&&v<(int)m.has.size()&&m.has[v]&&(m.r[v]<g_vars[v].rlo||m.r[v]>g_vars[v].rhi)) return false; for(Node*n:rel) if(!ev.eval(n)) return false; } catch(Unsupported&){ return false; } return true; }
// the same query over the lazy normal form, where definition atoms are unconstrained reals (so only UNSAT counts);
// path conditions that are too large to encode are left out
bool Solver::lazyUnsat(const std::vector<Node*>&rel){
    try { z3::solver s(c); z3::params p(c); p.set("timeout",10000u); s.set(p); Tr t(*this,s,true); t.lazy=true;
        s.add(t.boo(rel.back())); for(size_t i=0;i+1<rel.size();i++){ try { s.add(t.boo(rel[i])); } catch(TooBig&){} } g_st.lraq++; return s.check()==z3::unsat;
    } catch(TooBig&){ return false; }
}
Res Solver::checkReal(const std::vector<Node*>&rel, const Model&cur, Model&out){
    std::vector<int> vars; for(Node*n:rel) collectVars(n,vars); std::sort(vars.begin(),vars.end()); vars.erase(std::unique(vars.begin(),vars.end()),vars.end());
    Model base=cur; base.i.resize(g_vars.size(),0); base.r.resize(g_vars.size()); base.has.resize(g_vars.size(),0);
    Model lraModel=base; bool haveLra=false; bool tooBig=false;
    static bool sawBig=false; bool triedLazy=false;
    if(sawBig){ triedLazy=true; if(lazyUnsat(rel)) return UNSAT; }
    try {
        z3::solver s(c); z3::params p(c); p.set("timeout",20000u); s.set(p); Tr t(*this,s,true); for(size_t i=0;i+1<rel.size();i++) s.add(t.boo(rel[i])); for(size_t i=0;i+1<rel.size();i++) t.fact(rel[i],false); s.add(t.boo(rel.back())); g_st.lraq++;
        z3::check_result r=s.check(); if(r==z3::unsat) return UNSAT;
        if(r==z3::sat){ z3::model m=s.get_model(); for(int v:vars){ lraModel.has[v]=1; if(g_vars[v].real){ auto&vi=g_vars[v]; mpq_class old=base.has[v]?base.r[v]:vi.rbounded?mpq_class((vi.rlo+vi.rhi)/2):mpq_class(0); lraModel.r[v]=z3q(c,m.eval(c.real_const(("a"+std::to_string(atomOf(g_vars[v].node))).c_str()),true)); if(vi.rbounded&&(lraModel.r[v]<vi.rlo||lraModel.r[v]>vi.rhi)) lraModel.r[v]=old; } else { uint64_t u=0; Z3_get_numeral_uint64(c,m.eval(tr(g_vars[v].node),true),&u); lraModel.i[v]=u; } } haveLra=true; }
    } catch(TooBig&){ tooBig=true; sawBig=true; }
    if(tooBig&&!triedLazy) { if(lazyUnsat(rel)) return UNSAT; }
    // numeric candidates (confirmed by substitution)
    auto confirm=[&](const Model&m)->bool{ if(!numericOk(rel,m)) return false;
        if(tooBig) { out=m; return true; }
        try { z3::solver s(c); z3::params p(c); p.set("timeout",4000u); s.set(p); Tr t(*this,s,false); for(Node*n:rel) s.add(t.boo(n)); for(int v:vars) if(g_vars[v].real) s.add(t.atom(atomOf(g_vars[v].node))==t.num(m.r[v])); else s.add(tr(g_vars[v].node)==c.bv_val((uint64_t)m.i[v],g_vars[v].w));
            g_st.nraq++; z3::check_result r=s.check(); if(r==z3::unsat&&!t.approx) return false; } catch(TooBig&){}
        out=m; return true; };
    if(haveLra&&confirm(lraModel)){ g_st.cand++; return SAT; }
    if(confirm(base)){ g_st.cand++; return SAT; }
    for(int k=0;k<260;k++){ Model m=(k%2&&haveLra)?lraModel:base; for(int v:vars){ if(!g_vars[v].real) continue; if(k>20&&rng()%3==0) continue; auto&vi=g_vars[v]; mpq_class lo=vi.rbounded?vi.rlo:mpq_class(-4),hi=vi.rbounded?vi.rhi:mpq_class(4); mpq_class f(rng()%65,64); if(k%4==3) f=mpq_class(rng()%5,4); if(k%4==1&&k>60) f=mpq_class((int)(rng()%2),1); mpq_class x=lo+(hi-lo)*f; mpq_class xd(x.get_d()); m.r[v]=xd; m.has[v]=1; }
        if(confirm(m)){ g_st.cand++; return SAT; } }
    if(tooBig) return UNKNOWN;
    try {
        bool mixed=false; for(int v:vars) if(!g_vars[v].real) mixed=true;
        z3::solver s= mixed? z3::solver(c) : z3::tactic(c,"qfnra-nlsat").mk_solver();
        z3::params p(c); p.set("timeout",nraTimeout); s.set(p); Tr t(*this,s,false); for(size_t i=0;i+1<rel.size();i++) s.add(t.boo(rel[i])); for(size_t i=0;i+1<rel.size();i++) t.fact(rel[i],false); s.add(t.boo(rel.back())); g_st.nraq++;
        z3::check_result r=s.check(); if(r==z3::unsat) return UNSAT; if(r==z3::unknown) return UNKNOWN;
        z3::model m=s.get_model(); Model mm=base; for(int v:vars){ mm.has[v]=1; if(g_vars[v].real){ auto&vi=g_vars[v]; mpq_class old=base.has[v]?base.r[v]:vi.rbounded?mpq_class((vi.rlo+vi.rhi)/2):mpq_class(0); mm.r[v]=z3q(c,m.eval(t.atom(atomOf(g_vars[v].node)),true)); if(vi.rbounded&&(mm.r[v]<vi.rlo||mm.r[v]>vi.rhi)) mm.r[v]=old; } else { uint64_t u=0; Z3_get_numeral_uint64(c,m.eval(tr(g_vars[v].node),true),&u); mm.i[v]=u; } }
        out=mm; if(t.approx&&!numericOk(rel,mm)) return UNKNOWN; return SAT;
    } catch(TooBig&){ return UNKNOWN; }
    catch(z3::exception&e){ return UNKNOWN; }
}
Res Solver::check(const std::vector<Node*>&pc, Node*goal, const Model&cur, Model&out, bool){
    if(goal->op==O_CONST) { if(goal->c){ out=cur; return SAT;} return UNSAT; }
    double t0=now(); g_st.queries++;
    Res r;
    // slice
    std::vector<Node*> rel; std::vector<char> in(pc.size(),0); u64 mask=goal->mask; std::vector<int> vs=varsOf(goal); std::unordered_set<int> vset(vs.begin(),vs.end());
    bool ch=true; while(ch){ ch=false; for(size_t i=0;i<pc.size();i++) if(!in[i]&&(pc[i]->mask&mask)){ bool hit=false; for(int v:varsOf(pc[i])) if(vset.count(v)){hit=true;break;} if(hit){ in[i]=1; ch=true; mask|=pc[i]->mask; for(int v:varsOf(pc[i])) vset.insert(v); } } }
    for(size_t i=0;i<pc.size();i++) if(in[i]) rel.push_back(pc[i]);
    std::string key; { std::vector<u32> ids; for(Node*n:rel) ids.push_back(n->id); std::sort(ids.begin(),ids.end()); ids.push_back(goal->id); key.assign((char*)ids.data(),ids.size()*4); }
    auto it=cache.find(key); if(it!=cache.end()){ g_st.cached++; Cached&k=it->second; if(k.r==UNSAT) g_st.unsat++; else if(k.r==UNKNOWN) g_st.unknown++; else { g_st.sat++; out=cur; out.i.resize(g_vars.size(),0); out.r.resize(g_vars.size()); out.has.resize(g_vars.size(),0); for(auto&[v,x]:k.iv){ out.i[v]=x; out.has[v]=1; } for(auto&[v,x]:k.rv){ out.r[v]=x; out.has[v]=1; } } g_st.secs+=now()-t0; return k.r; }
    bool real=hasReal(goal); for(Node*n:rel) if(hasReal(n)) real=true;
    if(!real){ 
        r=checkBV(rel,goal,cur,out); }
    else { rel.push_back(goal); r=checkReal(rel,cur,out); }
    { Cached k; k.r=r; if(r==SAT) for(int v:vset){ if(g_vars[v].real) k.rv.push_back({v,out.r[v]}); else k.iv.push_back({v,out.i[v]}); } 
      if(r==SAT){ Model mm=cur; mm.i.resize(g_vars.size(),0); mm.r.resize(g_vars.size()); mm.has.resize(g_vars.size(),0); for(auto&[v,x]:k.iv){ mm.i[v]=x; mm.has[v]=1; } for(auto&[v,x]:k.rv){ mm.r[v]=x; mm.has[v]=1; } out=mm; }
      cache.emplace(key,std::move(k)); }
    if(r==SAT) g_st.sat++; else if(r==UNSAT) g_st.unsat++; else g_st.unknown++;
    static bool slow=getenv("SX_SLOW"); if(slow&&(now()-t0>0.5||r==UNKNOWN)) fprintf(stderr,"slow query %.1fs result %d (%zu conditions): %s\n",now()-t0,(int)r,rel.size(),show(goal,7).c_str());
    g_st.secs+=now()-t0; return r;
}
