#include "expr.h"
#include <algorithm>
const char *fun_names[] = {"sqrt","sin","cos","tan","exp","log","asin","acos","atan","atan2","pow","sinh","cosh","tanh","cbrt"};
std::unordered_map<Node*,Node*> g_hyp;
std::vector<VarInfo> g_vars;
static std::deque<Node> pool;
static std::deque<mpq_class> qpool;
size_t nodeCount() { return pool.size(); }
struct Key { Op op; u8 w, fun; u64 c; Node *a, *b, *d;
    bool operator==(const Key &o) const { return op==o.op&&w==o.w&&fun==o.fun&&c==o.c&&a==o.a&&b==o.b&&d==o.d; } };
struct KeyH { size_t operator()(const Key &k) const {
    u64 h = k.op*0x9E3779B97F4A7C15ull + k.w*31 + k.fun*131; auto mix=[&](u64 v){ h^=v+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); };
    mix(k.c); mix((u64)k.a); mix((u64)k.b); mix((u64)k.d); return h; } };
static std::unordered_map<Key, Node *, KeyH> tab;
static std::unordered_map<std::string, Node *> qtab;

static Node *mk(Op op, u8 w, u64 c, Node *a, Node *b, Node *d, u8 fun = 0) {
    Key k{op,w,fun,c,a,b,d};
    auto it = tab.find(k); if (it != tab.end()) return it->second;
    pool.push_back(Node{op,w,fun,(u32)pool.size(),c,a,b,d,nullptr,0});
    Node *n=&pool.back();
    if (op==O_VAR||op==O_RVAR) n->mask = 1ull<<(c&63);
    if (a) n->mask|=a->mask; if (b) n->mask|=b->mask; if (d) n->mask|=d->mask;
    tab.emplace(k,n); return n;
}
Node *mkConst(u64 v, unsigned w) { return mk(O_CONST,w,v&maskw(w),nullptr,nullptr,nullptr); }
static bool isC(Node *n) { return n->op==O_CONST; }

static u64 foldBin(Op op, u64 a, u64 b, unsigned w) {
    u64 m=maskw(w);
    switch(op){
    case O_ADD: return (a+b)&m; case O_SUB: return (a-b)&m; case O_MUL: return (a*b)&m;
    case O_UDIV: return b? (a/b)&m : m; case O_UREM: return b? a%b : a;
    case O_SDIV: { if(!b) return m; i64 x=sext(a,w),y=sext(b,w); if(y==-1) return (0-(u64)x)&m; return (u64)(x/y)&m; }
    case O_SREM: { if(!b) return a; i64 x=sext(a,w),y=sext(b,w); if(y==-1) return 0; return (u64)(x%y)&m; }
    case O_AND: return a&b; case O_OR: return a|b; case O_XOR: return a^b;
    case O_SHL: return b>=w?0:(a<<b)&m; case O_LSHR: return b>=w?0:a>>b;
    case O_ASHR: { i64 x=sext(a,w); return (u64)(x>>(b>=w?w-1:b))&m; }
    case O_EQ: return a==b; case O_ULT: return a<b; case O_ULE: return a<=b;
    case O_SLT: return sext(a,w)<sext(b,w); case O_SLE: return sext(a,w)<=sext(b,w);
    default: throw Unsupported("foldBin");
    }
}
static bool isPred(Op op){ return op==O_EQ||op==O_ULT||op==O_ULE||op==O_SLT||op==O_SLE; }

// simple signed range of a bit-vector expression (from the declared ranges of its variables)
static bool rangeOf(Node *n, i64 &lo, i64 &hi, int depth=6){
    if (n->op==O_CONST){ lo=hi=sext(n->c,n->w); return true; }
    if (n->op==O_VAR){ lo=g_vars[n->c].lo; hi=g_vars[n->c].hi; return true; }
    if (depth==0) return false;
    i64 al,ah,bl,bh;
    switch(n->op){
    case O_ZEXT: { if(n->a->w==1){lo=0;hi=1;return true;} if(rangeOf(n->a,al,ah,depth-1)&&al>=0){lo=al;hi=ah;return true;} if(n->a->w<63){lo=0;hi=(i64)maskw(n->a->w);return true;} return false; }
    case O_SEXT: return rangeOf(n->a,lo,hi,depth-1);
    case O_EXTRACT: if(n->c==0&&rangeOf(n->a,al,ah,depth-1)){ i64 m=(i64)(maskw(n->w)>>1); if(al>=-m-1&&ah<=m){lo=al;hi=ah;return true;} } return false;
    case O_ADD: case O_SUB: case O_MUL: {
        if(!rangeOf(n->a,al,ah,depth-1)||!rangeOf(n->b,bl,bh,depth-1)) return false;
        i128 c[4]; i128 L,H;
        if(n->op==O_ADD){L=(i128)al+bl;H=(i128)ah+bh;} else if(n->op==O_SUB){L=(i128)al-bh;H=(i128)ah-bl;}
        else { c[0]=(i128)al*bl;c[1]=(i128)al*bh;c[2]=(i128)ah*bl;c[3]=(i128)ah*bh; L=*std::min_element(c,c+4);H=*std::max_element(c,c+4);}
        i128 m=(i128)(maskw(n->w)>>1); if(L<-m-1||H>m) return false; lo=(i64)L;hi=(i64)H; return true; }
    case O_ITE: if(rangeOf(n->b,al,ah,depth-1)&&rangeOf(n->d,bl,bh,depth-1)){lo=std::min(al,bl);hi=std::max(ah,bh);return true;} return false;
    case O_AND: if(n->b->op==O_CONST&&n->b->w<=64&&sext(n->b->c,n->w)>=0){lo=0;hi=n->b->c;return true;} return false;
    default: return false;
    }
}

Node *mkBin(Op op, Node *a, Node *b) {
    if (a->w!=b->w) throw Unsupported("width mismatch in mkBin");
    unsigned w=a->w;
    if (isC(a)&&isC(b)) return mkConst(foldBin(op,a->c,b->c,w), isPred(op)?1:w);
    // F2B special cases
    if (a->op==O_F2B || b->op==O_F2B) {
        if (op==O_XOR) { if (isC(a)) std::swap(a,b);
            if (isC(b)&&b->c==0x8000000000000000ull) return mkF2B(mkRNeg(a->a));
            if (a==b) return mkConst(0,64); if (isC(b)&&b->c==0) return a; }
        if (op==O_EQ) { if (isC(a)) std::swap(a,b);
            if (b->op==O_F2B) return mkRPred(O_REQ,a->a,b->a);
            if (isC(b)) { double dv=asD(b->c); if (std::isfinite(dv)) return mkRPred(O_REQ,a->a,mkRConst(mpq_class(dv))); return mkConst(0,1);} }
        if (op==O_OR||op==O_ADD) { if (isC(a)&&a->c==0) return b; if (isC(b)&&b->c==0) return a; }
        if (op==O_AND) { if (isC(a)) std::swap(a,b); if (isC(b)&&b->c==0) return b; if (isC(b)&&b->c==~0ull) return a; }
        // fall through: bit-level reasoning about a symbolic real is not expressible
        throw Unsupported("bit-level operation on symbolic real");
    }
    switch(op){
    case O_ADD: if(isC(a)) std::swap(a,b); if(isC(b)&&b->c==0) return a;
        if(isC(b)&&a->op==O_ADD&&isC(a->b)) return mkBin(O_ADD,a->a,mkConst(a->b->c+b->c,w));
        break;
    case O_SUB: if(a==b) return mkConst(0,w); if(isC(b)) return mkBin(O_ADD,a,mkConst(0-b->c,w)); break;
    case O_MUL: if(isC(a)) std::swap(a,b); if(isC(b)){ if(b->c==0) return b; if(b->c==1) return a; } break;
    case O_AND: if(isC(a)) std::swap(a,b); if(a==b) return a; if(isC(b)){ if(b->c==0) return b; if(b->c==maskw(w)) return a;
            if(a->op==O_ZEXT && (b->c&maskw(a->a->w))==maskw(a->a->w)) return a;
            // low-bit mask -> zext of extract
            if(b->c!=0 && (b->c&(b->c+1))==0){ unsigned k=__builtin_popcountll(b->c); return mkExt(mkExtract(a,0,k),w,false);} } break;
    case O_OR: if(isC(a)) std::swap(a,b); if(a==b) return a; if(isC(b)){ if(b->c==0) return a; if(b->c==maskw(w)) return b; } 
        break;
    case O_XOR: if(isC(a)) std::swap(a,b); if(a==b) return mkConst(0,w); if(isC(b)){ if(b->c==0) return a; if(b->c==maskw(w)) return mkNot(a);
            if(a->op==O_ZEXT&&a->a->w==1&&b->c==1) return mkExt(mkNot(a->a),w,false); } break;
    case O_SHL: if(isC(b)){ if(b->c==0) return a; if(b->c>=w) return mkConst(0,w); return mkConcat(mkExtract(a,0,w-b->c),mkConst(0,b->c)); } break;
    case O_LSHR: if(isC(b)){ if(b->c==0) return a; if(b->c>=w) return mkConst(0,w); return mkExt(mkExtract(a,b->c,w-b->c),w,false); } break;
    case O_ASHR: if(isC(b)){ if(b->c==0) return a; unsigned s=b->c>=w?w-1:b->c; return mkExt(mkExtract(a,s,w-s),w,true); } break;
    case O_UDIV: case O_SDIV: if(isC(b)&&b->c==1) return a; break;
    case O_EQ: if(a==b) return mkConst(1,1); if(isC(a)) std::swap(a,b);
        if(w==1&&isC(b)) return b->c? a : mkNot(a);
        if(isC(b)){
            if(a->op==O_ZEXT){ if(b->c>maskw(a->a->w)) return mkConst(0,1); return mkBin(O_EQ,a->a,mkConst(b->c,a->a->w)); }
            if(a->op==O_SEXT){ if(sext(b->c,a->a->w)!=sext(b->c,w)) return mkConst(0,1); return mkBin(O_EQ,a->a,mkConst(b->c,a->a->w)); }
            if(a->op==O_ADD&&isC(a->b)) return mkBin(O_EQ,a->a,mkConst(b->c-a->b->c,w));
            if(a->op==O_ITE&&isC(a->b)&&isC(a->d)){ bool t=a->b->c==b->c,f=a->d->c==b->c; if(t&&f) return mkConst(1,1); if(!t&&!f) return mkConst(0,1); return t?a->a:mkNot(a->a); }
            i64 lo,hi; if(rangeOf(a,lo,hi)){ i64 v=sext(b->c,w); if(v<lo||v>hi) return mkConst(0,1); if(lo==hi) return mkConst(1,1);} }
        break;
    case O_ULT: if(a==b) return mkConst(0,1); if(isC(b)&&b->c==0) return mkConst(0,1);
        { i64 al,ah,bl,bh; if(rangeOf(a,al,ah)&&rangeOf(b,bl,bh)&&al>=0&&bl>=0){ if(ah<bl) return mkConst(1,1); if(al>=bh) return mkConst(0,1);} } break;
    case O_ULE: if(a==b) return mkConst(1,1); if(isC(a)&&a->c==0) return mkConst(1,1);
        { i64 al,ah,bl,bh; if(rangeOf(a,al,ah)&&rangeOf(b,bl,bh)&&al>=0&&bl>=0){ if(ah<=bl) return mkConst(1,1); if(al>bh) return mkConst(0,1);} } break;
    case O_SLT: if(a==b) return mkConst(0,1); { i64 al,ah,bl,bh; if(rangeOf(a,al,ah)&&rangeOf(b,bl,bh)){ if(ah<bl) return mkConst(1,1); if(al>=bh) return mkConst(0,1);} } break;
    case O_SLE: if(a==b) return mkConst(1,1); { i64 al,ah,bl,bh; if(rangeOf(a,al,ah)&&rangeOf(b,bl,bh)){ if(ah<=bl) return mkConst(1,1); if(al>bh) return mkConst(0,1);} } break;
    default: break;
    }
    // commutative canonical order
    if ((op==O_ADD||op==O_MUL||op==O_AND||op==O_OR||op==O_XOR||op==O_EQ) && !isC(b) && a->id>b->id) std::swap(a,b);
    return mk(op, isPred(op)?1:w, 0, a, b, nullptr);
}
Node *mkNot(Node *a){
    if(isC(a)) return mkConst(~a->c,a->w);
    if(a->op==O_NOT) return a->a;
    if(a->w==1){
        switch(a->op){
        case O_ULT: return mkBin(O_ULE,a->b,a->a); case O_ULE: return mkBin(O_ULT,a->b,a->a);
        case O_SLT: return mkBin(O_SLE,a->b,a->a); case O_SLE: return mkBin(O_SLT,a->b,a->a);
        case O_RLT: return mkRPred(O_RLE,a->b,a->a); case O_RLE: return mkRPred(O_RLT,a->b,a->a);
        default: break; }
    }
    return mk(O_NOT,a->w,0,a,nullptr,nullptr);
}
Node *mkExtract(Node *a, unsigned lo, unsigned w){
    if(lo==0&&w==a->w) return a;
    if(isC(a)) return mkConst(a->c>>lo,w);
    if(a->op==O_EXTRACT) return mkExtract(a->a,a->c+lo,w);
    if(a->op==O_CONCAT){ unsigned lw=a->b->w; if(lo+w<=lw) return mkExtract(a->b,lo,w); if(lo>=lw) return mkExtract(a->a,lo-lw,w);
        return mkConcat(mkExtract(a->a,0,lo+w-lw),mkExtract(a->b,lo,lw-lo)); }
    if(a->op==O_ZEXT||a->op==O_SEXT){ unsigned iw=a->a->w; if(lo+w<=iw) return mkExtract(a->a,lo,w);
        if(a->op==O_ZEXT){ if(lo>=iw) return mkConst(0,w); return mkExt(mkExtract(a->a,lo,iw-lo),w,false);}
        if(lo<iw) return mkExt(mkExtract(a->a,lo,iw-lo),w,true); }
    if(a->op==O_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a,mkExtract(a->b,lo,w),mkExtract(a->d,lo,w));
    if(lo==0 && (a->op==O_ADD||a->op==O_SUB||a->op==O_MUL||a->op==O_AND||a->op==O_OR||a->op==O_XOR)) return mkBin(a->op,mkExtract(a->a,0,w),mkExtract(a->b,0,w));
    if((a->op==O_AND||a->op==O_OR||a->op==O_XOR)) return mkBin(a->op,mkExtract(a->a,lo,w),mkExtract(a->b,lo,w));
    if(a->op==O_NOT) return mkNot(mkExtract(a->a,lo,w));
    return mk(O_EXTRACT,w,lo,a,nullptr,nullptr);
}
Node *mkConcat(Node *hi, Node *lo){
    if(isC(hi)&&isC(lo)) return mkConst((hi->c<<lo->w)|lo->c, hi->w+lo->w);
    if(isC(hi)&&hi->c==0) return mkExt(lo,hi->w+lo->w,false);
    if(hi->op==O_EXTRACT&&lo->op==O_EXTRACT&&hi->a==lo->a&&hi->c==lo->c+lo->w) return mkExtract(lo->a,lo->c,hi->w+lo->w);
    // (x ++ ext(y, hi..)) ++ ext(y, lo..)
    if(hi->op==O_CONCAT){ Node*m=hi->b; if((m->op==O_EXTRACT&&lo->op==O_EXTRACT&&m->a==lo->a&&m->c==lo->c+lo->w)||(isC(m)&&isC(lo))) return mkConcat(hi->a,mkConcat(m,lo)); }
    if(hi->op==O_EXTRACT && hi->c==lo->w && hi->a==lo) throw Unsupported("odd concat");
    // extract of the low part being the full value (e.g. concat(extract(x,32,32), extract(x,0,32)) handled above)
    return mk(O_CONCAT,hi->w+lo->w,0,hi,lo,nullptr);
}
Node *mkExt(Node *a, unsigned w, bool sgn){
    if(w==a->w) return a;
    if(w<a->w) return mkExtract(a,0,w);
    if(isC(a)) return mkConst(sgn?(u64)sext(a->c,a->w):a->c,w);
    if(a->op==O_ZEXT) return mkExt(a->a,w,false);
    if(a->op==O_SEXT&&sgn) return mkExt(a->a,w,true);
    return mk(sgn?O_SEXT:O_ZEXT,w,0,a,nullptr,nullptr);
}
Node *mkIte(Node *c, Node *a, Node *b){
    if(isC(c)) return c->c?a:b;
    if(a==b) return a;
    if(a->w==1){ if(isC(a)&&isC(b)) return a->c? c : mkNot(c); 
        if(isC(a)) return a->c? mkBin(O_OR,c,b) : mkBin(O_AND,mkNot(c),b);
        if(isC(b)) return b->c? mkBin(O_OR,mkNot(c),a) : mkBin(O_AND,c,a); }
    if(c->op==O_NOT) return mkIte(c->a,b,a);
    return mk(O_ITE,a->w,0,c,a,b);
}
Node *mkIntVar(const std::string &name, unsigned w, i64 lo, i64 hi){
    u64 idx=g_vars.size(); Node*n=mk(O_VAR,w,idx,nullptr,nullptr,nullptr);
    g_vars.push_back(VarInfo{name,false,(u8)w,lo,hi,0,0,false,n}); return n;
}
Node *mkRealVar(const std::string &name, bool bounded, const mpq_class &lo, const mpq_class &hi){
    u64 idx=g_vars.size(); Node*n=mk(O_RVAR,0,idx,nullptr,nullptr,nullptr);
    g_vars.push_back(VarInfo{name,true,0,0,0,lo,hi,bounded,n}); return n;
}
Node *mkRConst(const mpq_class &q){
    std::string s=q.get_str(62); auto it=qtab.find(s); if(it!=qtab.end()) return it->second;
    qpool.push_back(q); pool.push_back(Node{O_RCONST,0,0,(u32)pool.size(),0,nullptr,nullptr,nullptr,&qpool.back(),0});
    Node*n=&pool.back(); qtab.emplace(s,n); return n;
}
static bool isRC(Node*n){return n->op==O_RCONST;}
Node *mkRNeg(Node *a){ if(isRC(a)) return mkRConst(-*a->q); if(a->op==O_RNEG) return a->a; if(a->op==O_RSUB) return mkRBin(O_RSUB,a->b,a->a); return mk(O_RNEG,0,0,a,nullptr,nullptr); }
Node *mkRBin(Op op, Node *a, Node *b){
    if(isRC(a)&&isRC(b)){ switch(op){ case O_RADD: return mkRConst(*a->q+*b->q); case O_RSUB: return mkRConst(*a->q-*b->q); case O_RMUL: return mkRConst(*a->q * *b->q);
        case O_RDIV: if(*b->q!=0) return mkRConst(*a->q / *b->q); break; default: break; } }
    switch(op){
    case O_RADD: if(isRC(a)&&*a->q==0) return b; if(isRC(b)&&*b->q==0) return a; if(b->op==O_RNEG) return mkRBin(O_RSUB,a,b->a); if(a->op==O_RNEG) return mkRBin(O_RSUB,b,a->a); break;
    case O_RSUB: if(isRC(b)&&*b->q==0) return a; if(isRC(a)&&*a->q==0) return mkRNeg(b); if(a==b) return mkRConst(0); if(b->op==O_RNEG) return mkRBin(O_RADD,a,b->a); break;
    case O_RMUL: if(isRC(b)) std::swap(a,b); if(isRC(a)){ if(*a->q==0) return a; if(*a->q==1) return b; if(*a->q==-1) return mkRNeg(b);} 
        if(a->op==O_RNEG&&b->op==O_RNEG) return mkRBin(O_RMUL,a->a,b->a); break;
    case O_RDIV: if(isRC(b)){ if(*b->q==0) throw Unsupported("division by exact zero"); return mkRBin(O_RMUL,mkRConst(mpq_class(1) / *b->q),a);} if(isRC(a)&&*a->q==0) return a; if(a==b) return mkRConst(1); break;
    default: break; }
    if((op==O_RADD||op==O_RMUL)&&!isRC(a)&&a->id>b->id) std::swap(a,b);
    return mk(op,0,0,a,b,nullptr);
}
Node *mkRFun(Fun f, Node *a, Node *b){
    if(isRC(a)&&(!b||isRC(b))){
        const mpq_class &q=*a->q;
        if(!b&&q==0) switch(f){ case F_SQRT: case F_SIN: case F_TAN: case F_ASIN: case F_ATAN: case F_SINH: case F_TANH: case F_CBRT: return mkRConst(0); case F_COS: case F_EXP: case F_COSH: return mkRConst(1); default: break; }
        if(!b&&q==1&&f==F_SQRT) return mkRConst(1);
        if(!b&&q==1&&f==F_LOG) return mkRConst(0);
    }
    if(f==F_SIN||f==F_COS){
        auto mul=[](Node*x,Node*y){return mkRBin(O_RMUL,x,y);}; Node*one=mkRConst(1);
        if(a->op==O_RFUN){ auto co=[&](Node*x){return mkRFun(F_SQRT,mkRBin(O_RSUB,one,mul(x,x)));}; Node*x=a->a;
            if(a->fun==F_ATAN2){ auto it=g_hyp.find(a); if(it!=g_hyp.end()) return mkRBin(O_RDIV,f==F_SIN?x:a->b,it->second); }
            if(a->fun==F_ASIN) return f==F_SIN?x:co(x);
            if(a->fun==F_ACOS) return f==F_COS?x:co(x);
            if(a->fun==F_ATAN){ Node*h=mkRFun(F_SQRT,mkRBin(O_RADD,one,mul(x,x))); return mkRBin(O_RDIV,f==F_SIN?x:one,h); } }
        Node*u=nullptr,*v=nullptr; bool minus=false;
        if(a->op==O_RADD||a->op==O_RSUB){ u=a->a; v=a->b; minus=a->op==O_RSUB; }
        else if(a->op==O_RMUL&&isRC(a->a)){ if(a->b->op==O_RADD||a->b->op==O_RSUB){ u=mul(a->a,a->b->a); v=mul(a->a,a->b->b); minus=a->b->op==O_RSUB; } else if(a->a->q->get_den()==1&&abs(*a->a->q)>1&&abs(*a->a->q)<=8){ u=mul(mkRConst(mpq_class(*a->a->q-(*a->a->q>0?1:-1))),a->b); v=*a->a->q>0?a->b:mkRNeg(a->b); } }
        if(u){ Node*su=mkRFun(F_SIN,u),*cu=mkRFun(F_COS,u),*sv=mkRFun(F_SIN,v),*cv=mkRFun(F_COS,v); if(minus) sv=mkRNeg(sv);
            return f==F_SIN? mkRBin(O_RADD,mul(su,cv),mul(cu,sv)) : mkRBin(O_RSUB,mul(cu,cv),mul(su,sv)); } }
    if(f==F_EXP&&a->op==O_RFUN&&a->fun==F_LOG) return a->a;
    if(f==F_LOG&&a->op==O_RFUN&&a->fun==F_EXP) return a->a;
    if(f==F_TAN) return mkRBin(O_RDIV,mkRFun(F_SIN,a),mkRFun(F_COS,a));
    // parity normalisation
    if(a->op==O_RNEG&&!b){ if(f==F_SIN||f==F_SINH||f==F_TANH||f==F_ASIN||f==F_ATAN||f==F_CBRT) return mkRNeg(mkRFun(f,a->a)); if(f==F_COS||f==F_COSH) return mkRFun(f,a->a); }
    return mk(O_RFUN,0,0,a,b,nullptr,f);
}
// non-negative by construction: sums of squares, products of such, roots, exponentials
static bool nonneg(Node*n,int depth=12){ if(depth<=0) return false; switch(n->op){ case O_RCONST: return *n->q>=0; case O_RADD: return nonneg(n->a,depth-1)&&nonneg(n->b,depth-1); case O_RMUL: return n->a==n->b||(nonneg(n->a,depth-1)&&nonneg(n->b,depth-1)); case O_RDIV: return nonneg(n->a,depth-1)&&nonneg(n->b,depth-1); case O_RFUN: return n->fun==F_SQRT||n->fun==F_EXP||n->fun==F_COSH; default: return false; } }
// enclosure of the value over the boxes of the variables, rounded outwards at every step
struct Box{ double l,h; };
static std::unordered_map<Node*,Box> g_box;
static Box boxOf(Node*n){
    const double inf=INFINITY; const Box all{-inf,inf};
    auto dn=[](double x){ return std::nextafter(x,-INFINITY); }; auto up=[](double x){ return std::nextafter(x,INFINITY); };
    auto mulb=[&](Box x,Box y){ double p[4]={x.l*y.l,x.l*y.h,x.h*y.l,x.h*y.h}; Box r{inf,-inf}; for(double v:p){ if(std::isnan(v)) v=0; /* zero times an infinite bound */ r.l=std::min(r.l,v); r.h=std::max(r.h,v); } return Box{r.l==0?0:dn(r.l),r.h==0?0:up(r.h)}; };
    if(n->op==O_RCONST){ double v=n->q->get_d(); if(mpq_class(v)==*n->q) return {v,v}; return {dn(v),up(v)}; }
    if(n->op==O_RVAR){ auto&v=g_vars[n->c]; if(!v.rbounded) return all; return {dn(v.rlo.get_d()),up(v.rhi.get_d())}; }
    if(!n->isReal()) return all;
    auto it=g_box.find(n); if(it!=g_box.end()) return it->second;
    Box r=all;
    auto mono=[&](double(*f)(double),Box x){ double l=f(x.l),h=f(x.h); return Box{std::isnan(l)?-inf:l-fabs(l)*1e-12-1e-300,std::isnan(h)?inf:h+fabs(h)*1e-12+1e-300}; };
    switch(n->op){
    case O_RADD: { Box x=boxOf(n->a),y=boxOf(n->b); r={dn(x.l+y.l),up(x.h+y.h)}; break; }
    case O_RSUB: { Box x=boxOf(n->a),y=boxOf(n->b); r={dn(x.l-y.h),up(x.h-y.l)}; break; }
    case O_RNEG: { Box x=boxOf(n->a); r={-x.h,-x.l}; break; }
    case O_RMUL: { Box x=boxOf(n->a); if(n->a==n->b){ double m=std::max(fabs(x.l),fabs(x.h)); double k=x.l>0?x.l:x.h<0?-x.h:0; r={k>0?std::max(0.0,dn(k*k)):0,up(m*m)}; } else r=mulb(x,boxOf(n->b)); break; }
    case O_RDIV: { Box y=boxOf(n->b); if(y.l>0||y.h<0){ Box iy{dn(1/y.h),up(1/y.l)}; if(y.l>0&&iy.l<0) iy.l=0; if(y.h<0&&iy.h>0) iy.h=0; r=mulb(boxOf(n->a),iy); } break; }
    case O_RFUN: { Box x=boxOf(n->a); switch(n->fun){
        case F_SIN: case F_COS: case F_TANH: r={-1,1}; break;
        case F_EXP: r=mono(std::exp,x); r.l=std::max(0.0,r.l); break;
        case F_SQRT: r=mono(std::sqrt,Box{std::max(0.0,x.l),std::max(0.0,x.h)}); r.l=std::max(0.0,r.l); break;
        case F_CBRT: r=mono(std::cbrt,x); break; case F_ATAN: r=mono(std::atan,x); break;
        case F_LOG: if(x.l>0) r=mono(std::log,x); break;
        case F_ASIN: r={-1.5707963267948968,1.5707963267948968}; break; case F_ACOS: r={0,3.1415926535897936}; break; case F_ATAN2: r={-3.1415926535897936,3.1415926535897936}; break;
        case F_COSH: r={1,inf}; break; default: break; } break; }
    default: break;
    }
    if(std::isnan(r.l)) r.l=-inf; if(std::isnan(r.h)) r.h=inf;
    return g_box[n]=r;
}
Node *mkRPred(Op op, Node *a, Node *b){
    if(op==O_RLT&&isRC(b)&&*b->q<=0&&nonneg(a)) return mkConst(0,1);
    if(op==O_RLE&&isRC(a)&&*a->q<=0&&nonneg(b)) return mkConst(1,1);
    if(isRC(a)&&isRC(b)){ bool r= op==O_RLT? *a->q<*b->q : op==O_RLE? *a->q<=*b->q : *a->q==*b->q; return mkConst(r,1);} 
    if(a==b) return mkConst(op!=O_RLT,1);
    { Box x=boxOf(a),y=boxOf(b); if(op==O_REQ){ if(x.h<y.l||y.h<x.l) return mkConst(0,1); } else { if(x.h<y.l) return mkConst(1,1); if(op==O_RLT? x.l>=y.h : x.l>y.h) return mkConst(0,1); } }
    if(op==O_REQ&&a->id>b->id) std::swap(a,b);
    return mk(op,1,0,a,b,nullptr);
}
Node *mkF2B(Node *r){
    if(isRC(r)){ double d=r->q->get_d(); mpq_class back(d); if(back==*r->q) return mkConst(asU(d),64); }
    return mk(O_F2B,64,0,r,nullptr,nullptr);
}
static const char*opn[]={"const","var","+","-","*","udiv","urem","sdiv","srem","&","|","^","~","shl","lshr","ashr","extract","concat","zext","sext","ite","==","u<","u<=","s<","s<=","f2b","<.","<=.","==.","rc","rv","+.","-.","*.","/.","neg.","fun"};
std::string show(Node *n,int depth){
    if(!n) return "?"; if(n->op==O_CONST){ return std::to_string(sext(n->c,n->w))+":"+std::to_string(n->w);} if(n->op==O_VAR||n->op==O_RVAR) return g_vars[n->c].name;
    if(isRC(n)) return std::to_string(n->q->get_d()); if(depth<=0) return "...";
    std::string s="("+std::string(n->op==O_RFUN?fun_names[n->fun]:opn[n->op]); if(n->op==O_EXTRACT) s+="@"+std::to_string(n->c)+"w"+std::to_string(n->w);
    for(Node*k:{n->a,n->b,n->d}) if(k) s+=" "+show(k,depth-1); return s+")";
}
static std::unordered_map<u64,Node*> dmemo;
Node *ddx(Node *y, Node *x){
    if(y==x) return mkRConst(1);
    if(y->op==O_RCONST||y->op==O_RVAR) return mkRConst(0);
    if(!(y->mask&x->mask)) return mkRConst(0);
    u64 key=((u64)y->id<<32)|x->id; auto it=dmemo.find(key); if(it!=dmemo.end()) return it->second;
    Node*r=nullptr; Node*da=y->a?ddx(y->a,x):nullptr; Node*db=y->b?ddx(y->b,x):nullptr;
    auto M=[](Node*p,Node*q){return mkRBin(O_RMUL,p,q);}; auto D=[](Node*p,Node*q){return mkRBin(O_RDIV,p,q);}; Node*one=mkRConst(1);
    switch(y->op){
    case O_RADD: r=mkRBin(O_RADD,da,db); break; case O_RSUB: r=mkRBin(O_RSUB,da,db); break;
    case O_RMUL: r=mkRBin(O_RADD,M(da,y->b),M(y->a,db)); break;
    case O_RDIV: r=D(mkRBin(O_RSUB,da,M(y,db)),y->b); break;
    case O_RNEG: r=mkRNeg(da); break;
    case O_RFUN: switch(y->fun){
        case F_SQRT: r=D(da,M(mkRConst(2),y)); break;
        case F_CBRT: r=D(da,M(mkRConst(3),M(y,y))); break;
        case F_SIN: r=M(mkRFun(F_COS,y->a),da); break; case F_COS: r=mkRNeg(M(mkRFun(F_SIN,y->a),da)); break;
        case F_EXP: r=M(y,da); break; case F_LOG: r=D(da,y->a); break;
        case F_ASIN: r=D(da,mkRFun(F_SQRT,mkRBin(O_RSUB,one,M(y->a,y->a)))); break;
        case F_ACOS: r=mkRNeg(D(da,mkRFun(F_SQRT,mkRBin(O_RSUB,one,M(y->a,y->a))))); break;
        case F_ATAN: r=D(da,mkRBin(O_RADD,one,M(y->a,y->a))); break;
        case F_ATAN2: r=D(mkRBin(O_RSUB,M(da,y->b),M(y->a,db)),mkRBin(O_RADD,M(y->a,y->a),M(y->b,y->b))); break;
        case F_SINH: r=M(mkRFun(F_COSH,y->a),da); break; case F_COSH: r=M(mkRFun(F_SINH,y->a),da); break;
        case F_TANH: r=M(mkRBin(O_RSUB,one,M(y,y)),da); break;
        case F_POW: if(y->b->op!=O_RCONST) throw Unsupported("d/dx pow with symbolic exponent"); r=M(M(y->b,D(y,y->a)),da); break;
        default: throw Unsupported("ddx fun"); } break;
    default: throw Unsupported("ddx op");
    }
    dmemo[key]=r; return r;
}
double Evaluator::evalR(Node *n){
    if(n->op==O_RCONST) return n->q->get_d();
    if(n->op==O_RVAR) return (n->c<m->r.size()&&m->has[n->c])? m->r[n->c].get_d() : (g_vars[n->c].rbounded? mpq_class((g_vars[n->c].rlo+g_vars[n->c].rhi)/2).get_d():0.0);
    auto it=rd.find(n); if(it!=rd.end()) return it->second;
    double a=n->a?evalR(n->a):0,b=n->b?evalR(n->b):0,r=0;
    switch(n->op){ case O_RADD:r=a+b;break;case O_RSUB:r=a-b;break;case O_RMUL:r=a*b;break;case O_RDIV:r=a/b;break;case O_RNEG:r=-a;break;
    case O_RFUN: switch(n->fun){case F_SQRT:r=sqrt(a);break;case F_SIN:r=sin(a);break;case F_COS:r=cos(a);break;case F_TAN:r=tan(a);break;case F_EXP:r=exp(a);break;case F_LOG:r=log(a);break;case F_ASIN:r=asin(a);break;case F_ACOS:r=acos(a);break;case F_ATAN:r=atan(a);break;case F_ATAN2:r=atan2(a,b);break;case F_POW:r=pow(a,b);break;case F_SINH:r=sinh(a);break;case F_COSH:r=cosh(a);break;case F_TANH:r=tanh(a);break;case F_CBRT:r=cbrt(a);break;} break;
    default: throw Unsupported("evalR"); }
    rd[n]=r; return r;
}
u64 Evaluator::eval(Node *n){
    if(n->op==O_CONST) return n->c;
    if(n->op==O_VAR) return ((n->c<m->i.size()&&m->has[n->c])? m->i[n->c] : (u64)g_vars[n->c].lo)&maskw(n->w);
    auto it=bv.find(n); if(it!=bv.end()) return it->second;
    u64 r=0;
    switch(n->op){
    case O_NOT: r=~eval(n->a)&maskw(n->w); break;
    case O_EXTRACT: r=(eval(n->a)>>n->c)&maskw(n->w); break;
    case O_CONCAT: r=(eval(n->a)<<n->b->w)|eval(n->b); break;
    case O_ZEXT: r=eval(n->a); break; case O_SEXT: r=(u64)sext(eval(n->a),n->a->w)&maskw(n->w); break;
    case O_ITE: r=eval(n->a)?eval(n->b):eval(n->d); break;
    case O_F2B: r=asU(evalR(n->a)); break;
    case O_RLT: r=evalR(n->a)<evalR(n->b); break; case O_RLE: r=evalR(n->a)<=evalR(n->b); break; case O_REQ: r=evalR(n->a)==evalR(n->b); break;
    default: r=foldBin(n->op,eval(n->a),eval(n->b),n->a->w);
    }
    bv[n]=r; return r;
}
static std::unordered_map<Node*,std::vector<int>> vmemo;
const std::vector<int>& varsOf(Node *n){
    auto it=vmemo.find(n); if(it!=vmemo.end()) return it->second;
    std::vector<int> v;
    if(n->op==O_VAR||n->op==O_RVAR) v.push_back(n->c);
    else for(Node*k:{n->a,n->b,n->d}) if(k){ const auto&s=varsOf(k); std::vector<int> t; std::set_union(v.begin(),v.end(),s.begin(),s.end(),std::back_inserter(t)); v.swap(t);}    
    return vmemo.emplace(n,std::move(v)).first->second;
}
void collectVars(Node*n,std::vector<int>&out){ for(int v:varsOf(n)) out.push_back(v); }
