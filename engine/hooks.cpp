#include "engine.h"
#include <unordered_map>
#include <iostream>
#include <fstream>
static std::unordered_map<std::string,Node*> varByKey;
void Engine::initHooks(){
    std::unordered_map<std::string,std::function<void()>> H;
    auto arg=[this](int i)->Val&{ static const int r[]={7,6,2,1,8,9}; return cur->reg[r[i]]; };
    auto argc_=[this,arg](int i,const char*w){ return concV(arg(i),64,w); };
    auto str=[this,arg](int i){ std::string s; cstr(concV(arg(i),64,"string"),s); return s; };
    auto ret=[this](Val v){ cur->reg[0]=v; };
    auto noop=[this]{ cur->reg[0]=Val(0); };
    // ---- allocation
    for(const char*n:{"malloc"}) H[n]=[=,this]{ u64 s=argc_(0,"malloc size"); ret(Val(halloc(s,0))); };
    H["calloc"]=[=,this]{ u64 s=argc_(0,"calloc")*argc_(1,"calloc"); u64 a=halloc(s,0); for(u64 i=0;i<s;i++) st(a+i,Val(0),1); ret(Val(a)); };
    H["free"]=[=,this]{ hfree(argc_(0,"free"),0,-1); };
    H["_Znwm"]=[=,this]{ ret(Val(halloc(argc_(0,"new size"),1))); };
    H["_Znam"]=[=,this]{ ret(Val(halloc(argc_(0,"new size"),2))); };
    H["_ZnwmSt11align_val_t"]=[=,this]{ ret(Val(halloc(argc_(0,"new size"),1,argc_(1,"align")))); };
    H["_ZnwmRKSt9nothrow_t"]=H["_Znwm"]; H["_ZnamRKSt9nothrow_t"]=H["_Znam"];
    H["_ZdlPv"]=[=,this]{ hfree(argc_(0,"delete"),1,-1); }; H["_ZdaPv"]=[=,this]{ hfree(argc_(0,"delete"),2,-1); };
    H["_ZdlPvm"]=[=,this]{ hfree(argc_(0,"delete"),1,(i64)argc_(1,"delete size")); }; H["_ZdaPvm"]=[=,this]{ hfree(argc_(0,"delete"),2,-1); };
    H["_ZdlPvmSt11align_val_t"]=H["_ZdlPvm"]; H["_ZdlPvSt11align_val_t"]=H["_ZdlPv"];
    // ---- memory / strings
    auto copy=[this](u64 d,u64 s,u64 n){ if(d==s||!n) return; if(d<s||d>=s+n){ u64 i=0; while(i<n){ u64 k=std::min<u64>(n-i,8); if(((d+i)&7)&&k>8-((d+i)&7)) k=8-((d+i)&7); st(d+i,ld(s+i,k),k); i+=k; } } else { std::vector<Val> t; for(u64 i=0;i<n;i++) t.push_back(ld(s+i,1)); for(u64 i=0;i<n;i++) st(d+i,t[i],1); } };
    H["memcpy"]=H["memmove"]=[=,this]{ u64 d=argc_(0,"memcpy"),s=argc_(1,"memcpy"),n=argc_(2,"memcpy"); copy(d,s,n); ret(Val(d)); };
    H["memset"]=[=,this]{ u64 d=argc_(0,"memset"),n=argc_(2,"memset"); Val v=arg(1); v=v.e?mkV(mkExtract(v.e,0,8)):Val(v.c&0xff); u64 i=0; if(!v.e){ u64 w=0x0101010101010101ull*v.c; while(i<n){ u64 k=std::min<u64>(n-i,8-((d+i)&7)); st(d+i,Val(w&maskw(8*k)),k); i+=k; } } else for(;i<n;i++) st(d+i,v,1); ret(Val(d)); };
    H["memcmp"]=[=,this]{ u64 a=argc_(0,"memcmp"),b=argc_(1,"memcmp"),n=argc_(2,"memcmp"); i64 r=0; for(u64 i=0;i<n&&!r;){ u64 k=std::min<u64>(n-i,8-((a+i)&7)); Val x=ld(a+i,k),y=ld(b+i,k); if(!x.e&&!y.e){ if(x.c!=y.c) r=__builtin_bswap64(x.c<<(64-8*k))<__builtin_bswap64(y.c<<(64-8*k))?-1:1; if(k!=8&&x.c!=y.c){ for(u64 j=0;j<k;j++){ u8 p=x.c>>(8*j),q=y.c>>(8*j); if(p!=q){ r=p<q?-1:1; break; } } } } else if(!decide(mkBin(O_EQ,nodeOf(x,8*k),nodeOf(y,8*k)))) r=1; i+=k; } ret(Val((u64)r)); };
    H["strlen"]=[=,this]{ std::string s=str(0); ret(Val(s.size())); };
    H["strcmp"]=[=,this]{ ret(Val((u64)(i64)strcmp(str(0).c_str(),str(1).c_str()))); };
    // ---- failure paths
    auto rej=[](std::string m){ throw PathEnd{PathEnd::REJECT,m}; };
    H["__assert_fail"]=[=,this]{ rej("assertion failed: "+str(0)); };
    H["_ZSt21__glibcxx_assert_failPKciS0_S0_"]=[=,this]{ rej("library assertion failed: "+str(3)); };
    H["abort"]=[=]{ rej("abort"); }; H["_ZSt9terminatev"]=[=]{ rej("terminate"); }; H["__cxa_throw"]=[=]{ rej("exception thrown"); }; H["__cxa_pure_virtual"]=[=]{ rej("pure virtual call"); }; H["exit"]=[=]{ rej("exit"); }; H["_exit"]=H["exit"];
    H["__cxa_rethrow"]=H["__cxa_throw"]; H["_Unwind_Resume"]=H["__cxa_throw"]; H["__stack_chk_fail"]=[=]{ rej("stack smashing"); }; H["__cxa_throw_bad_array_new_length"]=[=]{ rej("bad array new length"); };
    H["sx_firewall"]=[=]{ rej("firewall"); };
    H["__cxa_allocate_exception"]=[=,this]{ ret(Val(halloc(argc_(0,"exc")+128,0))); };
    H["__cxa_free_exception"]=noop; 
    for(auto&[a,n]:stubNames) if(n.compare(0,9,"_ZSt__thr")==0||n.compare(0,11,"_ZSt20__thr")==0||n.find("__throw_")!=std::string::npos){ std::string nm=n; H[n]=[nm]{ throw PathEnd{PathEnd::REJECT,"exception "+nm}; }; }
    for(auto&[a,n]:stubNames) if(n.find("ios_base4Init")!=std::string::npos) H[n]=noop;
    H["__cxa_atexit"]=noop; H["__cxa_thread_atexit"]=noop; H["atexit"]=noop; H["__cxa_finalize"]=noop;
    H["__cxa_guard_acquire"]=[=,this]{ u64 g=argc_(0,"guard"); Val v=ld(g,1); ret(Val(v.c?0:1)); }; H["__cxa_guard_release"]=[=,this]{ st(argc_(0,"guard"),Val(1),1); }; H["__cxa_guard_abort"]=noop;
    H["_ZNSt9exceptionD2Ev"]=noop; H["_ZNSt11logic_errorC1EPKc"]=noop; H["_ZNSt13runtime_errorC1EPKc"]=noop;
    // ---- hash policy: run the host library's own implementation
    H["_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm"]=[=,this]{ u64 p=argc_(0,"hash"); std::__detail::_Prime_rehash_policy pol; u64 b[2]; for(int i=0;i<2;i++) b[i]=ld(p+8*i,8).c; memcpy(&pol,b,16); auto r=pol._M_need_rehash(argc_(1,"h"),argc_(2,"h"),argc_(3,"h")); memcpy(b,&pol,16); for(int i=0;i<2;i++) st(p+8*i,Val(b[i]),8); cur->reg[0]=Val(r.first); cur->reg[2]=Val(r.second); };
    H["_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm"]=[=,this]{ u64 p=argc_(0,"hash"); std::__detail::_Prime_rehash_policy pol; u64 b[2]; for(int i=0;i<2;i++) b[i]=ld(p+8*i,8).c; memcpy(&pol,b,16); auto r=pol._M_next_bkt(argc_(1,"h")); memcpy(b,&pol,16); for(int i=0;i<2;i++) st(p+8*i,Val(b[i]),8); ret(Val(r)); };
    H["_ZSt11_Hash_bytesPKvmm"]=[=,this]{ u64 p=argc_(0,"hash"),n=argc_(1,"hash"); std::string s; for(u64 i=0;i<n;i++) s.push_back((char)concV(ld(p+i,1),8,"hash byte")); ret(Val(std::_Hash_bytes(s.data(),n,argc_(2,"seed")))); };
    // ---- libm
    auto F=[&](const char*n,Fun f){ H[n]=[=,this]{ Val r=fpFun(f,cur->xmm[0][0]); cur->xmm[0][0]=r; cur->xmm[0][1]=Val(0); }; };
    F("sin",F_SIN);F("cos",F_COS);F("tan",F_TAN);F("exp",F_EXP);F("log",F_LOG);F("asin",F_ASIN);F("acos",F_ACOS);F("atan",F_ATAN);F("sinh",F_SINH);F("cosh",F_COSH);F("tanh",F_TANH);F("sqrt",F_SQRT);F("cbrt",F_CBRT);
    H["sincos"]=[=,this]{ Val x=cur->xmm[0][0]; Val a=fpFun(F_SIN,x),b=fpFun(F_COS,x); st(argc_(0,"sincos"),a,8); st(argc_(1,"sincos"),b,8); };
    auto hyp=[=,this](Node*x,Node*y)->Val{ return fpSqrt(fromReal(mkRBin(O_RADD,mkRBin(O_RMUL,x,x),mkRBin(O_RMUL,y,y)))); };
    H["hypot"]=[=,this]{ Val a=cur->xmm[0][0],b=cur->xmm[1][0]; if(!a.e&&!b.e) cur->xmm[0][0]=Val(asU(hypot(asD(a.c),asD(b.c)))); else cur->xmm[0][0]=hyp(toReal(a),toReal(b)); };
    H["atan2"]=[=,this]{ Val a=cur->xmm[0][0],b=cur->xmm[1][0]; if(!a.e&&!b.e){ cur->xmm[0][0]=Val(asU(atan2(asD(a.c),asD(b.c)))); return; } Node*y=toReal(a),*x=toReal(b); Val h=hyp(x,y); Node*hn=toReal(h); Node*zero=mkRPred(O_REQ,hn,mkRConst(0)); if(decide(mkBin(O_AND,mkRPred(O_REQ,x,mkRConst(0)),mkRPred(O_REQ,y,mkRConst(0))))){ cur->xmm[0][0]=Val(0); return; } if(zero->op!=O_CONST) cur->known.insert(mkNot(zero)); Node*t=mkRFun(F_ATAN2,y,x); g_hyp[t]=hn; cur->xmm[0][0]=fromReal(t); };
    H["pow"]=[=,this]{ Val a=cur->xmm[0][0],b=cur->xmm[1][0]; if(!a.e&&!b.e){ cur->xmm[0][0]=Val(asU(pow(asD(a.c),asD(b.c)))); return; } if(b.e) throw Unsupported("pow with symbolic exponent"); Node*x=toReal(a); double e=asD(b.c);
        if(e==std::floor(e)&&fabs(e)<=64){ int n=(int)fabs(e); Node*r=mkRConst(1); for(int i=0;i<n;i++) r=mkRBin(O_RMUL,r,x); if(e<0){ Val one(asU(1.0)); Val v=fpBin(3,one,fromReal(r)); cur->xmm[0][0]=v; return; } cur->xmm[0][0]=fromReal(r); }
        else if(2*e==std::floor(2*e)&&fabs(e)<=32){ Val s=fpSqrt(a); Node*sr=toReal(s); int n=(int)(2*fabs(e)); Node*r=mkRConst(1); for(int i=0;i<n;i++) r=mkRBin(O_RMUL,r,sr); if(e<0){ Val v=fpBin(3,Val(asU(1.0)),fromReal(r)); cur->xmm[0][0]=v; return; } cur->xmm[0][0]=fromReal(r); }
        else { if(decide(mkRPred(O_RLE,x,mkRConst(0)))) viol("arithmetic","fractional power of a non-positive number"); cur->xmm[0][0]=fromReal(mkRFun(F_POW,x,mkRConst(mpq_class(e)))); } };
    H["fabs"]=[=,this]{ cur->xmm[0][0]=xbit(O_AND,cur->xmm[0][0],Val(0x7fffffffffffffffull)); };
    auto rnd=[&](const char*n,int mode,double(*f)(double)){ H[n]=[=,this]{ Val a=cur->xmm[0][0]; cur->xmm[0][0]=Val(asU(a.e?(double)roundReal(a,mode):f(asD(a.c)))); }; };
    rnd("floor",1,std::floor); rnd("ceil",2,std::ceil); rnd("trunc",0,std::trunc); rnd("round",3,std::round);
    for(const char*n:{"lround","llround"}) H[n]=[=,this]{ Val a=cur->xmm[0][0]; ret(Val((u64)(a.e?roundReal(a,3):std::llround(asD(a.c))))); };
    for(const char*n:{"fmin","fmax"}){ bool mx=n[2]=='a'; H[n]=[=,this]{ Val a=cur->xmm[0][0],b=cur->xmm[1][0]; bool t; if(!a.e&&!b.e){ double x=asD(a.c),y=asD(b.c); cur->xmm[0][0]=Val(asU(mx?std::fmax(x,y):std::fmin(x,y))); return; } Node*x=toReal(a),*y=toReal(b); t=decide(mx?mkRPred(O_RLT,y,x):mkRPred(O_RLT,x,y)); cur->xmm[0][0]=t?a:b; }; }
    H["fma"]=[=,this]{ cur->xmm[0][0]=fpBin(0,fpBin(2,cur->xmm[0][0],cur->xmm[1][0]),cur->xmm[2][0]); };
    H["fmod"]=[=,this]{ Val a=cur->xmm[0][0],b=cur->xmm[1][0]; if(!a.e&&!b.e){ cur->xmm[0][0]=Val(asU(fmod(asD(a.c),asD(b.c)))); return; } Val q=fpBin(3,a,b); i64 k=roundReal(q,0); cur->xmm[0][0]=fpBin(1,a,fpBin(2,Val(asU((double)k)),b)); };
    auto viaC=[&](const char*n,Fun f,double pre,double scale){ H[n]=[=,this]{ cur->xmm[0][0]=fpBin(2,fpFun(f,fpBin(2,cur->xmm[0][0],Val(asU(pre)))),Val(asU(scale))); }; };
    viaC("exp2",F_EXP,std::log(2.0),1); viaC("exp10",F_EXP,std::log(10.0),1); viaC("log2",F_LOG,1,1/std::log(2.0)); viaC("log10",F_LOG,1,1/std::log(10.0));
    H["expm1"]=[=,this]{ cur->xmm[0][0]=fpBin(1,fpFun(F_EXP,cur->xmm[0][0]),Val(asU(1.0))); };
    H["log1p"]=[=,this]{ cur->xmm[0][0]=fpFun(F_LOG,fpBin(0,cur->xmm[0][0],Val(asU(1.0)))); };
    H["__popcountdi2"]=[=,this]{ ret(Val(__builtin_popcountll(argc_(0,"popcount")))); };
    H["memchr"]=[=,this]{ u64 a=argc_(0,"memchr"),c=argc_(1,"memchr")&0xff,n=argc_(2,"memchr"),r=0; for(u64 i=0;i<n;i++) if(concV(ld(a+i,1),8,"memchr")==c){ r=a+i; break; } ret(Val(r)); };
    H["strchr"]=[=,this]{ std::string t=str(0); u64 c=argc_(1,"strchr")&0xff; size_t p=c?t.find((char)c):t.size(); ret(Val(p==std::string::npos?0:argc_(0,"strchr")+p)); };
    H["strncmp"]=[=,this]{ ret(Val((u64)(i64)strncmp(str(0).c_str(),str(1).c_str(),argc_(2,"strncmp")))); };
    auto ct=[&](const char*n,int(*f)(int)){ H[n]=[=,this]{ ret(Val((u64)(u32)f((int)(argc_(0,n)&0xffffffff)))); }; };
    ct("isalpha",isalpha); ct("isdigit",isdigit); ct("isalnum",isalnum); ct("isspace",isspace); ct("isupper",isupper); ct("islower",islower); ct("ispunct",ispunct); ct("isxdigit",isxdigit); ct("tolower",tolower); ct("toupper",toupper);
    // output is discarded
    for(auto&[a,n]:stubNames) if(n.compare(0,5,"_ZNSo")==0||n.compare(0,6,"_ZStls")==0||n.compare(0,24,"_ZSt16__ostream_insertIc")==0||n.compare(0,8,"_ZSt4endl")==0) H[n]=[=,this]{ ret(arg(0)); };
    // one thread
    for(const char*n:{"pthread_mutex_lock","pthread_mutex_unlock","pthread_mutex_trylock","pthread_mutex_init","pthread_mutex_destroy"}) H[n]=noop;
    H["__dynamic_cast"]=[=,this]{ u64 p=argc_(0,"dynamic_cast"),dst=argc_(2,"dynamic_cast"); if(!p){ ret(Val(0)); return; } u64 vt=ld(p,8).c; i64 top=(i64)ld(vt-16,8).c; u64 ti=ld(vt-8,8).c; u64 at=p+top; 
        // search the base classes of the dynamic type
        std::function<u64(u64,u64,int)> find=[&](u64 t,u64 o,int depth)->u64{ if(t==dst) return o; if(depth>20) return 0; auto kind=stubNames.find(ld(t,8).c-16); std::string k=kind==stubNames.end()?std::string():kind->second;
            if(k.find("__si_class")!=std::string::npos) return find(ld(t+16,8).c,o,depth+1);
            if(k.find("__vmi_class")!=std::string::npos){ u64 n=ld(t+20,4).c; for(u64 i=0;i<n;i++){ u64 b=ld(t+24+16*i,8).c; i64 fl=(i64)ld(t+32+16*i,8).c; if(fl&1) throw Unsupported("virtual base in dynamic_cast"); u64 r=find(b,o+(fl>>8),depth+1); if(r) return r; } return 0; }
            if(k.find("__class_type")!=std::string::npos) return 0; throw Unsupported("type information "+k); };
        ret(Val(find(ti,at,0))); };
    // ---- harness interface
    auto newVar=[=,this](const std::string&name,bool real,i64 lo,i64 hi,bool bounded,double rlo,double rhi)->int{ std::string k=name+"#"+std::to_string(cur->occ[name]++)+(real?"r":"i")+std::to_string(lo)+","+std::to_string(hi)+","+std::to_string(rlo)+","+std::to_string(rhi); auto it=varByKey.find(k); Node*n; if(it!=varByKey.end()) n=it->second; else { n=real? mkRealVar(name,bounded,mpq_class(rlo),mpq_class(rhi)) : mkIntVar(name,32,lo,hi); varByKey[k]=n; } int idx=(int)n->c;
        auto m=std::make_shared<Model>(*cur->model); m->r.resize(g_vars.size()); m->i.resize(g_vars.size(),0); m->has.resize(g_vars.size(),0); m->has[idx]=1; if(real){ // default value: an irregular interior point
            mpq_class t(37+(idx*29)%53,128); m->r[idx]= bounded? mpq_class(mpq_class(rlo)+(mpq_class(rhi)-mpq_class(rlo))*t) : t; m->r[idx]=mpq_class(m->r[idx].get_d()); } else m->i[idx]=(u64)lo; cur->model=m; cur->inputs.push_back({name,idx}); return idx; };
    H["sx_int"]=[=,this]{ std::string n=str(0); i64 lo=sext(argc_(1,"lo"),32),hi=sext(argc_(2,"hi"),32); if(lo>hi) throw PathEnd{PathEnd::INFEASIBLE,"empty range"}; int i=newVar(n,false,lo,hi,true,0,0); ret(mkV(mkExt(g_vars[i].node,64,false))); };
    H["sx_choose"]=[=,this]{ std::string n=str(0); i64 k=sext(argc_(1,"n"),32); if(k<=0) throw PathEnd{PathEnd::INFEASIBLE,"empty choice"}; int i=newVar(n,false,0,k-1,true,0,0); ret(mkV(mkExt(g_vars[i].node,64,false))); };
    H["sx_real"]=[=,this]{ std::string n=str(0); Val lo=cur->xmm[0][0],hi=cur->xmm[1][0]; if(lo.e||hi.e) throw Unsupported("symbolic box"); int i=newVar(n,true,0,0,true,asD(lo.c),asD(hi.c)); cur->xmm[0][0]=fromReal(g_vars[i].node); cur->xmm[0][1]=Val(0); };
    auto boolArg=[=,this](int i)->Node*{ Val v=arg(i); if(!v.e) return mkConst((v.c&0xff)!=0,1); Node*b=mkExtract(v.e,0,8); return mkNot(mkBin(O_EQ,b,mkConst(0,8))); };
    H["sx_assume"]=[=,this]{ assume(boolArg(0)); };
    H["sx_concretize"]=[=,this]{ Val v=arg(0); if(v.e){ u64 x=conc(mkExtract(v.e,0,32),"sx_concretize"); ret(Val(x)); } else ret(Val(v.c&0xffffffff)); };
    H["sx_check"]=[=,this]{ std::string l=str(1); Node*c=split(boolArg(0)); checkHits[l]++; if(c->op!=O_CONST&&violCount["check:"+l]>=4) return; if(c->op==O_CONST){ if(!c->c) { viol("check",l); } checkProved[l]++; return; }
        Model m; Res r=S.check(cur->pc,mkNot(c),*cur->model,m); if(r==UNSAT){ checkProved[l]++; cur->known.insert(c); return; } if(r==UNKNOWN){ inconcl["check: "+l]++; return; } recordViol("check",l,m); assume(c); };
    H["sx_close"]=[=,this]{ std::string l=str(0); Val a=cur->xmm[0][0],b=cur->xmm[1][0],t=cur->xmm[2][0]; checkHits[l]++; if((a.e||b.e)&&violCount["check:"+l]>=4) return; if(!a.e&&!b.e){ double d=asD(a.c)-asD(b.c); if(!(fabs(d)<=asD(t.c))) viol("check",l); checkProved[l]++; return; }
        auto nonfin=[&](Val v){return !v.e&&!std::isfinite(asD(v.c));}; if(nonfin(a)||nonfin(b)) viol("check",l+" (non-finite)");
        Node*d=mkRBin(O_RSUB,toReal(a),toReal(b)); Node*T=toReal(t); if(d->op==O_RCONST){ mpq_class x=*d->q; if(abs(x)>*T->q) viol("check",l); checkProved[l]++; return; }
        Node*bad=mkBin(O_OR,mkRPred(O_RLT,T,d),mkRPred(O_RLT,d,mkRNeg(T))); Model m; Res r=S.check(cur->pc,bad,*cur->model,m); if(r==UNSAT){ checkProved[l]++; return; } if(r==UNKNOWN){ inconcl["check: "+l]++; return; }
        // prefer a counterexample that exceeds the tolerance by a wide margin, so that it survives rounding in the replay
        for(double k:{1e6,1e3,20.0}){ Node*TT=mkRConst(T->op==O_RCONST? mpq_class(*T->q*mpq_class(k)) : mpq_class(k)); Node*b2=mkBin(O_OR,mkRPred(O_RLT,TT,d),mkRPred(O_RLT,d,mkRNeg(TT))); Model m2; if(T->op==O_RCONST&&S.check(cur->pc,b2,*cur->model,m2)==SAT){ m=m2; break; } }
        recordViol("check",l,m); };
    H["sx_ddx_raw"]=[=,this]{ Val y=cur->xmm[0][0],x=cur->xmm[1][0]; Node*X=toReal(x); if(X->op!=O_RVAR) throw Unsupported("derivative with respect to a non-variable"); Node*Y=toReal(y); cur->xmm[0][0]=fromReal(ddx(Y,X)); cur->xmm[0][1]=Val(0); };
    H["sx_symbolic"]=[=,this]{ ret(Val(1)); };
    H["sx_expect_reject"]=[=,this]{ cur->expectReject=true; };
    H["sx_observe_i"]=[=,this]{ std::string n=str(0); Val v=arg(1); cur->obs.push_back({n,nodeOf(v,64)}); cur->obsReal.push_back(0); };
    H["sx_observe_d"]=[=,this]{ std::string n=str(0); Val v=cur->xmm[0][0]; if(!v.e&&!std::isfinite(asD(v.c))) return; cur->obs.push_back({n,toReal(v)}); cur->obsReal.push_back(1); };
    H["sx_heap_live"]=[=,this]{ ret(Val(cur->live)); };
    H["sx_bound"]=[=,this]{ std::string n=str(0); auto it=bounds.find(n); ret(it==bounds.end()?Val(arg(1)):Val((u64)(i64)it->second)); };
    H["sx_trace"]=[=,this]{ cur->trace.push_back(str(0)); };
    H["sx_trace_i"]=[=,this]{ Val v=arg(1); cur->trace.push_back(str(0)+"="+(v.e?show(v.e,3):std::to_string((i64)v.c))); };
    H["sx_print_d"]=[=,this]{ Val v=cur->xmm[0][0]; std::cerr<<str(0)<<" = "<<(v.e?show(v.e,12):std::to_string(asD(v.c)))<<"\n"; };
    H["sx_stop"]=[=]{ throw PathEnd{PathEnd::OK,"stop"}; };
    for(auto&[n,f]:H){ auto it=syms.find(n); if(it!=syms.end()&&it->second>=stubLo&&it->second<stubHi) hooks[it->second]=f; }
}
int main(int argc,char**argv){
    Engine E; std::string elf,fn,out,addrs; for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{return std::string(argv[++i]);}; if(a=="-o") out=nx(); else if(a=="-f") fn=nx(); else if(a=="-b"){ std::string s=nx(); size_t p=s.find('='); E.bounds[s.substr(0,p)]=atoi(s.c_str()+p+1); } else if(a=="-t") E.maxTime=atof(nx().c_str()); else if(a=="-p") E.maxPaths=atoll(nx().c_str()); else if(a=="-w") E.maxWit=atoi(nx().c_str()); else if(a=="-v") E.verbose=true; else if(a=="--heap-down") E.heapDown=true; else if(a=="--nra") E.S.nraTimeout=atoi(nx().c_str()); else if(a=="-a") addrs=nx(); else if(a=="--seed") E.S.rng.seed(atoi(nx().c_str())); else elf=a; }
    try { E.load(elf); E.initHooks(); E.run(fn); } catch(PathEnd&e){ std::cerr<<"static initialisation ended: "<<e.msg<<"\n"; return 3; } catch(std::exception&e){ std::cerr<<"engine error: "<<e.what()<<"\n"; return 3; } catch(z3::exception&e){ std::cerr<<"z3: "<<e.msg()<<"\n"; return 3; }
    std::string j=E.json(); if(out.empty()) std::cout<<j<<"\n"; else { std::ofstream o(out); o<<j; }
    if(!addrs.empty()){ std::ofstream o(addrs); o<<std::hex; for(size_t i=0;i<E.icache.size();i++) if(E.icache[i]) o<<(IMG_BASE+i)<<"\n"; }
    return 0;
}
