#include "engine.h"
#include <elf.h>
#include <fstream>
#include <sstream>
#include <chrono>
#include <cxxabi.h>
#include <iostream>
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
Insn decodeAt(const u8*,size_t,u64);
static std::string demangle(const std::string&s){ int st; char*d=abi::__cxa_demangle(s.c_str(),0,0,&st); if(st==0&&d){ std::string r=d; free(d); return r; } return s; }

void Engine::load(const std::string&f){
    std::ifstream is(f,std::ios::binary); std::string b((std::istreambuf_iterator<char>(is)),{}); auto*eh=(Elf64_Ehdr*)b.data(); if(b.size()<64||memcmp(eh->e_ident,ELFMAG,4)) throw std::runtime_error("bad elf "+f);
    auto*ph=(Elf64_Phdr*)(b.data()+eh->e_phoff); u64 hi=IMG_BASE; for(int i=0;i<eh->e_phnum;i++) if(ph[i].p_type==PT_LOAD){ if(ph[i].p_vaddr<IMG_BASE) throw std::runtime_error("segment below base"); hi=std::max<u64>(hi,ph[i].p_vaddr+ph[i].p_memsz); }
    u64 tls=0; for(int i=0;i<eh->e_phnum;i++) if(ph[i].p_type==PT_TLS){ u64 al=std::max<u64>(ph[i].p_align,16); tls=(hi+4095)&~4095ull; fsBase=(tls+ph[i].p_memsz+al-1)/al*al; hi=fsBase+64; }
    hi=(hi+4095)&~4095ull; if(hi>IMG_END) throw std::runtime_error("image too large"); imgEnd=hi; size_t np=(hi-IMG_BASE)>>12; img0.resize(np); imgW.assign(np,0); for(auto&p:img0) p=PageRef(new Page);
    for(int i=0;i<eh->e_phnum;i++) if(ph[i].p_type==PT_LOAD){ for(u64 k=0;k<ph[i].p_filesz;k++){ u64 a=ph[i].p_vaddr+k; img0[(a-IMG_BASE)>>12].p->data[a&4095]=b[ph[i].p_offset+k]; } if(ph[i].p_flags&PF_W) for(u64 a=ph[i].p_vaddr&~4095ull;a<ph[i].p_vaddr+ph[i].p_memsz;a+=4096) imgW[(a-IMG_BASE)>>12]=1; }
    if(fsBase) for(int i=0;i<eh->e_phnum;i++) if(ph[i].p_type==PT_TLS){ u64 al=std::max<u64>(ph[i].p_align,1),at=fsBase-(ph[i].p_memsz+al-1)/al*al; auto put=[&](u64 a,u8 x){ img0[(a-IMG_BASE)>>12].p->data[a&4095]=x; }; for(u64 k=0;k<ph[i].p_filesz;k++) put(at+k,b[ph[i].p_offset+k]); for(int k=0;k<8;k++) put(fsBase+k,(u8)(fsBase>>(8*k))); for(u64 a=tls;a<hi;a+=4096) imgW[(a-IMG_BASE)>>12]=1; }
    auto*sh=(Elf64_Shdr*)(b.data()+eh->e_shoff); const char*sn=b.data()+sh[eh->e_shstrndx].sh_offset;
    for(int i=0;i<eh->e_shnum;i++){ std::string nm=sn+sh[i].sh_name; if(nm==".init_array"){ initArr=sh[i].sh_addr; initArrEnd=initArr+sh[i].sh_size; }
        if(sh[i].sh_type==SHT_SYMTAB){ auto*sy=(Elf64_Sym*)(b.data()+sh[i].sh_offset); const char*st=b.data()+sh[sh[i].sh_link].sh_offset; size_t n=sh[i].sh_size/sizeof(Elf64_Sym); for(size_t k=0;k<n;k++){ std::string s=st+sy[k].st_name; if(s.empty()||sy[k].st_shndx==SHN_UNDEF) continue; int ty=ELF64_ST_TYPE(sy[k].st_info); if(ty!=STT_FUNC&&ty!=STT_OBJECT&&ty!=STT_NOTYPE) continue; if(ELF64_ST_BIND(sy[k].st_info)!=STB_LOCAL||!syms.count(s)) syms[s]=sy[k].st_value; if(ty==STT_FUNC) funcs[sy[k].st_value]={s,sy[k].st_size}; } } }
    stubLo=syms["__sx_stubs_begin"]; stubHi=syms["__sx_stubs_end"]; if(stubHi) for(auto&[s,a]:syms) if(a>=stubLo&&a<stubHi&&s!="__sx_stubs_begin") stubNames[a]=s;
    icache.assign(hi-IMG_BASE,nullptr);
}
std::string Engine::symAt(u64 a){ auto it=funcs.upper_bound(a); if(it==funcs.begin()) return "?"; --it; if(a<it->first+std::max<u64>(it->second.second,1)) return demangle(it->second.first); auto s=stubNames.find(a); if(s!=stubNames.end()) return s->second; return "?"; }

PageRef* Engine::page(u64 a,bool w){
    State&s=*cur; PageRef*r=nullptr;
    if(a>=HEAP_BASE&&a<HEAP_END){ size_t i=(a-HEAP_BASE)>>12; if(i>=s.heap.size()) { if(a<HEAP_BASE+0x1000||s.heap.empty()) viol("memory","access to unmapped heap address"); s.heap.resize(i+1); } if(!s.heap[i].p) s.heap[i]=PageRef(new Page); r=&s.heap[i]; }
    else if(a>=STK_BASE&&a<STK_TOP){ size_t i=(a-STK_BASE)>>12; if(!s.stk[i].p) s.stk[i]=PageRef(new Page); r=&s.stk[i]; }
    else if(a>=IMG_BASE&&a<imgEnd){ size_t i=(a-IMG_BASE)>>12; if(w&&!imgW[i]) viol("memory","write to read-only memory"); r=&s.img[i]; }
    else { char b[64]; snprintf(b,sizeof b,"access to invalid address 0x%llx",(unsigned long long)a); viol("memory",a<0x1000?"null pointer dereference":b); }
    if(w&&r->p->rc>1) *r=PageRef(new Page(*r->p));
    return r;
}
void Engine::checkHeap(Page*p,u64 a,unsigned n,bool w){
    unsigned o=a&4095; unsigned q=o>>6,b=o&63; u64 m; bool ok; if(b+n<=64){ m=(n==64?~0ull:((1ull<<n)-1))<<b; ok=(p->valid[q]&m)==m; } else { ok=true; for(unsigned i=0;i<n;i++) if(!(p->valid[(o+i)>>6]>>((o+i)&63)&1)) ok=false; }
    if(!ok){ std::string why="out of bounds heap access"; for(auto&al:*cur->allocs) if(a>=al.addr&&a<al.addr+al.size&&al.freed) why="use of freed memory"; viol("memory",why+(w?" (write)":" (read)")); }
}
Val Engine::ld(u64 a,unsigned n){
    unsigned o=a&4095;
    if(o+n>4096){ unsigned k=4096-o; Val lo=ld(a,k),hi=ld(a+k,n-k); if(!lo.e&&!hi.e) return Val(lo.c|(hi.c<<(8*k))); return mkV(mkConcat(nodeOf(hi,8*(n-k)),nodeOf(lo,8*k))); }
    Page*p=page(a,false)->p; if(a>=HEAP_BASE&&a<HEAP_END) checkHeap(p,a,n,false);
    if(!p->nsym){ u64 v=0; memcpy(&v,p->data+o,n); return Val(v); }
    unsigned g0=o>>3,g1=(o+n-1)>>3;
    if(g0==g1){ Node*x=p->sym[g0]; if(!x){ u64 v=0; memcpy(&v,p->data+o,n); return Val(v);} return mkV(mkExtract(x,(o&7)*8,n*8)); }
    Node*acc=nullptr; unsigned i=0; while(i<n){ unsigned oo=o+i,k=std::min(n-i,8-(oo&7)); Node*x=p->sym[oo>>3]; Node*piece; if(x) piece=mkExtract(x,(oo&7)*8,k*8); else { u64 v=0; memcpy(&v,p->data+oo,k); piece=mkConst(v,k*8);} acc=acc?mkConcat(piece,acc):piece; i+=k; }
    return mkV(acc);
}
void Engine::st(u64 a,Val v,unsigned n){
    unsigned o=a&4095;
    if(o+n>4096){ unsigned k=4096-o; page(a,true); page(a+k,true); if(!v.e){ st(a,Val(v.c&maskw(8*k)),k); st(a+k,Val(v.c>>(8*k)),n-k);} else { st(a,mkV(mkExtract(v.e,0,8*k)),k); st(a+k,mkV(mkExtract(v.e,8*k,8*(n-k))),n-k);} return; }
    PageRef*pr=page(a,true); Page*p=pr->p; if(a>=HEAP_BASE&&a<HEAP_END) checkHeap(p,a,n,true);
    if(!v.e&&!p->nsym){ memcpy(p->data+o,&v.c,n); return; }
    unsigned i=0; while(i<n){ unsigned oo=o+i,b=oo&7,k=std::min(n-i,8-b); Val part= v.e? mkV(mkExtract(v.e,i*8,k*8)) : Val((v.c>>(8*i))&maskw(8*k)); unsigned g=oo>>3; Node*old=p->sym?p->sym[g]:nullptr;
        if(!part.e&&(!old||k==8)){ memcpy(p->data+oo,&part.c,k); if(old){ p->sym[g]=nullptr; p->nsym--; } }
        else { Node*nn; if(k==8) nn=nodeOf(part,64); else { Node*base=old; if(!base){ u64 w; memcpy(&w,p->data+(g<<3),8); base=mkConst(w,64);} Node*acc=nodeOf(part,k*8); if(b) acc=mkConcat(acc,mkExtract(base,0,b*8)); if(b+k<8) acc=mkConcat(mkExtract(base,(b+k)*8,64-(b+k)*8),acc); nn=acc; }
            if(nn->op==O_CONST){ memcpy(p->data+(g<<3),&nn->c,8); if(old){p->sym[g]=nullptr;p->nsym--;} } else { if(!p->sym){ p->sym=new Node*[512]; memset(p->sym,0,512*sizeof(Node*)); } if(!old) p->nsym++; p->sym[g]=nn; } }
        i+=k; }
}
u64 Engine::cstr(u64 a,std::string&out){ out.clear(); for(;;){ Val v=ld(a,1); if(v.e) throw Unsupported("symbolic string"); if(!v.c) break; out.push_back((char)v.c); a++; if(out.size()>100000) throw Unsupported("string too long"); } return out.size(); }
void Engine::setValid(u64 a,u64 n,bool v){ u64 i=0; while(i<n){ u64 x=a+i; PageRef*pr; size_t pi=(x-HEAP_BASE)>>12; if(pi>=cur->heap.size()) cur->heap.resize(pi+1); if(!cur->heap[pi].p) cur->heap[pi]=PageRef(new Page); pr=&cur->heap[pi]; if(pr->p->rc>1) *pr=PageRef(new Page(*pr->p)); unsigned o=x&4095; u64 k=std::min<u64>(n-i,4096-o); for(u64 j=0;j<k;){ unsigned q=(o+j)>>6,b=(o+j)&63; u64 c=std::min<u64>(k-j,64-b); u64 m=(c==64?~0ull:((1ull<<c)-1))<<b; if(v) pr->p->valid[q]|=m; else pr->p->valid[q]&=~m; j+=c; } i+=k; } }
static std::shared_ptr<std::vector<Alloc>>& own(std::shared_ptr<std::vector<Alloc>>&p){ if(p.use_count()>1) p=std::make_shared<std::vector<Alloc>>(*p); return p; }
u64 Engine::halloc(u64 size,int kind,u64 align){ State&s=*cur; if(size>0x1000000) throw PathEnd{PathEnd::REJECT,"bad_alloc"}; if(align<16) align=16; u64 a;
    if(!heapDown){ a=(s.heapTop+align-1)&~(align-1); s.heapTop=a+size+32; if(s.heapTop>=HEAP_END-0x10000) throw Unsupported("out of model heap"); }
    else { a=(s.heapBot-size-32)&~(align-1); s.heapBot=a-16; if(a<HEAP_BASE+0x100000) throw Unsupported("out of model heap"); }
    own(s.allocs)->push_back({a,size,0,(u8)kind}); s.live++; if(size){ setValid(a,size,true); // poison
        for(u64 i=0;i<size;i++){ u64 x=a+i; Page*p=s.heap[(x-HEAP_BASE)>>12].p; p->data[x&4095]=0xBE; } }
    return a; }
void Engine::hfree(u64 a,int kind,i64 size){ if(!a) return; State&s=*cur; auto&v=*own(s.allocs); for(size_t i=v.size();i-->0;) if(v[i].addr==a){ if(v[i].freed) viol("memory","double free"); if(v[i].kind!=kind) viol("memory","mismatched deallocation"); if(size>=0&&(u64)size!=v[i].size) viol("memory","sized deallocation with wrong size"); v[i].freed=1; s.live--; if(v[i].size) setValid(a,v[i].size,false); return; }
    viol("memory","free of an address that was not allocated"); }

std::vector<std::pair<std::string,std::string>> Engine::inputsOf(const State&s,const Model&m){ std::vector<std::pair<std::string,std::string>> r; Evaluator ev(&m); for(auto&[n,i]:s.inputs){ char b[64]; auto&v=g_vars[i]; if(v.real){ double d=ev.evalR(v.node); snprintf(b,sizeof b,"%a",d); } else snprintf(b,sizeof b,"%lld",(long long)sext(ev.eval(v.node),v.w)); r.push_back({n,b}); } return r; }
void Engine::recordViol(const std::string&kind,const std::string&label,const Model&m){ int&c=violCount[kind+":"+label]; c++; if(c>6) return; Violation v; v.kind=kind; v.label=label; v.inputs=inputsOf(*cur,m); v.trace=cur->trace; v.tainted=cur->tainted; for(size_t i=cur->callstack.size();i-->0&&v.stack.size()<8;) v.stack.push_back(symAt(cur->callstack[i])); viols.push_back(v); }
void Engine::viol(const std::string&kind,const std::string&msg,Node*){ recordViol(kind,msg,*cur->model); throw PathEnd{PathEnd::VIOL,kind+": "+msg}; }

std::unique_ptr<State> Engine::clone(){ return std::make_unique<State>(*cur); }
static bool realIn(Node*n){ static std::unordered_map<Node*,bool> memo; if(n->isReal()||n->op==O_RLT||n->op==O_RLE||n->op==O_REQ||n->op==O_F2B) return true; auto it=memo.find(n); if(it!=memo.end()) return it->second; bool r=false; for(Node*k:{n->a,n->b,n->d}) if(k&&realIn(k)){ r=true; break; } return memo[n]=r; }
static bool mixed(Node*n){ if(!realIn(n)) return false; switch(n->op){ case O_RLT: case O_RLE: case O_REQ: return false; case O_AND: case O_OR: case O_XOR: case O_NOT: case O_ITE: case O_EQ: if(n->w!=1||n->a->w!=1) return true; for(Node*k:{n->a,n->b,n->d}) if(k&&mixed(k)) return true; return false; default: return true; } }
// a condition that stores the outcome of real comparisons in integers: decide those comparisons first
Node*Engine::split(Node*n){ if(!mixed(n)) return n; std::unordered_map<Node*,Node*> memo; std::function<Node*(Node*)> go=[&](Node*x)->Node*{ if(!realIn(x)) return x; auto it=memo.find(x); if(it!=memo.end()) return it->second; Node*r;
        switch(x->op){ case O_RLT: case O_RLE: case O_REQ: r=mkConst(decide(x),1); break; case O_NOT: { Node*k=go(x->a); r=mkNot(k); break; } case O_EXTRACT: r=mkExtract(go(x->a),x->c,x->w); break; case O_ZEXT: r=mkExt(go(x->a),x->w,false); break; case O_SEXT: r=mkExt(go(x->a),x->w,true); break; case O_CONCAT: r=mkConcat(go(x->a),go(x->b)); break;
            case O_ITE: { Node*k=go(x->a); if(k->op==O_CONST) r=go(k->c?x->b:x->d); else r=mkIte(k,go(x->b),go(x->d)); break; } case O_F2B: throw Unsupported("bits of a symbolic real in a condition"); default: r=mkBin(x->op,go(x->a),go(x->b)); }
        return memo[x]=r; }; return go(n); }
bool Engine::decide(Node*c){
    c=split(c);
    if(c->op==O_CONST) return c->c; State&s=*cur; if(s.known.count(c)) return true; Node*nc=mkNot(c); if(s.known.count(nc)) return false;
    bool side; { Evaluator ev(s.model.get()); side=ev.eval(c); }
    Node*taken=side?c:nc,*other=side?nc:c; Model m; Res r=S.check(s.pc,other,*s.model,m);
    if(r==UNSAT){ s.known.insert(taken); return side; }
    auto o=clone(); o->model=std::make_shared<Model>(m); if(r==UNKNOWN){ o->model=s.model; o->tainted=true; inconcl["feasibility unknown"]++; } addPc(*o,other); o->depth++; o->forks++; forks++; work.push_back(std::move(o)); addPc(s,taken); s.depth++; return side;
}
u64 Engine::conc(Node*e,const char*what){ for(int i=0;i<4096;i++){ Evaluator ev(cur->model.get()); u64 v=ev.eval(e); Node*c=mkBin(O_EQ,e,mkConst(v,e->w)); if(decide(c)) return v; } throw Unsupported(std::string("too many values when concretising ")+what); }
void Engine::assume(Node*c){ c=split(c); if(c->op==O_CONST){ if(!c->c) throw PathEnd{PathEnd::INFEASIBLE,""}; return; } State&s=*cur; if(s.known.count(c)) return; Evaluator ev(s.model.get()); Model m; if(!ev.eval(c)){ Res r=S.check(s.pc,c,*s.model,m); if(r==UNSAT) throw PathEnd{PathEnd::INFEASIBLE,""}; if(r==UNKNOWN){ inconcl["assumption feasibility unknown"]++; s.tainted=true; } else s.model=std::make_shared<Model>(m); } addPc(s,c); }

Val Engine::rreg(int r,unsigned w,bool high){ Val v=cur->reg[r]; if(w==64) return v; if(high){ if(!v.e) return Val((v.c>>8)&0xff); return mkV(mkExtract(v.e,8,8)); } if(!v.e) return Val(v.c&maskw(w)); return mkV(mkExtract(v.e,0,w)); }
void Engine::wreg(int r,unsigned w,Val v,bool high){ Val&d=cur->reg[r]; if(w==64){ d=v; return; } if(w==32){ if(v.e) d=mkV(mkExt(v.e,64,false)); else d=Val(v.c&0xffffffffull); return; }
    if(!d.e&&!v.e){ if(high) d.c=(d.c&~0xff00ull)|((v.c&0xff)<<8); else d.c=(d.c&~maskw(w))|(v.c&maskw(w)); return; }
    Node*o=nodeOf(d,64),*n=nodeOf(v,w); if(high) d=mkV(mkConcat(mkExtract(o,16,48),mkConcat(n,mkExtract(o,0,8)))); else { if(o->op==O_F2B) d=mkV(mkExt(n,64,false)); else d=mkV(mkConcat(mkExtract(o,w,64-w),n)); } }
u64 Engine::ea(const Mem&m){ u64 a=m.disp; Node*e=nullptr; if(m.rip) a+=cur->ip+icache[cur->ip-IMG_BASE]->size; if(m.base>=0){ Val&b=cur->reg[m.base]; if(b.e) e=b.e; else a+=b.c; } if(m.index>=0){ Val&x=cur->reg[m.index]; if(x.e){ Node*t=mkBin(O_MUL,x.e,mkConst(m.scale,64)); e=e?mkBin(O_ADD,e,t):t; } else a+=x.c*m.scale; }
    if(m.seg){ if(!fsBase) throw Unsupported("segment access"); a+=fsBase; } if(!e) return a; return conc(mkBin(O_ADD,e,mkConst(a,64)),"address"); }
Val Engine::rd(const Opd&o){ switch(o.k){ case Opd::REG: return rreg(o.r,o.w); case Opd::REGH: return rreg(o.r,8,true); case Opd::IMM: return Val(o.imm); case Opd::MEM: return ld(ea(o.m),o.w/8); case Opd::XMM: return cur->xmm[o.r][0]; default: throw Unsupported("operand read"); } }
void Engine::wr(const Opd&o,Val v){ switch(o.k){ case Opd::REG: wreg(o.r,o.w,v); break; case Opd::REGH: wreg(o.r,8,v,true); break; case Opd::MEM: st(ea(o.m),v,o.w/8); break; default: throw Unsupported("operand write"); } }
static u64 cfold(Op op,u64 a,u64 b,unsigned w){ u64 m=maskw(w); switch(op){ case O_ADD: return (a+b)&m; case O_SUB: return (a-b)&m; case O_MUL: return (a*b)&m; case O_AND: return a&b; case O_OR: return a|b; case O_XOR: return a^b; default: return mkBin(op,mkConst(a,w),mkConst(b,w))->c; } }
Val Engine::bin(Op op,Val a,Val b,unsigned w){ if(!a.e&&!b.e) return Val(cfold(op,a.c&maskw(w),b.c&maskw(w),w));
    Node*x=nodeOf(a,w),*y=nodeOf(b,w);
    if(w==64&&(op==O_AND||op==O_OR||op==O_XOR)&&(x->op==O_F2B||y->op==O_F2B)) return xbit(op,a,b);
    return mkV(mkBin(op,x,y)); }
void Engine::flLogic(Val r,unsigned w){ Flags&f=cur->fl; if(!r.e){ f.k=FK_CONCRETE; f.zf=(r.c&maskw(w))==0; f.sf=(r.c>>(w-1))&1; f.cfc=f.of=0; f.pf=!(__builtin_popcount(r.c&0xff)&1); return; } f.k=FK_LOGIC; f.w=w; f.r=r; }
void Engine::flSub(Val a,Val b,Val r,unsigned w){ Flags&f=cur->fl; if(!a.e&&!b.e){ u64 m=maskw(w),x=a.c&m,y=b.c&m,z=(x-y)&m; f.k=FK_CONCRETE; f.zf=z==0; f.sf=(z>>(w-1))&1; f.cfc=x<y; f.of=(((x^y)&(x^z))>>(w-1))&1; f.pf=!(__builtin_popcount(z&0xff)&1); return; } f.k=FK_SUB; f.w=w; f.a=a; f.b=b; f.r=r; }
void Engine::flAdd(Val a,Val b,Val r,unsigned w){ Flags&f=cur->fl; if(!a.e&&!b.e){ u64 m=maskw(w),x=a.c&m,y=b.c&m,z=(x+y)&m; f.k=FK_CONCRETE; f.zf=z==0; f.sf=(z>>(w-1))&1; f.cfc=z<x; f.of=((~(x^y)&(x^z))>>(w-1))&1; f.pf=!(__builtin_popcount(z&0xff)&1); return; } f.k=FK_ADD; f.w=w; f.a=a; f.b=b; f.r=r; }
bool Engine::condC(int cc,bool&out){ Flags&f=cur->fl; if(f.k!=FK_CONCRETE) return false; bool r; switch(cc&~1){ case CC_O:r=f.of;break;case CC_B:r=f.cfc;break;case CC_E:r=f.zf;break;case CC_BE:r=f.cfc||f.zf;break;case CC_S:r=f.sf;break;case CC_P:r=f.pf;break;case CC_L:r=f.sf!=f.of;break;default:r=f.zf||f.sf!=f.of; } out=r^(cc&1); return true; }
Node* Engine::cond(int cc){ bool b; if(condC(cc,b)) return mkConst(b,1); Flags&f=cur->fl; unsigned w=f.w; Node*r=nullptr; auto A=[&]{return nodeOf(f.a,w);}; auto B=[&]{return nodeOf(f.b,w);}; auto R=[&]{return nodeOf(f.r,w);}; auto sgn=[&](Node*x){return mkExtract(x,w-1,1);}; Node*z0=mkConst(0,w?w:1);
    int q=cc&~1;
    switch(f.k){
    case FK_SUB: switch(q){ case CC_E:r=mkBin(O_EQ,A(),B());break; case CC_B:r=mkBin(O_ULT,A(),B());break; case CC_BE:r=mkBin(O_ULE,A(),B());break; case CC_L:r=mkBin(O_SLT,A(),B());break; case CC_LE:r=mkBin(O_SLE,A(),B());break; case CC_S:r=mkBin(O_SLT,R(),z0);break; case CC_O: r=sgn(mkBin(O_AND,mkBin(O_XOR,A(),B()),mkBin(O_XOR,A(),R())));break; default:break; } break;
    case FK_ADD: { auto OF=[&]{return sgn(mkBin(O_AND,mkNot(mkBin(O_XOR,A(),B())),mkBin(O_XOR,A(),R())));}; auto SF=[&]{return mkBin(O_SLT,R(),z0);}; auto ZF=[&]{return mkBin(O_EQ,R(),z0);}; auto CF=[&]{return mkBin(O_ULT,R(),A());}; switch(q){ case CC_E:r=ZF();break;case CC_B:r=CF();break;case CC_BE:r=mkBin(O_OR,CF(),ZF());break;case CC_S:r=SF();break;case CC_O:r=OF();break;case CC_L:r=mkBin(O_XOR,SF(),OF());break;case CC_LE:r=mkBin(O_OR,ZF(),mkBin(O_XOR,SF(),OF()));break;default:break;} break; }
    case FK_LOGIC: { switch(q){ case CC_E:r=mkBin(O_EQ,R(),z0);break;case CC_B:case CC_O:r=mkConst(0,1);break;case CC_BE:r=mkBin(O_EQ,R(),z0);break;case CC_S:case CC_L:r=mkBin(O_SLT,R(),z0);break;case CC_LE:r=mkBin(O_SLE,R(),z0);break;default:break;} break; }
    case FK_UCOMI: switch(q){ case CC_E:r=mkRPred(O_REQ,f.ra,f.rb);break;case CC_B:r=mkRPred(O_RLT,f.ra,f.rb);break;case CC_BE:r=mkRPred(O_RLE,f.ra,f.rb);break;case CC_P:case CC_O:case CC_S:r=mkConst(0,1);break;default:break;} break;
    case FK_CFONLY: if(q==CC_B) r=nodeOf(f.cf,1); break;
    default: break; }
    if(!r) throw Unsupported("flag use"); return (cc&1)?mkNot(r):r; }
bool Engine::condB(int cc){ bool b; if(condC(cc,b)) return b; return decide(cond(cc)); }

Node* Engine::toReal(Val v){ if(v.e){ if(v.e->op==O_F2B) return v.e->a; if(v.e->op==O_ITE){ bool t=decide(v.e->a); return toReal(mkV(t?v.e->b:v.e->d)); } throw Unsupported("symbolic bits used as real: "+show(v.e,3)); } double d=asD(v.c); if(!std::isfinite(d)) throw Unsupported("non-finite value mixed with symbolic reals"); if(d==0) return mkRConst(0); return mkRConst(mpq_class(d)); }
Val Engine::fromReal(Node*r){ return mkV(mkF2B(r)); }
Val Engine::fpBin(int op,Val a,Val b){ if(!a.e&&!b.e){ double x=asD(a.c),y=asD(b.c),z=op==0?x+y:op==1?x-y:op==2?x*y:x/y; return Val(asU(z)); }
    Node*x=toReal(a),*y=toReal(b); if(op==3){ if(y->op==O_RCONST){ if(*y->q==0) viol("arithmetic","division by zero"); } else if(decide(mkRPred(O_REQ,y,mkRConst(0)))) viol("arithmetic","division by zero"); }
    return fromReal(mkRBin(op==0?O_RADD:op==1?O_RSUB:op==2?O_RMUL:O_RDIV,x,y)); }
Val Engine::fpSqrt(Val a){ if(!a.e) return Val(asU(sqrt(asD(a.c)))); Node*x=toReal(a); if(decide(mkRPred(O_RLT,x,mkRConst(0)))) viol("arithmetic","square root of a negative number");
    if(x->op!=O_RCONST) try { const Frac&f=normal(x); Poly q; if(f.d.empty()&&polySqrt(f.n,q)){ Node*r=polyNode(q); return fromReal(decide(mkRPred(O_RLT,r,mkRConst(0)))?mkRNeg(r):r); } } catch(TooBig&){}
    return fromReal(mkRFun(F_SQRT,x)); }
Val Engine::fpFun(Fun f,Val a){ if(!a.e){ Node*x; double d=asD(a.c),r; switch(f){case F_SIN:r=sin(d);break;case F_COS:r=cos(d);break;case F_TAN:r=tan(d);break;case F_EXP:r=exp(d);break;case F_LOG:r=log(d);break;case F_ASIN:r=asin(d);break;case F_ACOS:r=acos(d);break;case F_ATAN:r=atan(d);break;case F_SINH:r=sinh(d);break;case F_COSH:r=cosh(d);break;case F_TANH:r=tanh(d);break;case F_SQRT:r=sqrt(d);break;case F_CBRT:r=cbrt(d);break;default: throw Unsupported("function"); } (void)x; return Val(asU(r)); }
    Node*x=toReal(a); if(f==F_SQRT) return fpSqrt(a);
    if(f==F_LOG&&decide(mkRPred(O_RLE,x,mkRConst(0)))) viol("arithmetic","logarithm of a non-positive number");
    if((f==F_ASIN||f==F_ACOS)&&(decide(mkRPred(O_RLT,mkRConst(1),x))||decide(mkRPred(O_RLT,x,mkRConst(-1))))) viol("arithmetic","inverse trigonometric function outside [-1,1]");
    return fromReal(mkRFun(f,x)); }
Val Engine::xbit(int op,Val a,Val b){ if(!a.e&&!b.e) return Val(cfold((Op)op,a.c,b.c,64)); if(a.e&&!b.e) std::swap(a,b);
    if(!a.e&&b.e->op==O_F2B){ if(op==O_AND){ if(a.c==0) return Val(0); if(a.c==~0ull) return b; if(a.c==0x7fffffffffffffffull){ bool neg=decide(mkRPred(O_RLT,b.e->a,mkRConst(0))); return neg?fromReal(mkRNeg(b.e->a)):b; } if(a.c==0x8000000000000000ull){ bool neg=decide(mkRPred(O_RLT,b.e->a,mkRConst(0))); return Val(neg?a.c:0); } }
        if(op==O_OR&&a.c==0x8000000000000000ull){ bool neg=decide(mkRPred(O_RLT,b.e->a,mkRConst(0))); return neg?b:fromReal(mkRNeg(b.e->a)); } }
    return mkV(mkBin((Op)op,nodeOf(a,64),nodeOf(b,64))); }
static bool addrLike(const Val&v){ if(v.e) return v.e->op==O_F2B; return v.c>=0x10000&&v.c<0x80000000ull; }

void Engine::exec(const Insn&in){
    State&s=*cur; u64 next=s.ip+in.size; const Opd&d=in.o[0],&src=in.o[1];
    auto szOf=[&](const Opd&o){return (unsigned)o.w;};
    switch(in.op){
    case I_NOP: break;
    case I_MOV: { Val v=rd(src); if(src.k==Opd::IMM) v.c&=maskw(d.w); wr(d,v); break; }
    case I_MOVZX: { Val v=rd(src); wr(d, v.e? mkV(mkExt(v.e,d.w,false)) : v); break; }
    case I_MOVSX: { Val v=rd(src); wr(d, v.e? mkV(mkExt(v.e,d.w,true)) : Val((u64)sext(v.c,src.w)&maskw(d.w))); break; }
    case I_LEA: { const Mem&m=src.m; u64 a=m.disp; Node*e=nullptr; if(m.rip) a+=next; auto add=[&](int r,int sc){ Val&b=s.reg[r]; if(b.e){ Node*t=sc==1?b.e:mkBin(O_MUL,b.e,mkConst(sc,64)); e=e?mkBin(O_ADD,e,t):t; } else a+=b.c*sc; }; if(m.base>=0) add(m.base,1); if(m.index>=0) add(m.index,m.scale); Val v= e? mkV(mkBin(O_ADD,e,mkConst(a,64))) : Val(a); if(d.w<64) v= v.e? mkV(mkExtract(v.e,0,d.w)) : Val(v.c&maskw(d.w)); wr(d,v); break; }
    case I_ADD: { Val a=rd(d),b=rd(src); unsigned w=szOf(d); if(src.k==Opd::IMM) b.c&=maskw(w); Val r=bin(O_ADD,a,b,w); if(d.k==Opd::MEM) { u64 ad=ea(d.m); st(ad,r,w/8); } else wr(d,r); flAdd(a,b,r,w); break; }
    case I_SUB: { Val a=rd(d),b=rd(src); unsigned w=szOf(d); if(src.k==Opd::IMM) b.c&=maskw(w); Val r; if(src.k==Opd::REG&&d.k==Opd::REG&&src.r==d.r) r=Val(0); else r=bin(O_SUB,a,b,w); wr(d,r); flSub(a,b,r,w); break; }
    case I_CMP: { Val a=rd(d),b=rd(src); unsigned w=szOf(d); if(src.k==Opd::IMM) b.c&=maskw(w); Val r; if(a.e||b.e){ Node*x=nodeOf(a,w),*y=nodeOf(b,w); if(x->op==O_F2B||y->op==O_F2B) r=Val(0); else r=mkV(mkBin(O_SUB,x,y)); } flSub(a,b,r,w); break; }
    case I_ADC: case I_SBB: { unsigned w=szOf(d); Val a=rd(d),b=rd(src); if(src.k==Opd::IMM) b.c&=maskw(w); bool cf; if(in.op==I_SBB&&src.k==Opd::REG&&d.k==Opd::REG&&src.r==d.r){ cf=condB(CC_B); Val r(cf?maskw(w):0); wr(d,r); Flags&f=s.fl; f.k=FK_CONCRETE; f.zf=!cf; f.cfc=cf; f.sf=cf; f.of=0; f.pf=true; break; }
        cf=condB(CC_B); if(!a.e&&!b.e){ u64 m=maskw(w),x=a.c&m,y=b.c&m; u64 z; Flags&f=s.fl; if(in.op==I_ADC){ u128 t=(u128)x+y+cf; z=(u64)t&m; f.cfc=(t>>w)&1; f.of=((~(x^y)&(x^z))>>(w-1))&1; } else { z=(x-y-cf)&m; f.cfc=(u128)x<(u128)y+cf; f.of=(((x^y)&(x^z))>>(w-1))&1; } f.k=FK_CONCRETE; f.zf=z==0; f.sf=z>>(w-1)&1; f.pf=!(__builtin_popcount(z&0xff)&1); wr(d,Val(z)); break; }
        Val r=bin(in.op==I_ADC?O_ADD:O_SUB,a,b,w); r=bin(in.op==I_ADC?O_ADD:O_SUB,r,Val(cf),w); wr(d,r); s.fl.k=FK_NONE; break; }
    case I_IMUL: { Val a,b; unsigned w=szOf(d); if(in.n==1){ Val x=rreg(0,w),y=rd(d); if(w==64){ if(x.e||y.e) throw Unsupported("symbolic 128-bit imul"); i128 t=(i128)(i64)x.c*(i64)y.c; s.reg[0]=Val((u64)t); s.reg[2]=Val((u64)(t>>64)); Flags&f=s.fl; f.k=FK_CONCRETE; f.cfc=f.of=(t!=(i128)(i64)t); break; } Node*t=mkBin(O_MUL,mkExt(nodeOf(x,w),2*w,true),mkExt(nodeOf(y,w),2*w,true)); wreg(0,w,mkV(mkExtract(t,0,w))); wreg(2,w,mkV(mkExtract(t,w,w))); s.fl.k=FK_NONE; break; }
        if(in.n==2){ a=rd(d); b=rd(src); } else { a=rd(src); b=rd(in.o[2]); if(in.o[2].k==Opd::IMM) b.c&=maskw(w); }
        Val r=bin(O_MUL,a,b,w); Flags&f=s.fl; if(!a.e&&!b.e){ i128 t=(i128)sext(a.c,w)*sext(b.c,w); f.k=FK_CONCRETE; f.of=f.cfc=(t!=(i128)sext((u64)t,w)); f.zf=0; f.sf=r.c>>(w-1)&1; } else f.k=FK_NONE; wr(d,r); break; }
    case I_MUL: { unsigned w=szOf(d); Val x=rreg(0,w),y=rd(d); if(x.e||y.e){ if(w==64){ u64 yc=y.e?conc(y.e,"mul"):y.c; u64 xc=x.e?conc(x.e,"mul"):x.c; x=Val(xc); y=Val(yc);} else { Node*t=mkBin(O_MUL,mkExt(nodeOf(x,w),2*w,false),mkExt(nodeOf(y,w),2*w,false)); wreg(0,w,mkV(mkExtract(t,0,w))); wreg(2,w,mkV(mkExtract(t,w,w))); s.fl.k=FK_NONE; break; } }
        u128 t=(u128)(x.c&maskw(w))*(y.c&maskw(w)); u64 hi=(u64)(t>>w)&maskw(w); if(w==8){ wreg(0,16,Val((u64)t&0xffff)); } else { wreg(0,w,Val((u64)t&maskw(w))); wreg(2,w,Val(hi)); } Flags&f=s.fl; f.k=FK_CONCRETE; f.cfc=f.of=hi!=0; f.zf=0; f.sf=0; break; }
    case I_DIV: case I_IDIV: { unsigned w=szOf(d); Val y=rd(d); if(y.e? decide(mkBin(O_EQ,y.e,mkConst(0,w))) : (y.c&maskw(w))==0) viol("arithmetic","integer division by zero"); if(w==8) throw Unsupported("8-bit division"); Val lo=rreg(0,w),hi=rreg(2,w);
        if(!lo.e&&!hi.e&&!y.e){ if(in.op==I_DIV){ u128 n=((u128)(hi.c&maskw(w))<<w)|(lo.c&maskw(w)); u64 dv=y.c&maskw(w); wreg(0,w,Val((u64)(n/dv)&maskw(w))); wreg(2,w,Val((u64)(n%dv)&maskw(w))); } else { i128 n; if(w==64) n=(i128)(((u128)hi.c<<64)|lo.c); else n=(i64)(((hi.c&maskw(w))<<w)|(lo.c&maskw(w))); if(w==32) n=(i64)((hi.c<<32)|(lo.c&0xffffffff)); i64 dv=sext(y.c,w); wreg(0,w,Val((u64)(i64)(n/dv)&maskw(w))); wreg(2,w,Val((u64)(i64)(n%dv)&maskw(w))); } }
        else { Node*L=nodeOf(lo,w),*Y=nodeOf(y,w); bool simple=false; if(in.op==I_IDIV){ // high part must be the sign extension of the low part
                Node*se=mkExtract(mkExt(L,2*w>64?64:2*w,true),w>=64?0:w,w>=64?64:w); if(w<64) simple= nodeOf(hi,w)==se || decide(mkBin(O_EQ,nodeOf(hi,w),se)); else simple=decide(mkBin(O_EQ,nodeOf(hi,w),mkBin(O_ASHR,L,mkConst(63,64)))); } else simple=(!hi.e&&hi.c==0)||decide(mkBin(O_EQ,nodeOf(hi,w),mkConst(0,w)));
            if(!simple) throw Unsupported("wide symbolic division"); wreg(0,w,mkV(mkBin(in.op==I_IDIV?O_SDIV:O_UDIV,L,Y))); wreg(2,w,mkV(mkBin(in.op==I_IDIV?O_SREM:O_UREM,L,Y))); }
        s.fl.k=FK_NONE; break; }
    case I_NEG: { Val a=rd(d); unsigned w=szOf(d); Val r=bin(O_SUB,Val(0),a,w); wr(d,r); flSub(Val(0),a,r,w); break; }
    case I_NOT: { Val a=rd(d); unsigned w=szOf(d); wr(d, a.e? mkV(mkNot(a.e)) : Val(~a.c&maskw(w))); break; }
    case I_AND: case I_OR: case I_XOR: { Val a=rd(d),b=rd(src); unsigned w=szOf(d); if(src.k==Opd::IMM) b.c&=maskw(w); Val r; if(in.op==I_XOR&&src.k==Opd::REG&&d.k==Opd::REG&&src.r==d.r) r=Val(0); else if((in.op==I_AND||in.op==I_OR)&&src.k==Opd::REG&&d.k==Opd::REG&&src.r==d.r) r=a; else r=bin(in.op==I_AND?O_AND:in.op==I_OR?O_OR:O_XOR,a,b,w); wr(d,r); flLogic(r,w); break; }
    case I_TEST: { Val a=rd(d),b=rd(src); unsigned w=szOf(d); if(src.k==Opd::IMM) b.c&=maskw(w); Val r; if(src.k==Opd::REG&&d.k==Opd::REG&&src.r==d.r) r=a; else r=bin(O_AND,a,b,w); flLogic(r,w); break; }
    case I_SHL: case I_SHR: case I_SAR: { unsigned w=szOf(d); Val a=rd(d); Val c=in.n>1?rd(src):Val(1); u64 cm=w==64?63:31; u64 k; if(c.e) k=conc(mkBin(O_AND,mkExt(c.e,8,false),mkConst(cm,8)),"shift count"); else k=c.c&cm; if(k==0){ wr(d,a); break; } Op op=in.op==I_SHL?O_SHL:in.op==I_SHR?O_LSHR:O_ASHR; Val r; if(!a.e){ u64 x=a.c&maskw(w); r=Val(in.op==I_SHL?(k>=w?0:(x<<k)&maskw(w)):in.op==I_SHR?(k>=w?0:x>>k):((u64)(sext(x,w)>>(k>=w?w-1:k))&maskw(w))); } else r=mkV(mkBin(op,nodeOf(a,w),mkConst(k,w))); wr(d,r); flLogic(r,w); if(!a.e){ s.fl.cfc= in.op==I_SHL? (k<=w?(a.c>>(w-k))&1:0) : (a.c>>(k-1))&1; } else if(s.fl.k==FK_LOGIC) { /* CF after a symbolic shift is not tracked */ } break; }
    case I_ROL: case I_ROR: { unsigned w=szOf(d); Val a=rd(d),c=in.n>1?rd(src):Val(1); if(c.e) throw Unsupported("symbolic rotate"); u64 k=c.c&(w-1); if(in.op==I_ROR) k=(w-k)&(w-1); if(k==0) break; if(!a.e){ u64 x=a.c&maskw(w); wr(d,Val(((x<<k)|(x>>(w-k)))&maskw(w))); } else { Node*x=nodeOf(a,w); wr(d,mkV(mkConcat(mkExtract(x,0,w-k),mkExtract(x,w-k,k)))); } s.fl.k=FK_NONE; break; }
    case I_SHLD: case I_SHRD: { unsigned w=szOf(d); Val a=rd(d),b=rd(src),c=rd(in.o[2]); if(a.e||b.e||c.e) throw Unsupported("symbolic shld"); u64 k=c.c&(w==64?63:31); if(k){ u64 x=a.c&maskw(w),y=b.c&maskw(w); u64 r=in.op==I_SHLD?((x<<k)|(y>>(w-k))):((x>>k)|(y<<(w-k))); wr(d,Val(r&maskw(w))); } s.fl.k=FK_NONE; break; }
    case I_INC: case I_DEC: { unsigned w=szOf(d); Val a=rd(d); bool hasC=false,cf=false; if(s.fl.k==FK_CONCRETE){hasC=true;cf=s.fl.cfc;} Val r=bin(in.op==I_INC?O_ADD:O_SUB,a,Val(1),w); wr(d,r); if(in.op==I_INC) flAdd(a,Val(1),r,w); else flSub(a,Val(1),r,w); if(hasC&&s.fl.k==FK_CONCRETE) s.fl.cfc=cf; break; }
    case I_SETCC: { bool b; if(condC(in.cc,b)) wr(d,Val(b)); else { Node*c=cond(in.cc); wr(d,mkV(mkExt(c,8,false))); } break; }
    case I_CMOV: { bool b; if(condC(in.cc,b)){ Val v=rd(src); if(b) wr(d,v); else if(d.w==32) wr(d,rd(d)); break; } Node*c=cond(in.cc); Val x=rd(src),y=rd(d); unsigned w=d.w; if(addrLike(x)||addrLike(y)||c->op==O_CONST){ bool t=decide(c); wr(d,t?x:y); } else { bool real=c->op==O_RLT||c->op==O_RLE||c->op==O_REQ; if(real){ bool t=decide(c); wr(d,t?x:y); } else wr(d,mkV(mkIte(c,nodeOf(x,w),nodeOf(y,w)))); } break; }
    case I_JCC: { bool t=condB(in.cc); if(t) next=d.imm; break; }
    case I_JMP: { if(d.k==Opd::IMM) next=d.imm; else { Val v=rd(d); next=concV(v,64,"jump target"); } break; }
    case I_CALL: { u64 t; if(d.k==Opd::IMM) t=d.imm; else t=concV(rd(d),64,"call target"); if(t<IMG_BASE||t>=imgEnd) viol("memory","call through an invalid function pointer"); u64 sp=s.reg[4].c-8; if(sp<STK_BASE+0x10000) viol("memory","stack exhausted (unbounded recursion)"); st(sp,Val(next),8); s.reg[4]=Val(sp); if(calledFns.size()<100000) calledFns.insert(t); s.callstack.push_back(t); next=t; break; }
    case I_RET: { u64 sp=s.reg[4].c; Val r=ld(sp,8); next=concV(r,64,"return address"); s.reg[4]=Val(sp+8); if(!s.callstack.empty()) s.callstack.pop_back(); break; }
    case I_PUSH: { Val v=rd(d); if(d.k==Opd::IMM) v=Val(d.imm); u64 sp=s.reg[4].c-8; st(sp,v,8); s.reg[4]=Val(sp); break; }
    case I_POP: { u64 sp=s.reg[4].c; Val v=ld(sp,8); s.reg[4]=Val(sp+8); wr(d,v); break; }
    case I_LEAVE: { u64 bp=s.reg[5].c; Val v=ld(bp,8); s.reg[4]=Val(bp+8); s.reg[5]=v; break; }
    case I_CBW: { Val v=rreg(0,8); wreg(0,16,v.e?mkV(mkExt(v.e,16,true)):Val((u64)sext(v.c,8)&0xffff)); break; }
    case I_CWDE: { Val v=rreg(0,16); wreg(0,32,v.e?mkV(mkExt(v.e,32,true)):Val((u64)sext(v.c,16)&0xffffffff)); break; }
    case I_CDQE: { Val v=rreg(0,32); wreg(0,64,v.e?mkV(mkExt(v.e,64,true)):Val((u64)sext(v.c,32))); break; }
    case I_CWD: { Val v=rreg(0,16); wreg(2,16,bin(O_ASHR,v,Val(15),16)); break; }
    case I_CDQ: { Val v=rreg(0,32); if(v.e) wreg(2,32,mkV(mkExtract(mkExt(v.e,64,true),32,32))); else wreg(2,32,Val(sext(v.c,32)<0?0xffffffff:0)); break; }
    case I_CQO: { Val v=s.reg[0]; wreg(2,64,bin(O_ASHR,v,Val(63),64)); break; }
    case I_XCHG: { Val a=rd(d),b=rd(src); if(d.k==Opd::MEM){ wr(d,b); wr(src,a);} else { wr(src,a); wr(d,b);} break; }
    case I_XADD: { Val a=rd(d),b=rd(src); unsigned w=szOf(d); Val r=bin(O_ADD,a,b,w); wr(d,r); wr(src,a); flAdd(a,b,r,w); break; }
    case I_BT: case I_BTS: case I_BTR: case I_BTC: { unsigned w=szOf(d); Val a=rd(d),b=rd(src); if(d.k==Opd::MEM&&src.k!=Opd::IMM) throw Unsupported("bt mem,reg"); Flags&f=s.fl; if(!a.e&&!b.e){ f.k=FK_CONCRETE; f.cfc=(a.c>>(b.c&(w-1)))&1; f.zf=f.sf=f.of=f.pf=0; } else { Node*x=mkBin(O_LSHR,nodeOf(a,w),mkBin(O_AND,nodeOf(b,w),mkConst(w-1,w))); f.k=FK_CFONLY; f.cf=mkV(mkExtract(x,0,1)); } if(in.op!=I_BT){ Val k=bin(O_AND,b,Val(w-1),w); u64 kk=k.e?conc(k.e,"bit number"):k.c; Val m(1ull<<kk); wr(d, in.op==I_BTS?bin(O_OR,a,m,w):in.op==I_BTC?bin(O_XOR,a,m,w):bin(O_AND,a,Val(~(1ull<<kk)&maskw(w)),w)); } break; }
    case I_BSR: case I_BSF: case I_TZCNT: { unsigned w=szOf(d); Val b=rd(src); u64 v=concV(b,w,"bit scan")&maskw(w); Flags&f=s.fl; f.k=FK_CONCRETE; f.zf=v==0; f.cfc=v==0; f.sf=f.of=f.pf=0; if(v) wr(d,Val(in.op==I_BSR?63-__builtin_clzll(v):__builtin_ctzll(v))); else if(in.op==I_TZCNT) wr(d,Val(w)); if(in.op==I_TZCNT) f.zf=(v&1); break; }
    case I_BSWAP: { Val a=rd(d); if(a.e) throw Unsupported("bswap"); wr(d,Val(d.w==32?__builtin_bswap32(a.c):__builtin_bswap64(a.c))); break; }
    // ---- SSE
    case I_MOVSD: if(d.k==Opd::XMM){ if(src.k==Opd::XMM) s.xmm[d.r][0]=s.xmm[src.r][0]; else { Val v=ld(ea(src.m),8); s.xmm[d.r][0]=v; s.xmm[d.r][1]=Val(0);} } else st(ea(d.m),s.xmm[src.r][0],8); break;
    case I_MOVQ: if(d.k==Opd::XMM){ Val v= src.k==Opd::MEM? ld(ea(src.m),8) : src.k==Opd::XMM? s.xmm[src.r][0] : rd(src); s.xmm[d.r][0]=v; s.xmm[d.r][1]=Val(0); } else { Val v=s.xmm[src.r][0]; if(d.k==Opd::MEM) st(ea(d.m),v,8); else wr(d,v); } break;
    case I_MOVD: if(d.k==Opd::XMM){ Val v= src.k==Opd::MEM? ld(ea(src.m),4) : rd(src); s.xmm[d.r][0]= v.e? mkV(mkExt(v.e,64,false)) : Val(v.c&0xffffffff); s.xmm[d.r][1]=Val(0); } else { Val v=s.xmm[src.r][0]; v= v.e? mkV(mkExtract(v.e,0,32)):Val(v.c&0xffffffff); if(d.k==Opd::MEM) st(ea(d.m),v,4); else wr(d,v); } break;
    case I_MOVSS: if(d.k==Opd::XMM){ if(src.k==Opd::MEM){ Val v=ld(ea(src.m),4); s.xmm[d.r][0]=v.e?mkV(mkExt(v.e,64,false)):v; s.xmm[d.r][1]=Val(0);} else { Val v=s.xmm[src.r][0]; s.xmm[d.r][0]=v.e?mkV(mkExt(mkExtract(v.e,0,32),64,false)):Val(v.c&0xffffffff); } } else { Val v=s.xmm[src.r][0]; st(ea(d.m), v.e? mkV(mkExtract(v.e,0,32)):Val(v.c&0xffffffff),4); } break;
    case I_MOV128: if(d.k==Opd::XMM){ if(src.k==Opd::XMM){ s.xmm[d.r][0]=s.xmm[src.r][0]; s.xmm[d.r][1]=s.xmm[src.r][1]; } else { u64 a=ea(src.m); Val lo=ld(a,8),hi=ld(a+8,8); s.xmm[d.r][0]=lo; s.xmm[d.r][1]=hi; } } else { u64 a=ea(d.m); page(a,true); page(a+15,true); st(a,s.xmm[src.r][0],8); st(a+8,s.xmm[src.r][1],8); } break;
    case I_MOVHPD: if(d.k==Opd::XMM) s.xmm[d.r][1]=ld(ea(src.m),8); else st(ea(d.m),s.xmm[src.r][1],8); break;
    case I_MOVLPD: if(d.k==Opd::XMM) s.xmm[d.r][0]=ld(ea(src.m),8); else st(ea(d.m),s.xmm[src.r][0],8); break;
    case I_MOVHLPS: s.xmm[d.r][0]=s.xmm[src.r][1]; break; case I_MOVLHPS: s.xmm[d.r][1]=s.xmm[src.r][0]; break;
    case I_UNPCKL: { Val v= src.k==Opd::XMM? s.xmm[src.r][0] : ld(ea(src.m),8); s.xmm[d.r][1]=v; break; }
    case I_UNPCKH: { Val v= src.k==Opd::XMM? s.xmm[src.r][1] : ld(ea(src.m)+8,8); s.xmm[d.r][0]=s.xmm[d.r][1]; s.xmm[d.r][1]=v; break; }
    case I_SHUFPD: { u64 im=in.o[2].imm; Val a=s.xmm[d.r][im&1]; Val b; if(src.k==Opd::XMM) b=s.xmm[src.r][(im>>1)&1]; else b=ld(ea(src.m)+8*((im>>1)&1),8); s.xmm[d.r][0]=a; s.xmm[d.r][1]=b; break; }
    case I_PSHUFD: { u64 im=in.o[2].imm; Val q[2]; if(src.k==Opd::XMM){q[0]=s.xmm[src.r][0];q[1]=s.xmm[src.r][1];} else { u64 a=ea(src.m); q[0]=ld(a,8);q[1]=ld(a+8,8);} auto dw=[&](int i){ Val v=q[i>>1]; return v.e? mkExtract(v.e,(i&1)*32,32):mkConst(v.c>>((i&1)*32),32); }; auto mk=[&](int lo,int hi){ if(hi==lo+1&&!(lo&1)) return q[lo>>1]; return mkV(mkConcat(dw(hi),dw(lo))); }; Val a=mk(im&3,(im>>2)&3),b=mk((im>>4)&3,(im>>6)&3); s.xmm[d.r][0]=a; s.xmm[d.r][1]=b; break; }
    case I_PUNPCKLDQ: { Val a=s.xmm[d.r][0]; Val b= src.k==Opd::XMM? s.xmm[src.r][0]: ld(ea(src.m),8); Node*x=nodeOf(a,64),*y=nodeOf(b,64); s.xmm[d.r][0]=mkV(mkConcat(mkExtract(y,0,32),mkExtract(x,0,32))); s.xmm[d.r][1]=mkV(mkConcat(mkExtract(y,32,32),mkExtract(x,32,32))); break; }
    case I_ADDSD: case I_SUBSD: case I_MULSD: case I_DIVSD: { Val b= src.k==Opd::XMM? s.xmm[src.r][0] : ld(ea(src.m),8); s.xmm[d.r][0]=fpBin(in.op-I_ADDSD,s.xmm[d.r][0],b); break; }
    case I_ADDPD: case I_SUBPD: case I_MULPD: case I_DIVPD: { Val b0,b1; if(src.k==Opd::XMM){b0=s.xmm[src.r][0];b1=s.xmm[src.r][1];} else { u64 a=ea(src.m); b0=ld(a,8);b1=ld(a+8,8);} Val r0=fpBin(in.op-I_ADDPD,s.xmm[d.r][0],b0),r1=fpBin(in.op-I_ADDPD,s.xmm[d.r][1],b1); s.xmm[d.r][0]=r0; s.xmm[d.r][1]=r1; break; }
    case I_HADDPD: { Val b0,b1; if(src.k==Opd::XMM){b0=s.xmm[src.r][0];b1=s.xmm[src.r][1];} else { u64 a=ea(src.m); b0=ld(a,8);b1=ld(a+8,8);} Val r0=fpBin(0,s.xmm[d.r][0],s.xmm[d.r][1]),r1=fpBin(0,b0,b1); s.xmm[d.r][0]=r0; s.xmm[d.r][1]=r1; break; }
    case I_SQRTSD: { Val b= src.k==Opd::XMM? s.xmm[src.r][0] : ld(ea(src.m),8); s.xmm[d.r][0]=fpSqrt(b); break; }
    case I_SQRTPD: { Val b0,b1; if(src.k==Opd::XMM){b0=s.xmm[src.r][0];b1=s.xmm[src.r][1];} else { u64 a=ea(src.m); b0=ld(a,8);b1=ld(a+8,8);} Val r0=fpSqrt(b0),r1=fpSqrt(b1); s.xmm[d.r][0]=r0; s.xmm[d.r][1]=r1; break; }
    case I_MAXSD: case I_MINSD: { Val b= src.k==Opd::XMM? s.xmm[src.r][0] : ld(ea(src.m),8); Val a=s.xmm[d.r][0]; bool t; if(!a.e&&!b.e) t= in.op==I_MAXSD? asD(a.c)>asD(b.c) : asD(a.c)<asD(b.c); else { Node*x=toReal(a),*y=toReal(b); t=decide(in.op==I_MAXSD? mkRPred(O_RLT,y,x):mkRPred(O_RLT,x,y)); } s.xmm[d.r][0]=t?a:b; break; }
    case I_UCOMISD: case I_UCOMISS: { Val a=s.xmm[d.r][0]; Val b= src.k==Opd::XMM? s.xmm[src.r][0] : ld(ea(src.m),in.op==I_UCOMISD?8:4); if(in.op==I_UCOMISS){ a=toF(a); b=toF(b); } Flags&f=s.fl; 
        auto conc2=[&](double x,double y){ f.k=FK_CONCRETE; f.of=f.sf=0; if(std::isnan(x)||std::isnan(y)){ f.zf=f.pf=f.cfc=1; } else { f.pf=0; f.zf=x==y; f.cfc=x<y; } };
        if(!a.e&&!b.e) conc2(asD(a.c),asD(b.c));
        else if((!a.e&&!std::isfinite(asD(a.c)))) conc2(asD(a.c),0.0); else if((!b.e&&!std::isfinite(asD(b.c)))) conc2(0.0,asD(b.c));
        else { Node*x=toReal(a),*y=toReal(b); if(x->op==O_RCONST&&y->op==O_RCONST){ f.k=FK_CONCRETE; f.of=f.sf=f.pf=0; f.zf=*x->q==*y->q; f.cfc=*x->q<*y->q; } else { f.k=FK_UCOMI; f.ra=x; f.rb=y; } } break; }
    case I_CVTSI2SD: { Val v=rd(src); i64 x=sext(concV(v,src.w,"int to real conversion"),src.w); s.xmm[d.r][0]=Val(asU((double)x)); break; }
    case I_CVTTSD2SI: { Val b= src.k==Opd::XMM? s.xmm[src.r][0] : ld(ea(src.m),8); if(b.e){ i64 r=roundReal(b,0); wr(d,Val((u64)r&maskw(d.w))); break; } double x=asD(b.c); i64 r=(!(x>-9.3e18&&x<9.2e18))?INT64_MIN:(i64)x; wr(d,Val((u64)r&maskw(d.w))); break; }
    case I_CVTSS2SD: case I_CVTSD2SS: case I_CVTSI2SS: case I_SQRTSS: case I_ADDSS: case I_SUBSS: case I_MULSS: case I_DIVSS: case I_MAXSS: case I_MINSS: {
        if(in.op==I_CVTSI2SS){ Val v=rd(src); i64 x=sext(concV(v,src.w,"int to real conversion"),src.w); s.xmm[d.r][0]=fromF(Val(asU((double)x))); break; }
        if(in.op==I_CVTSD2SS){ s.xmm[d.r][0]=fromF(src.k==Opd::XMM? s.xmm[src.r][0] : ld(ea(src.m),8)); break; }
        Val b=toF(src.k==Opd::XMM? s.xmm[src.r][0] : ld(ea(src.m),4)); if(in.op==I_CVTSS2SD){ s.xmm[d.r][0]=b; break; } if(in.op==I_SQRTSS){ s.xmm[d.r][0]=fromF(fpSqrt(b)); break; }
        Val a=toF(s.xmm[d.r][0]); if(in.op==I_MAXSS||in.op==I_MINSS){ bool t; if(!a.e&&!b.e) t= in.op==I_MAXSS? asD(a.c)>asD(b.c) : asD(a.c)<asD(b.c); else { Node*x=toReal(a),*y=toReal(b); t=decide(in.op==I_MAXSS? mkRPred(O_RLT,y,x):mkRPred(O_RLT,x,y)); } if(!t) s.xmm[d.r][0]= src.k==Opd::XMM? s.xmm[src.r][0] : ld(ea(src.m),4); break; }
        s.xmm[d.r][0]=fromF(fpBin(in.op-I_ADDSS,a,b)); break; }
    case I_CVTTSS2SI: { Val b=toF(src.k==Opd::XMM? s.xmm[src.r][0] : ld(ea(src.m),4)); wr(d,Val((u64)(b.e?roundReal(b,0):(i64)asD(b.c))&maskw(d.w))); break; }
    case I_MOVMSKPD: { u64 r=0; for(int i=0;i<2;i++){ Val v=s.xmm[src.r][i]; bool n; if(!v.e) n=v.c>>63; else if(v.e->op==O_F2B) n=decide(mkRPred(O_RLT,v.e->a,mkRConst(0))); else if(i==1) n=false; else n=decide(mkExtract(v.e,63,1)); r|=(u64)n<<i; } wr(d,Val(r)); break; }
    case I_CMPXCHG: { unsigned w=szOf(d); Val old=rd(d),acc=rreg(0,w),nw=rd(src); bool eq= !old.e&&!acc.e? ((old.c^acc.c)&maskw(w))==0 : decide(mkBin(O_EQ,nodeOf(old,w),nodeOf(acc,w))); if(eq) wr(d,nw); else wreg(0,w,old); Flags&f=s.fl; f.k=FK_CONCRETE; f.zf=eq; f.cfc=f.of=f.sf=f.pf=0; break; }
    case I_XORP: case I_ANDP: case I_ORP: case I_ANDNP: { if(in.op==I_XORP&&src.k==Opd::XMM&&src.r==d.r){ s.xmm[d.r][0]=s.xmm[d.r][1]=Val(0); break; } Val b0,b1; if(src.k==Opd::XMM){b0=s.xmm[src.r][0];b1=s.xmm[src.r][1];} else { u64 a=ea(src.m); b0=ld(a,8);b1=ld(a+8,8);} Val a0=s.xmm[d.r][0],a1=s.xmm[d.r][1]; if(in.op==I_ANDNP){ auto nt=[&](Val v){ if(v.e){ if(v.e->op==O_F2B) throw Unsupported("andn of symbolic real"); return mkV(mkNot(v.e)); } return Val(~v.c); }; a0=nt(a0); a1=nt(a1);} int op=in.op==I_XORP?O_XOR:in.op==I_ORP?O_OR:O_AND; 
        Val r0=xbit(op,a0,b0); Val r1; try { r1=xbit(op,a1,b1); } catch(Unsupported&){ r1=Val(0); } s.xmm[d.r][0]=r0; s.xmm[d.r][1]=r1; break; }
    case I_CMPSD: { Val a=s.xmm[d.r][0]; Val b= src.k==Opd::XMM? s.xmm[src.r][0] : ld(ea(src.m),8); bool t; int p=in.aux; if(!a.e&&!b.e){ double x=asD(a.c),y=asD(b.c); bool un=std::isnan(x)||std::isnan(y); switch(p){case 0:t=x==y;break;case 1:t=x<y;break;case 2:t=x<=y;break;case 3:t=un;break;case 4:t=!(x==y);break;case 5:t=!(x<y);break;case 6:t=!(x<=y);break;default:t=!un;} } else { Node*x=toReal(a),*y=toReal(b); switch(p){case 0:t=decide(mkRPred(O_REQ,x,y));break;case 1:t=decide(mkRPred(O_RLT,x,y));break;case 2:t=decide(mkRPred(O_RLE,x,y));break;case 3:t=false;break;case 4:t=!decide(mkRPred(O_REQ,x,y));break;case 5:t=!decide(mkRPred(O_RLT,x,y));break;case 6:t=!decide(mkRPred(O_RLE,x,y));break;default:t=true;} } s.xmm[d.r][0]=Val(t?~0ull:0); break; }
    case I_PADDQ: case I_PSUBQ: { Val b0,b1; if(src.k==Opd::XMM){b0=s.xmm[src.r][0];b1=s.xmm[src.r][1];} else { u64 a=ea(src.m); b0=ld(a,8);b1=ld(a+8,8);} Op op=in.op==I_PADDQ?O_ADD:O_SUB; Val r0=bin(op,s.xmm[d.r][0],b0,64),r1=bin(op,s.xmm[d.r][1],b1,64); s.xmm[d.r][0]=r0; s.xmm[d.r][1]=r1; break; }
    case I_PADDD: case I_PSUBD: { Val b[2]; if(src.k==Opd::XMM){b[0]=s.xmm[src.r][0];b[1]=s.xmm[src.r][1];} else { u64 a=ea(src.m); b[0]=ld(a,8);b[1]=ld(a+8,8);} for(int i=0;i<2;i++){ Node*x=nodeOf(s.xmm[d.r][i],64),*y=nodeOf(b[i],64); Op op=in.op==I_PADDD?O_ADD:O_SUB; s.xmm[d.r][i]=mkV(mkConcat(mkBin(op,mkExtract(x,32,32),mkExtract(y,32,32)),mkBin(op,mkExtract(x,0,32),mkExtract(y,0,32)))); } break; }
    case I_REPSTOS: { unsigned n=in.aux&15; u64 cnt=(in.aux&0x80)?concV(s.reg[1],64,"rep count"):1; u64 di=concV(s.reg[7],64,"rdi"); Val v=rreg(0,n*8); for(u64 i=0;i<cnt;i++) st(di+i*n,v,n); s.reg[7]=Val(di+cnt*n); if(in.aux&0x80) s.reg[1]=Val(0); break; }
    case I_REPMOVS: { unsigned n=in.aux&15; u64 cnt=(in.aux&0x80)?concV(s.reg[1],64,"rep count"):1; u64 di=concV(s.reg[7],64,"rdi"),si=concV(s.reg[6],64,"rsi"); for(u64 i=0;i<cnt;i++) st(di+i*n,ld(si+i*n,n),n); s.reg[7]=Val(di+cnt*n); s.reg[6]=Val(si+cnt*n); if(in.aux&0x80) s.reg[1]=Val(0); break; }
    case I_UD2: viol("abort","unreachable code reached");
    case I_HLT: throw Unsupported("unknown external function "+symAt(s.ip));
    default: throw Unsupported("instruction "+in.text);
    }
    s.ip=next;
}
// single precision: a symbolic value is the low half of the pattern of a real; rounding to it is modelled by a fixed relative error
Val Engine::fromF(Val d){ if(!d.e){ float f=(float)asD(d.c); u32 t; memcpy(&t,&f,4); return Val(t); } Node*r=mkRBin(O_RMUL,toReal(d),mkRConst(mpq_class(33554433,33554432))); return mkV(mkExt(mkExtract(mkF2B(r),0,32),64,false)); }
Val Engine::toF(Val v){ if(!v.e){ u32 t=(u32)v.c; float f; memcpy(&f,&t,4); return Val(asU((double)f)); } Node*e=v.e; if(e->op==O_ZEXT) e=e->a; if(e->op==O_F2B) return mkV(e); if(e->op==O_EXTRACT&&e->c==0&&e->a->op==O_F2B) return mkV(e->a); if(e->w>32){ Node*x=mkExtract(e,0,32); if(x->op==O_CONST){ return toF(Val(x->c)); } if(x->op==O_EXTRACT&&x->c==0&&x->a->op==O_F2B) return mkV(x->a); } throw Unsupported("symbolic bits used as single precision real"); }
// integer part of a symbolic real, one path per value: mode 0 truncates, 1 rounds down, 2 rounds up, 3 rounds half away from zero
i64 Engine::roundReal(Val v,int mode){ Node*x=toReal(v); if(x->op==O_RCONST){ double d=x->q->get_d(); return mode==0?(i64)d:mode==1?(i64)std::floor(d):mode==2?(i64)std::ceil(d):(i64)std::llround(d); }
    for(int t=0;t<512;t++){ Evaluator ev(cur->model.get()); double d=ev.evalR(x); if(!(d>-1e15&&d<1e15)) throw Unsupported("real to int conversion out of range"); i64 n= mode==0?(i64)d:mode==1?(i64)std::floor(d):mode==2?(i64)std::ceil(d):(i64)std::llround(d);
        auto K=[](i64 k){ return mkRConst(mpq_class((long)k)); }; auto H=[](i64 k){ return mkRConst(mpq_class((long)(2*k+1),2)); }; Node*c;
        if(mode==1||(mode==0&&n>0)) c=mkBin(O_AND,mkRPred(O_RLE,K(n),x),mkRPred(O_RLT,x,K(n+1)));
        else if(mode==2||(mode==0&&n<0)) c=mkBin(O_AND,mkRPred(O_RLT,K(n-1),x),mkRPred(O_RLE,x,K(n)));
        else if(mode==0) c=mkBin(O_AND,mkRPred(O_RLT,K(-1),x),mkRPred(O_RLT,x,K(1)));
        else c= n>0? mkBin(O_AND,mkRPred(O_RLE,H(n-1),x),mkRPred(O_RLT,x,H(n))) : n<0? mkBin(O_AND,mkRPred(O_RLT,H(n-1),x),mkRPred(O_RLE,x,H(n))) : mkBin(O_AND,mkRPred(O_RLT,H(-1),x),mkRPred(O_RLT,x,H(0)));
        if(decide(c)) return n; }
    throw Unsupported("real to int conversion with too many values"); }
void Engine::step(){
    State&s=*cur; if(s.ip>=stubLo&&s.ip<stubHi){ auto it=hooks.find(s.ip); if(it==hooks.end()){ auto n=stubNames.find(s.ip); throw Unsupported("external function "+(n==stubNames.end()?std::string("?"):demangle(n->second))); } it->second(); u64 sp=s.reg[4].c; Val r=ld(sp,8); s.reg[4]=Val(sp+8); s.ip=r.c; if(!s.callstack.empty()) s.callstack.pop_back(); return; }
    if(s.ip<IMG_BASE||s.ip>=imgEnd) viol("memory","jump to invalid address");
    Insn*&in=icache[s.ip-IMG_BASE]; if(!in){ u8 buf[16]; for(int i=0;i<16;i++){ u64 a=s.ip+i; buf[i]= a<imgEnd? img0[(a-IMG_BASE)>>12].p->data[a&4095]:0; } in=new Insn(decodeAt(buf,16,s.ip)); }
    exec(*in);
}
const u64 EXIT_MAGIC=STK_TOP-0x100;
void Engine::runState(){
    PathEnd e{PathEnd::OK,""};
    try { for(;;){ if(cur->ip==0xdead0000ull) { break; } step(); cur->instrs++; instrs++; if((instrs&0xfffff)==0&&now()-t0>maxTime){ truncated=true; throw PathEnd{PathEnd::LIMIT,"time limit"}; } if(cur->instrs>pathInstrLimit){ throw PathEnd{PathEnd::LIMIT,"instruction limit"}; } }
        if(cur->expectReject){ recordViol("accepted","input that must be rejected was accepted",*cur->model); e={PathEnd::VIOL,"accepted"}; } }
    catch(PathEnd&x){ e=x; if(e.k==PathEnd::LIMIT&&cur->instrs>50000000ull) recordViol("hang","runs on without an end",*cur->model); if(e.k==PathEnd::REJECT){ if(cur->expectReject) e.k=PathEnd::OK; else { recordViol("rejected",x.msg,*cur->model); e.k=PathEnd::VIOL; } } }
    catch(Unsupported&x){ e={PathEnd::UNSUP,x.what()}; }
    catch(TooBig&x){ e={PathEnd::UNSUP,x.what()}; }
    catch(z3::exception&x){ e={PathEnd::UNSUP,std::string("z3: ")+x.msg()}; }
    endPath(e);
}
void Engine::endPath(const PathEnd&e){ paths++; switch(e.k){ case PathEnd::OK: okPaths++; break; case PathEnd::INFEASIBLE: infPaths++; break; case PathEnd::UNSUP: { std::string where; for(size_t i=cur->callstack.size();i-->0&&i+4>=cur->callstack.size();) where+=" < "+symAt(cur->callstack[i]); unsup[e.msg+where]++; break; } case PathEnd::LIMIT: inconcl[e.msg]++; truncated=true; break; default: rejPaths++; }
    if(verbose) fprintf(stderr,"path %llu end %d %s instr %llu\n",(unsigned long long)paths,e.k,e.msg.c_str(),(unsigned long long)cur->instrs);
    if(e.k==PathEnd::OK){ nwit++; bool keep=(int)wits.size()<maxWit; size_t slot=wits.size(); if(!keep){ u64 r=S.rng()%nwit; if(r<(u64)maxWit){ keep=true; slot=r; } } if(keep&&maxWit>0&&!cur->tainted){ Witness w; w.outcome=cur->expectReject?"reject":"ok"; w.inputs=inputsOf(*cur,*cur->model); 
            // numeric values printed are those of the rounded inputs
            Model m=*cur->model; for(auto&[n,i]:cur->inputs) if(g_vars[i].real){ Evaluator ev(&m); double d=ev.evalR(g_vars[i].node); if((size_t)i>=m.r.size()){ m.r.resize(g_vars.size()); m.i.resize(g_vars.size(),0); m.has.resize(g_vars.size(),0);} m.r[i]=mpq_class(d); m.has[i]=1; }
            Evaluator ev(&m); for(size_t k=0;k<cur->obs.size();k++){ char b[64]; if(cur->obsReal[k]) snprintf(b,sizeof b,"%.17g",ev.evalR(cur->obs[k].second)); else snprintf(b,sizeof b,"%lld",(long long)sext(ev.eval(cur->obs[k].second),cur->obs[k].second->w)); w.obs.push_back({cur->obs[k].first,b}); }
            if(slot<wits.size()) wits[slot]=w; else wits.push_back(w); } } }
void Engine::run(const std::string&fn){
    t0=now(); auto it=syms.find(fn); if(it==syms.end()) throw std::runtime_error("no function "+fn);
    auto st0=std::make_unique<State>(); st0->img=img0; st0->stk.resize((STK_TOP-STK_BASE)>>12); st0->heap.resize(2); st0->allocs=std::make_shared<std::vector<Alloc>>(); st0->model=std::make_shared<Model>(); 
    cur=st0.get(); st0->reg[4]=Val(STK_TOP-0x1000);
    // static initialisers
    auto callFn=[&](u64 f){ State&s=*cur; u64 sp=(s.reg[4].c&~15ull)-8; s.reg[4]=Val(sp); this->st(sp,Val(0xdead0000ull),8); s.callstack.assign(1,f); s.ip=f; };
    for(u64 a=initArr;a<initArrEnd;a+=8){ u64 f=ld(a,8).c; if(!f||f==~0ull) continue; callFn(f); while(cur->ip!=0xdead0000ull){ step(); instrs++; } }
    calledFns.clear(); cur->live=0; callFn(it->second); calledFns.insert(it->second);
    { u64 live=0; for(auto&a:*cur->allocs) if(!a.freed) live++; cur->live=live; }
    work.push_back(std::move(st0));
    while(!work.empty()){ std::unique_ptr<State> s=std::move(work.back()); work.pop_back(); cur=s.get(); runState(); if(paths>=maxPaths||now()-t0>maxTime){ if(!work.empty()){ truncated=true; inconcl["exploration limit"]++; } break; } }
}
static std::string esc(const std::string&s){ std::string r; for(char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if((unsigned char)c<32) r+=' '; else r+=c; } return r; }
std::string Engine::json(){ std::ostringstream o; auto kv=[&](const std::vector<std::pair<std::string,std::string>>&v){ std::string r="["; for(auto&[a,b]:v) r+=(r.size()>1?",":"")+std::string("[\"")+esc(a)+"\",\""+esc(b)+"\"]"; return r+"]"; }; auto sl=[&](const std::vector<std::string>&v){ std::string r="["; for(auto&a:v) r+=(r.size()>1?",":"")+std::string("\"")+esc(a)+"\""; return r+"]"; }; auto mp=[&](const std::map<std::string,u64>&m){ std::string r="{"; for(auto&[a,b]:m) r+=(r.size()>1?",":"")+std::string("\"")+esc(a)+"\":"+std::to_string(b); return r+"}"; };
    o<<"{\"paths\":"<<paths<<",\"ok\":"<<okPaths<<",\"infeasible\":"<<infPaths<<",\"violating\":"<<rejPaths<<",\"instructions\":"<<instrs<<",\"forks\":"<<forks<<",\"truncated\":"<<(truncated?"true":"false")<<",\"seconds\":"<<now()-t0
     <<",\"queries\":"<<g_st.queries<<",\"unsat\":"<<g_st.unsat<<",\"sat\":"<<g_st.sat<<",\"unknown\":"<<g_st.unknown<<",\"bv_queries\":"<<g_st.bvq<<",\"lra_queries\":"<<g_st.lraq<<",\"nra_queries\":"<<g_st.nraq<<",\"cached\":"<<g_st.cached<<",\"solver_seconds\":"<<g_st.secs<<",\"nodes\":"<<nodeCount();
    o<<",\"checks\":"<<mp(checkHits)<<",\"proved\":"<<mp(checkProved)<<",\"inconclusive\":"<<mp(inconcl)<<",\"unsupported\":"<<mp(unsup);
    o<<",\"violations\":["; bool f=true; for(auto&v:viols){ o<<(f?"":",")<<"{\"kind\":\""<<v.kind<<"\",\"label\":\""<<esc(v.label)<<"\",\"inputs\":"<<kv(v.inputs)<<",\"trace\":"<<sl(v.trace)<<",\"stack\":"<<sl(v.stack)<<"}"; f=false; }
    o<<"],\"witnesses\":["; f=true; for(auto&w:wits){ o<<(f?"":",")<<"{\"outcome\":\""<<w.outcome<<"\",\"inputs\":"<<kv(w.inputs)<<",\"obs\":"<<kv(w.obs)<<"}"; f=false; }
    std::set<std::string> fs; for(u64 a:calledFns) fs.insert(symAt(a)); std::vector<std::string> fv; for(auto&x:fs) if(x.find("mito::")!=std::string::npos||x.find("pyre::")!=std::string::npos) fv.push_back(x.substr(0,300)); o<<"],\"functions\":"<<sl(fv)<<",\"all_functions\":"<<fs.size()<<"}"; return o.str(); }
