#pragma once
#include "vm.h"
#include <functional>
struct PathEnd { enum K { OK, REJECT, VIOL, INFEASIBLE, UNSUP, LIMIT } k; std::string msg; };
struct Violation { std::string label, kind; std::vector<std::pair<std::string,std::string>> inputs; std::vector<std::string> trace; std::vector<std::string> stack; bool tainted; };
struct Witness { std::string outcome; std::vector<std::pair<std::string,std::string>> inputs; std::vector<std::pair<std::string,std::string>> obs; };
struct Engine {
    Solver S; std::vector<std::unique_ptr<State>> work; State*cur=nullptr;
    std::unordered_map<std::string,u64> syms; std::map<u64,std::pair<std::string,u64>> funcs; // addr->(name,size)
    std::unordered_map<u64,std::function<void()>> hooks; std::unordered_map<u64,std::string> stubNames;
    std::vector<PageRef> img0; std::vector<char> imgW; u64 imgEnd=0; u64 initArr=0,initArrEnd=0; u64 stubLo=0,stubHi=0,fsBase=0;
    std::vector<Insn*> icache; std::set<u64> calledFns;
    std::map<std::string,int> bounds; std::string param;
    std::vector<Violation> viols; std::map<std::string,int> violCount; std::vector<Witness> wits; u64 nwit=0;
    std::map<std::string,u64> inconcl; std::map<std::string,u64> checkHits, checkProved; std::map<std::string,u64> unsup;
    u64 paths=0,okPaths=0,rejPaths=0,infPaths=0,instrs=0,forks=0,maxInstr=400000000ull,maxPaths=2000000; double maxTime=600; bool truncated=false; bool heapDown=false; double t0=0; bool verbose=false; int maxWit=12; u64 pathInstrLimit=200000000ull;
    // --- image
    void load(const std::string&elf);
    std::string symAt(u64 a);
    // --- memory
    PageRef* page(u64 a,bool w);
    void checkHeap(Page*p,u64 a,unsigned n,bool w);
    Val ld(u64 a,unsigned n); void st(u64 a,Val v,unsigned n);
    u64 cstr(u64 a,std::string&out);
    u64 halloc(u64 size,int kind,u64 align=16); void hfree(u64 a,int kind,i64 size);
    void setValid(u64 a,u64 n,bool v);
    [[noreturn]] void viol(const std::string&kind,const std::string&msg,Node*cond=nullptr);
    void recordViol(const std::string&kind,const std::string&label,const Model&m);
    // --- decisions
    Node*split(Node*c); bool decide(Node*c); u64 conc(Node*e,const char*what); u64 concV(Val v,unsigned w,const char*what){ return v.e? conc(v.e,what):v.c; }
    void assume(Node*c);
    std::unique_ptr<State> clone();
    void addPc(State&s,Node*c){ s.pc.push_back(c); s.known.insert(c); if(c->op==O_AND&&c->w==1){ s.known.insert(c->a); s.known.insert(c->b);} }
    // --- execution
    void step(); void run(const std::string&fn); void runState();
    void initHooks();
    u64 ea(const Mem&m); 
    Val rd(const Opd&o); void wr(const Opd&o,Val v); void wreg(int r,unsigned w,Val v,bool high=false); Val rreg(int r,unsigned w,bool high=false);
    Node* cond(int cc); bool condB(int cc); bool condC(int cc,bool&out);
    void flLogic(Val r,unsigned w); void flSub(Val a,Val b,Val r,unsigned w); void flAdd(Val a,Val b,Val r,unsigned w);
    Val bin(Op op,Val a,Val b,unsigned w);
    Node* toReal(Val v); Val fromReal(Node*r); Val fpBin(int op,Val a,Val b); Val fpSqrt(Val a); Val fpFun(Fun f,Val a); 
    Val xbit(int op,Val a,Val b); i64 roundReal(Val v,int mode); Val fromF(Val d); Val toF(Val f);
    void exec(const Insn&in);
    std::vector<std::pair<std::string,std::string>> inputsOf(const State&s,const Model&m);
    void endPath(const PathEnd&e);
    std::string json();
};
