#pragma once
#include "expr.h"
#include "solver.h"
#include <set>
struct Val { u64 c; Node *e; Val(u64 x=0):c(x),e(nullptr){} };
inline Val mkV(Node*n){ Val v; if(n->op==O_CONST) v.c=n->c; else v.e=n; return v; }
inline Node* nodeOf(const Val&v,unsigned w){ return v.e? v.e : mkConst(v.c,w); }

struct Page { int rc=0; u8 data[4096]; u64 valid[64]; Node **sym=nullptr; int nsym=0; // sym: 512 granules of 8 bytes
    Page(){ memset(data,0,sizeof data); memset(valid,0,sizeof valid);} Page(const Page&o){ memcpy(data,o.data,sizeof data); memcpy(valid,o.valid,sizeof valid); nsym=o.nsym; if(o.sym){ sym=new Node*[512]; memcpy(sym,o.sym,512*sizeof(Node*)); } } ~Page(){ delete[] sym; } };
struct PageRef { Page*p=nullptr; PageRef(){} PageRef(Page*q):p(q){ if(p)p->rc++; } PageRef(const PageRef&o):p(o.p){ if(p)p->rc++; } PageRef(PageRef&&o)noexcept:p(o.p){o.p=nullptr;} PageRef&operator=(PageRef o){ std::swap(p,o.p); return *this; } ~PageRef(){ if(p&&--p->rc==0) delete p; } };

const u64 IMG_BASE=0x400000, IMG_END=0x4000000, HEAP_BASE=0x10000000, HEAP_END=0x30000000, STK_TOP=0x7ff00000, STK_BASE=0x7f700000;
struct Alloc { u64 addr,size; u8 freed; u8 kind; };  // kind 0 malloc 1 new 2 new[]

enum FK : u8 { FK_NONE, FK_SUB, FK_ADD, FK_LOGIC, FK_INC, FK_DEC, FK_UCOMI, FK_CONCRETE, FK_CFONLY, FK_SHL, FK_SHR };
struct Flags { FK k=FK_NONE; u8 w=0; Val a,b,r; Val cf; bool zf=0,cfc=0,pf=0,sf=0,of=0; Node*ra=nullptr,*rb=nullptr; };

struct State {
    Val reg[16]; Val xmm[16][2]; u64 ip=0; Flags fl;
    std::vector<PageRef> img, heap, stk; std::shared_ptr<std::vector<Alloc>> allocs; u64 heapTop=HEAP_BASE+0x1000, heapBot=HEAP_END-0x1000; u64 live=0;
    std::vector<Node*> pc; std::unordered_set<Node*> known; std::shared_ptr<Model> model;
    std::vector<std::pair<std::string,int>> inputs;    // name, var index (or -1: concrete choice with value)
    std::unordered_map<std::string,int> occ;
    std::vector<std::pair<std::string,Node*>> obs; std::vector<char> obsReal;
    std::vector<u64> callstack;
    u64 instrs=0; bool expectReject=false; int depth=0; std::vector<std::string> trace; u64 forks=0;
    bool tainted=false;
};

struct Mem { int seg=0; int base=-1,index=-1; int scale=1; i64 disp=0; bool rip=false; };
struct Opd { enum K:u8{NONE,REG,REGH,XMM,IMM,MEM} k=NONE; u8 r=0; uint16_t w=0; u64 imm=0; Mem m; };
enum I : uint16_t {
 I_BAD,I_NOP,I_MOV,I_MOVZX,I_MOVSX,I_LEA,I_ADD,I_SUB,I_ADC,I_SBB,I_IMUL,I_MUL,I_DIV,I_IDIV,I_NEG,I_NOT,I_AND,I_OR,I_XOR,I_SHL,I_SHR,I_SAR,I_ROL,I_ROR,I_SHLD,I_SHRD,I_CMP,I_TEST,I_INC,I_DEC,
 I_SETCC,I_CMOV,I_JCC,I_JMP,I_CALL,I_RET,I_PUSH,I_POP,I_LEAVE,I_CBW,I_CWDE,I_CDQE,I_CWD,I_CDQ,I_CQO,I_XCHG,I_BT,I_BTS,I_BTR,I_BTC,I_BSR,I_BSF,I_TZCNT,I_BSWAP,
 I_MOVSD,I_MOVQ,I_MOVD,I_MOV128,I_MOVHPD,I_MOVLPD,I_UNPCKL,I_UNPCKH,I_SHUFPD,I_PSHUFD,I_ADDSD,I_SUBSD,I_MULSD,I_DIVSD,I_SQRTSD,I_MAXSD,I_MINSD,I_ADDPD,I_SUBPD,I_MULPD,I_DIVPD,I_SQRTPD,I_UCOMISD,I_CVTSI2SD,I_CVTTSD2SI,
 I_XORP,I_ANDP,I_ANDNP,I_ORP,I_CMPSD,I_REPSTOS,I_REPMOVS,I_HLT,I_UD2,I_PUNPCKLDQ,I_PADDQ,I_PADDD,I_PSHIFT,I_CVTDQ2PD,I_MOVSS,I_CVTSS2SD,I_CVTSD2SS,I_PSUBQ,I_PSUBD,I_PCMPEQD,I_MOVMSKPD,I_MOVHLPS,I_MOVLHPS,I_PINSRW,I_XADD,I_CMPXCHG,I_PUNPCKHQDQ,I_HADDPD,I_ADDSS,I_SUBSS,I_MULSS,I_DIVSS,I_SQRTSS,I_MAXSS,I_MINSS,I_UCOMISS,I_CVTSI2SS,I_CVTTSS2SI
};
struct Insn { I op=I_BAD; u8 cc=0; u8 n=0; u8 size=0; u8 aux=0; Opd o[4]; std::string text; };
enum CC { CC_O,CC_NO,CC_B,CC_AE,CC_E,CC_NE,CC_BE,CC_A,CC_S,CC_NS,CC_P,CC_NP,CC_L,CC_GE,CC_LE,CC_G };
