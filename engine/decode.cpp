#include "vm.h"
#include <llvm-c/Disassembler.h>
#include <llvm-c/Target.h>
static LLVMDisasmContextRef dc;
void decodeInit(){ LLVMInitializeX86TargetInfo(); LLVMInitializeX86TargetMC(); LLVMInitializeX86Disassembler(); dc=LLVMCreateDisasm("x86_64-linux-gnu",nullptr,0,nullptr,nullptr); LLVMSetDisasmOptions(dc,LLVMDisassembler_Option_AsmPrinterVariant); }
static std::unordered_map<std::string,std::pair<int,int>> regs; // name -> (idx,width) ; width 9 = high byte
static std::unordered_map<std::string,int> xmms;
static void initRegs(){ const char*q[]={"rax","rcx","rdx","rbx","rsp","rbp","rsi","rdi"},*d[]={"eax","ecx","edx","ebx","esp","ebp","esi","edi"},*w[]={"ax","cx","dx","bx","sp","bp","si","di"},*b[]={"al","cl","dl","bl","spl","bpl","sil","dil"},*h[]={"ah","ch","dh","bh"};
    for(int i=0;i<8;i++){ regs[q[i]]={i,64};regs[d[i]]={i,32};regs[w[i]]={i,16};regs[b[i]]={i,8}; } for(int i=0;i<4;i++) regs[h[i]]={i,9};
    for(int i=8;i<16;i++){ std::string r="r"+std::to_string(i); regs[r]={i,64};regs[r+"d"]={i,32};regs[r+"w"]={i,16};regs[r+"b"]={i,8}; } for(int i=0;i<16;i++) xmms["xmm"+std::to_string(i)]=i; }
static const char*ccn[]={"o","no","b","ae","e","ne","be","a","s","ns","p","np","l","ge","le","g"};
static int ccOf(const std::string&s){ for(int i=0;i<16;i++) if(s==ccn[i]) return i; return -1; }
static std::string trim(std::string s){ size_t a=s.find_first_not_of(" \t"),b=s.find_last_not_of(" \t"); return a==std::string::npos?"":s.substr(a,b-a+1); }
static bool isNum(const std::string&s){ return !s.empty()&&(isdigit(s[0])||s[0]=='-'||s[0]=='+'); }
static i64 num(const std::string&s){ if(s[0]=='-') return -(i64)strtoull(s.c_str()+1,0,0); return (i64)strtoull(s.c_str(),0,0); }
static Opd parseOp(std::string s){
    Opd o; s=trim(s); auto it=regs.find(s); if(it!=regs.end()){ if(it->second.second==9){o.k=Opd::REGH;o.w=8;} else {o.k=Opd::REG;o.w=it->second.second;} o.r=it->second.first; return o; }
    auto x=xmms.find(s); if(x!=xmms.end()){ o.k=Opd::XMM;o.w=128;o.r=x->second;return o; }
    if(isNum(s)){ o.k=Opd::IMM;o.imm=(u64)num(s);return o; }
    if(s.find("fs:")!=std::string::npos&&s.find('[')==std::string::npos){ size_t c=s.find("fs:"); std::string pre=s.substr(0,c); o.k=Opd::MEM; o.w= pre.find("xmmword")!=std::string::npos?128:pre.find("qword")!=std::string::npos?64:pre.find("dword")!=std::string::npos?32:pre.find("word")!=std::string::npos?16:8; o.m.seg=1; o.m.disp=num(s.substr(c+3)); return o; }
    size_t br=s.find('['); if(br==std::string::npos) throw Unsupported("operand "+s);
    o.k=Opd::MEM; std::string pre=s.substr(0,br);
    if(pre.find("byte ptr")!=std::string::npos) o.w=8; if(pre.find("word ptr")!=std::string::npos) o.w=16; if(pre.find("dword ptr")!=std::string::npos) o.w=32; if(pre.find("qword ptr")!=std::string::npos) o.w=64; if(pre.find("xmmword ptr")!=std::string::npos) o.w=128; 
    if(pre.find("fs:")!=std::string::npos) o.m.seg=1;
    std::string in=s.substr(br+1,s.find(']')-br-1); int sign=1; size_t i=0; 
    while(i<in.size()){ while(i<in.size()&&in[i]==' ')i++; if(i>=in.size())break; if(in[i]=='+'){sign=1;i++;continue;} if(in[i]=='-'&&i+1<in.size()&&in[i+1]==' '){sign=-1;i++;continue;} size_t j=in.find(' ',i); if(j==std::string::npos) j=in.size(); std::string t=in.substr(i,j-i); i=j;
        size_t st=t.find('*'); if(st!=std::string::npos){ std::string l=t.substr(0,st),r=t.substr(st+1); if(isNum(l)){ o.m.scale=num(l); o.m.index=regs.at(r).first; } else { o.m.scale=num(r); o.m.index=regs.at(l).first; } }
        else if(isNum(t)) o.m.disp+=sign*num(t); else if(t=="rip") o.m.rip=true; else if(t=="riz"||t=="eiz"){} else { auto r=regs.find(t); if(r==regs.end()) throw Unsupported("mem operand "+s); if(o.m.base<0&&o.m.index<0) o.m.base=r->second.first; else if(o.m.base<0) o.m.base=r->second.first; else { o.m.index=r->second.first; o.m.scale=1; } } }
    return o;
}
static std::unordered_map<std::string,I> mn;
static void initMn(){ mn={{"nop",I_NOP},{"endbr64",I_NOP},{"mov",I_MOV},{"movabs",I_MOV},{"movzx",I_MOVZX},{"movsx",I_MOVSX},{"movsxd",I_MOVSX},{"lea",I_LEA},{"add",I_ADD},{"sub",I_SUB},{"adc",I_ADC},{"sbb",I_SBB},{"imul",I_IMUL},{"mul",I_MUL},{"div",I_DIV},{"idiv",I_IDIV},{"neg",I_NEG},{"not",I_NOT},{"and",I_AND},{"or",I_OR},{"xor",I_XOR},{"shl",I_SHL},{"sal",I_SHL},{"shr",I_SHR},{"sar",I_SAR},{"rol",I_ROL},{"ror",I_ROR},{"shld",I_SHLD},{"shrd",I_SHRD},{"cmp",I_CMP},{"test",I_TEST},{"inc",I_INC},{"dec",I_DEC},{"jmp",I_JMP},{"call",I_CALL},{"ret",I_RET},{"push",I_PUSH},{"pop",I_POP},{"leave",I_LEAVE},{"cbw",I_CBW},{"cwde",I_CWDE},{"cdqe",I_CDQE},{"cwd",I_CWD},{"cdq",I_CDQ},{"cqo",I_CQO},{"xchg",I_XCHG},{"bt",I_BT},{"bts",I_BTS},{"btr",I_BTR},{"btc",I_BTC},{"bsr",I_BSR},{"bsf",I_BSF},{"tzcnt",I_TZCNT},{"bswap",I_BSWAP},
 {"movsd",I_MOVSD},{"movss",I_MOVSS},{"movq",I_MOVQ},{"movd",I_MOVD},{"movapd",I_MOV128},{"movaps",I_MOV128},{"movupd",I_MOV128},{"movups",I_MOV128},{"movdqa",I_MOV128},{"movdqu",I_MOV128},{"movhpd",I_MOVHPD},{"movhps",I_MOVHPD},{"movlpd",I_MOVLPD},{"movlps",I_MOVLPD},{"unpcklpd",I_UNPCKL},{"punpcklqdq",I_UNPCKL},{"unpckhpd",I_UNPCKH},{"punpckhqdq",I_UNPCKH},{"shufpd",I_SHUFPD},{"pshufd",I_PSHUFD},{"addsd",I_ADDSD},{"subsd",I_SUBSD},{"mulsd",I_MULSD},{"divsd",I_DIVSD},{"sqrtsd",I_SQRTSD},{"maxsd",I_MAXSD},{"minsd",I_MINSD},{"addpd",I_ADDPD},{"subpd",I_SUBPD},{"mulpd",I_MULPD},{"divpd",I_DIVPD},{"sqrtpd",I_SQRTPD},{"ucomisd",I_UCOMISD},{"comisd",I_UCOMISD},{"cvtsi2sd",I_CVTSI2SD},{"cvttsd2si",I_CVTTSD2SI},{"xorpd",I_XORP},{"xorps",I_XORP},{"pxor",I_XORP},{"andpd",I_ANDP},{"andps",I_ANDP},{"pand",I_ANDP},{"andnpd",I_ANDNP},{"andnps",I_ANDNP},{"pandn",I_ANDNP},{"orpd",I_ORP},{"orps",I_ORP},{"por",I_ORP},{"hlt",I_HLT},{"ud2",I_UD2},{"punpckldq",I_PUNPCKLDQ},{"paddq",I_PADDQ},{"paddd",I_PADDD},{"psubq",I_PSUBQ},{"psubd",I_PSUBD},{"movhlps",I_MOVHLPS},{"movlhps",I_MOVLHPS},{"xadd",I_XADD},{"cmpxchg",I_CMPXCHG},{"haddpd",I_HADDPD},{"addss",I_ADDSS},{"subss",I_SUBSS},{"mulss",I_MULSS},{"divss",I_DIVSS},{"sqrtss",I_SQRTSS},{"maxss",I_MAXSS},{"minss",I_MINSS},{"ucomiss",I_UCOMISS},{"comiss",I_UCOMISS},{"cvtsi2ss",I_CVTSI2SS},{"cvttss2si",I_CVTTSS2SI},{"cvtss2sd",I_CVTSS2SD},{"cvtsd2ss",I_CVTSD2SS},{"movmskpd",I_MOVMSKPD},{"unpcklps",I_PUNPCKLDQ}}; }
Insn decodeAt(const u8*bytes,size_t avail,u64 pc){
    static bool init=false; if(!init){ init=true; decodeInit(); initRegs(); initMn(); }
    char buf[256]; size_t n=LLVMDisasmInstruction(dc,const_cast<u8*>(bytes),avail,pc,buf,sizeof buf); Insn in; if(n==0){ in.text="<undecodable>"; in.size=1; return in; }
    in.size=n; std::string s=trim(buf); in.text=s; 
    if(s=="lock"||s=="lock\t"){ Insn t=decodeAt(bytes+n,avail-n,pc+n); t.size+=n; for(int i=0;i<t.n;i++) if(t.o[i].k==Opd::MEM&&t.o[i].m.rip){} return t; } // a single thread
    bool rep=false,repne=false; for(;;){ bool again=false; for(const char*p:{"rep ","repne ","lock ","rep\t","repne\t","lock\t","notrack ","notrack\t","data16 ","data16\t"}) if(s.compare(0,strlen(p),p)==0){ if(p[0]=='r'){ rep=true; if(p[3]=='n') repne=true; } s=trim(s.substr(strlen(p))); again=true; } if(!again) break; } (void)repne;
    size_t sp=s.find_first_of(" \t"); std::string m=s.substr(0,sp); std::string rest= sp==std::string::npos?"":trim(s.substr(sp));
    // string operations
    if(m.compare(0,4,"stos")==0){ in.op=I_REPSTOS; in.aux=(rep?0x80:0); in.aux|= rest.find("qword")!=std::string::npos?8:rest.find("dword")!=std::string::npos?4:rest.find("byte")!=std::string::npos?1:2; if(m=="stosq") in.aux=(in.aux&0x80)|8; if(m=="stosb") in.aux=(in.aux&0x80)|1; if(m=="stosd") in.aux=(in.aux&0x80)|4; return in; }
    if(m.compare(0,4,"movs")==0&&rest.find("[rsi]")!=std::string::npos&&rest.find("[rdi]")!=std::string::npos){ in.op=I_REPMOVS; in.aux=(rep?0x80:0); in.aux|= rest.find("qword")!=std::string::npos?8:rest.find("dword")!=std::string::npos?4:rest.find("byte")!=std::string::npos?1:2; return in; }
    // operands
    std::vector<std::string> ops; { std::string cur; int dep=0; for(char ch:rest){ if(ch=='[')dep++; if(ch==']')dep--; if(ch==','&&!dep){ ops.push_back(cur); cur.clear(); } else cur+=ch; } if(!trim(cur).empty()) ops.push_back(cur); }
    auto it=mn.find(m); int cc;
    if(it!=mn.end()) in.op=it->second;
    else if(m[0]=='j'&&(cc=ccOf(m.substr(1)))>=0){ in.op=I_JCC; in.cc=cc; }
    else if(m.compare(0,3,"set")==0&&(cc=ccOf(m.substr(3)))>=0){ in.op=I_SETCC; in.cc=cc; }
    else if(m.compare(0,4,"cmov")==0&&(cc=ccOf(m.substr(4)))>=0){ in.op=I_CMOV; in.cc=cc; }
    else if(m.compare(0,3,"cmp")==0&&m.size()>5&&m.compare(m.size()-2,2,"sd")==0){ in.op=I_CMPSD; static const char*pn[]={"eq","lt","le","unord","neq","nlt","nle","ord"}; std::string p=m.substr(3,m.size()-5); in.aux=9; for(int i=0;i<8;i++) if(p==pn[i]) in.aux=i; }
    else { in.op=I_BAD; return in; }
    if(in.op==I_NOP) return in;
    try { for(auto&o:ops) if(in.n<4) in.o[in.n++]=parseOp(o); } catch(std::exception&e){ in.op=I_BAD; return in; }
    if((in.op==I_JCC||in.op==I_JMP||in.op==I_CALL)&&in.n==1&&in.o[0].k==Opd::IMM) in.o[0].imm=pc+n+in.o[0].imm;
    if(in.op==I_CMPSD&&in.n==3){ in.aux=in.o[2].imm; }
    if(in.op==I_CMP&&false) {}
    return in;
}
