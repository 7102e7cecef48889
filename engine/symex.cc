// symex: a symbolic executor for LLVM 18 bitcode. See DESIGN.md.
#include "solver.h"
#include <cstdarg>
#include <chrono>
#include <deque>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/CFG.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
using namespace llvm;
using std::vector; using std::string; using std::map;
static string gWhere();
void engine_error(const char*fmt,...){ va_list ap; va_start(ap,fmt); fprintf(stderr,"ENGINE-ERROR: "); vfprintf(stderr,fmt,ap); fprintf(stderr,"\n%s\n",gWhere().c_str()); va_end(ap); fflush(stderr); _exit(3); }
static double nowS(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Val { u64 c=0; Expr*e=nullptr; };
static inline Val VC(u64 c){ Val v; v.c=c; return v; }
static inline Val VE(Expr*e){ Val v; if(isC(e)) v.c=e->c; else v.e=e; return v; }
static inline Expr* EX(const Val&v,unsigned w){ return v.e? v.e: mkConst(w,v.c); }

// ---------------------------------------------------------------- memory
struct MemObj { u32 rc=1; u64 size=0; u8 kind=0; bool ro=false,freed=false; vector<u8> b; vector<Expr*> s; vector<u8> u; const char* what=""; };
// kind:0 global 1 heap 2 stack 3 function
static u64 gObjs=0;
struct ObjRef { MemObj*p=nullptr; ObjRef(){} explicit ObjRef(MemObj*q):p(q){} ObjRef(const ObjRef&o):p(o.p){ if(p)p->rc++; } ObjRef(ObjRef&&o):p(o.p){o.p=nullptr;} ~ObjRef(){ if(p&&--p->rc==0) delete p; } ObjRef& operator=(ObjRef o){ std::swap(p,o.p); return *this; } };
static const int CH=32;
struct Chunk { u32 rc=1; ObjRef o[CH]; };
struct ObjTable { vector<Chunk*> ch; u32 n=0; ObjTable(){} ObjTable(const ObjTable&t):ch(t.ch),n(t.n){ for(auto*c:ch)c->rc++; } ~ObjTable(){ for(auto*c:ch) if(--c->rc==0) delete c; } ObjTable& operator=(const ObjTable&)=delete;
  MemObj* get(u32 i){ return i<n? ch[i/CH]->o[i%CH].p:nullptr; }
  ObjRef& slotw(u32 i){ Chunk*&c=ch[i/CH]; if(c->rc>1){ Chunk*d=new Chunk; for(int k=0;k<CH;k++) d->o[k]=c->o[k]; c->rc--; c=d; } return c->o[i%CH]; }
  MemObj* getw(u32 i){ ObjRef&r=slotw(i); if(r.p->rc>1){ MemObj*q=new MemObj(*r.p); q->rc=1; r.p->rc--; r.p=q; } return r.p; }
  u32 add(MemObj*m){ if(n%CH==0) ch.push_back(new Chunk); u32 i=n++; slotw(i)=ObjRef(m); return i; }
};
static const u64 BASEOFF=0x1000;
static inline u64 addrOf(u32 i){ return ((u64)(i+1)<<32)|BASEOFF; }

struct Dom { u64 b[4]; bool has(unsigned i)const{return b[i>>6]>>(i&63)&1;} };

// ---------------------------------------------------------------- decoded code
enum DOp : u8 { D_BIN,D_ICMP,D_FCMP,D_ZEXT,D_SEXT,D_TRUNC,D_COPY,D_SELECT,D_GEP,D_LOAD,D_STORE,D_ALLOCA,D_BR,D_CBR,D_SWITCH,D_RET,D_CALL,D_UNREACH,D_INSERT,D_NOP,D_FPOP,D_FPCAST,D_FNEG,D_RMW,D_CMPXCHG,D_INTRIN,D_BAD };
struct Leaf { u32 off; u8 w; bool ptr; };
struct Func; struct Block;
struct Edge { int to; vector<std::pair<u32,int>> phis; vector<u8> pw; vector<u8> pptr; };
struct DInst { DOp op; u8 w=0,w2=0; u8 sub=0; bool ptr=false; u32 dst=0; int a=0,b=0,c=0; u64 imm=0; vector<int> ops; vector<u8> opw; vector<i64> scale; vector<Leaf> leaves; vector<Edge> edges; vector<u64> cases; const Instruction* I=nullptr; Function* callee=nullptr; Func* cf=nullptr; int native=-1; vector<u64> byval; };
struct Block { u32 first,n; bool pure; vector<std::pair<u32,int>> dummy; int rpo; u32 cover=0; };
struct Func { Function*F; string name; vector<DInst> code; vector<Block> blocks; u32 nregs=0; vector<u8> argw; u32 nargslots=0; bool decl=false; int native=-2; u64 calls=0; vector<u32> funcsCalled; bool inRepo=false; };

static vector<Val> CPOOL; // constants, operand index -1-i
static map<Constant*,int> cpoolIdx;

struct FrameRec { Func*f; u32 pc; u32 base; u32 retDst; vector<u32> allocas; };
struct SymRec { const char*name; u32 id; u8 w; bool internal; };
struct State {
  ObjTable mem; vector<Val> regs; vector<FrameRec> fr; vector<SymRec> syms; u32 slot=0;
  vector<Dom> dom; vector<u8> inMulti; vector<Expr*> multi; vector<u64> model;
  vector<Val> observed; u64 steps=0; u32 depthForks=0; vector<std::pair<vector<Expr*>,Expr*>> texts; vector<std::pair<Expr*,Expr*>> defs; struct Numeral{ Expr*mag,*h; vector<Expr*> dg; }; vector<Numeral> numerals;
  vector<Expr*> fixed; // compound expressions whose value the path determines
  bool done=false; 
};

static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout*DL;
static map<Function*,Func*> funcs; static map<const GlobalValue*,u64> gaddr; static map<u64,Function*> addr2fn;
static State* cur=nullptr; static Solver S;
static map<string,u64> params; static u64 gMaxSteps=20000000; static int gWorkers=8; static u64 gSeedTarget=0; static string gOut="symex_out"; static u64 gMaxViol=4; static double gDeadline=0; static u64 gMaxPaths=0; static u64 gSamples=24; static bool gTrace=false; static u64 gRandSeed=1;
struct Stats { u64 paths=0,assumed=0,stopped=0,forks=0,insts=0,asserts=0,symAsserts=0,viol=0,observes=0,regions=0,maxSyms=0,concretize=0, timeouts=0, samples=0, states=0, branches=0; } ST;
static map<string,u64> reach; static map<string,u64> assertSeen;
static vector<string> sampleFiles;

static string gWhere(){ string r; if(!cur) return r; for(int i=(int)cur->fr.size()-1,k=0;i>=0&&k<24;i--,k++){ auto&f=cur->fr[i]; const Instruction*I=f.pc<f.f->code.size()?f.f->code[f.pc].I:nullptr; r+="    "+demangle(f.f->name); if(I&&I->getDebugLoc()){ auto*l=I->getDebugLoc().get(); r+=" "+l->getFilename().str()+":"+std::to_string(l->getLine()); } r+="\n"; } return r; }

// ---------------------------------------------------------------- constraints
static map<std::pair<u32,u32>,u32> symIds; static u32 nSymIds=0;
static u32 newSym(State&s,const char*name,unsigned w,bool internal){
  auto k=std::make_pair(s.slot++,(u32)w); auto it=symIds.find(k); u32 id; if(it==symIds.end()){ id=nSymIds++; symIds[k]=id; } else id=it->second;
  if(s.dom.size()<=id){ s.dom.resize(id+1,Dom{{0,0,0,0}}); s.inMulti.resize(id+1,0); s.model.resize(id+1,0); }
  Dom d{{0,0,0,0}}; if(w<=8) for(unsigned i=0;i<(1u<<w);i++) d.b[i>>6]|=1ull<<(i&63); s.dom[id]=d; s.inMulti[id]=0; s.model[id]=0;
  s.syms.push_back({name,id,(u8)w,internal}); ST.maxSyms=std::max<u64>(ST.maxSyms,s.syms.size()); return id; }
static Dom ttOf(Expr*c,Expr*sym){ vector<u64> t; unaryTable(c,sym,t); Dom d{{0,0,0,0}}; for(size_t i=0;i<t.size();i++) if(t[i]) d.b[i>>6]|=1ull<<(i&63); return d; }
static bool emptyD(const Dom&d){ return !(d.b[0]|d.b[1]|d.b[2]|d.b[3]); }
static Dom andD(Dom a,const Dom&b){ for(int i=0;i<4;i++) a.b[i]&=b.b[i]; return a; }
static unsigned firstD(const Dom&d){ for(int i=0;i<4;i++) if(d.b[i]) return i*64+__builtin_ctzll(d.b[i]); return 0; }
static int countD(const Dom&d){ int n=0; for(int i=0;i<4;i++) n+=__builtin_popcountll(d.b[i]); return n; }
typedef vector<std::pair<u32,u64>> Delta;
static bool evalM(State&s,Expr*c){ return evalExpr(c,s.model); }
static void splitConj(Expr*c,vector<Expr*>&out){ if(c->op==AND&&c->w==1){ splitConj(c->a,out); splitConj(c->b,out);} else if(c->op==NOT&&c->a->op==OR){ splitConj(mkNot(c->a->a),out); splitConj(mkNot(c->a->b),out);} else out.push_back(c); }
static Expr* domExpr(State&s,u32 id,Expr*sym){ vector<u64> t(1ull<<sym->w); for(size_t i=0;i<t.size();i++) t[i]=s.dom[id].has(i); return mkTbl(sym,t,1); }
// exact-or-unknown quick decision; fills delta (model changes) when sat
static int quick(State&s,Expr*c,Delta&d,int depth=0){
  if(isC(c)) return (int)c->c;
  if(c->op==OR&&c->w==1&&depth<6){ Delta d1; int a=quick(s,c->a,d1,depth+1); if(a==1){d=d1;return 1;} Delta d2; int b=quick(s,c->b,d2,depth+1); if(b==1){d=d2;return 1;} return (a==0&&b==0)?0:-1; }
  if(c->op==NOT&&c->a->op==AND&&depth<6){ return quick(s,mkOr(mkNot(c->a->a),mkNot(c->a->b)),d,depth+1)==1?1:( quick(s,mkNot(c->a->a),d,depth+1)==0&&quick(s,mkNot(c->a->b),d,depth+1)==0?0:-1); }
  vector<Expr*> cs; splitConj(c,cs); map<u32,Dom> nd; bool unk=false;
  for(auto*x:cs){ if(isC(x)){ if(!x->c) return 0; continue; } Expr*sy; if(!unarySym(x,sy)){ unk=true; continue; } u32 id=sy->c; auto it=nd.find(id); Dom base=it==nd.end()?s.dom[id]:it->second; base=andD(base,ttOf(x,sy)); if(emptyD(base)) return 0; nd[id]=base; if(s.inMulti[id]) unk=true; }
  if(unk) return -1;
  d.clear(); for(auto&p:nd){ u64 v=s.model[p.first]; if(v<256&&p.second.has(v)) continue; d.push_back({p.first,firstD(p.second)}); } return 1;
}
static map<u32,Expr*> symOfId;
// linear forms: sum of tables over small symbols plus a constant (mod 2^w); exact intervals decide comparisons of decimal numerals
struct Lin { u64 c=0; map<u32,vector<u64>> t; };
typedef __int128 i128;
static bool linForm(Expr*e,Lin&r,int depth=0){
  unsigned w=e->w; u64 m=MASK(w); if(depth>400) return false;
  if(isC(e)){ r.c=e->c; return true; }
  Expr*sy; if(unarySym(e,sy)){ vector<u64> t; unaryTable(e,sy,t); r.c=t[0]; for(auto&x:t) x=(x-r.c)&m; r.t[sy->c]=t; return true; }
  auto acc=[&](Lin&x,u64 k){ r.c=(r.c+x.c*k)&m; for(auto&p:x.t){ auto&t=r.t[p.first]; if(t.empty()) t.assign(p.second.size(),0); bool z=true; for(size_t i=0;i<t.size();i++){ t[i]=(t[i]+p.second[i]*k)&m; if(t[i]) z=false; } if(z) r.t.erase(p.first); } };
  Lin a,b;
  switch(e->op){
    case ADD: case SUB: if(!linForm(e->a,a,depth+1)||!linForm(e->b,b,depth+1)) return false; acc(a,1); acc(b,e->op==ADD?1:~0ull); return true;
    case MUL: if(!isC(e->b)||!linForm(e->a,a,depth+1)) return false; acc(a,e->b->c); return true;
    case EXTRACT: if(e->lo||!linForm(e->a,a,depth+1)) return false; acc(a,1); return true;
    case CONCAT:{ if(!linForm(e->a,a,depth+1)||!linForm(e->b,b,depth+1)) return false; u128 mx=b.c; for(auto&p:b.t){ u64 q=0; for(u64 x:p.second) q=std::max(q,x); mx+=q; } if(mx>MASK(e->b->w)){ if(gTrace) fprintf(stderr,"NOLIN2 %s\n",exprStr(e,4).c_str()); return false; } acc(a,1ull<<e->b->w); acc(b,1); return true; }
    default: if(gTrace) fprintf(stderr,"NOLIN %s\n",exprStr(e,4).c_str()); return false;
  } }
// integer range of the form with tables read as signed numbers
static void linRange(State&s,Lin&f,unsigned w,i128&lo,i128&hi){ lo=hi=(i128)(u128)f.c; for(auto&p:f.t){ bool first=true; i128 l=0,h=0; for(size_t i=0;i<p.second.size();i++) if(s.dom[p.first].has(i)){ i128 v=SEX(p.second[i],w); if(first||v<l) l=v; if(first||v>h) h=v; first=false; } lo+=l; hi+=h; } }
static bool inWindow(i128&lo,i128&hi,i128 base,unsigned w){ i128 M=(i128)1<<w; i128 k=(lo-base)/M; if((lo-base)<0&&(lo-base)%M) k--; lo-=k*M; hi-=k*M; return hi<base+M; }
// 0: false, 1: true, -1: unknown
static int linDecide(State&s,Expr*c){
  if(isC(c)) return (int)c->c; if(c->op==NOT){ int r=linDecide(s,c->a); return r<0?r:!r; }
  if(c->w==1&&(c->op==AND||c->op==OR)){ int a=linDecide(s,c->a); if(a==(c->op==OR)) return a; int b=linDecide(s,c->b); if(b==(c->op==OR)) return b; return a<0||b<0?-1:a; }
  if(c->op==EXTRACT&&c->w==1&&c->lo==c->a->w-1&&c->a->w>8){ Lin a; if(c->a->fp||!linForm(c->a,a)) return -1; i128 lo,hi; linRange(s,a,c->a->w,lo,hi); if(!inWindow(lo,hi,-((i128)1<<(c->a->w-1)),c->a->w)) return -1; return hi<0?1:lo>=0?0:-1; }
  if(c->fp||(c->op!=EQ&&c->op!=ULT&&c->op!=SLT)||c->a->w<=8) return -1;
  unsigned w=c->a->w; Lin a,b; if(!linForm(c->a,a)||!linForm(c->b,b)) return -1; i128 lo,hi,l2,h2;
  if(c->op==EQ){ Lin d=a; u64 m=MASK(w); d.c=(d.c-b.c)&m; for(auto&p:b.t){ auto&t=d.t[p.first]; if(t.empty()) t.assign(p.second.size(),0); bool z=true; for(size_t i=0;i<t.size();i++){ t[i]=(t[i]-p.second[i])&m; if(t[i]) z=false; } if(z) d.t.erase(p.first); }
    if(d.t.empty()) return d.c==0; linRange(s,d,w,lo,hi); if(lo==hi) return (u64)lo==0||(w<64&&!((u64)lo&m)); if(lo<=0&&hi>=0) return -1; if(!inWindow(lo,hi,0,w)) return -1; return lo>0?0:-1; }
  linRange(s,a,w,lo,hi); linRange(s,b,w,l2,h2); i128 base=c->op==ULT?0:-((i128)1<<(w-1)); if(!inWindow(lo,hi,base,w)||!inWindow(l2,h2,base,w)) return -1;
  if(hi<l2) return 1; if(lo>=h2) return 0; return -1; }
static int feasible(State&s,Expr*c,Delta&d){
  d.clear(); if(isC(c)) return (int)c->c;
  if(evalM(s,c)){ S.st.modelDecided++; return 1; }
  int q=quick(s,c,d); if(q>=0){ S.st.domDecided++; // periodic cross-check of the domain procedure against Z3 on the same query
    static u64 tick=0; if(++tick%157==1&&S.st.crossChecked<400&&!c->fp){ S.st.crossChecked++; vector<Expr*> cs{c}; for(u32 id:c->sup->v){ auto it=symOfId.find(id); if(it!=symOfId.end()&&it->second->w<=8){ Expr*de=domExpr(s,id,it->second); if(!isC(de)) cs.push_back(de); } } vector<std::pair<u32,u64>> m; int r=S.check(cs,m); if(r>=0&&r!=q) engine_error("domain procedure and Z3 disagree on %s",exprStr(c).c_str()); }
    return q; }
  if(c->sup->v.size()>1){ int l=linDecide(s,c); if(l==0){ S.st.domDecided++; return 0; } }
  // slice
  std::set<u32> sy(c->sup->v.begin(),c->sup->v.end()); vector<Expr*> cs; splitConj(c,cs); vector<u8> used(s.multi.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<s.multi.size();i++) if(!used[i]){ bool hit=false; for(u32 x:s.multi[i]->sup->v) if(sy.count(x)){hit=true;break;} if(hit){ used[i]=1; ch=true; cs.push_back(s.multi[i]); sy.insert(s.multi[i]->sup->v.begin(),s.multi[i]->sup->v.end()); } } }
  for(u32 id:sy){ auto it=symOfId.find(id); Expr*se=nullptr; if(it!=symOfId.end()) se=it->second; if(se&&se->w<=8){ Expr*de=domExpr(s,id,se); if(!isC(de)) cs.push_back(de); } }
  vector<std::pair<u32,u64>> m; double t0=nowS(); if(gTrace) fprintf(stderr,"QUERY %s\n%s",exprStr(c,12).substr(0,1500).c_str(),gWhere().c_str()); int r=S.check(cs,m); if(gTrace&&nowS()-t0>2) fprintf(stderr,"SLOW %.1f %d %s\n%s",nowS()-t0,r,exprStr(c,30).substr(0,3000).c_str(),gWhere().c_str()); if(r==1) d=m; return r;
}
static void applyDelta(State&s,const Delta&d){ for(auto&p:d) s.model[p.first]=p.second; }
// add constraint known to be consistent with the (already updated) model
static void addC(State&s,Expr*c){
  vector<Expr*> cs; splitConj(c,cs);
  for(auto*x:cs){ if(isC(x)) continue; Expr*sy; if(unarySym(x,sy)){ s.dom[sy->c]=andD(s.dom[sy->c],ttOf(x,sy)); continue; }
    bool dup=false; for(auto*y:s.multi) if(y==x){dup=true;break;} if(dup) continue; s.multi.push_back(x); for(u32 id:x->sup->v) s.inMulti[id]=1; }
}
static Expr* simp(State&s,Expr*e){ // unary expression whose symbol has a singleton domain becomes constant
  Expr*sy; if(unarySym(e,sy)&&countD(s.dom[sy->c])==1){ vector<u64> m(sy->c+1,0); m[sy->c]=firstD(s.dom[sy->c]); return mkConst(e->w,evalExpr(e,m)); } return e; }

// ---------------------------------------------------------------- results
static string esc(const string&s){ string r; for(char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c=='\n') r+="\\n"; else if((u8)c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b;} else r+=c; } return r; }
static string replayText(State&s,const vector<u64>&model){ string r; for(auto&y:s.syms) if(!y.internal){ char b[160]; snprintf(b,160,"%s %d %llu\n",y.name,y.w,(unsigned long long)(y.id<model.size()?model[y.id]&MASK(y.w):0)); r+=b; } return r; }
static int gWorkerId=0; static u64 gViolSeq=0; static map<string,int> violSeen;
static void violation(State&s,const Delta&d,const string&kind,const string&msg){
  ST.viol++; string key=kind+"|"+msg; if(violSeen[key]++>=(int)gMaxViol) return;
  vector<u64> m=s.model; for(auto&p:d) m[p.first]=p.second;
  string base=gOut+"/viol_"+std::to_string(gWorkerId)+"_"+std::to_string(gViolSeq++);
  { FILE*f=fopen((base+".replay").c_str(),"w"); string t=replayText(s,m); fwrite(t.data(),1,t.size(),f); fclose(f); }
  { FILE*f=fopen((base+".json").c_str(),"w"); fprintf(f,"{\"kind\":\"%s\",\"msg\":\"%s\",\"stack\":\"%s\"}\n",esc(kind).c_str(),esc(msg).c_str(),esc(gWhere()).c_str()); fclose(f); }
  if(gTrace) fprintf(stderr,"VIOL %s: %s\n%s%s\n",kind.c_str(),msg.c_str(),gWhere().c_str(),replayText(s,m).c_str());
}
struct Kill { int why; }; // exceptions used for rare control flow
enum { K_DONE,K_ASSUME,K_STOP,K_VIOL,K_RESTART };
static vector<State*> work;
static bool gForkTrace=false;
static void pushFork(State*n){ if(gForkTrace) fprintf(stderr,"FORK %s\n",gWhere().substr(0,400).c_str());  ST.forks++; work.push_back(n); }
[[noreturn]] static void failPath(State&s,const string&kind,const string&msg){ violation(s,{},kind,msg); throw Kill{K_VIOL}; }
static int gIncomplete=0;
static int feas(State&s,Expr*c,Delta&d){ int r=feasible(s,c,d); if(r<0){ gIncomplete++; return 0; } return r; }
static bool isFixed(State&s,Expr*e,int depth=0);
// decide a boolean on this path; forks so that the other outcome is explored re-executing the current instruction
static bool decide(State&s,Expr*c){
  c=simp(s,c); if(isC(c)) return c->c; bool mv=evalM(s,c); if(!s.fixed.empty()&&isFixed(s,c)) return mv;
  if(c->sup->v.size()>1){ Expr*n=mkNot(c); for(auto*x:s.multi) if(x==c||x==n) return mv; } Expr*other=mv?mkNot(c):c; Delta d; int r=feas(s,other,d);
  if(r){ State*n=new State(s); applyDelta(*n,d); addC(*n,other); pushFork(n); }
  addC(s,mv?c:mkNot(c)); return mv; }
// the part of an expression that determines its value: constants and width changes around it removed
static Expr* coreOf(Expr*e){ while(true){
  if((e->op==ADD||e->op==SUB||e->op==MUL||e->op==SHL)&&isC(e->b)) e=e->a; else if((e->op==ADD||e->op==SUB)&&isC(e->a)) e=e->b;
  else if(e->op==SEXT) e=e->a; else if(e->op==CONCAT&&isC(e->a)) e=e->b; else if(e->op==CONCAT&&isC(e->b)) e=e->a; else return e; } }
static bool isFixed(State&s,Expr*e,int depth){ e=coreOf(e); if(isC(e)) return true; for(auto*x:s.fixed) if(x==e) return true; if(depth>3||e->fp) return false;
  switch(e->op){ case ADD: case SUB: case MUL: case CONCAT: case EQ: case ULT: case SLT: case AND: case OR: case XOR: return isFixed(s,e->a,depth+1)&&isFixed(s,e->b,depth+1); case EXTRACT: case NOT: return isFixed(s,e->a,depth+1); default: return false; } }
static u64 concretize(State&s,const Val&v,unsigned w){ if(!v.e) return v.c; Expr*e=simp(s,v.e); if(isC(e)) return e->c; if(!s.fixed.empty()&&isFixed(s,e)) return evalExpr(e,s.model);
  ST.concretize++; Expr*co=coreOf(e); if(co->w==1||co->fp||co->sup->v.size()<2) co=e; u64 k=evalExpr(co,s.model); Expr*eq=mkEq(co,mkConst(co->w,k)); if(!decide(s,eq)) engine_error("concretize"); if(co->sup->v.size()>1) s.fixed.push_back(co); return evalExpr(e,s.model); }
// require condition; report violation for inputs where it fails
static void require(State&s,Expr*c,const string&kind,const string&msg){ if(isC(c)){ if(!c->c) failPath(s,kind,msg); return; } Expr*n=mkNot(c); Delta d; int r=feas(s,n,d); if(r){ violation(s,d,kind,msg); Delta d2; if(!feas(s,c,d2)) throw Kill{K_VIOL}; applyDelta(s,d2);} addC(s,c); }

// ---------------------------------------------------------------- memory ops
static MemObj* newObj(u64 size,u8 kind,bool uninit){ MemObj*m=new MemObj; m->size=size; m->kind=kind; m->b.assign(size,0); if(uninit) m->u.assign(size,1); return m; }
static u64 allocObj(State&s,u64 size,u8 kind,bool uninit,const char*what=""){ MemObj*m=newObj(size,kind,uninit); m->what=what; return addrOf(s.mem.add(m)); }
static const char* kindName(u8 k){ return k==0?"global":k==1?"heap":k==2?"stack":"function"; }
static MemObj* access(State&s,u64 a,u64 n,bool wr,u64&off,u32&idx){
  idx=(u32)(a>>32); if(idx==0||idx>s.mem.n) failPath(s,"memory",a<0x10000? "null pointer access":"wild pointer access"); idx--;
  MemObj*m=s.mem.get(idx); u64 lo=(u64)(u32)a; if(m->kind==3) failPath(s,"memory","access to function");
  if(m->freed) failPath(s,"memory",string("use after free (")+kindName(m->kind)+")");
  if(lo<BASEOFF||lo-BASEOFF>m->size||n>m->size-(lo-BASEOFF)) failPath(s,"memory",string("out of bounds ")+(wr?"write":"read")+" on "+kindName(m->kind)+" object of size "+std::to_string(m->size)+" at offset "+std::to_string((i64)(lo-BASEOFF)));
  if(wr&&m->ro) failPath(s,"memory","write to constant"); off=lo-BASEOFF; return m; }
static Expr* rdByte(State&s,MemObj*m,u32 idx,u64 off){
  if(!m->u.empty()&&m->u[off]){ MemObj*w=s.mem.getw(idx); u32 id=newSym(s,"undef",8,true); Expr*e=mkSym(id,8); symOfId[id]=e; if(w->s.empty()) w->s.assign(w->size,nullptr); w->s[off]=e; w->u[off]=0; return e; }
  if(!m->s.empty()&&m->s[off]) return m->s[off]; return mkConst(8,m->b[off]); }
static Val loadC(State&s,u64 a,unsigned w){
  unsigned n=(w+7)/8; u64 off; u32 idx; MemObj*m=access(s,a,n,false,off,idx);
  bool sym=false; if(!m->s.empty()) for(unsigned i=0;i<n;i++) if(m->s[off+i]){sym=true;break;} if(!m->u.empty()) for(unsigned i=0;i<n;i++) if(m->u[off+i]){sym=true;break;}
  if(!sym){ u64 v=0; memcpy(&v,&m->b[off],n); return VC(v&MASK(w)); }
  vector<Expr*> p; for(int i=n-1;i>=0;i--){ Expr*e=rdByte(s,m,idx,off+i); m=s.mem.get(idx); p.push_back(simp(s,e)); }
  Expr*e=mkConcatL(p); if(w<n*8) e=mkExtract(e,0,w); return VE(e); }
static void storeC(State&s,u64 a,const Val&v,unsigned w){
  unsigned n=(w+7)/8; u64 off; u32 idx; access(s,a,n,true,off,idx); MemObj*m=s.mem.getw(idx);
  if(!m->u.empty()) for(unsigned i=0;i<n;i++) m->u[off+i]=0;
  if(!v.e){ u64 c=v.c&MASK(w); memcpy(&m->b[off],&c,n); if(!m->s.empty()) for(unsigned i=0;i<n;i++) m->s[off+i]=nullptr; return; }
  if(m->s.empty()) m->s.assign(m->size,nullptr); Expr*e=v.e; if(w<n*8) e=mkZext(e,n*8);
  for(unsigned i=0;i<n;i++){ Expr*x=mkExtract(e,i*8,8); if(isC(x)){ m->s[off+i]=nullptr; m->b[off+i]=(u8)x->c; } else m->s[off+i]=x; } }
static bool activeBits(Expr*e,u32&lo,u32&hi){ // bits outside [lo,hi) are constant zero
  if(e->op==CONCAT){ u32 l1,h1,l2,h2; bool z=isC(e->a)&&!e->a->c, y=isC(e->b)&&!e->b->c; if(y){ if(!activeBits(e->a,l1,h1)) return false; lo=l1+e->b->w; hi=h1+e->b->w; return true; } if(!activeBits(e->b,l2,h2)) return false; lo=l2; hi=h2; if(z) return true; if(!activeBits(e->a,l1,h1)) return false; hi=h1+e->b->w; return true; }
  if(e->op==TBL){ u64 o=0; for(u64 v:X.tables[e->c].v) o|=v; lo=o?__builtin_ctzll(o):0; hi=o?64-__builtin_clzll(o):1; return true; }
  if(isC(e)){ if(!e->c) return false; lo=__builtin_ctzll(e->c); hi=64-__builtin_clzll(e->c); return true; }
  if(e->op==OR||e->op==XOR||e->op==ADD){ u32 l1,h1,l2,h2; if(!activeBits(e->a,l1,h1)||!activeBits(e->b,l2,h2)) return false; lo=std::min(l1,l2); hi=std::max(h1,h2)+(e->op==ADD); if(hi>e->w) hi=e->w; return true; }
  if(e->op==ITE){ u32 l1,h1,l2,h2; bool a=activeBits(e->b,l1,h1),b=activeBits(e->d,l2,h2); if(!a&&!b) return false; if(!a){lo=l2;hi=h2;return true;} if(!b){lo=l1;hi=h1;return true;} lo=std::min(l1,l2); hi=std::max(h1,h2); return true; }
  lo=0; hi=e->w; return true; }
static bool addrLike(State&s,u64 v){ u64 i=v>>32; return i&&i<=s.mem.n&&(u32)v>=BASEOFF&&(u32)v-BASEOFF<=s.mem.get(i-1)->size; }
static Val loadSym(State&s,Expr*a,unsigned w,bool isptr){
  unsigned n=(w+7)/8; u64 mv=evalExpr(a,s.model); u64 off; u32 idx; MemObj*m=access(s,mv,n,false,off,idx); u64 base=addrOf(idx);
  Expr*rel=mkSub(a,mkConst(64,base)); require(s,mkNot(mkUlt(mkConst(64,m->size-n),rel)),"memory",string("out of bounds read on ")+kindName(m->kind)+" object of size "+std::to_string(m->size)+" (symbolic index)");
  rel=simp(s,rel); if(isC(rel)) return loadC(s,base+rel->c,w);
  if(w==64&&!isptr&&!m->ro&&(m->s.empty()||!m->s[off])){ u64 v; memcpy(&v,&m->b[off],8); if(addrLike(s,v)) isptr=true; } // a pointer moved as an integer: pick one
  Expr*sy; if(unarySym(rel,sy)){ vector<u64> t; unaryTable(rel,sy,t); bool conc=true; vector<u64> vals(t.size(),0); int cnt=0; map<u64,vector<unsigned>> byoff;
    for(size_t i=0;i<t.size();i++) if(s.dom[sy->c].has(i)){ cnt++; byoff[t[i]].push_back(i); u64 o=t[i]; for(unsigned k=0;k<n;k++) if((!m->s.empty()&&m->s[o+k])||(!m->u.empty()&&m->u[o+k])) conc=false; if(conc){ u64 v=0; memcpy(&v,&m->b[o],n); vals[i]=v&MASK(w); } }
    if(conc&&!isptr) return VE(mkTbl(sy,vals,w));
    if(!conc&&!isptr&&byoff.size()<=64){ Expr*r=nullptr; for(auto&p:byoff){ Val v=loadC(s,base+p.first,w); Expr*ve=EX(v,w); if(!r) r=ve; else { vector<u64> bt(t.size(),0); for(unsigned i:p.second) bt[i]=1; r=mkIte(mkTbl(sy,bt,1),ve,r); } } return VE(r); }
  }
  else { // small compound index: a definitional symbol y == index makes the lookup a table over y
    u32 lo,hi; if(activeBits(rel,lo,hi)&&hi-lo<=8&&!isptr){ Expr*idx=mkExtract(rel,lo,hi-lo); Expr*y=nullptr; for(auto&p:s.defs) if(p.first==idx){ y=p.second; break; }
      if(!y){ u32 id=newSym(s,"def",hi-lo,true); y=mkSym(id,hi-lo); symOfId[id]=y; s.model[id]=evalExpr(idx,s.model); addC(s,mkEq(y,idx)); s.defs.push_back({idx,y}); }
      for(unsigned i=0;i<(1u<<(hi-lo));i++) if(((u64)i<<lo)+n>m->size) s.dom[y->c].b[i>>6]&=~(1ull<<(i&63));
      Expr*r2=mkZext(y,64); if(lo) r2=mkShift(SHL,r2,mkConst(64,lo)); Expr*sy2; if(unarySym(r2,sy2)) return loadSym(s,mkAdd(r2,mkConst(64,base)),w,isptr); } }
  u64 o=concretize(s,VE(rel),64); return loadC(s,base+o,w); }
static Val doLoad(State&s,const Val&a,unsigned w,bool isptr){ if(!a.e) return loadC(s,a.c,w); Expr*e=simp(s,a.e); if(isC(e)) return loadC(s,e->c,w); return loadSym(s,e,w,isptr); }
static u64 conAddr(State&s,const Val&a){ return concretize(s,a,64); }
static void doCopy(State&s,u64 d,u64 sr,u64 n){ if(!n) return; u64 so,dof; u32 si,di; access(s,sr,n,false,so,si); access(s,d,n,true,dof,di); MemObj*w=s.mem.getw(di); MemObj*r=s.mem.get(si);
  vector<u8> tb(r->b.begin()+so,r->b.begin()+so+n); vector<Expr*> ts; vector<u8> tu; if(!r->s.empty()) ts.assign(r->s.begin()+so,r->s.begin()+so+n); if(!r->u.empty()) tu.assign(r->u.begin()+so,r->u.begin()+so+n);
  memcpy(&w->b[dof],tb.data(),n);
  bool anys=false; for(auto*e:ts) if(e){anys=true;break;} if(anys&&w->s.empty()) w->s.assign(w->size,nullptr); if(!w->s.empty()) for(u64 i=0;i<n;i++) w->s[dof+i]=ts.empty()?nullptr:ts[i];
  bool anyu=false; for(u8 x:tu) if(x){anyu=true;break;} if(anyu&&w->u.empty()) w->u.assign(w->size,0); if(!w->u.empty()) for(u64 i=0;i<n;i++) w->u[dof+i]=tu.empty()?0:tu[i]; }
static void doSet(State&s,u64 d,const Val&v,u64 n){ if(!n) return; u64 dof; u32 di; access(s,d,n,true,dof,di); MemObj*w=s.mem.getw(di); if(v.e&&w->s.empty()) w->s.assign(w->size,nullptr); for(u64 i=0;i<n;i++){ w->b[dof+i]=(u8)v.c; if(!w->s.empty()) w->s[dof+i]=v.e; if(!w->u.empty()) w->u[dof+i]=0; } }
static string rdStr(State&s,u64 a){ string r; while(true){ Val v=loadC(s,a++,8); u64 c=v.e? concretize(s,v,8):v.c; if(!c) return r; r.push_back((char)c); } }

// ---------------------------------------------------------------- decoding
static void leavesOf(Type*T,u32 off,vector<Leaf>&out){
  if(auto*S=dyn_cast<StructType>(T)){ auto*L=DL->getStructLayout(S); for(unsigned i=0;i<S->getNumElements();i++) leavesOf(S->getElementType(i),off+L->getElementOffset(i),out); return; }
  if(auto*A=dyn_cast<ArrayType>(T)){ u64 es=DL->getTypeAllocSize(A->getElementType()); for(u64 i=0;i<A->getNumElements();i++) leavesOf(A->getElementType(),off+i*es,out); return; }
  if(auto*V=dyn_cast<FixedVectorType>(T)){ u64 es=DL->getTypeSizeInBits(V->getElementType())/8; if(!es) engine_error("vector of bits"); for(u64 i=0;i<V->getNumElements();i++) leavesOf(V->getElementType(),off+i*es,out); return; }
  if(T->isPointerTy()){ out.push_back({off,64,true}); return; } if(T->isVoidTy()) return;
  unsigned w=DL->getTypeSizeInBits(T); if(w>64){ // split wide integers into words is not supported: mark
    out.push_back({off,255,false}); return; } out.push_back({off,(u8)w,false}); }
static u32 slotsOf(Type*T){ if(T->isVoidTy()) return 0; if(T->isIntegerTy()||T->isPointerTy()||T->isFloatTy()||T->isDoubleTy()) return 1; vector<Leaf> l; leavesOf(T,0,l); return l.size(); }
static u64 constAddr(Constant*C);
static void flattenConst(Constant*C,vector<Val>&out){
  Type*T=C->getType();
  if(auto*ci=dyn_cast<ConstantInt>(C)){ if(ci->getBitWidth()>64) engine_error("wide const"); out.push_back(VC(ci->getZExtValue())); return; }
  if(isa<ConstantPointerNull>(C)){ out.push_back(VC(0)); return; }
  if(auto*cf=dyn_cast<ConstantFP>(C)){ out.push_back(VC(cf->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
  if(isa<UndefValue>(C)||isa<ConstantAggregateZero>(C)){ u32 n=slotsOf(T); for(u32 i=0;i<n;i++) out.push_back(VC(0)); return; }
  if(auto*ca=dyn_cast<ConstantAggregate>(C)){ for(auto&o:ca->operands()) flattenConst(cast<Constant>(o),out); return; }
  if(auto*cd=dyn_cast<ConstantDataSequential>(C)){ for(unsigned i=0;i<cd->getNumElements();i++) flattenConst(cd->getElementAsConstant(i),out); return; }
  out.push_back(VC(constAddr(C))); }
static u64 constAddr(Constant*C){
  if(auto*g=dyn_cast<GlobalAlias>(C)) return constAddr(g->getAliasee());
  if(auto*g=dyn_cast<GlobalValue>(C)){ auto it=gaddr.find(g); if(it==gaddr.end()){ return 0xdead0000ull; } return it->second; }
  if(auto*ce=dyn_cast<ConstantExpr>(C)){
    switch(ce->getOpcode()){
      case Instruction::GetElementPtr:{ APInt off(64,0); auto*g=cast<GEPOperator>(ce); if(!g->accumulateConstantOffset(*DL,off)) engine_error("const gep"); return constAddr(cast<Constant>(g->getPointerOperand()))+off.getSExtValue(); }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: { vector<Val> v; flattenConst(ce->getOperand(0),v); return v[0].c; }
      case Instruction::Sub: { vector<Val> v; flattenConst(ce->getOperand(0),v); flattenConst(ce->getOperand(1),v); return (v[0].c-v[1].c)&MASK(ce->getType()->getIntegerBitWidth()); }
      case Instruction::Add: { vector<Val> v; flattenConst(ce->getOperand(0),v); flattenConst(ce->getOperand(1),v); return (v[0].c+v[1].c)&MASK(ce->getType()->getIntegerBitWidth()); }
      case Instruction::Trunc: { vector<Val> v; flattenConst(ce->getOperand(0),v); return v[0].c&MASK(ce->getType()->getIntegerBitWidth()); }
      case Instruction::ICmp: { vector<Val> v; flattenConst(ce->getOperand(0),v); flattenConst(ce->getOperand(1),v); return ce->getPredicate()==CmpInst::ICMP_EQ? v[0].c==v[1].c : v[0].c!=v[1].c; }
      default: { string t; raw_string_ostream os(t); ce->print(os); engine_error("constexpr %s",t.c_str()); } } }
  if(isa<ConstantPointerNull>(C)) return 0;
  { vector<Val> v; if(isa<ConstantInt>(C)||isa<UndefValue>(C)){ flattenConst(C,v); return v[0].c; } }
  string t; raw_string_ostream os(t); C->print(os); engine_error("constant %s",t.c_str()); }
static int constOp(Constant*C){ auto it=cpoolIdx.find(C); if(it!=cpoolIdx.end()) return it->second; vector<Val> v; flattenConst(C,v); int i=-1-(int)CPOOL.size(); // slot k at i-k
  for(auto&x:v) CPOOL.push_back(x); if(v.empty()) CPOOL.push_back(VC(0)); cpoolIdx[C]=i; return i; }
static inline int slotOp(int op,u32 k){ return op>=0? op+(int)k : op-(int)k; }
static Func* getFunc(Function*F);
static void decode(Func*f){
  Function*F=f->F; map<const Value*,u32> reg; u32 n=0; for(auto&A:F->args()){ reg[&A]=n; vector<Leaf> l; leavesOf(A.getType(),0,l); for(auto&x:l) f->argw.push_back(x.w); n+=slotsOf(A.getType()); } f->nargslots=n;
  for(auto&B:*F) for(auto&I:B) if(!I.getType()->isVoidTy()){ reg[&I]=n; u32 k=slotsOf(I.getType()); n+=k; }
  f->nregs=n;
  ReversePostOrderTraversal<Function*> RPO(F); map<const BasicBlock*,int> bidx; int k=0; vector<BasicBlock*> order; for(auto*B:RPO){ bidx[B]=k++; order.push_back(B); }
  auto opnd=[&](Value*V)->int{ if(auto*C=dyn_cast<Constant>(V)) return constOp(C); auto it=reg.find(V); if(it==reg.end()) { if(isa<MetadataAsValue>(V)) return constOp(ConstantInt::get(Type::getInt32Ty(LC),0)); engine_error("operand in %s",f->name.c_str()); } return (int)it->second; };
  auto wid=[&](Type*T)->u8{ if(T->isPointerTy()) return 64; unsigned w=DL->getTypeSizeInBits(T); return w>64?255:(u8)w; };
  auto mkEdge=[&](BasicBlock*from,BasicBlock*to)->Edge{ Edge e; e.to=bidx[to]; for(auto&P:to->phis()){ Value*v=P.getIncomingValueForBlock(from); u32 ns=slotsOf(P.getType()); vector<Leaf> l; leavesOf(P.getType(),0,l); int o=opnd(v); for(u32 i=0;i<ns;i++){ e.phis.push_back({reg[&P]+i,slotOp(o,i)}); e.pw.push_back(l[i].w); e.pptr.push_back(l[i].ptr); } } return e; };
  for(auto*B:order){ Block blk; blk.first=f->code.size(); blk.rpo=bidx[B]; blk.pure=true;
    for(auto&I:*B){ if(isa<PHINode>(I)) continue; DInst d; d.I=&I; d.dst=I.getType()->isVoidTy()?0:reg[&I]; Type*T=I.getType(); d.w=T->isVoidTy()?0:(T->isSingleValueType()&&!T->isVectorTy()?wid(T):0); d.ptr=T->isPointerTy(); bool pure=true;
      auto chkw=[&](){ if(d.w==255) d.op=D_BAD; };
      if(T->isVectorTy()&&!isa<LoadInst>(I)){ d.op=D_BAD; }
      else if(auto*b=dyn_cast<BinaryOperator>(&I)){ d.a=opnd(b->getOperand(0)); d.b=opnd(b->getOperand(1)); d.op=D_BIN; switch(b->getOpcode()){ case Instruction::Add:d.sub=ADD;break;case Instruction::Sub:d.sub=SUB;break;case Instruction::Mul:d.sub=MUL;break;case Instruction::UDiv:d.sub=UDIV;pure=false;break;case Instruction::SDiv:d.sub=SDIV;pure=false;break;case Instruction::URem:d.sub=UREM;pure=false;break;case Instruction::SRem:d.sub=SREM;pure=false;break;case Instruction::And:d.sub=AND;break;case Instruction::Or:d.sub=OR;break;case Instruction::Xor:d.sub=XOR;break;case Instruction::Shl:d.sub=SHL;break;case Instruction::LShr:d.sub=LSHR;break;case Instruction::AShr:d.sub=ASHR;break;
          case Instruction::FAdd:d.op=D_FPOP;d.sub=FADD;break;case Instruction::FSub:d.op=D_FPOP;d.sub=FSUB;break;case Instruction::FMul:d.op=D_FPOP;d.sub=FMUL;break;case Instruction::FDiv:d.op=D_FPOP;d.sub=FDIV;break; default:d.op=D_BAD; } chkw(); }
      else if(auto*c=dyn_cast<ICmpInst>(&I)){ d.op=D_ICMP; d.a=opnd(c->getOperand(0)); d.b=opnd(c->getOperand(1)); d.w2=wid(c->getOperand(0)->getType()); d.sub=(u8)c->getPredicate(); if(d.w2==255||c->getOperand(0)->getType()->isVectorTy()) d.op=D_BAD; }
      else if(auto*c=dyn_cast<FCmpInst>(&I)){ d.op=D_FCMP; d.a=opnd(c->getOperand(0)); d.b=opnd(c->getOperand(1)); d.w2=wid(c->getOperand(0)->getType()); d.sub=(u8)c->getPredicate(); }
      else if(auto*c=dyn_cast<CastInst>(&I)){ d.a=opnd(c->getOperand(0)); d.w2=wid(c->getOperand(0)->getType()); switch(c->getOpcode()){ case Instruction::ZExt:d.op=D_ZEXT;break;case Instruction::SExt:d.op=D_SEXT;break;case Instruction::Trunc:d.op=D_TRUNC;break;case Instruction::PtrToInt: case Instruction::IntToPtr: d.op=d.w<d.w2?D_TRUNC:d.w>d.w2?D_ZEXT:D_COPY; d.imm=1; break; case Instruction::BitCast: d.op=D_COPY; d.imm=1; if(T->isVectorTy()||c->getOperand(0)->getType()->isVectorTy()) d.op=D_BAD; break; case Instruction::SIToFP:d.op=D_FPCAST;d.sub=SITOFP;break;case Instruction::UIToFP:d.op=D_FPCAST;d.sub=UITOFP;break;case Instruction::FPToSI:d.op=D_FPCAST;d.sub=FPTOSI;break;case Instruction::FPToUI:d.op=D_FPCAST;d.sub=FPTOUI;break;case Instruction::FPExt: case Instruction::FPTrunc:d.op=D_FPCAST;d.sub=FPCVT;break; default:d.op=D_BAD;} if(d.w2==255) d.op=D_BAD; chkw(); }
      else if(auto*c=dyn_cast<SelectInst>(&I)){ d.op=D_SELECT; d.a=opnd(c->getCondition()); d.b=opnd(c->getTrueValue()); d.c=opnd(c->getFalseValue()); leavesOf(T,0,d.leaves); }
      else if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ d.op=D_GEP; d.a=opnd(g->getPointerOperand()); i64 off=0; for(auto it=gep_type_begin(g),e=gep_type_end(g);it!=e;++it){ Value*ix=it.getOperand(); if(StructType*ST=it.getStructTypeOrNull()){ off+=DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { i64 sc=DL->getTypeAllocSize(it.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) off+=ci->getSExtValue()*sc; else { d.ops.push_back(opnd(ix)); d.opw.push_back(wid(ix->getType())); d.scale.push_back(sc); } } } d.imm=(u64)off; }
      else if(auto*l=dyn_cast<LoadInst>(&I)){ d.op=D_LOAD; d.a=opnd(l->getPointerOperand()); leavesOf(T,0,d.leaves); pure=false; for(auto&x:d.leaves) if(x.w==255) d.op=D_BAD; }
      else if(auto*st=dyn_cast<StoreInst>(&I)){ d.op=D_STORE; d.a=opnd(st->getValueOperand()); d.b=opnd(st->getPointerOperand()); leavesOf(st->getValueOperand()->getType(),0,d.leaves); pure=false; for(auto&x:d.leaves) if(x.w==255) d.op=D_BAD; }
      else if(auto*al=dyn_cast<AllocaInst>(&I)){ d.op=D_ALLOCA; d.imm=DL->getTypeAllocSize(al->getAllocatedType()); d.a=opnd(al->getArraySize()); pure=false; }
      else if(auto*br=dyn_cast<BranchInst>(&I)){ if(br->isUnconditional()){ d.op=D_BR; d.edges.push_back(mkEdge(B,br->getSuccessor(0))); } else { d.op=D_CBR; d.a=opnd(br->getCondition()); d.edges.push_back(mkEdge(B,br->getSuccessor(0))); d.edges.push_back(mkEdge(B,br->getSuccessor(1))); } }
      else if(auto*sw=dyn_cast<SwitchInst>(&I)){ d.op=D_SWITCH; d.a=opnd(sw->getCondition()); d.w2=wid(sw->getCondition()->getType()); d.edges.push_back(mkEdge(B,sw->getDefaultDest())); map<int,int> known; for(auto&c:sw->cases()){ d.cases.push_back(c.getCaseValue()->getZExtValue()); d.edges.push_back(mkEdge(B,c.getCaseSuccessor())); } }
      else if(auto*r=dyn_cast<ReturnInst>(&I)){ d.op=D_RET; pure=false; if(r->getReturnValue()){ d.a=opnd(r->getReturnValue()); d.imm=slotsOf(r->getReturnValue()->getType()); } }
      else if(isa<UnreachableInst>(I)){ d.op=D_UNREACH; pure=false; }
      else if(auto*ev=dyn_cast<ExtractValueInst>(&I)){ d.op=D_COPY; Type*AT=ev->getAggregateOperand()->getType(); u32 k=0; for(unsigned ix:ev->indices()){ if(auto*S=dyn_cast<StructType>(AT)){ for(unsigned j=0;j<ix;j++) k+=slotsOf(S->getElementType(j)); AT=S->getElementType(ix);} else { auto*A=cast<ArrayType>(AT); k+=ix*slotsOf(A->getElementType()); AT=A->getElementType(); } } d.a=slotOp(opnd(ev->getAggregateOperand()),k); d.imm=slotsOf(T); }
      else if(auto*iv=dyn_cast<InsertValueInst>(&I)){ d.op=D_INSERT; Type*AT=T; u32 k=0; for(unsigned ix:iv->indices()){ if(auto*S=dyn_cast<StructType>(AT)){ for(unsigned j=0;j<ix;j++) k+=slotsOf(S->getElementType(j)); AT=S->getElementType(ix);} else { auto*A=cast<ArrayType>(AT); k+=ix*slotsOf(A->getElementType()); AT=A->getElementType(); } } d.a=opnd(iv->getAggregateOperand()); d.b=opnd(iv->getInsertedValueOperand()); d.imm=slotsOf(T); d.ops={(int)k,(int)slotsOf(AT)}; }
      else if(isa<FreezeInst>(I)){ d.op=D_COPY; d.a=opnd(I.getOperand(0)); d.imm=slotsOf(T); }
      else if(auto*u=dyn_cast<UnaryOperator>(&I)){ d.op=D_FNEG; d.a=opnd(u->getOperand(0)); pure=false; }
      else if(isa<FenceInst>(I)){ d.op=D_NOP; }
      else if(auto*rm=dyn_cast<AtomicRMWInst>(&I)){ d.op=D_RMW; d.a=opnd(rm->getPointerOperand()); d.b=opnd(rm->getValOperand()); d.sub=(u8)rm->getOperation(); pure=false; }
      else if(auto*cx=dyn_cast<AtomicCmpXchgInst>(&I)){ d.op=D_CMPXCHG; d.a=opnd(cx->getPointerOperand()); d.b=opnd(cx->getCompareOperand()); d.c=opnd(cx->getNewValOperand()); d.w2=wid(cx->getCompareOperand()->getType()); pure=false; }
      else if(auto*ci=dyn_cast<CallBase>(&I)){
        if(isa<DbgInfoIntrinsic>(I)) continue; if(auto*ii=dyn_cast<IntrinsicInst>(&I)){ auto id=ii->getIntrinsicID(); if(id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end||id==Intrinsic::assume||id==Intrinsic::experimental_noalias_scope_decl||id==Intrinsic::donothing||id==Intrinsic::invariant_start||id==Intrinsic::invariant_end||id==Intrinsic::prefetch) continue; }
        if(isa<InvokeInst>(I)) { d.op=D_BAD; }
        else { d.op=D_CALL; d.imm=slotsOf(T); d.callee=dyn_cast<Function>(ci->getCalledOperand()->stripPointerCastsAndAliases()); if(!d.callee) d.a=opnd(ci->getCalledOperand());
          for(unsigned i=0;i<ci->arg_size();i++){ Value*v=ci->getArgOperand(i); vector<Leaf> l; if(!v->getType()->isMetadataTy()) leavesOf(v->getType(),0,l); int o=v->getType()->isMetadataTy()?0:opnd(v); u64 bv=0; if(ci->isByValArgument(i)) bv=DL->getTypeAllocSize(ci->getParamByValType(i)); for(u32 j=0;j<l.size();j++){ d.ops.push_back(slotOp(o,j)); d.opw.push_back(l[j].w); d.byval.push_back(bv); } }
          pure=false; 
          if(d.callee&&d.callee->isIntrinsic()){ auto id=d.callee->getIntrinsicID(); switch(id){ case Intrinsic::umin:case Intrinsic::umax:case Intrinsic::smin:case Intrinsic::smax:case Intrinsic::abs:case Intrinsic::bswap:case Intrinsic::fshl:case Intrinsic::fshr:case Intrinsic::expect: case Intrinsic::usub_sat: case Intrinsic::uadd_sat: pure=true; default:; } d.op=D_INTRIN; d.imm=(u64)id; } } }
      else d.op=D_BAD;
      if(d.op==D_BAD) pure=false;
      if(d.op!=D_BR&&d.op!=D_CBR&&d.op!=D_SWITCH) blk.pure&=pure; 
      f->code.push_back(std::move(d)); }
    blk.n=f->code.size()-blk.first; if(blk.n>60) blk.pure=false; f->blocks.push_back(blk); }
  if(F->getSubprogram()){ string fn=F->getSubprogram()->getFilename().str(); string dir=F->getSubprogram()->getDirectory().str(); if(fn.find("/repo/")!=string::npos||(fn[0]!='/'&&dir.find("/repo")==0)) f->inRepo=true; }
}
static const State::Numeral& numeralOf(State&s,Expr*mag,int known=0){ // mag: 64-bit unsigned; forks on the number of digits
  for(auto&p:s.numerals) if(p.mag==mag) return p;
  int nd=known?known:1; u64 lim=10; while(!known&&nd<20&&!decide(s,mkUlt(mag,mkConst(64,lim)))){ nd++; if(nd<20) lim*=10; }
  u64 mv=evalExpr(mag,s.model); vector<u64> dv(nd); for(int k=nd-1;k>=0;k--){ dv[k]=mv%10; mv/=10; }
  Expr*h=mkConst(64,0); vector<Expr*> dg; for(int k=0;k<nd;k++){ u32 id=newSym(s,"digit",4,true); Expr*y=mkSym(id,4); symOfId[id]=y; s.model[id]=dv[k]; addC(s,mkUlt(y,mkConst(4,10))); if(k==0&&nd>1) addC(s,mkNot(mkEq(y,mkConst(4,0)))); h=mkAdd(mkMul(h,mkConst(64,10)),mkZext(y,64)); dg.push_back(y); }
  addC(s,mkEq(h,mag)); s.numerals.push_back({mag,h,dg}); return s.numerals.back(); }
#include "natives.h"
static Func* getFunc(Function*F){ auto&p=funcs[F]; if(!p){ p=new Func; p->F=F; p->name=F->getName().str(); p->native=nativeIndex(p->name); if(F->isDeclaration()) p->decl=true; else if(p->native<0||natives[p->native].fallback) decode(p); } return p; }

// ---------------------------------------------------------------- execution
static inline const Val& OPV(State&s,u32 base,int o){ return o>=0? s.regs[base+o] : CPOOL[-1-o]; }
static Val binop(Op op,unsigned w,const Val&a,const Val&b){ if(!a.e&&!b.e) return VC(foldOp(op,w,a.c&MASK(w),b.c&MASK(w),w)); Expr*x=EX(a,w),*y=EX(b,w); Expr*r; switch(op){ case ADD:r=mkAdd(x,y);break;case SUB:r=mkSub(x,y);break;case MUL:r=mkMul(x,y);break;case AND:r=mkAnd(x,y);break;case OR:r=mkOr(x,y);break;case XOR:r=mkXor(x,y);break;case SHL:case LSHR:case ASHR:r=mkShift(op,x,y);break; default:r=mkDiv(op,x,y);} return VE(r); }
// quotient or remainder of a numeral by a constant: exact on linear forms, and an
// opaque number divided by a power of ten is spelled out in digits first
static bool splitDiv(State&s,Expr*e,unsigned w,u64 C,bool quot,Val&out){
  Lin f; if(!linForm(e,f)||f.t.empty()) return false; i128 lo,hi; u64 m=MASK(w); Lin q,r; u64 c=f.c;
  for(auto&p:f.t){ auto&t=p.second; bool first=true; i64 mn=0; for(size_t i=0;i<t.size();i++) if(s.dom[p.first].has(i)){ i64 v=SEX(t[i],w); if(first||v<mn) mn=v; first=false; } if(first) return false; c+=(u64)mn; for(size_t i=0;i<t.size();i++) t[i]=s.dom[p.first].has(i)?(t[i]-(u64)mn)&m:0; }
  f.c=c&m; lo=hi=(i128)(u128)f.c; i128 rl=f.c%C,rh=rl; i128 top=lo;
  for(auto&p:f.t){ u64 g=0; bool dv=true; for(u64 x:p.second){ g=std::max(g,x); if(x%C) dv=false; } top+=(i128)(u128)g; if(dv){ auto t=p.second; for(u64&x:t) x/=C; q.t[p.first]=t; } else { r.t[p.first]=p.second; rh+=(i128)(u128)g; } }
  if(top>(i128)(u128)m) return false; if(rl/C!=rh/C) return false; u64 k=(u64)(rl/C);
  auto build=[&](Lin&l,u64 c0){ Expr*x=mkConst(w,c0&m); for(auto&p:l.t) x=mkAdd(x,mkTbl(symOfId[p.first],p.second,w)); return x; };
  for(auto&p:f.t) if(!symOfId.count(p.first)) return false;
  Expr*x=quot?build(q,f.c/C+k):build(r,f.c%C-k*C); out=isC(x)?VC(x->c):VE(x); return true; }
static bool divConst(State&s,Op op,unsigned w,const Val&a,u64 C,Val&out){
  if(!C||(C&(C-1))==0) return false; Expr*e=simp(s,a.e); if(isC(e)) return false; Expr*sy; if(unarySym(e,sy)) return false; bool neg=false,sgn=op==SDIV||op==SREM;
  if(sgn){ if(SEX(C,w)<0) return false; neg=decide(s,mkSlt(e,mkConst(w,0))); if(neg) e=mkSub(mkConst(w,0),e); }
  bool quot=op==UDIV||op==SDIV; Val r;
  if(!splitDiv(s,e,w,C,quot,r)){ u64 t=C; while(t%10==0) t/=10; if(t!=1||w>64) return false; Lin f; if(linForm(e,f)&&f.t.size()>0){ return false; }
    Expr*mag=w<64?mkZext(e,64):e; if(quot&&C!=10){ bool known=false; for(auto&p:s.numerals) known|=p.mag==mag; if(!known){ if(!neg) return false; Val x=binop(UDIV,w,VE(e),VC(C)); out=binop(SUB,w,VC(0),x); return true; } } Expr*h=numeralOf(s,mag).h; if(w<64) h=mkExtract(h,0,w); if(isC(h)) return false; if(!splitDiv(s,h,w,C,quot,r)){ return false; } }
  if(neg) r=binop(SUB,w,VC(0),r); out=r; return true; }
static Val icmp(u8 p,unsigned w,const Val&a,const Val&b){
  if(!a.e&&!b.e){ u64 x=a.c&MASK(w),y=b.c&MASK(w); i64 sx=SEX(x,w),sy=SEX(y,w); bool r; switch(p){ case CmpInst::ICMP_EQ:r=x==y;break;case CmpInst::ICMP_NE:r=x!=y;break;case CmpInst::ICMP_ULT:r=x<y;break;case CmpInst::ICMP_ULE:r=x<=y;break;case CmpInst::ICMP_UGT:r=x>y;break;case CmpInst::ICMP_UGE:r=x>=y;break;case CmpInst::ICMP_SLT:r=sx<sy;break;case CmpInst::ICMP_SLE:r=sx<=sy;break;case CmpInst::ICMP_SGT:r=sx>sy;break;default:r=sx>=sy;} return VC(r); }
  Expr*x=EX(a,w),*y=EX(b,w); Expr*r; switch(p){ case CmpInst::ICMP_EQ:r=mkEq(x,y);break;case CmpInst::ICMP_NE:r=mkNot(mkEq(x,y));break;case CmpInst::ICMP_ULT:r=mkUlt(x,y);break;case CmpInst::ICMP_ULE:r=mkNot(mkUlt(y,x));break;case CmpInst::ICMP_UGT:r=mkUlt(y,x);break;case CmpInst::ICMP_UGE:r=mkNot(mkUlt(x,y));break;case CmpInst::ICMP_SLT:r=mkSlt(x,y);break;case CmpInst::ICMP_SLE:r=mkNot(mkSlt(y,x));break;case CmpInst::ICMP_SGT:r=mkSlt(y,x);break;default:r=mkNot(mkSlt(x,y));} return VE(r); }
static Val fcmp(u8 p,unsigned w,const Val&a,const Val&b){ Expr*x=EX(a,w),*y=EX(b,w); auto lt=[&](Expr*p,Expr*q){return mkFp(FOLT,1,p,q,w);}; auto le=[&](Expr*p,Expr*q){return mkFp(FOLE,1,p,q,w);}; auto eq=mkFp(FOEQ,1,x,y,w); auto un=mkFp(FUNO,1,x,y,w); Expr*r;
  switch(p){ case CmpInst::FCMP_OEQ:r=eq;break;case CmpInst::FCMP_OLT:r=lt(x,y);break;case CmpInst::FCMP_OLE:r=le(x,y);break;case CmpInst::FCMP_OGT:r=lt(y,x);break;case CmpInst::FCMP_OGE:r=le(y,x);break;case CmpInst::FCMP_UNO:r=un;break;case CmpInst::FCMP_ORD:r=mkNot(un);break;case CmpInst::FCMP_UNE:r=mkNot(eq);break;case CmpInst::FCMP_ONE:r=mkNot(mkOr(eq,un));break;case CmpInst::FCMP_UEQ:r=mkOr(eq,un);break;case CmpInst::FCMP_ULT:r=mkOr(un,lt(x,y));break;case CmpInst::FCMP_ULE:r=mkOr(un,le(x,y));break;case CmpInst::FCMP_UGT:r=mkOr(un,lt(y,x));break;case CmpInst::FCMP_UGE:r=mkOr(un,le(y,x));break;default:engine_error("fcmp"); } return VE(r); }
// executes a pure instruction; region=true: never fork (returns false when impossible)
static bool execPure(State&s,DInst&d,u32 base,bool region){
  #define O(x) OPV(s,base,x)
  auto set=[&](const Val&v){ s.regs[base+d.dst]=v; };
  switch(d.op){
    case D_BIN:{ if(d.sub>=UDIV&&d.sub<=SREM){ Val b=O(d.b); if(!b.e){ if((b.c&MASK(d.w))==0) failPath(s,"div","division by zero"); } else require(s,mkNot(mkEq(b.e,mkConst(d.w,0))),"div","division by zero"); } if((d.sub==LSHR||d.sub==ASHR)&&d.w>8){ Val a=O(d.a),b=O(d.b); if(a.e&&!b.e&&(b.c&MASK(d.w))==d.w-1u&&a.e->sup->v.size()>1){ int l=linDecide(s,mkExtract(a.e,d.w-1,1)); if(l>=0){ set(VC(l?(d.sub==LSHR?1:MASK(d.w)):0)); return true; } } }
      if(d.sub>=UDIV&&d.sub<=SREM&&d.w>8){ Val a=O(d.a),b=O(d.b),q; if(a.e&&!b.e&&divConst(s,(Op)d.sub,d.w,a,b.c&MASK(d.w),q)){ set(q); return true; } } set(binop((Op)d.sub,d.w,O(d.a),O(d.b))); return true; }
    case D_ICMP: set(icmp(d.sub,d.w2,O(d.a),O(d.b))); return true;
    case D_FCMP: set(fcmp(d.sub,d.w2,O(d.a),O(d.b))); return true;
    case D_FPOP: set(VE(mkFp((Op)d.sub,d.w,EX(O(d.a),d.w),EX(O(d.b),d.w),d.w))); return true;
    case D_FPCAST: set(VE(mkFp((Op)d.sub,d.w,EX(O(d.a),d.w2),nullptr,d.w2))); return true;
    case D_FNEG: set(VE(mkXor(EX(O(d.a),d.w),mkConst(d.w,1ull<<(d.w-1))))); return true;
    case D_ZEXT:{ Val a=O(d.a); if(a.e&&d.w2==1&&d.w>8&&a.e->sup->v.size()>1){ int l=linDecide(s,a.e); if(l>=0) a=VC(l); } set(a.e?VE(mkZext(a.e,d.w)):VC(a.c&MASK(d.w2))); return true; }
    case D_SEXT:{ Val a=O(d.a); if(a.e&&d.w2==1&&d.w>8&&a.e->sup->v.size()>1){ int l=linDecide(s,a.e); if(l>=0) a=VC(l); } set(a.e?VE(mkSext(a.e,d.w)):VC((u64)SEX(a.c,d.w2)&MASK(d.w))); return true; }
    case D_TRUNC:{ Val a=O(d.a); set(a.e?VE(mkExtract(a.e,0,d.w)):VC(a.c&MASK(d.w))); return true; }
    case D_COPY:{ for(u64 i=0;i<d.imm;i++){ Val v=O(slotOp(d.a,i)); s.regs[base+d.dst+i]=v; } return true; }
    case D_INSERT:{ vector<Val> t; for(u64 i=0;i<d.imm;i++) t.push_back(O(slotOp(d.a,i))); for(int i=0;i<d.ops[1];i++) t[d.ops[0]+i]=O(slotOp(d.b,i)); for(u64 i=0;i<d.imm;i++) s.regs[base+d.dst+i]=t[i]; return true; }
    case D_SELECT:{ Val c=O(d.a); if(c.e){ Expr*e=simp(s,c.e); c=VE(e); if(e->sup->v.size()>1&&d.leaves[0].w>8){ int l=linDecide(s,e); if(l>=0) c=VC(l); } } if(c.e){ bool needFork=false; for(u32 i=0;i<d.leaves.size();i++) if(d.leaves[i].ptr){ Val x=O(slotOp(d.b,i)),y=O(slotOp(d.c,i)); if(x.e!=y.e||(!x.e&&x.c!=y.c)) needFork=true; } if(needFork){ if(region) return false; bool v=decide(s,c.e); c=VC(v);} }
      for(u32 i=0;i<d.leaves.size();i++){ Val x=O(slotOp(d.b,i)),y=O(slotOp(d.c,i)); s.regs[base+d.dst+i]= c.e? VE(mkIte(c.e,EX(x,d.leaves[i].w),EX(y,d.leaves[i].w))) : (c.c&1? x:y); } return true; }
    case D_GEP:{ Val a=O(d.a); Val r=binop(ADD,64,a,VC(d.imm)); for(u32 i=0;i<d.ops.size();i++){ Val x=O(d.ops[i]); unsigned w=d.opw[i]; if(!x.e&&!r.e){ r.c+= (u64)(SEX(x.c,w)*d.scale[i]); } else { Expr*ix=mkSext(EX(x,w),64); r=VE(mkAdd(EX(r,64),mkMul(ix,mkConst(64,(u64)d.scale[i])))); } } set(r); return true; }
    case D_NOP: return true;
    case D_INTRIN:{ unsigned w=d.w; auto A=[&](int i){return O(d.ops[i]);};
      switch((Intrinsic::ID)d.imm){
        case Intrinsic::umin:{ Val c=icmp(CmpInst::ICMP_ULT,w,A(0),A(1)); if(c.e&&w>8&&c.e->sup->v.size()>1){ int l=linDecide(s,c.e); if(l>=0) c=VC(l); } set(c.e?VE(mkIte(c.e,EX(A(0),w),EX(A(1),w))):(c.c?A(0):A(1))); return true; }
        case Intrinsic::umax:{ Val c=icmp(CmpInst::ICMP_ULT,w,A(0),A(1)); if(c.e&&w>8&&c.e->sup->v.size()>1){ int l=linDecide(s,c.e); if(l>=0) c=VC(l); } set(c.e?VE(mkIte(c.e,EX(A(1),w),EX(A(0),w))):(c.c?A(1):A(0))); return true; }
        case Intrinsic::smin:{ Val c=icmp(CmpInst::ICMP_SLT,w,A(0),A(1)); if(c.e&&w>8&&c.e->sup->v.size()>1){ int l=linDecide(s,c.e); if(l>=0) c=VC(l); } set(c.e?VE(mkIte(c.e,EX(A(0),w),EX(A(1),w))):(c.c?A(0):A(1))); return true; }
        case Intrinsic::smax:{ Val c=icmp(CmpInst::ICMP_SLT,w,A(0),A(1)); if(c.e&&w>8&&c.e->sup->v.size()>1){ int l=linDecide(s,c.e); if(l>=0) c=VC(l); } set(c.e?VE(mkIte(c.e,EX(A(1),w),EX(A(0),w))):(c.c?A(1):A(0))); return true; }
        case Intrinsic::abs:{ Val a=A(0); Val c=icmp(CmpInst::ICMP_SLT,w,a,VC(0)); if(c.e) c=VE(simp(s,c.e)); if(c.e){ if(region) return false; c=VC(decide(s,c.e)); } set(c.c&1?binop(SUB,w,VC(0),a):a); return true; }
        case Intrinsic::usub_sat:{ Val c=icmp(CmpInst::ICMP_ULT,w,A(0),A(1)); Val n=binop(SUB,w,A(0),A(1)); set(c.e?VE(mkIte(c.e,mkConst(w,0),EX(n,w))):(c.c?VC(0):n)); return true; }
        case Intrinsic::uadd_sat:{ Val n=binop(ADD,w,A(0),A(1)); Val c=icmp(CmpInst::ICMP_ULT,w,n,A(0)); set(c.e?VE(mkIte(c.e,mkConst(w,MASK(w)),EX(n,w))):(c.c?VC(MASK(w)):n)); return true; }
        case Intrinsic::bswap:{ Val a=A(0); if(!a.e){ u64 r=0; for(unsigned i=0;i<w/8;i++) r|=((a.c>>(8*i))&255)<<(w-8-8*i); set(VC(r)); } else { vector<Expr*> p; for(unsigned i=0;i<w/8;i++) p.push_back(mkExtract(a.e,8*i,8)); set(VE(mkConcatL(p))); } return true; }
        case Intrinsic::fshl: case Intrinsic::fshr:{ Val k=A(2); if(k.e){ if(region) return false; k=VC(concretize(s,k,w)); } u64 n=(k.c&MASK(w))%w; bool l=(Intrinsic::ID)d.imm==Intrinsic::fshl; if(!n){ set(l?A(0):A(1)); return true; } unsigned a=l?n:w-n; set(binop(OR,w,binop(SHL,w,A(0),VC(a)),binop(LSHR,w,A(1),VC(w-a)))); return true; }
        case Intrinsic::expect: set(A(0)); return true;
        case Intrinsic::memcpy: case Intrinsic::memmove:{ u64 n=concretize(s,A(2),d.opw[2]); if(n) doCopy(s,conAddr(s,A(0)),conAddr(s,A(1)),n); return true; }
        case Intrinsic::memset:{ u64 n=concretize(s,A(2),d.opw[2]); if(n) doSet(s,conAddr(s,A(0)),A(1),n); return true; }
        case Intrinsic::uadd_with_overflow:{ unsigned w=d.opw[0]; Val n=binop(ADD,w,A(0),A(1)); Val c=icmp(CmpInst::ICMP_ULT,w,n,A(0)); s.regs[base+d.dst]=n; s.regs[base+d.dst+1]=c; return true; }
        case Intrinsic::usub_with_overflow:{ unsigned w=d.opw[0]; Val n=binop(SUB,w,A(0),A(1)); Val c=icmp(CmpInst::ICMP_ULT,w,A(0),A(1)); s.regs[base+d.dst]=n; s.regs[base+d.dst+1]=c; return true; }
        case Intrinsic::umul_with_overflow:{ unsigned w=d.opw[0]; Val a=A(0),b=A(1); if(a.e&&b.e) b=VC(concretize(s,b,w)); if(!a.e) std::swap(a,b); u64 k=b.c&MASK(w); if(a.e&&k){ Val r=binop(MUL,w,a,VC(k)),o=icmp(CmpInst::ICMP_UGT,w,a,VC(MASK(w)/k)); s.regs[base+d.dst]=r; s.regs[base+d.dst+1]=o; return true; } if(a.e){ s.regs[base+d.dst]=VC(0); s.regs[base+d.dst+1]=VC(0); return true; } u128 p=(u128)a.c*k; s.regs[base+d.dst]=VC((u64)p&MASK(w)); s.regs[base+d.dst+1]=VC(p>MASK(w)); return true; }
        case Intrinsic::smul_with_overflow:{ unsigned w=d.opw[0]; Val a=A(0),b=A(1); if(a.e&&b.e) b=VC(concretize(s,b,w)); if(!a.e) std::swap(a,b); i64 k=SEX(b.c&MASK(w),w); if(a.e&&k>0){ i64 mx=(i64)(MASK(w)>>1),mn=-mx-1; Val r=binop(MUL,w,a,VC((u64)k)); Val o1=icmp(CmpInst::ICMP_SGT,w,a,VC((u64)(mx/k)&MASK(w))),o2=icmp(CmpInst::ICMP_SLT,w,a,VC((u64)(mn/k)&MASK(w))); s.regs[base+d.dst]=r; s.regs[base+d.dst+1]=binop(OR,1,o1,o2); return true; } if(a.e&&k==0){ s.regs[base+d.dst]=VC(0); s.regs[base+d.dst+1]=VC(0); return true; } if(a.e) a=VC(concretize(s,a,w)); i128 p=(i128)SEX(a.c&MASK(w),w)*k; s.regs[base+d.dst]=VC((u64)p&MASK(w)); s.regs[base+d.dst+1]=VC(p!=(i128)SEX((u64)p&MASK(w),w)); return true; }
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow:{ unsigned w=d.opw[0]; bool add=(Intrinsic::ID)d.imm==Intrinsic::sadd_with_overflow; Val a=A(0),b=A(1),n=binop(add?ADD:SUB,w,a,b); Val na=icmp(CmpInst::ICMP_SLT,w,a,VC(0)),nb=icmp(CmpInst::ICMP_SLT,w,b,VC(0)),nn=icmp(CmpInst::ICMP_SLT,w,n,VC(0)); Val x=binop(XOR,1,na,nn),y=add?binop(XOR,1,nb,nn):binop(XOR,1,na,nb); s.regs[base+d.dst]=n; s.regs[base+d.dst+1]=binop(AND,1,x,y); return true; }
        case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop:{ Val a=A(0); if(a.e){ Expr*e=a.e,*r; auto bit=[&](unsigned i){ return mkExtract(e,i,1); }; Intrinsic::ID id=(Intrinsic::ID)d.imm;
          if(id==Intrinsic::ctpop){ r=mkConst(w,0); for(unsigned i=0;i<w;i++) r=mkAdd(r,mkZext(bit(i),w)); }
          else { r=mkConst(w,w); for(unsigned i=0;i<w;i++){ unsigned k=id==Intrinsic::ctlz?i:w-1-i; r=mkIte(mkEq(bit(k),mkConst(1,1)),mkConst(w,id==Intrinsic::ctlz?w-1-k:k),r); } }
          set(isC(r)?VC(r->c):VE(r)); return true; } u64 x=a.c&MASK(w); u64 r; if((Intrinsic::ID)d.imm==Intrinsic::ctpop) r=__builtin_popcountll(x); else if(!x) r=w; else if((Intrinsic::ID)d.imm==Intrinsic::cttz) r=__builtin_ctzll(x); else r=__builtin_clzll(x)-(64-w); set(VC(r)); return true; }
        case Intrinsic::objectsize: set(VC(MASK(w))); return true;
        case Intrinsic::is_constant: set(VC(0)); return true;
        case Intrinsic::stacksave: set(VC(0)); return true; case Intrinsic::stackrestore: return true;
        case Intrinsic::trap: case Intrinsic::ubsantrap: failPath(s,"abort","trap");
        case Intrinsic::vastart: case Intrinsic::vaend: return true;
        case Intrinsic::eh_typeid_for: set(VC(0)); return true;
        case Intrinsic::fabs:{ Val a=A(0); set(VE(mkAnd(EX(a,w),mkConst(w,MASK(w-1))))); return true; }
        case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::trunc:{ Val a=A(0); auto k=(Intrinsic::ID)d.imm; set(VE(mkFp(k==Intrinsic::ceil?FCEIL:k==Intrinsic::floor?FFLOOR:FTRUNC,w,EX(a,w),nullptr,w))); return true; }
        default: { string nm=d.callee->getName().str(); engine_error("intrinsic %s",nm.c_str()); }
      } }
    default: return false;
  }
}
static void takeEdge(State&s,FrameRec&f,const Edge&e){ u32 base=f.base; size_t n=e.phis.size(); if(n==1){ s.regs[base+e.phis[0].first]=OPV(s,base,e.phis[0].second); } else if(n){ Val tmp[64]; if(n>64) engine_error("phis"); for(size_t i=0;i<n;i++) tmp[i]=OPV(s,base,e.phis[i].second); for(size_t i=0;i<n;i++) s.regs[base+e.phis[i].first]=tmp[i]; } f.pc=f.f->blocks[e.to].first; f.f->blocks[e.to].cover=1; }
struct RegExit { int to; vector<Val> phi; Expr*guard; const Edge*e; };
static bool sameV(const Val&a,const Val&b){ return a.e==b.e&&(a.e||a.c==b.c); }
static bool noRegion=false;
static void symBranch(State&s,FrameRec&f,DInst&d,vector<Expr*>&guards){
  // guards[i] corresponds to d.edges[i]
  Func*fn=f.f; u32 base=f.base; vector<RegExit> exits; struct In{const Edge*e;Expr*g;}; map<int,vector<In>> pend; int curb=-1; // block of d
  { u32 pc=&d-&fn->code[0]; int lo=0,hi=fn->blocks.size()-1; while(lo<hi){ int m=(lo+hi+1)/2; if(fn->blocks[m].first<=pc) lo=m; else hi=m-1; } curb=lo; }
  auto addExit=[&](const Edge*e,Expr*g){ RegExit x; x.to=e->to; x.e=e; x.guard=g; for(auto&p:e->phis) x.phi.push_back(OPV(s,base,p.second)); for(auto&y:exits) if(y.to==x.to){ bool eq=true; for(size_t i=0;i<x.phi.size();i++) if(!sameV(x.phi[i],y.phi[i])){ eq=false; break; } if(eq){ y.guard=mkOr(y.guard,g); return; } } exits.push_back(std::move(x)); };
  int visited=0;
  auto addEdge=[&](const Edge*e,Expr*g){ if(isC(g)&&!g->c) return; Block&b=fn->blocks[e->to]; if(!noRegion&&b.pure&&e->to>curb&&visited<200) pend[e->to].push_back({e,g}); else addExit(e,g); };
  for(size_t i=0;i<d.edges.size();i++) addEdge(&d.edges[i],guards[i]);
  while(!pend.empty()){ auto it=pend.begin(); int bi=it->first; vector<In> ins=it->second; pend.erase(it); Block&b=fn->blocks[bi]; visited++; ST.regions++;
    // phis
    bool ok=true; const Edge*e0=ins[0].e; vector<Val> pv; Expr*g=ins[0].g;
    for(size_t i=0;i<e0->phis.size();i++) pv.push_back(OPV(s,base,e0->phis[i].second));
    for(size_t k=1;k<ins.size()&&ok;k++){ for(size_t i=0;i<pv.size();i++){ Val v=OPV(s,base,ins[k].e->phis[i].second); if(sameV(v,pv[i])) continue; if(e0->pw[i]<=8&&!e0->pptr[i]) pv[i]=VE(mkIte(ins[k].g,EX(v,e0->pw[i]),EX(pv[i],e0->pw[i]))); else { ok=false; break; } } }
    for(size_t k=1;k<ins.size();k++) g=mkOr(g,ins[k].g);
    if(ok){ for(size_t i=0;i<pv.size();i++) s.regs[base+e0->phis[i].first]=pv[i];
      u32 end=b.first+b.n-1; for(u32 pc=b.first;pc<end;pc++) if(!execPure(s,fn->code[pc],base,true)){ ok=false; break; } }
    if(!ok){ for(auto&x:ins) addExit(x.e,x.g); continue; }
    b.cover=1; DInst&t=fn->code[b.first+b.n-1];
    auto gAnd=[&](Expr*c){ return mkAnd(g,c); };
    if(t.op==D_BR) addEdge(&t.edges[0],g);
    else if(t.op==D_CBR){ Val c=OPV(s,base,t.a); if(!c.e) addEdge(&t.edges[(c.c&1)?0:1],g); else { addEdge(&t.edges[0],gAnd(c.e)); addEdge(&t.edges[1],gAnd(mkNot(c.e))); } }
    else { Val c=OPV(s,base,t.a); if(!c.e){ size_t k=0; for(size_t i=0;i<t.cases.size();i++) if(t.cases[i]==(c.c&MASK(t.w2))) {k=i+1;break;} addEdge(&t.edges[k],g); } else { Expr*def=g; for(size_t i=0;i<t.cases.size();i++){ Expr*q=mkEq(c.e,mkConst(t.w2,t.cases[i])); addEdge(&t.edges[i+1],gAnd(q)); def=mkAnd(def,mkNot(q)); } addEdge(&t.edges[0],def); } }
  }
  // choose
  struct Alt{ RegExit*x; Delta d; }; vector<Alt> alts; int self=-1;
  for(auto&x:exits){ Expr*g=simp(s,x.guard); if(isC(g)&&!g->c) continue; if(evalM(s,g)){ if(self<0){ self=alts.size(); alts.push_back({&x,{}}); continue; } }
    Delta dd; if(feas(s,g,dd)) alts.push_back({&x,dd}); }
  if(alts.empty()) engine_error("no feasible branch alternative"); if(self<0) self=0;
  ST.branches++; u32 fi=&f-&s.fr[0];
  auto go=[&](State&t,Alt&a){ applyDelta(t,a.d); addC(t,a.x->guard); FrameRec&ff=t.fr[fi]; for(size_t i=0;i<a.x->phi.size();i++) t.regs[base+a.x->e->phis[i].first]=a.x->phi[i]; ff.pc=fn->blocks[a.x->to].first; };
  for(auto&a:alts) fn->blocks[a.x->to].cover=1;
  for(int i=(int)alts.size()-1;i>=0;i--) if(i!=self){ State*n=new State(s); go(*n,alts[i]); pushFork(n); }
  go(s,alts[self]);
}
static void doReturn(State&s,vector<Val>&rv){ FrameRec&f=s.fr.back(); for(u32 o:f.allocas){ MemObj*m=new MemObj; m->size=s.mem.get(o)->size; m->kind=2; m->freed=true; s.mem.slotw(o)=ObjRef(m); } u32 dst=f.retDst; s.regs.resize(f.base); s.fr.pop_back(); if(s.fr.empty()){ s.done=true; return; } FrameRec&c=s.fr.back(); for(size_t i=0;i<rv.size();i++) s.regs[c.base+dst+i]=rv[i]; c.pc++; }
static void pushCall(State&s,Func*fn,const vector<Val>&args,u32 dst){ if(s.fr.size()>3000) failPath(s,"resource","stack overflow"); FrameRec n; n.f=fn; n.pc=0; n.base=s.regs.size(); n.retDst=dst; s.regs.resize(n.base+fn->nregs); for(size_t i=0;i<args.size()&&i<fn->nargslots;i++) s.regs[n.base+i]=args[i]; s.fr.push_back(std::move(n)); fn->calls++; if(!fn->blocks.empty()) fn->blocks[0].cover=1; }
static void step(State&s){
  FrameRec&f=s.fr.back(); u32 base=f.base; DInst&d=f.f->code[f.pc]; ST.insts++; if(++s.steps>gMaxSteps){ violation(s,{},"nontermination","step limit reached"); throw Kill{K_VIOL}; }
  switch(d.op){
    case D_LOAD:{ Val a=O(d.a); if(d.leaves.size()==1){ Val v=doLoad(s,a,d.leaves[0].w,d.leaves[0].ptr); s.regs[base+d.dst]=v; } else { u64 ad=conAddr(s,a); for(u32 i=0;i<d.leaves.size();i++){ Val v=loadC(s,ad+d.leaves[i].off,d.leaves[i].w); s.regs[base+d.dst+i]=v; } } f.pc++; return; }
    case D_STORE:{ u64 ad=conAddr(s,O(d.b)); for(u32 i=0;i<d.leaves.size();i++) storeC(s,ad+d.leaves[i].off,O(slotOp(d.a,i)),d.leaves[i].w); f.pc++; return; }
    case D_ALLOCA:{ u64 n=concretize(s,O(d.a),64); u64 a=allocObj(s,d.imm*n,2,true); f.allocas.push_back((u32)(a>>32)-1); s.regs[base+d.dst]=VC(a); f.pc++; return; }
    case D_BR: takeEdge(s,f,d.edges[0]); return;
    case D_CBR:{ Val c=O(d.a); if(c.e) c=VE(simp(s,c.e)); if(!c.e){ takeEdge(s,f,d.edges[(c.c&1)?0:1]); return; } vector<Expr*> g{c.e,mkNot(c.e)}; symBranch(s,f,d,g); return; }
    case D_SWITCH:{ Val c=O(d.a); if(c.e) c=VE(simp(s,c.e)); if(!c.e){ u64 v=c.c&MASK(d.w2); for(size_t i=0;i<d.cases.size();i++) if(d.cases[i]==v){ takeEdge(s,f,d.edges[i+1]); return; } takeEdge(s,f,d.edges[0]); return; }
      vector<Expr*> g(d.edges.size()); Expr*def=mkConst(1,1); for(size_t i=0;i<d.cases.size();i++){ Expr*q=mkEq(c.e,mkConst(d.w2,d.cases[i])); g[i+1]=q; def=mkAnd(def,mkNot(q)); } g[0]=def; symBranch(s,f,d,g); return; }
    case D_RET:{ vector<Val> rv; for(u64 i=0;i<d.imm;i++) rv.push_back(O(slotOp(d.a,i))); doReturn(s,rv); return; }
    case D_UNREACH: failPath(s,"abort","reached unreachable code");
    case D_CALL:{ Func*cf=d.cf; if(!cf){ Function*F=d.callee; if(!F){ u64 a=conAddr(s,O(d.a)); auto it=addr2fn.find(a); if(it==addr2fn.end()) failPath(s,"memory","call through bad function pointer"); cf=getFunc(it->second); } else cf=d.cf=getFunc(F); }
      vector<Val> args; args.reserve(d.ops.size()); for(size_t i=0;i<d.ops.size();i++) args.push_back(O(d.ops[i]));
      if(cf->native>=0){ Val ret; if(callNative(s,cf->native,d,args,ret)){ if(s.done) return; FrameRec&g=s.fr.back(); if(d.imm) s.regs[g.base+d.dst]=ret; g.pc++; return; } }
      if(cf->decl) { string nm=demangle(cf->name); engine_error("call to unmodelled external function %s (%s)",nm.c_str(),cf->name.c_str()); }
      for(size_t i=0;i<args.size();i++) if(d.byval[i]){ u64 a=allocObj(s,d.byval[i],2,true); f.allocas.push_back((u32)(a>>32)-1); doCopy(s,a,conAddr(s,args[i]),d.byval[i]); args[i]=VC(a); }
      if(cf->F->isVarArg()) engine_error("vararg definition %s",cf->name.c_str());
      pushCall(s,cf,args,d.dst); return; }
    case D_RMW:{ u64 a=conAddr(s,O(d.a)); Val old=loadC(s,a,d.w); Val v=O(d.b),n; switch(d.sub){ case AtomicRMWInst::Add:n=binop(ADD,d.w,old,v);break;case AtomicRMWInst::Sub:n=binop(SUB,d.w,old,v);break;case AtomicRMWInst::Xchg:n=v;break;case AtomicRMWInst::Or:n=binop(OR,d.w,old,v);break;case AtomicRMWInst::And:n=binop(AND,d.w,old,v);break;default:engine_error("rmw");} storeC(s,a,n,d.w); s.regs[base+d.dst]=old; f.pc++; return; }
    case D_CMPXCHG:{ u64 a=conAddr(s,O(d.a)); Val old=loadC(s,a,d.w2); Val c=icmp(CmpInst::ICMP_EQ,d.w2,old,O(d.b)); bool eq=c.e?decide(s,c.e):c.c; if(eq) storeC(s,a,O(d.c),d.w2); s.regs[base+d.dst]=old; s.regs[base+d.dst+1]=VC(eq); f.pc++; return; }
    case D_BAD: { string t; raw_string_ostream os(t); d.I->print(os); engine_error("unsupported instruction in %s: %s",f.f->name.c_str(),t.c_str()); }
    default: if(!execPure(s,d,base,false)) engine_error("exec"); f.pc++; return;
  }
}
static void samplePath(State&s){ // engine-vs-native differential validation trace
  if(ST.samples>=gSamples) return; u64 h=(ST.paths*0x9E3779B97F4A7C15ull)^(gRandSeed*0xC2B2AE3D27D4EB4Full); h^=h>>29; if(ST.paths>4&&(h%7)) return; ST.samples++;
  string base=gOut+"/sample_"+std::to_string(gWorkerId)+"_"+std::to_string(ST.samples); FILE*f=fopen((base+".replay").c_str(),"w"); string t=replayText(s,s.model); fwrite(t.data(),1,t.size(),f); fclose(f);
  f=fopen((base+".obs").c_str(),"w"); for(auto&v:s.observed) fprintf(f,"%llu\n",(unsigned long long)(v.e?evalExpr(v.e,s.model):v.c)); fclose(f); }
static void runState(State*s){ cur=s;
  try{ while(!s->done) step(*s); ST.paths++; samplePath(*s); }
  catch(Kill&k){ if(k.why==K_ASSUME) ST.assumed++; else if(k.why==K_STOP){ ST.stopped++; samplePath(*s);} }
  delete s; cur=nullptr; }
static void initGlobals(State&s){
  for(auto&F:*M){ MemObj*m=newObj(1,3,false); u64 a=addrOf(s.mem.add(m)); gaddr[&F]=a; addr2fn[a]=&F; }
  for(auto&G:M->globals()){ u64 sz=G.getValueType()->isSized()?(u64)DL->getTypeAllocSize(G.getValueType()):8; if(G.isDeclaration()) sz=std::max<u64>(sz,64); MemObj*m=newObj(sz,0,false); gaddr[&G]=addrOf(s.mem.add(m)); }
  for(auto&G:M->globals()) if(G.hasInitializer()){ u64 a=gaddr[&G]; std::function<void(Constant*,u64)> init=[&](Constant*C,u64 ad){ if(isa<UndefValue>(C)||isa<ConstantAggregateZero>(C)) return; Type*T=C->getType();
      if(auto*st=dyn_cast<StructType>(T)){ auto*L=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) init(C->getAggregateElement(i),ad+L->getElementOffset(i)); return; }
      if(auto*at=dyn_cast<ArrayType>(T)){ u64 es=DL->getTypeAllocSize(at->getElementType()); if(auto*cd=dyn_cast<ConstantDataSequential>(C)){ StringRef r=cd->getRawDataValues(); MemObj*m=s.mem.getw((u32)(ad>>32)-1); memcpy(&m->b[(u32)ad-BASEOFF],r.data(),r.size()); return; } for(u64 i=0;i<at->getNumElements();i++) init(C->getAggregateElement(i),ad+i*es); return; }
      vector<Leaf> l; leavesOf(T,0,l); if(l.size()!=1||l[0].w==255){ if(T->isIntegerTy()){ auto*ci=cast<ConstantInt>(C); unsigned bw=ci->getBitWidth(); for(unsigned i=0;i<bw/8;i++) storeC(s,ad+i,VC(ci->getValue().extractBitsAsZExtValue(8,i*8)),8); return; } engine_error("global init"); }
      vector<Val> v; flattenConst(C,v); storeC(s,ad,v[0],l[0].w); };
    init(G.getInitializer(),a); }
  for(auto&G:M->globals()){ if(G.isConstant()&&G.hasInitializer()) s.mem.getw((u32)(gaddr[&G]>>32)-1)->ro=true; if(G.getName()=="__libc_single_threaded"||G.getName()=="__libc_single_threaded_internal") storeC(s,gaddr[&G],VC(1),8); }
}
struct Shared { std::atomic<u64> next; std::atomic<u64> running; std::atomic<u64> ids; };
static void writeResult(const string&path,bool complete){
  FILE*f=fopen(path.c_str(),"w"); 
  fprintf(f,"{\"complete\":%s,\"incomplete_queries\":%d,\"paths\":%llu,\"assume_pruned\":%llu,\"stopped\":%llu,\"forks\":%llu,\"insts\":%llu,\"asserts\":%llu,\"sym_asserts\":%llu,\"violations\":%llu,\"branches\":%llu,\"regions\":%llu,\"max_syms\":%llu,\"concretizations\":%llu,",complete?"true":"false",gIncomplete,(unsigned long long)ST.paths,(unsigned long long)ST.assumed,(unsigned long long)ST.stopped,(unsigned long long)ST.forks,(unsigned long long)ST.insts,(unsigned long long)ST.asserts,(unsigned long long)ST.symAsserts,(unsigned long long)ST.viol,(unsigned long long)ST.branches,(unsigned long long)ST.regions,(unsigned long long)ST.maxSyms,(unsigned long long)ST.concretize);
  fprintf(f,"\"z3_queries\":%llu,\"z3_sat\":%llu,\"z3_unsat\":%llu,\"z3_unknown\":%llu,\"cache_hits\":%llu,\"domain_decided\":%llu,\"model_decided\":%llu,\"cross_checked\":%llu,\"z3_time_s\":%.3f,",(unsigned long long)S.st.z3Queries,(unsigned long long)S.st.z3Sat,(unsigned long long)S.st.z3Unsat,(unsigned long long)S.st.z3Unknown,(unsigned long long)S.st.cacheHits,(unsigned long long)S.st.domDecided,(unsigned long long)S.st.modelDecided,(unsigned long long)S.st.crossChecked,S.st.z3Time);
  fprintf(f,"\"reach\":{"); bool first=true; for(auto&p:reach){ fprintf(f,"%s\"%s\":%llu",first?"":",",esc(p.first).c_str(),(unsigned long long)p.second); first=false; }
  fprintf(f,"},\"assert_sites\":{"); first=true; for(auto&p:assertSeen){ fprintf(f,"%s\"%s\":%llu",first?"":",",esc(p.first).c_str(),(unsigned long long)p.second); first=false; }
  fprintf(f,"},\"functions\":{"); first=true; for(auto&p:funcs) if(p.second->inRepo&&p.second->calls){ u32 c=0; for(auto&b:p.second->blocks) c+=b.cover; string nm=demangle(p.second->name); if(nm.size()>160) nm=nm.substr(0,160); fprintf(f,"%s\"%s\":[%llu,%u,%zu]",first?"":",",esc(nm).c_str(),(unsigned long long)p.second->calls,c,p.second->blocks.size()); first=false; }
  fprintf(f,"}}\n"); fclose(f); }
int main(int argc,char**argv){
  string bc; for(int i=1;i<argc;i++){ string a=argv[i]; auto nx=[&](){ if(i+1>=argc) engine_error("arg"); return string(argv[++i]); };
    if(a=="-o") gOut=nx(); else if(a=="-p"){ string q=nx(); auto e=q.find('='); params[q.substr(0,e)]=strtoull(q.c_str()+e+1,0,0); } else if(a=="-j") gWorkers=atoi(nx().c_str()); else if(a=="-steps") gMaxSteps=strtoull(nx().c_str(),0,0); else if(a=="-deadline") gDeadline=atof(nx().c_str()); else if(a=="-forks") gForkTrace=true; else if(a=="-trace") gTrace=true; else if(a=="-noregion") noRegion=true; else if(a=="-seed") gRandSeed=strtoull(nx().c_str(),0,0); else if(a=="-samples") gSamples=strtoull(nx().c_str(),0,0); else if(a=="-maxviol") gMaxViol=atoi(nx().c_str()); else if(a=="-z3timeout") S.timeoutMs=atoi(nx().c_str()); else bc=a; }
  double t0=nowS(); if(gDeadline>0) gDeadline+=t0;
  SMDiagnostic err; M=parseIRFile(bc,err,LC); if(!M){ err.print("symex",errs()); return 3; } DL=&M->getDataLayout();
  State*s=new State; cur=s; initGlobals(*s);
  // global constructors (concrete)
  vector<std::pair<u64,Function*>> ctors; if(auto*G=M->getGlobalVariable("llvm.global_ctors")) if(auto*A=dyn_cast<ConstantArray>(G->getInitializer())) for(auto&o:A->operands()){ auto*st=cast<ConstantStruct>(o); if(auto*F=dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(),F}); }
  std::stable_sort(ctors.begin(),ctors.end(),[](auto&a,auto&b){return a.first<b.first;});
  try{ for(auto&c:ctors){ s->done=false; pushCall(*s,getFunc(c.second),{},0); while(!s->done) step(*s); } } catch(Kill&){ engine_error("global constructor failed"); }
  if(!work.empty()) engine_error("fork in constructors");
  s->done=false; s->steps=0; Function*MF=M->getFunction("sym_main"); if(!MF) engine_error("no sym_main");
  for(auto&p:funcs) p.second->calls=0; for(auto&p:funcs) for(auto&b:p.second->blocks) b.cover=0;
  pushCall(*s,getFunc(MF),{},0);
  // breadth-first seeding
  std::deque<State*> q; q.push_back(s); u64 target=gWorkers<=1?1ull<<60:(u64)gWorkers*48; bool complete=true; double seedStart=nowS();
  if(gWorkers<=1){ while(!q.empty()){ State*x=q.back(); q.pop_back(); runState(x); while(!work.empty()){ q.push_back(work.back()); work.pop_back(); } if(gDeadline&&nowS()>gDeadline){ complete=false; break; } } writeResult(gOut+"/res_0.json",complete&&!gIncomplete); return 0; }
  // run states up to their first forks until enough seeds: a state runs until it forks
  while(!q.empty()&&q.size()<target&&!(nowS()-seedStart>2&&(int)q.size()>=2*gWorkers)){ State*x=q.front(); q.pop_front(); cur=x; bool dead=false; (void)seedStart;
    try{ while(!x->done&&work.empty()) step(*x); if(x->done){ ST.paths++; samplePath(*x); dead=true; } }
    catch(Kill&k){ if(k.why==K_ASSUME) ST.assumed++; else if(k.why==K_STOP){ ST.stopped++; samplePath(*x);} dead=true; }
    cur=nullptr; for(auto*n:work) q.push_back(n); work.clear(); if(dead) delete x; else q.push_back(x);
    if(gDeadline&&nowS()>gDeadline){ complete=false; break; } }
  writeResult(gOut+"/res_0.json",complete&&!gIncomplete); if(q.empty()||!complete) return 0;
  // workers
  Shared*sh=(Shared*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); new(sh) Shared; sh->next=0; vector<State*> seeds(q.begin(),q.end());
  { u64 h=gRandSeed*0x9E3779B97F4A7C15ull+1; for(size_t i=seeds.size();i>1;i--){ h^=h<<13;h^=h>>7;h^=h<<17; std::swap(seeds[i-1],seeds[h%i]); } }
  S.st=SolverStats{}; ST=Stats{}; reach.clear(); assertSeen.clear(); for(auto&p:funcs){ p.second->calls=0; for(auto&b:p.second->blocks) b.cover=0; }
  // work sharing through a pipe-less scheme: seeds are claimed from a shared counter
  // a worker that is left with the last big subtrees shares them: it forks a helper, which takes the older half of its states
  sh->running=gWorkers; sh->ids=gWorkers;
  auto reset=[&]{ S.ctx=nullptr; S.st=SolverStats{}; ST=Stats{}; reach.clear(); assertSeen.clear(); for(auto&p:funcs){ p.second->calls=0; for(auto&b:p.second->blocks) b.cover=0; } };
  auto worker=[&](int w,vector<State*> st,bool claim)->void{ gWorkerId=w; bool comp=true; vector<pid_t> kids; double last=nowS(); u64 i=0;
    for(;;){ if(st.empty()){ if(!claim||(i=sh->next++)>=seeds.size()) break; st.push_back(seeds[i]); }
      State*x=st.back(); st.pop_back(); runState(x); while(!work.empty()){ st.push_back(work.back()); work.pop_back(); }
      if(gDeadline&&nowS()>gDeadline){ if(!st.empty()||(claim&&sh->next<seeds.size())) comp=false; break; }
      if(st.size()>=2&&sh->running<(u64)gWorkers&&nowS()-last>0.3){ size_t h=st.size()/2; sh->running++; int id=(int)++sh->ids; pid_t p=fork();
        if(p==0){ reset(); kids.clear(); vector<State*> mine(st.begin(),st.begin()+h); st.swap(mine); claim=false; comp=true; gWorkerId=id; gSamples=std::min<u64>(gSamples,1); last=nowS(); continue; }
        if(p<0) sh->running--; else { kids.push_back(p); for(size_t k=0;k<h;k++) delete st[k]; st.erase(st.begin(),st.begin()+h); } last=nowS(); } }
    writeResult(gOut+"/res_"+std::to_string(gWorkerId)+".json",comp&&!gIncomplete); sh->running--;
    int rc=0; for(auto p:kids){ int st; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)) rc=WIFEXITED(st)?WEXITSTATUS(st):4; } _exit(rc); };
  vector<pid_t> pids; for(int w=1;w<=gWorkers;w++){ pid_t p=fork(); if(p==0){ S.ctx=nullptr; worker(w,{},true); } pids.push_back(p); }
  int rc=0; for(auto p:pids){ int st; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)) rc=WIFEXITED(st)?WEXITSTATUS(st):4; }
  return rc; }
