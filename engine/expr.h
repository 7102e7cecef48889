// Hash-consed bit-vector expressions (widths 1..64) with strong bit-field normalisation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unordered_map>
#include <map>
#include <string>
#include <vector>
#include <algorithm>
#include <cmath>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;
typedef unsigned __int128 u128;

enum Op : u8 { CONST, SYM, TBL, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, SLT, ITE, CONCAT, EXTRACT, SEXT, NOT, FOLT, FOLE, FOEQ, FUNO, SITOFP, UITOFP, FADD, FSUB, FMUL, FDIV, FPTOSI, FPTOUI, FPCVT, FCEIL, FFLOOR, FTRUNC, NOPS };

struct Support { std::vector<u32> v; };

struct Expr {
  Op op; u8 w; u8 lo; u8 fp;   // fp: contains floating point operators
  u32 id;
  u64 c;                // CONST value, SYM ordinal, TBL table id
  Expr *a,*b,*d;
  Expr *canon;
  const Support* sup;
  u64 memo; u32 epoch; u32 hash;
};

static inline u64 MASK(unsigned w){ return w>=64? ~0ull : ((1ull<<w)-1); }
static inline i64 SEX(u64 v,unsigned w){ if(w>=64) return (i64)v; u64 m=1ull<<(w-1); v&=MASK(w); return (i64)((v^m)-m); }

[[noreturn]] void engine_error(const char* fmt,...);

struct Table { std::vector<u64> v; u8 w; u8 sw; };

struct ExprCtx {
  std::vector<Expr*> ht; size_t count=0;
  std::vector<Table> tables;
  std::map<std::vector<u64>,u32> tblIndex;
  std::map<std::vector<u32>,Support*> sups;
  std::unordered_map<u64,const Support*> unionCache;
  const Support* emptySup;
  u32 epoch=0;
  char* arena=nullptr; size_t left=0;
  ExprCtx(){ ht.assign(1<<16,nullptr); emptySup=internSup({}); }
  const Support* internSup(const std::vector<u32>& v){ auto&p=sups[v]; if(!p){p=new Support{v};} return p; }
  const Support* unite(const Support*x,const Support*y){
    if(x==y||y==emptySup) return x; if(x==emptySup) return y;
    if(x>y) std::swap(x,y);
    u64 k=((u64)x*0x9E3779B97F4A7C15ull)^((u64)y*0xC2B2AE3D27D4EB4Full);
    auto it=unionCache.find(k); if(it!=unionCache.end()) return it->second;
    std::vector<u32> r; std::set_union(x->v.begin(),x->v.end(),y->v.begin(),y->v.end(),std::back_inserter(r));
    return unionCache[k]=internSup(r);
  }
  Expr* alloc(){ if(left<sizeof(Expr)){ left=sizeof(Expr)*8192; arena=(char*)malloc(left);} Expr*e=(Expr*)arena; arena+=sizeof(Expr); left-=sizeof(Expr); return e; }
  static u32 hashOf(Op op,u8 w,u8 lo,u64 c,Expr*a,Expr*b,Expr*d){
    u64 h=((u64)op<<16|(u64)w<<8|lo)*0x9E3779B97F4A7C15ull; h^=c*0xC2B2AE3D27D4EB4Full; h=(h<<23)|(h>>41);
    if(a) h^=(u64)(a->id+1)*0x165667B19E3779F9ull; h=(h<<23)|(h>>41);
    if(b) h^=(u64)(b->id+1)*0x27D4EB2F165667C5ull; h=(h<<23)|(h>>41);
    if(d) h^=(u64)(d->id+1)*0x85EBCA77C2B2AE63ull; h*=0x9E3779B97F4A7C15ull; return (u32)(h>>32);
  }
  Expr* raw(Op op,u8 w,u8 lo,u64 c,Expr*a,Expr*b,Expr*d){
    u32 h=hashOf(op,w,lo,c,a,b,d); size_t m=ht.size()-1, i=h&m;
    while(ht[i]){ Expr*e=ht[i]; if(e->hash==h&&e->op==op&&e->w==w&&e->lo==lo&&e->c==c&&e->a==a&&e->b==b&&e->d==d) return e; i=(i+1)&m; }
    Expr*e=alloc(); *e=Expr{}; e->op=op;e->w=w;e->lo=lo;e->c=c;e->a=a;e->b=b;e->d=d;e->hash=h;e->id=(u32)count++;
    e->fp=(op>=FOLT)||(a&&a->fp)||(b&&b->fp)||(d&&d->fp);
    const Support*s=emptySup; if(op==SYM) s=internSup({(u32)c}); else { if(a)s=unite(s,a->sup); if(b)s=unite(s,b->sup); if(d)s=unite(s,d->sup);} e->sup=s;
    ht[i]=e;
    if(count*2>ht.size()){ std::vector<Expr*> old(ht.size()*2,nullptr); old.swap(ht); size_t mm=ht.size()-1; for(auto*x:old) if(x){ size_t j=x->hash&mm; while(ht[j]) j=(j+1)&mm; ht[j]=x; } }
    return e;
  }
  u32 internTable(const std::vector<u64>& v,u8 w,u8 sw){ std::vector<u64> k=v; k.push_back(w); k.push_back(sw); auto it=tblIndex.find(k); if(it!=tblIndex.end()) return it->second; u32 id=(u32)tables.size(); tables.push_back({v,w,sw}); tblIndex[k]=id; return id; }
};
extern ExprCtx X;
bool isC(Expr*e);
Expr* mkConst(unsigned w,u64 c);
Expr* mkSym(u32 n,unsigned w);
Expr* mkTbl(Expr*sym,const std::vector<u64>&vals,unsigned w);
Expr* mkNot(Expr*);
Expr* mkAnd(Expr*,Expr*); Expr* mkOr(Expr*,Expr*); Expr* mkXor(Expr*,Expr*);
Expr* mkAdd(Expr*,Expr*); Expr* mkSub(Expr*,Expr*); Expr* mkMul(Expr*,Expr*);
Expr* mkDiv(Op,Expr*,Expr*); Expr* mkShift(Op,Expr*,Expr*);
Expr* mkEq(Expr*,Expr*); Expr* mkUlt(Expr*,Expr*); Expr* mkSlt(Expr*,Expr*);
Expr* mkIte(Expr*,Expr*,Expr*);
Expr* mkConcat(Expr*hi,Expr*lo); Expr* mkConcatL(std::vector<Expr*>& partsHiToLo);
Expr* mkExtract(Expr*,unsigned lo,unsigned w);
Expr* mkZext(Expr*,unsigned w); Expr* mkSext(Expr*,unsigned w);
Expr* mkFp(Op,unsigned w,Expr*,Expr*,unsigned srcw);
u64 foldOp(Op op,unsigned w,u64 a,u64 b,unsigned aw);
u64 evalExpr(Expr*e,const std::vector<u64>& model);
bool unarySym(Expr*e,Expr*&sym);  // expression depends on one symbol of width<=8 only
void unaryTable(Expr*e,Expr*sym,std::vector<u64>& out);
std::string exprStr(Expr*e,int depth=6);
