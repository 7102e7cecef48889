#include "expr.h"
#include <cstdarg>
ExprCtx X;
static std::vector<Expr*> symNode; // ordinal -> SYM node last seen per (ordinal,width): resolved via tree walk instead
bool isC(Expr*e){return e->op==CONST;}
Expr* mkConst(unsigned w,u64 c){ return X.raw(CONST,w,0,c&MASK(w),0,0,0); }
Expr* mkSym(u32 n,unsigned w){ return X.raw(SYM,w,0,n,0,0,0); }

u64 foldOp(Op op,unsigned w,u64 a,u64 b,unsigned aw){
  u64 m=MASK(w);
  switch(op){
    case ADD:return (a+b)&m; case SUB:return (a-b)&m; case MUL:return (a*b)&m;
    case UDIV:return b? (a/b)&m : m; case UREM:return b? a%b : a;
    case SDIV:{ i64 x=SEX(a,w),y=SEX(b,w); if(!y) return x>=0? m:1; if(y==-1) return (0-(u64)x)&m; return (u64)(x/y)&m; }
    case SREM:{ i64 x=SEX(a,w),y=SEX(b,w); if(!y) return a; if(y==-1) return 0; return (u64)(x%y)&m; }
    case AND:return a&b; case OR:return a|b; case XOR:return a^b;
    case SHL:return b>=w?0:(a<<b)&m; case LSHR:return b>=w?0:(a>>b);
    case ASHR:return (u64)(SEX(a,w)>>(b>=w?w-1:b))&m;
    case EQ:return a==b; case ULT:return a<b; case SLT:return SEX(a,aw)<SEX(b,aw);
    case FOLT: case FOLE: case FOEQ: case FUNO: { double x,y; if(aw==64){memcpy(&x,&a,8);memcpy(&y,&b,8);} else {float f,g; u32 p=a,q=b; memcpy(&f,&p,4);memcpy(&g,&q,4);x=f;y=g;}
      return op==FOLT? x<y : op==FOLE? x<=y : op==FOEQ? x==y : (std::isnan(x)||std::isnan(y)); }
    case FADD: case FSUB: case FMUL: case FDIV: { if(w==64){ double x,y,r; memcpy(&x,&a,8);memcpy(&y,&b,8); r=op==FADD?x+y:op==FSUB?x-y:op==FMUL?x*y:x/y; u64 o; memcpy(&o,&r,8); return o;}
      float x,y,r; u32 p=a,q=b; memcpy(&x,&p,4);memcpy(&y,&q,4); r=op==FADD?x+y:op==FSUB?x-y:op==FMUL?x*y:x/y; u32 o; memcpy(&o,&r,4); return o; }
    case SITOFP: { i64 x=SEX(a,aw); if(w==64){double r=(double)x;u64 o;memcpy(&o,&r,8);return o;} float r=(float)x;u32 o;memcpy(&o,&r,4);return o; }
    case UITOFP: { if(w==64){double r=(double)a;u64 o;memcpy(&o,&r,8);return o;} float r=(float)a;u32 o;memcpy(&o,&r,4);return o; }
    case FPTOSI: { double x; if(aw==64) memcpy(&x,&a,8); else {float f;u32 p=a;memcpy(&f,&p,4);x=f;} return (u64)(i64)x & m; }
    case FPTOUI: { double x; if(aw==64) memcpy(&x,&a,8); else {float f;u32 p=a;memcpy(&f,&p,4);x=f;} return (u64)x & m; }
    case FPCVT: { if(aw==w) return a; if(w==64){ float f;u32 p=a;memcpy(&f,&p,4); double r=f; u64 o;memcpy(&o,&r,8); return o; } double x;memcpy(&x,&a,8); float r=(float)x; u32 o;memcpy(&o,&r,4); return o; }
    case FCEIL: case FFLOOR: case FTRUNC: { if(w==64){ double x;memcpy(&x,&a,8); x=op==FCEIL?std::ceil(x):op==FFLOOR?std::floor(x):std::trunc(x); u64 o;memcpy(&o,&x,8); return o; } float x;u32 p=a;memcpy(&x,&p,4); x=op==FCEIL?std::ceil(x):op==FFLOOR?std::floor(x):std::trunc(x); u32 o;memcpy(&o,&x,4); return o; }
    default: abort();
  }
}

static u64 evalRec(Expr*e,const std::vector<u64>&m){
  if(e->op==CONST) return e->c;
  if(e->op==SYM) return e->c<m.size()? m[e->c]&MASK(e->w):0;
  if(e->epoch==X.epoch) return e->memo;
  u64 r;
  switch(e->op){
    case TBL:{ u64 i=evalRec(e->a,m); r=X.tables[e->c].v[i]; break; }
    case ITE: r=evalRec(e->a,m)? evalRec(e->b,m):evalRec(e->d,m); break;
    case CONCAT: r=(evalRec(e->a,m)<<e->b->w)|evalRec(e->b,m); break;
    case EXTRACT: r=(evalRec(e->a,m)>>e->lo)&MASK(e->w); break;
    case SEXT: r=(u64)SEX(evalRec(e->a,m),e->a->w)&MASK(e->w); break;
    case NOT: r=!evalRec(e->a,m); break;
    case SITOFP: case UITOFP: case FPTOSI: case FPTOUI: case FPCVT: case FCEIL: case FFLOOR: case FTRUNC: r=foldOp(e->op,e->w,evalRec(e->a,m),0,e->a->w); break;
    default: r=foldOp(e->op,e->w,evalRec(e->a,m),evalRec(e->b,m),e->a->w);
  }
  e->memo=r; e->epoch=X.epoch; return r;
}
u64 evalExpr(Expr*e,const std::vector<u64>&m){ X.epoch++; return evalRec(e,m); }

static Expr* findSym(Expr*e){ // e has single symbol support
  while(e->op!=SYM){ if(e->a&&e->a->sup!=X.emptySup) e=e->a; else if(e->b&&e->b->sup!=X.emptySup) e=e->b; else e=e->d; }
  return e;
}
bool unarySym(Expr*e,Expr*&sym){
  if(e->sup->v.size()!=1) return false; sym=findSym(e); return sym->w<=8 && !e->fp;
}
void unaryTable(Expr*e,Expr*sym,std::vector<u64>&out){
  size_t n=1ull<<sym->w; out.resize(n);
  if(e->op==TBL && e->a==sym){ out=X.tables[e->c].v; return; }
  std::vector<u64> m(sym->c+1,0);
  for(size_t i=0;i<n;i++){ m[sym->c]=i; out[i]=evalExpr(e,m); }
}
Expr* mkTbl(Expr*sym,const std::vector<u64>&vals,unsigned w){
  bool allc=true,ident=true; for(size_t i=0;i<vals.size();i++){ if(vals[i]!=vals[0]) allc=false; if(vals[i]!=i) ident=false; }
  if(allc) return mkConst(w,vals[0]);
  if(ident && w==sym->w) return sym;
  if(w>8){ // trim leading zeros
    u64 mx=0; for(u64 v:vals) mx|=v; unsigned need=64-__builtin_clzll(mx);
    if(need<w){ Expr*t=mkTbl(sym,vals,need); return mkConcat(mkConst(w-need,0),t); }
  }
  if(ident && w<sym->w) {}
  u32 id=X.internTable(vals,w,sym->w);
  return X.raw(TBL,w,0,id,sym,0,0);
}
static Expr* canon(Expr*e){
  if(e->op==CONST||e->op==SYM||e->op==TBL) return e;
  if(e->w>8) return e;
  if(e->canon) return e->canon;
  Expr*s;
  if(!unarySym(e,s)) { e->canon=e; return e; }
  std::vector<u64> t; unaryTable(e,s,t); Expr*r=mkTbl(s,t,e->w); e->canon=r; return r;
}
static inline Expr* N(Op op,unsigned w,Expr*a,Expr*b=nullptr,Expr*d=nullptr,unsigned lo=0){ return canon(X.raw(op,w,lo,0,a,b,d)); }

static void partsOf(Expr*e,std::vector<Expr*>&out){ while(e->op==CONCAT){ partsOf(e->a,out); e=e->b; } out.push_back(e); }

Expr* mkConcatL(std::vector<Expr*>&in){
  std::vector<Expr*> p; unsigned total=0; for(auto*e:in){ if(e->op==CONCAT) partsOf(e,p); else p.push_back(e); total+=e->w; }
  if(total>64) engine_error("concat too wide");
  // trim unary tables with zero top bits when the whole is wider than 8
  std::vector<Expr*> q;
  for(auto*e:p){
    if(total>8 && e->op==TBL){ u64 mx=0; for(u64 v:X.tables[e->c].v) mx|=v; unsigned need=mx?64-__builtin_clzll(mx):1; if(need<e->w){ q.push_back(mkConst(e->w-need,0)); std::vector<u64> t=X.tables[e->c].v; Expr*n=mkTbl(e->a,t,need); q.push_back(n); continue; } }
    q.push_back(e);
  }
  std::vector<Expr*> r;
  for(auto*e:q){
    while(true){
      if(r.empty()) break; Expr*h=r.back(); Expr*m=nullptr;
      if(isC(h)&&isC(e)) m=mkConst(h->w+e->w,(h->c<<e->w)|e->c);
      else if(h->op==EXTRACT&&e->op==EXTRACT&&h->a==e->a&&h->lo==e->lo+e->w) m=mkExtract(e->a,e->lo,h->w+e->w);
      else if(h->op==EXTRACT&&h->lo==e->w&&(h->a->op==ADD||h->a->op==SUB||h->a->op==MUL)&&mkExtract(h->a,0,e->w)==e) m=mkExtract(h->a,0,h->w+e->w);
      else if(h->w+e->w<=8 && !isC(h) && !isC(e) && h->sup==e->sup && h->sup->v.size()==1){ Expr*s,*s2; if(unarySym(h,s)&&unarySym(e,s2)&&s==s2) m=canon(X.raw(CONCAT,h->w+e->w,0,0,h,e,0)); }
      if(!m) break; r.pop_back(); e=m;
      if(e->op==CONCAT) break;
    }
    r.push_back(e);
  }
  Expr*res=r.back(); for(int i=(int)r.size()-2;i>=0;i--) res=X.raw(CONCAT,r[i]->w+res->w,0,0,r[i],res,0);
  return canon(res);
}
Expr* mkConcat(Expr*hi,Expr*lo){ std::vector<Expr*> v{hi,lo}; return mkConcatL(v); }
Expr* mkZext(Expr*e,unsigned w){ if(w==e->w) return e; return mkConcat(mkConst(w-e->w,0),e); }
static bool topZero(Expr*e){ while(e->op==CONCAT) e=e->a; if(isC(e)) return !(e->c>>(e->w-1)); return false; }
Expr* mkSext(Expr*e,unsigned w){
  if(w==e->w) return e; if(isC(e)) return mkConst(w,(u64)SEX(e->c,e->w));
  if(topZero(e)) return mkZext(e,w);
  if(e->op==SEXT) return mkSext(e->a,w);
  if(e->op==TBL){ bool tz=true; for(u64 v:X.tables[e->c].v) if(v>>(e->w-1)) tz=false; if(tz) return mkZext(e,w); }
  if(e->op==ITE && (isC(e->b)||isC(e->d))) return mkIte(e->a,mkSext(e->b,w),mkSext(e->d,w));
  return N(SEXT,w,e);
}
Expr* mkExtract(Expr*e,unsigned lo,unsigned w){
  if(lo==0&&w==e->w) return e;
  if(lo+w>e->w) engine_error("bad extract");
  switch(e->op){
    case CONST: return mkConst(w,e->c>>lo);
    case EXTRACT: return mkExtract(e->a,e->lo+lo,w);
    case CONCAT: { std::vector<Expr*> p; partsOf(e,p); std::vector<Expr*> out; unsigned pos=e->w;
      for(auto*x:p){ unsigned xl=pos-x->w, xh=pos; pos=xl; unsigned l=std::max(xl,lo),h=std::min(xh,lo+w); if(l<h) out.push_back(mkExtract(x,l-xl,h-l)); }
      return mkConcatL(out); }
    case SEXT: if(lo+w<=e->a->w) return mkExtract(e->a,lo,w); if(lo<e->a->w) return mkSext(mkExtract(e->a,lo,e->a->w-lo),w); return mkSext(mkExtract(e->a,e->a->w-1,1),w);
    case ITE: if(isC(e->b)||isC(e->d)) return mkIte(e->a,mkExtract(e->b,lo,w),mkExtract(e->d,lo,w)); break;
    case AND: return mkAnd(mkExtract(e->a,lo,w),mkExtract(e->b,lo,w));
    case OR: return mkOr(mkExtract(e->a,lo,w),mkExtract(e->b,lo,w));
    case XOR: return mkXor(mkExtract(e->a,lo,w),mkExtract(e->b,lo,w));
    case ADD: if(lo==0) return mkAdd(mkExtract(e->a,0,w),mkExtract(e->b,0,w)); break;
    case SUB: if(lo==0) return mkSub(mkExtract(e->a,0,w),mkExtract(e->b,0,w)); break;
    case MUL: if(lo==0) return mkMul(mkExtract(e->a,0,w),mkExtract(e->b,0,w)); break;
    default: break;
  }
  if(e->op==TBL){ std::vector<u64> t=X.tables[e->c].v; for(auto&v:t) v=(v>>lo)&MASK(w); return mkTbl(e->a,t,w); }
  return N(EXTRACT,w,e,0,0,lo);
}
Expr* mkNot(Expr*e){
  if(isC(e)) return mkConst(1,!e->c); if(e->op==NOT) return e->a;
  if(e->op==TBL){ std::vector<u64> t=X.tables[e->c].v; for(auto&v:t) v=!v; return mkTbl(e->a,t,1); }
  return N(NOT,1,e);
}
// segment-wise bit operation; returns nullptr when not applicable
static Expr* segOp(Op op,Expr*a,Expr*b){
  if(a->op!=CONCAT&&b->op!=CONCAT&&!isC(a)&&!isC(b)) return nullptr;
  std::vector<Expr*> pa,pb; partsOf(a,pa); partsOf(b,pb);
  bool anyc=false; for(auto*x:pa) if(isC(x)) anyc=true; for(auto*x:pb) if(isC(x)) anyc=true;
  if(!anyc) return nullptr;
  std::vector<unsigned> cuts{0,a->w}; unsigned pos=a->w; 
  auto addc=[&](std::vector<Expr*>&p){ unsigned q=a->w; for(auto*x:p){ q-=x->w; cuts.push_back(q); if(isC(x)){ // runs of bits
        for(unsigned i=1;i<x->w;i++) if(((x->c>>i)^(x->c>>(i-1)))&1) cuts.push_back(q+i); } } };
  addc(pa); addc(pb); (void)pos;
  std::sort(cuts.begin(),cuts.end()); cuts.erase(std::unique(cuts.begin(),cuts.end()),cuts.end());
  if(cuts.size()>26) return nullptr;
  std::vector<Expr*> out; bool simp=false;
  for(int i=(int)cuts.size()-2;i>=0;i--){ unsigned lo=cuts[i],w=cuts[i+1]-lo; Expr*x=mkExtract(a,lo,w),*y=mkExtract(b,lo,w);
    if(isC(x)) std::swap(x,y);
    if(isC(y)){ bool z=y->c==0,o=y->c==MASK(w);
      if(z||o){ simp=true; if(op==OR) out.push_back(z?x:y); else if(op==AND) out.push_back(z?y:x); else if(z) out.push_back(x); else if(isC(x)) out.push_back(mkConst(w,x->c^y->c)); else out.push_back(w==1?mkNot(x):N(XOR,w,x,y)); continue; }
      if(isC(x)){ out.push_back(mkConst(w,foldOp(op,w,x->c,y->c,w))); continue; } }
    out.push_back(x==y? (op==XOR?mkConst(w,0):x) : N(op,w,x->id<y->id?x:y,x->id<y->id?y:x)); }
  if(!simp) return nullptr;
  return mkConcatL(out);
}
static Expr* bitop(Op op,Expr*a,Expr*b){
  unsigned w=a->w; if(isC(a)&&isC(b)) return mkConst(w,foldOp(op,w,a->c,b->c,w));
  if(isC(a)) std::swap(a,b);
  if(a==b) return op==XOR? mkConst(w,0):a;
  if(isC(b)){ if(b->c==0) return op==AND?b:a; if(b->c==MASK(w)){ if(op==AND) return a; if(op==OR) return b; if(w==1) return mkNot(a);} }
  if(w==1){ // boolean simplifications
    if(op==XOR){ if(a->op==NOT) return mkNot(bitop(XOR,a->a,b)); if(b->op==NOT) return mkNot(bitop(XOR,a,b->a)); }
    else { if((a->op==NOT&&a->a==b)||(b->op==NOT&&b->a==a)) return mkConst(1,op==OR);
      // absorb: AND(a, AND(a,x))
      if(a->op==op&&(a->a==b||a->b==b)) return a; if(b->op==op&&(b->a==a||b->b==a)) return b;
      // merge unary pieces of the same symbol inside a chain
      if(b->op==TBL && a->op==op){ if(a->a->op==TBL&&a->a->a==b->a) return bitop(op,bitop(op,a->a,b),a->b); if(a->b->op==TBL&&a->b->a==b->a) return bitop(op,a->a,bitop(op,a->b,b)); }
      if(a->op==TBL && b->op==op){ if(b->a->op==TBL&&b->a->a==a->a) return bitop(op,bitop(op,b->a,a),b->b); if(b->b->op==TBL&&b->b->a==a->a) return bitop(op,b->a,bitop(op,b->b,a)); }
    }
  } else {
    if(Expr*r=segOp(op,a,b)) return r;
    if(isC(b)&&a->op==op&&isC(a->b)) return bitop(op,a->a,mkConst(w,foldOp(op,w,a->b->c,b->c,w)));
    if(a->op==SEXT&&b->op==SEXT&&a->a->w==b->a->w) return mkSext(bitop(op,a->a,b->a),w);
  }
  if(!isC(b)&&a->id>b->id) std::swap(a,b);
  return N(op,w,a,b);
}
Expr* mkAnd(Expr*a,Expr*b){return bitop(AND,a,b);} Expr* mkOr(Expr*a,Expr*b){return bitop(OR,a,b);} Expr* mkXor(Expr*a,Expr*b){return bitop(XOR,a,b);}
// mask of bits that may be nonzero
static u64 mayBits(Expr*e){ switch(e->op){ case CONST:return e->c; case CONCAT:return (mayBits(e->a)<<e->b->w)|mayBits(e->b); case TBL:{u64 m=0;for(u64 v:X.tables[e->c].v)m|=v;return m;} case ITE: return mayBits(e->b)|mayBits(e->d); default:return MASK(e->w);} }
Expr* mkAdd(Expr*a,Expr*b){
  unsigned w=a->w; if(w==1) return mkXor(a,b);
  if(isC(a)&&isC(b)) return mkConst(w,a->c+b->c); if(isC(a)) std::swap(a,b);
  if(isC(b)){ if(b->c==0) return a; if(a->op==ADD&&isC(a->b)) return mkAdd(a->a,mkConst(w,a->b->c+b->c)); }
  if(!(mayBits(a)&mayBits(b))) return mkOr(a,b);
  if(isC(b)&&a->op==ITE&&(isC(a->b)&&isC(a->d))) return mkIte(a->a,mkAdd(a->b,b),mkAdd(a->d,b));
  if(!isC(b)){ if(a->op==ADD&&isC(a->b)) return mkAdd(mkAdd(a->a,b),a->b); if(b->op==ADD&&isC(b->b)) return mkAdd(mkAdd(a,b->a),b->b); if(a->op==SUB&&a->b==b) return a->a; if(b->op==SUB&&b->b==a) return b->a; if(a->id>b->id) std::swap(a,b); }
  // low zero bits of a constant: low part of a unchanged
  if(isC(b)){ unsigned tz=__builtin_ctzll(b->c); if(tz>0&&tz<w&&a->op==CONCAT){ return mkConcat(mkAdd(mkExtract(a,tz,w-tz),mkConst(w-tz,b->c>>tz)),mkExtract(a,0,tz)); } }
  return N(ADD,w,a,b);
}
Expr* mkSub(Expr*a,Expr*b){
  unsigned w=a->w; if(w==1) return mkXor(a,b);
  if(a==b) return mkConst(w,0); if(isC(b)) return mkAdd(a,mkConst(w,0-b->c));
  if(a->op==ADD){ if(a->a==b) return a->b; if(a->b==b) return a->a; if(isC(a->b)) return mkAdd(mkSub(a->a,b),a->b); }
  if(b->op==ADD){ if(b->a==a) return mkSub(mkConst(w,0),b->b); if(isC(b->b)) return mkAdd(mkSub(a,b->a),mkConst(w,0-b->b->c)); }
  if(a->op==SUB&&a->a==b&&isC(a->a)==false){ }
  return N(SUB,w,a,b);
}
Expr* mkMul(Expr*a,Expr*b){
  unsigned w=a->w; if(w==1) return mkAnd(a,b); if(isC(a)&&isC(b)) return mkConst(w,a->c*b->c); if(isC(a)) std::swap(a,b);
  if(isC(b)){ if(b->c==0) return b; if(b->c==1) return a; if(!(b->c&(b->c-1))){ unsigned k=__builtin_ctzll(b->c); return mkConcat(mkExtract(a,0,w-k),mkConst(k,0)); }
    if(a->op==ITE&&isC(a->b)&&isC(a->d)) return mkIte(a->a,mkMul(a->b,b),mkMul(a->d,b)); }
  else if(a->id>b->id) std::swap(a,b);
  return N(MUL,w,a,b);
}
Expr* mkDiv(Op op,Expr*a,Expr*b){
  unsigned w=a->w; if(isC(a)&&isC(b)) return mkConst(w,foldOp(op,w,a->c,b->c,w));
  if(isC(b)&&b->c==1){ if(op==UDIV||op==SDIV) return a; return mkConst(w,0); }
  if(isC(b)&&b->c&&!(b->c&(b->c-1))){ unsigned k=__builtin_ctzll(b->c); if(op==UDIV) return k<w? mkConcat(mkConst(k,0),mkExtract(a,k,w-k)):mkConst(w,0); if(op==UREM) return mkZext(mkExtract(a,0,k),w); }
  return N(op,w,a,b);
}
Expr* mkShift(Op op,Expr*a,Expr*b){
  unsigned w=a->w; if(isC(a)&&isC(b)) return mkConst(w,foldOp(op,w,a->c,b->c,w));
  if(isC(b)){ u64 k=b->c; if(k==0) return a; if(k>=w){ if(op!=ASHR) return mkConst(w,0); k=w-1; }
    if(op==SHL) return mkConcat(mkExtract(a,0,w-k),mkConst(k,0));
    if(op==LSHR) return mkConcat(mkConst(k,0),mkExtract(a,k,w-k));
    return mkSext(mkExtract(a,k,w-k),w); }
  if(isC(a)&&a->c==0) return a;
  if(b->op==ITE&&isC(b->b)&&isC(b->d)) return mkIte(b->a,mkShift(op,a,b->b),mkShift(op,a,b->d));
  return N(op,w,a,b);
}
static void align(Expr*a,Expr*b,std::vector<std::pair<Expr*,Expr*>>&out){ // hi to lo
  std::vector<Expr*> pa,pb; partsOf(a,pa); partsOf(b,pb); std::vector<unsigned> cuts{0,a->w}; unsigned q=a->w; for(auto*x:pa){q-=x->w;cuts.push_back(q);} q=a->w; for(auto*x:pb){q-=x->w;cuts.push_back(q);} 
  std::sort(cuts.begin(),cuts.end()); cuts.erase(std::unique(cuts.begin(),cuts.end()),cuts.end());
  for(int i=(int)cuts.size()-2;i>=0;i--) out.push_back({mkExtract(a,cuts[i],cuts[i+1]-cuts[i]),mkExtract(b,cuts[i],cuts[i+1]-cuts[i])});
}
Expr* mkEq(Expr*a,Expr*b){
  if(a==b) return mkConst(1,1); if(isC(a)&&isC(b)) return mkConst(1,a->c==b->c); if(isC(a)) std::swap(a,b);
  if(a->w==1) return mkNot(mkXor(a,b));
  if(isC(b)){
    if(a->op==ADD&&isC(a->b)) return mkEq(a->a,mkConst(a->w,b->c-a->b->c));
    if(a->op==XOR&&isC(a->b)) return mkEq(a->a,mkConst(a->w,b->c^a->b->c));
    if(a->op==SUB&&b->c==0) return mkEq(a->a,a->b);
    if(a->op==ITE){ if(isC(a->b)||isC(a->d)||a->b->op==ITE||a->d->op==ITE){ Expr*x=mkEq(a->b,b),*y=mkEq(a->d,b); return mkIte(a->a,x,y);} }
    if(a->op==SEXT){ u64 low=b->c&MASK(a->a->w); if(((u64)SEX(low,a->a->w)&MASK(a->w))==b->c) return mkEq(a->a,mkConst(a->a->w,low)); return mkConst(1,0); }
    if((b->c&~mayBits(a))) return mkConst(1,0);
  }
  if(!isC(b)&&a->op==ADD&&b->op==ADD&&isC(a->b)&&isC(b->b)) return mkEq(a->a,mkAdd(b->a,mkConst(a->w,b->b->c-a->b->c)));
  if((a->op==CONCAT&&(isC(b)||b->op==CONCAT))||(b->op==CONCAT&&isC(a))){
    std::vector<std::pair<Expr*,Expr*>> s; align(a,b,s);
    if(s.size()>1){ Expr*r=mkConst(1,1); for(auto&p:s){ if(isC(p.first)&&isC(p.second)&&p.first->c!=p.second->c) return mkConst(1,0); } for(auto&p:s){ r=mkAnd(r,mkEq(p.first,p.second)); if(isC(r)&&!r->c) return r; } return r; } }
  if(!isC(b)&&a->id>b->id) std::swap(a,b);
  return N(EQ,1,a,b);
}
Expr* mkUlt(Expr*a,Expr*b){
  unsigned w=a->w;
  if(a==b) return mkConst(1,0); if(isC(a)&&isC(b)) return mkConst(1,a->c<b->c);
  if(w==1) return mkAnd(mkNot(a),b);
  if(isC(b)){ if(b->c==0) return mkConst(1,0); if(b->c==1) return mkEq(a,mkConst(w,0)); if(b->c==MASK(w)) return mkNot(mkEq(a,b)); if(mayBits(a)<b->c) return mkConst(1,1); }
  if(isC(a)){ if(a->c==MASK(w)) return mkConst(1,0); if(a->c==0) return mkNot(mkEq(b,a)); if(a->c>=mayBits(b)) return mkConst(1,0); }
  if((a->op==CONCAT||isC(a))&&(b->op==CONCAT||isC(b))){
    std::vector<std::pair<Expr*,Expr*>> s; align(a,b,s); size_t i=0,j=s.size();
    while(i<j&&s[i].first==s[i].second) i++;
    if(i==j) return mkConst(1,0);
    if(isC(s[i].first)&&isC(s[i].second)) return mkConst(1,s[i].first->c<s[i].second->c);
    while(j>i&&s[j-1].first==s[j-1].second) j--;
    if(i>0||j<s.size()){ std::vector<Expr*> x,y; for(size_t k=i;k<j;k++){x.push_back(s[k].first);y.push_back(s[k].second);} return mkUlt(mkConcatL(x),mkConcatL(y)); }
    // strip trailing zeros vs anything: a|lo < b|0...0  <=> a < b  ; 
    { auto&l=s.back(); if(isC(l.second)&&l.second->c==0&&s.size()>1){ std::vector<Expr*> x,y; for(size_t k=0;k+1<s.size();k++){x.push_back(s[k].first);y.push_back(s[k].second);} return mkUlt(mkConcatL(x),mkConcatL(y)); } 
      if(isC(l.first)&&l.first->c==MASK(l.first->w)&&s.size()>1){ std::vector<Expr*> x,y; for(size_t k=0;k+1<s.size();k++){x.push_back(s[k].first);y.push_back(s[k].second);} return mkUlt(mkConcatL(x),mkConcatL(y)); } }
  }
  if(isC(b)&&a->op==ITE&&(isC(a->b)||isC(a->d))) return mkIte(a->a,mkUlt(a->b,b),mkUlt(a->d,b));
  if(isC(a)&&b->op==ITE&&(isC(b->b)||isC(b->d))) return mkIte(b->a,mkUlt(a,b->b),mkUlt(a,b->d));
  return N(ULT,1,a,b);
}
Expr* mkSlt(Expr*a,Expr*b){
  unsigned w=a->w; if(a==b) return mkConst(1,0); if(isC(a)&&isC(b)) return mkConst(1,SEX(a->c,w)<SEX(b->c,w));
  if(w==1) return mkAnd(a,mkNot(b));
  if(isC(a)&&b->op==ITE&&(isC(b->b)||isC(b->d))) return mkIte(b->a,mkSlt(a,b->b),mkSlt(a,b->d));
  if(isC(b)&&a->op==ITE&&(isC(a->b)||isC(a->d))) return mkIte(a->a,mkSlt(a->b,b),mkSlt(a->d,b));
  auto nn=[&](Expr*e){ return !((mayBits(e)>>(w-1))&1); };
  auto neg=[&](Expr*e){ return isC(e)&&((e->c>>(w-1))&1); };
  if(nn(a)&&nn(b)) return mkUlt(a,b); if(neg(a)&&nn(b)) return mkConst(1,1); if(nn(a)&&neg(b)) return mkConst(1,0);
  if(isC(b)&&b->c==0) return mkExtract(a,w-1,1); if(isC(a)&&a->c==MASK(w)) return mkNot(mkExtract(b,w-1,1));
  if(a->op==SEXT&&b->op==SEXT&&a->a->w==b->a->w) return mkSlt(a->a,b->a);
  return N(SLT,1,a,b);
}
Expr* mkIte(Expr*c,Expr*a,Expr*b){
  if(isC(c)) return c->c?a:b; if(a==b) return a; if(c->op==NOT) return mkIte(c->a,b,a);
  if(a->w==1){ if(isC(a)) return a->c? mkOr(c,b):mkAnd(mkNot(c),b); if(isC(b)) return b->c? mkOr(mkNot(c),a):mkAnd(c,a); if(a==c) return mkOr(c,b); if(b==c) return mkAnd(c,a); }
  if(a->op==ITE&&a->a==c) a=a->b; if(b->op==ITE&&b->a==c) b=b->d; if(a==b) return a;
  if(b->op==ITE&&b->b==a) return mkIte(mkOr(c,b->a),a,b->d);
  if(a->op==CONCAT&&b->op==CONCAT&&a->b==b->b) return mkConcat(mkIte(c,a->a,b->a),a->b);
  if(a->op==CONCAT&&b->op==CONCAT&&a->a==b->a) return mkConcat(a->a,mkIte(c,a->b,b->b));
  { // common constant prefix of zeros
    u64 m=mayBits(a)|mayBits(b); if(a->w>8&&m){ unsigned need=64-__builtin_clzll(m); if(need<a->w) return mkConcat(mkConst(a->w-need,0),mkIte(c,mkExtract(a,0,need),mkExtract(b,0,need))); } }
  return N(ITE,a->w,c,a,b);
}
Expr* mkFp(Op op,unsigned w,Expr*a,Expr*b,unsigned){ if(isC(a)&&(!b||isC(b))) return mkConst(w,foldOp(op,w,a->c,b?b->c:0,a->w)); return X.raw(op,w,0,0,a,b,0); }
std::string exprStr(Expr*e,int depth){
  static const char*n[]={"c","sym","tbl","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","slt","ite","concat","ext","sext","not","folt","fole","foeq","funo","sitofp","uitofp","fadd","fsub","fmul","fdiv","fptosi","fptoui","fpcvt","fceil","ffloor","ftrunc"};
  char b[64]; if(e->op==CONST){snprintf(b,64,"0x%lx:%d",e->c,e->w);return b;} if(e->op==SYM){snprintf(b,64,"s%lu:%d",e->c,e->w);return b;}
  if(!depth) return "..."; std::string s="("; s+=n[e->op]; if(e->op==EXTRACT){snprintf(b,64,"[%d+%d]",e->lo,e->w);s+=b;} if(e->op==TBL){snprintf(b,64,"#%lu:%d",e->c,e->w);s+=b;}
  for(Expr*x:{e->a,e->b,e->d}) if(x){s+=" ";s+=exprStr(x,depth-1);} return s+")";
}
