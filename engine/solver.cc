#include "solver.h"
#include <chrono>
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void onErr(Z3_context c,Z3_error_code e){ engine_error("z3: %s",Z3_get_error_msg(c,e)); }
void Solver::reset(){
  if(ctx){ Z3_solver_dec_ref(ctx,s); Z3_del_context(ctx); }
  Z3_config cfg=Z3_mk_config(); ctx=Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx,onErr);
  s=Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,"QF_BV")); Z3_solver_inc_ref(ctx,s);
  Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),timeoutMs); Z3_solver_set_params(ctx,s,p); Z3_params_dec_ref(ctx,p);
  bvc.clear(); lits.clear(); nlits=0; symAst.clear();
}
Z3_ast Solver::bv(Expr*e){ Z3_ast a=lower(e); if(e->w!=1) return a;
  Z3_sort s1=Z3_mk_bv_sort(ctx,1); Z3_ast r=Z3_mk_ite(ctx,a,Z3_mk_unsigned_int64(ctx,1,s1),Z3_mk_unsigned_int64(ctx,0,s1)); Z3_inc_ref(ctx,r); return r; }
Z3_ast Solver::lower(Expr*e){
  if(e->id>=bvc.size()) bvc.resize(std::max<size_t>(e->id+1,bvc.size()*2),nullptr);
  if(bvc[e->id]) return bvc[e->id];
  Z3_ast r=nullptr; Z3_sort srt=e->w>1?Z3_mk_bv_sort(ctx,e->w):nullptr; auto K=[&](u64 v){return Z3_mk_unsigned_int64(ctx,v,srt);};
  auto B=[&](bool b){return b?Z3_mk_true(ctx):Z3_mk_false(ctx);};
  auto fpof=[&](Expr*x){ Z3_sort fs=x->w==64?Z3_mk_fpa_sort_double(ctx):Z3_mk_fpa_sort_single(ctx); return Z3_mk_fpa_to_fp_bv(ctx,bv(x),fs); };
  auto bvoffp=[&](Z3_ast f){ return Z3_mk_fpa_to_ieee_bv(ctx,f); };
  switch(e->op){
    case CONST: r=e->w==1?B(e->c):K(e->c); break;
    case SYM:{ char n[32]; snprintf(n,32,"s%lu_%d",e->c,e->w); Z3_sort so=e->w==1?Z3_mk_bool_sort(ctx):srt; r=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,n),so); symAst.push_back({e,r}); break; }
    case TBL:{ Expr*sy=e->a; auto t=X.tables[e->c].v; Z3_ast sv=bv(sy); Z3_sort ss=Z3_mk_bv_sort(ctx,sy->w); auto KS=[&](u64 v){return Z3_mk_unsigned_int64(ctx,v,ss);};
      auto inr=[&](u64 l,u64 h){ if(l==h) return Z3_mk_eq(ctx,sv,KS(l)); Z3_ast p[2]; int n=0; if(l>0) p[n++]=Z3_mk_bvuge(ctx,sv,KS(l)); if(h<MASK(sy->w)) p[n++]=Z3_mk_bvule(ctx,sv,KS(h)); if(n==0) return Z3_mk_true(ctx); if(n==1) return p[0]; return Z3_mk_and(ctx,2,p); };
      if(e->w==1){ std::vector<Z3_ast> d; for(size_t i=0;i<t.size();){ if(!t[i]){i++;continue;} size_t j=i; while(j+1<t.size()&&t[j+1]) j++; Z3_ast x=inr(i,j); Z3_inc_ref(ctx,x); d.push_back(x); i=j+1; } r=d.empty()?Z3_mk_false(ctx): d.size()==1? d[0]:Z3_mk_or(ctx,d.size(),d.data()); }
      else { // runs: constant or affine with slope 1
        struct R{size_t l,h;bool aff;}; std::vector<R> rs; for(size_t i=0;i<t.size();){ size_t j=i; while(j+1<t.size()&&t[j+1]==t[i]) j++; size_t k=i; while(k+1<t.size()&&t[k+1]==t[k]+1) k++; if(k>j){ rs.push_back({i,k,true}); i=k+1;} else { rs.push_back({i,j,false}); i=j+1; } }
        Z3_ast sx; if(e->w==sy->w) sx=sv; else if(e->w>sy->w) sx=Z3_mk_zero_ext(ctx,e->w-sy->w,sv); else sx=Z3_mk_extract(ctx,e->w-1,0,sv); Z3_inc_ref(ctx,sx);
        auto val=[&](R&q){ if(!q.aff) return K(t[q.l]); u64 k=(t[q.l]-q.l)&MASK(e->w); return k? Z3_mk_bvadd(ctx,sx,K(k)):sx; };
        r=val(rs.back()); Z3_inc_ref(ctx,r); for(int i=(int)rs.size()-2;i>=0;i--){ Z3_ast hi=rs[i].h<MASK(sy->w)?Z3_mk_bvule(ctx,sv,KS(rs[i].h)):Z3_mk_true(ctx); Z3_inc_ref(ctx,hi); Z3_ast v=val(rs[i]); Z3_inc_ref(ctx,v); r=Z3_mk_ite(ctx,hi,v,r); Z3_inc_ref(ctx,r);} }
      break; }
    case ADD: r=Z3_mk_bvadd(ctx,bv(e->a),bv(e->b)); break; case SUB: r=Z3_mk_bvsub(ctx,bv(e->a),bv(e->b)); break; case MUL: r=Z3_mk_bvmul(ctx,bv(e->a),bv(e->b)); break;
    case UDIV: r=Z3_mk_bvudiv(ctx,bv(e->a),bv(e->b)); break; case SDIV: r=Z3_mk_bvsdiv(ctx,bv(e->a),bv(e->b)); break; case UREM: r=Z3_mk_bvurem(ctx,bv(e->a),bv(e->b)); break; case SREM: r=Z3_mk_bvsrem(ctx,bv(e->a),bv(e->b)); break;
    case AND: if(e->w==1){Z3_ast p[2]={lower(e->a),lower(e->b)}; r=Z3_mk_and(ctx,2,p);} else r=Z3_mk_bvand(ctx,bv(e->a),bv(e->b)); break;
    case OR: if(e->w==1){Z3_ast p[2]={lower(e->a),lower(e->b)}; r=Z3_mk_or(ctx,2,p);} else r=Z3_mk_bvor(ctx,bv(e->a),bv(e->b)); break;
    case XOR: if(e->w==1) r=Z3_mk_xor(ctx,lower(e->a),lower(e->b)); else r=Z3_mk_bvxor(ctx,bv(e->a),bv(e->b)); break;
    case SHL: r=Z3_mk_bvshl(ctx,bv(e->a),bv(e->b)); break; case LSHR: r=Z3_mk_bvlshr(ctx,bv(e->a),bv(e->b)); break; case ASHR: r=Z3_mk_bvashr(ctx,bv(e->a),bv(e->b)); break;
    case EQ: r=Z3_mk_eq(ctx,lower(e->a),lower(e->b)); break; case ULT: r=Z3_mk_bvult(ctx,bv(e->a),bv(e->b)); break; case SLT: r=Z3_mk_bvslt(ctx,bv(e->a),bv(e->b)); break;
    case ITE: r=Z3_mk_ite(ctx,lower(e->a),lower(e->b),lower(e->d)); break;
    case CONCAT: r=Z3_mk_concat(ctx,bv(e->a),bv(e->b)); break;
    case EXTRACT: r=Z3_mk_extract(ctx,e->lo+e->w-1,e->lo,bv(e->a)); if(e->w==1){ Z3_inc_ref(ctx,r); r=Z3_mk_eq(ctx,r,Z3_mk_unsigned_int64(ctx,1,Z3_mk_bv_sort(ctx,1))); } break;
    case SEXT: r=Z3_mk_sign_ext(ctx,e->w-e->a->w,bv(e->a)); break;
    case NOT: r=Z3_mk_not(ctx,lower(e->a)); break;
    case FOLT: r=Z3_mk_fpa_lt(ctx,fpof(e->a),fpof(e->b)); break; case FOLE: r=Z3_mk_fpa_leq(ctx,fpof(e->a),fpof(e->b)); break; case FOEQ: r=Z3_mk_fpa_eq(ctx,fpof(e->a),fpof(e->b)); break;
    case FUNO:{ Z3_ast p[2]={Z3_mk_fpa_is_nan(ctx,fpof(e->a)),Z3_mk_fpa_is_nan(ctx,fpof(e->b))}; r=Z3_mk_or(ctx,2,p); break; }
    case FADD: r=bvoffp(Z3_mk_fpa_add(ctx,Z3_mk_fpa_rne(ctx),fpof(e->a),fpof(e->b))); break;
    case FSUB: r=bvoffp(Z3_mk_fpa_sub(ctx,Z3_mk_fpa_rne(ctx),fpof(e->a),fpof(e->b))); break;
    case FMUL: r=bvoffp(Z3_mk_fpa_mul(ctx,Z3_mk_fpa_rne(ctx),fpof(e->a),fpof(e->b))); break;
    case FDIV: r=bvoffp(Z3_mk_fpa_div(ctx,Z3_mk_fpa_rne(ctx),fpof(e->a),fpof(e->b))); break;
    case SITOFP: r=bvoffp(Z3_mk_fpa_to_fp_signed(ctx,Z3_mk_fpa_rne(ctx),bv(e->a),e->w==64?Z3_mk_fpa_sort_double(ctx):Z3_mk_fpa_sort_single(ctx))); break;
    case UITOFP: r=bvoffp(Z3_mk_fpa_to_fp_unsigned(ctx,Z3_mk_fpa_rne(ctx),bv(e->a),e->w==64?Z3_mk_fpa_sort_double(ctx):Z3_mk_fpa_sort_single(ctx))); break;
    case FPTOUI: r=Z3_mk_fpa_to_ubv(ctx,Z3_mk_fpa_rtz(ctx),fpof(e->a),e->w); break;
    case FPCVT: r=bvoffp(Z3_mk_fpa_to_fp_float(ctx,Z3_mk_fpa_rne(ctx),fpof(e->a),e->w==64?Z3_mk_fpa_sort_double(ctx):Z3_mk_fpa_sort_single(ctx))); break;
    case FCEIL: r=bvoffp(Z3_mk_fpa_round_to_integral(ctx,Z3_mk_fpa_rtp(ctx),fpof(e->a))); break;
    case FFLOOR: r=bvoffp(Z3_mk_fpa_round_to_integral(ctx,Z3_mk_fpa_rtn(ctx),fpof(e->a))); break;
    case FTRUNC: r=bvoffp(Z3_mk_fpa_round_to_integral(ctx,Z3_mk_fpa_rtz(ctx),fpof(e->a))); break;
    case FPTOSI: r=Z3_mk_fpa_to_sbv(ctx,Z3_mk_fpa_rtz(ctx),fpof(e->a),e->w); break;
    default: engine_error("lower: op %d",e->op);
  }
  Z3_inc_ref(ctx,r); if(e->id>=bvc.size()) bvc.resize(e->id+1,nullptr); bvc[e->id]=r; return r;
}
int Solver::check(std::vector<Expr*> cs,std::vector<std::pair<u32,u64>>&model){
  std::sort(cs.begin(),cs.end(),[](Expr*a,Expr*b){return a->id<b->id;}); cs.erase(std::unique(cs.begin(),cs.end()),cs.end());
  std::string key; key.reserve(cs.size()*4); for(auto*e:cs) key.append((char*)&e->id,4);
  auto it=cache.find(key); if(it!=cache.end()){ st.cacheHits++; model=it->second.second; return it->second.first; }
  bool fp=false; for(auto*e:cs) fp|=e->fp;
  if(!ctx||nlits>4000) reset();
  double t0=now(); Z3_lbool r; Z3_model m=nullptr; st.z3Queries++;
  Z3_solver use=s;
  if(fp){ use=Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx,use); Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),timeoutMs); Z3_solver_set_params(ctx,use,p); Z3_params_dec_ref(ctx,p);
    for(auto*e:cs) Z3_solver_assert(ctx,use,lower(e)); r=Z3_solver_check(ctx,use); }
  else {
    std::vector<Z3_ast> as; for(auto*e:cs){ if(e->id>=lits.size()) lits.resize(std::max<size_t>(e->id+1,lits.size()*2),nullptr); if(!lits[e->id]){ Z3_ast b=lower(e); char n[32]; snprintf(n,32,"p%u",e->id); Z3_ast l=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,n),Z3_mk_bool_sort(ctx)); Z3_inc_ref(ctx,l); Z3_ast im=Z3_mk_implies(ctx,l,b); Z3_solver_assert(ctx,s,im); lits[e->id]=l; nlits++; } as.push_back(lits[e->id]); }
    r=Z3_solver_check_assumptions(ctx,s,as.size(),as.data()); }
  int res= r==Z3_L_TRUE?1: r==Z3_L_FALSE?0:-1;
  model.clear();
  if(res==1){ m=Z3_solver_get_model(ctx,use); Z3_model_inc_ref(ctx,m); std::vector<u32> syms; { const Support*S=X.emptySup; for(auto*e:cs) S=X.unite(S,e->sup); syms=S->v; }
    std::map<u32,Z3_ast> av; for(auto&p:symAst) if(std::binary_search(syms.begin(),syms.end(),(u32)p.first->c)) { bool used=true; Z3_ast v; u64 k=0; if(used&&Z3_model_eval(ctx,m,p.second,true,&v)){ if(p.first->w==1){ k=Z3_get_bool_value(ctx,v)==Z3_L_TRUE; } else { uint64_t kk=0; Z3_get_numeral_uint64(ctx,v,&kk); k=kk; } model.push_back({(u32)p.first->c,k}); } }
    Z3_model_dec_ref(ctx,m); }
  if(fp) Z3_solver_dec_ref(ctx,use);
  st.z3Time+=now()-t0; if(res==1)st.z3Sat++; else if(res==0)st.z3Unsat++; else st.z3Unknown++;
  if(cache.size()>200000) cache.clear();
  cache[key]={res,model}; return res;
}
