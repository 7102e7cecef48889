// natively modelled external functions
struct Native { const char*name; int id; bool fallback; };
enum { N_MALLOC,N_CALLOC,N_REALLOC,N_FREE,N_NEW,N_DELETE,N_MEMCPY,N_MEMSET,N_MEMCMP,N_BCMP,N_STRLEN,N_ASSERT,N_ABORT,N_NOP,N_NOP0,N_EXIT,N_SYMINT,N_SYMBYTES,N_ASSUME,N_SASSERT,N_CHOOSE,N_CONC,N_REACH,N_OBSERVE,N_PARAM,N_FRESH,N_STOP,N_SPRINTF,N_MEMCHR,N_STRCHR,N_GUARD_ACQ,N_ISTRUE,N_ALLCONC,N_STRTOD_C,N_NEWALIGN,N_DOM,N_LOG,N_FMTG,N_SNPRINTF,N_OSTREAM };
static Native natives[]={
  {"malloc",N_MALLOC,0},{"calloc",N_CALLOC,0},{"realloc",N_REALLOC,0},{"free",N_FREE,0},{"_Znwm",N_NEW,0},{"_Znam",N_NEW,0},{"_ZnwmRKSt9nothrow_t",N_NEW,0},{"_ZdlPv",N_DELETE,0},{"_ZdlPvm",N_DELETE,0},{"_ZdaPv",N_DELETE,0},{"_ZdaPvm",N_DELETE,0},{"_ZdlPvRKSt9nothrow_t",N_DELETE,0},
  {"_ZnwmSt11align_val_t",N_NEW,0},{"_ZdlPvmSt11align_val_t",N_DELETE,0},{"_ZdlPvSt11align_val_t",N_DELETE,0},
  {"memcpy",N_MEMCPY,0},{"memmove",N_MEMCPY,0},{"memset",N_MEMSET,0},{"memcmp",N_MEMCMP,0},{"bcmp",N_BCMP,0},{"strlen",N_STRLEN,1},{"memchr",N_MEMCHR,1},{"strchr",N_STRCHR,1},
  {"__assert_fail",N_ASSERT,0},{"abort",N_ABORT,0},{"_exit",N_EXIT,0},{"exit",N_EXIT,0},{"__cxa_pure_virtual",N_ABORT,0},{"_ZSt9terminatev",N_ABORT,0},
  {"__cxa_atexit",N_NOP0,0},{"_ZNSt8ios_base4InitC1Ev",N_NOP,0},{"_ZNSt8ios_base4InitD1Ev",N_NOP,0},{"__cxa_guard_acquire",N_GUARD_ACQ,0},{"__cxa_guard_release",N_NOP,0},{"srand",N_NOP,0},{"pthread_mutex_lock",N_NOP0,0},{"pthread_mutex_unlock",N_NOP0,0},{"pthread_mutex_init",N_NOP0,0},{"pthread_mutex_destroy",N_NOP0,0},{"pthread_rwlock_rdlock",N_NOP0,0},{"pthread_rwlock_wrlock",N_NOP0,0},{"pthread_rwlock_unlock",N_NOP0,0},{"puts",N_NOP0,0},{"putchar",N_NOP0,0},{"printf",N_NOP0,0},{"fprintf",N_NOP0,0},{"fputs",N_NOP0,0},{"fwrite",N_NOP0,0},{"fflush",N_NOP0,0},
  {"sym_int",N_SYMINT,0},{"sym_bytes",N_SYMBYTES,0},{"sym_assume",N_ASSUME,0},{"sym_assert",N_SASSERT,0},{"sym_choose",N_CHOOSE,0},{"sym_concretize",N_CONC,0},{"sym_reach",N_REACH,0},{"sym_observe",N_OBSERVE,0},{"sym_param",N_PARAM,0},{"__sym_fresh",N_FRESH,0},{"sym_stop",N_STOP,0},{"sprintf",N_SPRINTF,0},{"snprintf",N_SNPRINTF,0},{"sym_istrue",N_ISTRUE,0},{"__sym_concrete",N_ALLCONC,0},{"__sym_strtod",N_STRTOD_C,0},{"sym_log",N_LOG,0},{"__sym_fmtg",N_FMTG,0},{"__ostream",N_OSTREAM,0},
};
static int nativeIndex(const string&n){ static map<string,int> ix; if(ix.empty()) for(size_t i=0;i<sizeof(natives)/sizeof(natives[0]);i++) ix[natives[i].name]=i; auto it=ix.find(n); if(it!=ix.end()) return it->second; if(n.find("__throw_")!=string::npos&&n.compare(0,4,"_ZSt")==0) return ix["abort"]; if(n.compare(0,5,"_ZNSo")==0||n.compare(0,7,"_ZStlsI")==0||n.compare(0,22,"_ZSt16__ostream_insert")==0||n.compare(0,8,"_ZSt4end")==0||n.compare(0,9,"_ZSt5flus")==0) return ix["__ostream"]; return -1; }
static const char* intern(const string&s){ static std::set<string> p; return p.insert(s).first->c_str(); }
static bool concreteRange(State&s,u64 a,u64 n){ u64 off; u32 idx; if(!n) return true; MemObj*m=access(s,a,n,false,off,idx); if(!m->s.empty()) for(u64 i=0;i<n;i++) if(m->s[off+i]) return false; if(!m->u.empty()) for(u64 i=0;i<n;i++) if(m->u[off+i]) return false; return true; }
static void doFree(State&s,u64 a,u8 kind){ if(!a) return; u32 idx=(u32)(a>>32); if(!idx||idx>s.mem.n||(u32)a!=BASEOFF) failPath(s,"memory","bad free"); idx--; MemObj*m=s.mem.get(idx); if(m->freed) failPath(s,"memory","double free"); if(m->kind!=1) failPath(s,"memory","free of non-heap memory"); MemObj*t=new MemObj; t->size=m->size; t->kind=1; t->freed=true; s.mem.slotw(idx)=ObjRef(t); (void)kind; }
static Expr* asBool(const Val&v,unsigned w){ return mkNot(mkEq(EX(v,w),mkConst(w,0))); }
static bool callNative(State&s,int ni,DInst&d,vector<Val>&A,Val&ret){
  auto W=[&](int i){return (unsigned)d.opw[i];};
  switch(natives[ni].id){
    case N_MALLOC: case N_NEW:{ u64 n=concretize(s,A[0],64); if(n>(1ull<<28)) failPath(s,"resource","huge allocation"); ret=VC(allocObj(s,n,1,true)); return true; }
    case N_CALLOC:{ u64 n=concretize(s,A[0],64)*concretize(s,A[1],64); if(n>(1ull<<28)) failPath(s,"resource","huge allocation"); ret=VC(allocObj(s,n,1,false)); return true; }
    case N_REALLOC:{ u64 p=conAddr(s,A[0]),n=concretize(s,A[1],64); u64 q=allocObj(s,n,1,true); if(p){ MemObj*m=s.mem.get((u32)(p>>32)-1); doCopy(s,q,p,std::min(n,m->size)); doFree(s,p,1);} ret=VC(q); return true; }
    case N_FREE: case N_DELETE: doFree(s,conAddr(s,A[0]),1); return true;
    case N_MEMCPY:{ u64 n=concretize(s,A[2],64); if(n) doCopy(s,conAddr(s,A[0]),conAddr(s,A[1]),n); ret=A[0]; return true; }
    case N_MEMSET:{ u64 n=concretize(s,A[2],64); Val v=A[1]; if(v.e) v=VE(mkExtract(v.e,0,8)); if(n) doSet(s,conAddr(s,A[0]),v,n); ret=A[0]; return true; }
    case N_MEMCMP: case N_BCMP:{ u64 n=concretize(s,A[2],64); u64 p=n?conAddr(s,A[0]):0,q=n?conAddr(s,A[1]):0; if(n){ u64 o; u32 x; access(s,p,n,false,o,x); access(s,q,n,false,o,x); } bool bc=natives[ni].id==N_BCMP;
      vector<std::pair<Expr*,Expr*>> v; for(u64 i=0;i<n;i++){ Val a=loadC(s,p+i,8),b=loadC(s,q+i,8); if(!a.e&&!b.e){ if(a.c==b.c) continue; v.push_back({EX(a,8),EX(b,8)}); break; } if(a.e==b.e&&a.e) continue; v.push_back({EX(a,8),EX(b,8)}); }
      if(bc){ Expr*eq=mkConst(1,1); for(auto&x:v) eq=mkAnd(eq,mkEq(x.first,x.second)); ret=VE(mkIte(eq,mkConst(32,0),mkConst(32,1))); return true; }
      // is only equality with zero used? keep a three-way expression
      Expr*r=mkConst(32,0); for(int i=(int)v.size()-1;i>=0;i--) r=mkIte(mkEq(v[i].first,v[i].second),r,mkIte(mkUlt(v[i].first,v[i].second),mkConst(32,0xffffffffu),mkConst(32,1))); ret=VE(r); return true; }
    case N_STRLEN:{ u64 a=conAddr(s,A[0]); u64 n=0; while(true){ Val v=loadC(s,a+n,8); if(v.e) return false; if(!v.c) break; n++; } ret=VC(n); return true; }
    case N_MEMCHR: case N_STRCHR:{ // a concrete text searched for a character: the address as a table over the character's symbol
      bool str=natives[ni].id==N_STRCHR; if(A[0].e||(!str&&A[2].e)) return false; vector<u8> b; for(u64 i=0;str||i<A[2].c;i++){ if(!concreteRange(s,A[0].c+i,1)) return false; b.push_back((u8)loadC(s,A[0].c+i,8).c); if(str&&!b.back()) break; }
      auto find=[&](u8 c)->u64{ for(size_t i=0;i<b.size();i++) if(b[i]==c) return A[0].c+i; return 0; };
      if(!A[1].e){ ret=VC(find((u8)A[1].c)); return true; }
      Expr*c=simp(s,mkExtract(A[1].e,0,8)),*sy; if(isC(c)){ ret=VC(find((u8)c->c)); return true; } if(!unarySym(c,sy))return false;
      vector<u64> v; unaryTable(c,sy,v); for(u64&x:v) x=find((u8)x); Expr*r=mkTbl(sy,v,64); ret=isC(r)?VC(r->c):VE(r); return true; }
    case N_ASSERT:{ string m=rdStr(s,conAddr(s,A[0])); failPath(s,"assert","assertion failed: "+m); }
    case N_ABORT: failPath(s,"abort","abort/terminate/throw: "+demangle(d.callee?d.callee->getName().str():"?"));
    case N_EXIT: failPath(s,"abort","process exit");
    case N_OSTREAM: if(!A.empty()) ret=A[0]; return true; // text put on cout or cerr is not followed
    case N_NOP: return true; case N_NOP0: ret=VC(0); return true;
    case N_GUARD_ACQ:{ u64 a=conAddr(s,A[0]); Val v=loadC(s,a,8); if(!v.e&&v.c){ ret=VC(0);} else { storeC(s,a,VC(1),8); ret=VC(1);} return true; }
    case N_SYMINT:{ unsigned w=concretize(s,A[1],W(1)); u32 id=newSym(s,intern(rdStr(s,conAddr(s,A[0]))),w,false); Expr*e=mkSym(id,w); symOfId[id]=e; ret=VE(mkZext(e,64)); return true; }
    case N_FRESH:{ unsigned w=concretize(s,A[0],W(0)); u32 id=newSym(s,"fresh",w,true); Expr*e=mkSym(id,w); symOfId[id]=e; ret=VE(mkZext(e,64)); return true; }
    case N_SYMBYTES:{ u64 p=conAddr(s,A[0]),n=concretize(s,A[1],64); const char*nm=intern(rdStr(s,conAddr(s,A[2]))); for(u64 i=0;i<n;i++){ u32 id=newSym(s,nm,8,false); Expr*e=mkSym(id,8); symOfId[id]=e; storeC(s,p+i,VE(e),8); } return true; }
    case N_ASSUME:{ Expr*c=asBool(A[0],W(0)); c=simp(s,c); if(isC(c)){ if(!c->c) throw Kill{K_ASSUME}; return true; } Delta dd; if(!feas(s,c,dd)) throw Kill{K_ASSUME}; applyDelta(s,dd); addC(s,c); return true; }
    case N_SASSERT:{ string m=rdStr(s,conAddr(s,A[1])); assertSeen[m]++; ST.asserts++; Expr*c=asBool(A[0],W(0)); if(!isC(c)) ST.symAsserts++; require(s,c,"property",m); return true; }
    case N_ISTRUE:{ Expr*c=asBool(A[0],W(0)); ret=VC(isC(c)?c->c:decide(s,c)); return true; }
    case N_CHOOSE:{ u64 n=concretize(s,A[1],64); if(n>256) engine_error("choose >256"); const char*nm=intern(rdStr(s,conAddr(s,A[0])));
      // the symbol must be created once: fork explicitly here over all values
      u32 id=newSym(s,nm,8,false); Expr*e=mkSym(id,8); symOfId[id]=e; if(n==0) throw Kill{K_ASSUME};
      for(u64 k=n-1;k>=1;k--){ State*t=new State(s); t->model[id]=k; addC(*t,mkEq(e,mkConst(8,k))); FrameRec&g=t->fr.back(); t->regs[g.base+d.dst]=VC(k); g.pc++; pushFork(t); }
      s.model[id]=0; addC(s,mkEq(e,mkConst(8,0))); ret=VC(0); return true; }
    case N_CONC: ret=VC(concretize(s,A[0],64)); return true;
    case N_REACH: reach[rdStr(s,conAddr(s,A[0]))]++; return true;
    case N_OBSERVE: s.observed.push_back(A[0]); ST.observes++; return true;
    case N_PARAM:{ string n=rdStr(s,conAddr(s,A[0])); auto it=params.find(n); ret= it==params.end()? A[1]:VC(it->second); return true; }
    case N_STOP: throw Kill{K_STOP};
    case N_ALLCONC: ret=VC(!A[0].e); return true;
    case N_LOG:{ string m=rdStr(s,conAddr(s,A[0])); fprintf(stderr,"LOG %s %s\n",m.c_str(),A[1].e?exprStr(A[1].e).c_str():std::to_string(A[1].c).c_str()); return true; }
    case N_STRTOD_C:{ string t=rdStr(s,conAddr(s,A[0])); double v=strtod(t.c_str(),nullptr); u64 o; memcpy(&o,&v,8); ret=VC(o); return true; }
    case N_FMTG:{ // __sym_fmtg(char*dst,u64 bits): concrete %.17G
      u64 b=concretize(s,A[1],64); double v; memcpy(&v,&b,8); char buf[64]; int n=snprintf(buf,64,"%.17G",v); u64 p=conAddr(s,A[0]); for(int i=0;i<=n;i++) storeC(s,p+i,VC((u8)buf[i]),8); ret=VC(n); return true; }
    case N_SPRINTF: case N_SNPRINTF:{ size_t ai=natives[ni].id==N_SPRINTF?2:3; u64 dst=conAddr(s,A[0]); string f=rdStr(s,conAddr(s,A[ai-1])); vector<Val> out; u64 cap=ai==3?concretize(s,A[1],64):~0ull;
      auto lit=[&](const string&t){ for(char c:t) out.push_back(VC((u8)c)); };
      // all decisions first: a fork re-executes this call
      vector<std::pair<int,int>> shape; { size_t k=ai; for(size_t i=0;i<f.size();i++){ if(f[i]!='%') continue; i++; bool lng=false; while(i<f.size()&&!strchr("diuxXscgGeEfp%",f[i])) lng|=!!strchr("ljzt",f[i++]); if(f[i]=='%') continue; std::pair<int,int> sh{0,0};
        if(strchr("xX",f[i])&&A[k].e){ unsigned w=d.opw[k]; Expr*e=A[k].e; if(i>=2&&f[i-1]=='h') w=f[i-2]=='h'?8:16; else if(w==64&&!lng) w=32; if(w<(unsigned)d.opw[k]) e=mkExtract(e,0,w); e=simp(s,e); if(!isC(e)){ int nd=1; while(nd*4<(int)w&&!decide(s,mkUlt(e,mkConst(w,1ull<<(4*nd))))) nd++; sh={nd,2}; } }
        if(strchr("diu",f[i])&&A[k].e){ unsigned w=d.opw[k]; Expr*e=simp(s,A[k].e); if(w==64&&!lng){ w=32; e=simp(s,mkExtract(e,0,32)); } if(!isC(e)){ bool neg=f[i]!='u'&&decide(s,mkSlt(e,mkConst(w,0))); Expr*mag=neg?mkSub(mkConst(w,0),e):e; if(w<64) mag=mkZext(mag,64); int nd=1; u64 lim=10; while(nd<20&&!decide(s,mkUlt(mag,mkConst(64,lim)))){ nd++; if(nd<20) lim*=10; } sh={neg?-nd:nd,1}; } }
        shape.push_back(sh); k++; } }
      size_t si=0;
      for(size_t i=0;i<f.size();i++){ if(f[i]!='%'){ out.push_back(VC((u8)f[i])); continue; } string spec="%"; i++; while(i<f.size()&&!strchr("diuxXscgGeEfp%",f[i])) spec+=f[i++]; spec+=f[i]; char buf[512];
        if(f[i]=='%'){ lit("%"); continue; } auto sh=shape[si++];
        if(f[i]=='c'&&spec=="%c"){ Val v=A[ai++]; if(v.e) v=VE(mkExtract(v.e,0,8)); else v=VC((u8)v.c); out.push_back(v); continue; }
        if(sh.second==2){ unsigned w=d.opw[ai]; Expr*e=A[ai].e; ai++; unsigned cw=w; size_t hh=spec.find('h'); if(hh!=string::npos) cw=spec[hh+1]=='h'?8:16; else if(w==64&&spec.find_first_of("ljzt")==string::npos) cw=32; if(cw<w) e=mkExtract(e,0,cw); e=simp(s,e);
          bool zf=false,lf=false; int wd=0,nd=sh.first; { size_t x=1; for(;x<spec.size()&&strchr("-0",spec[x]);x++){ if(spec[x]=='0') zf=true; else lf=true; } while(isdigit(spec[x])) wd=wd*10+spec[x++]-'0'; if(strchr(".*+ #",spec[x])) engine_error("sprintf of a symbol with %s",spec.c_str()); }
          int pad=std::max(0,wd-nd); if(!lf) lit(string(pad,zf?'0':' ')); u64 base=f[i]=='x'?'a'-10:'A'-10;
          for(int k=nd-1;k>=0;k--){ Expr*n4=mkZext(mkExtract(e,4*k,4),8); out.push_back(VE(mkIte(mkUlt(n4,mkConst(8,10)),mkAdd(n4,mkConst(8,'0')),mkAdd(n4,mkConst(8,base))))); } if(lf) lit(string(pad,' ')); continue; }
        if(sh.second){ unsigned w=d.opw[ai]; Expr*e=simp(s,A[ai].e); ai++; if(w==64&&spec.find_first_of("ljzt")==string::npos){ w=32; e=simp(s,mkExtract(e,0,32)); } bool neg=sh.first<0; int nd=std::abs(sh.first); Expr*mag=neg?mkSub(mkConst(w,0),e):e; if(w<64) mag=mkZext(mag,64); u64 mv=evalExpr(mag,s.model);
          bool zf=false,lf=false; int wd=0; { size_t x=1; for(;x<spec.size()&&strchr("-0+ #",spec[x]);x++){ if(spec[x]=='0') zf=true; else if(spec[x]=='-') lf=true; else engine_error("sprintf flag in %s",spec.c_str()); } while(isdigit(spec[x])) wd=wd*10+spec[x++]-'0'; if(spec[x]=='.'||spec[x]=='*') engine_error("sprintf of a symbol with %s",spec.c_str()); }
          int pad=std::max(0,wd-nd-(neg?1:0)); if(!lf&&!zf) lit(string(pad,' ')); if(neg) lit("-"); if(!lf&&zf) lit(string(pad,'0')); struct Tail{ vector<Val>&o; int n; ~Tail(){ for(int k=0;k<n;k++) o.push_back(VC(' ')); } } tail{out,lf?pad:0};
          { Lin f; i128 lo,hi; if(linForm(mag,f)){ linRange(s,f,64,lo,hi); // a numeral whose digits are already symbols
            vector<Expr*> dg(nd,nullptr); bool ok=lo>=0&&hi<=(i128)(u128)~0ull; vector<u64> pw(20,1); for(int k=1;k<20;k++) pw[k]=pw[k-1]*10;
            for(auto&p:f.t){ if(!ok) break; u64 g=0; for(size_t x=0;x<p.second.size();x++) if(s.dom[p.first].has(x)) g=std::max(g,p.second[x]); int k=0; while(k<19&&pw[k+1]<=g) k++; if(k>=nd||dg[k]){ ok=false; break; } vector<u64> t(p.second.size(),'0'); for(size_t x=0;x<t.size();x++) if(s.dom[p.first].has(x)){ if(p.second[x]%pw[k]){ ok=false; break; } t[x]='0'+p.second[x]/pw[k]; } dg[k]=mkTbl(symOfId[p.first],t,8); }
            u64 cc=f.c; for(int k=0;k<nd&&ok;k++){ u64 x=k<19?(cc/pw[k])%10:cc/pw[k]; if(dg[k]){ if(x) ok=false; } else dg[k]=mkConst(8,'0'+x); } if(ok&&nd<20&&cc/pw[nd]) ok=false;
            if(ok){ for(int k=nd-1;k>=0;k--) out.push_back(isC(dg[k])?VC(dg[k]->c):VE(dg[k])); continue; } } }
          for(auto*y:numeralOf(s,mag,nd).dg) out.push_back(VE(mkAdd(mkConst(8,'0'),mkZext(y,8)))); continue; }
        if(f[i]=='s'){ snprintf(buf,512,spec.c_str(),rdStr(s,conAddr(s,A[ai])).c_str()); ai++; }
        else if(strchr("gGeEf",f[i])){
          if(A[ai].e){ // a value registered together with its text by the harness
            auto*gv=M->getGlobalVariable("__sym_ftab"); auto*gn=M->getGlobalVariable("__sym_fn"); u64 t=gv?gaddr[gv]:0,n=gn?loadC(s,gaddr[gn],32).c:0; bool hit=false;
            for(u64 k=0;k<n&&!hit;k++) if(loadC(s,t+k*48+40,64).e==A[ai].e){ hit=true; vector<Val> tx; for(u64 j=0;;j++){ Val v=loadC(s,t+k*48+j,8); if(!v.e&&!v.c) break; tx.push_back(v); }
              // %.17G is lossless and its text is the registered one; a shorter precision drops digits
              unsigned prec=6; size_t dot=spec.find('.'); if(dot!=string::npos) prec=atoi(spec.c_str()+dot+1); char cv=spec.back();
              auto isd=[&](const Val&v){ return v.e||(v.c>='0'&&v.c<='9'); }; unsigned nd=0; bool lead=true,ex=false;
              for(auto&v:tx){ if(!v.e&&v.c=='E') ex=true; if(ex){ if(!v.e&&v.c=='E'&&cv=='g') out.push_back(VC('e')); else out.push_back(v); continue; }
                if(cv=='g'||cv=='G'){ if(isd(v)){ if(lead&&!v.e&&v.c=='0'){ out.push_back(v); continue; } lead=false; if(++nd>std::max(1u,prec)) continue; } out.push_back(v); }
                else { if(!isd(v)&&v.c=='.') break; out.push_back(v); } }
              if(cv=='f'||cv=='e'||cv=='E'){ lit("."); for(unsigned k=0;k<prec&&k<12;k++){ u32 id=newSym(s,"digit",4,true); Expr*y=mkSym(id,4); symOfId[id]=y; addC(s,mkUlt(y,mkConst(4,10))); out.push_back(VE(mkAdd(mkConst(8,'0'),mkZext(y,8)))); } } }
            if(hit){ ai++; continue; } }
          u64 b=concretize(s,A[ai],64); double v; memcpy(&v,&b,8); snprintf(buf,512,spec.c_str(),v); ai++; }
        else { unsigned w=d.opw[ai]; u64 v=concretize(s,A[ai],w); ai++; if(w==64) snprintf(buf,512,spec.c_str(),(long)v); else snprintf(buf,512,spec.c_str(),(int)v); }
        lit(buf); }
      if(cap){ u64 n=std::min<u64>(out.size(),cap-1); for(size_t i=0;i<n;i++) storeC(s,dst+i,out[i],8); storeC(s,dst+n,VC(0),8); } ret=VC(out.size()); return true; }
  }
  return false;
}
