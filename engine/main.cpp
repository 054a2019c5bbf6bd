#include "sym.hpp"
struct Kill { std::string why; };
struct Violation { std::string kind,msg,where; std::vector<std::vector<std::pair<std::string,std::string>>> cands; bool allDecided=true; };
static std::string jesc(const std::string&s){ std::string o; for(char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c=='\n') o+="\\n"; else if((unsigned char)c<32) o+=' '; else o+=c; } return o; }

struct Engine {
  Solver X; LLVMContext LC; std::unique_ptr<Module> M; const DataLayout* DL=nullptr;
  std::unordered_map<const Function*,std::unique_ptr<FInfo>> finfo; std::unordered_map<const Function*,u64> fnIdx; std::vector<Function*> fns;
  std::unordered_map<const GlobalVariable*,u64> gvId; std::vector<GlobalVariable*> gvs; std::map<std::string,std::vector<std::pair<std::string,double>>> dummy;
  std::vector<StateP> work; StateP baseState; 
  std::map<std::string,int> nameToSym; std::map<std::string,Val> opaqueMemo; std::map<std::string,std::pair<int,int>> sincosMemo; std::map<std::string,std::pair<Val,Val>> angleMemo; std::map<int,int> sqrtMemo; std::unordered_map<unsigned,Val> fromBits; std::map<std::string,int> toBits;
  std::vector<Violation> viols; std::map<std::string,int> violCount; std::map<std::string,u64> covers; std::set<std::string> repoFns; std::set<std::string> modelled; std::map<std::string,u64> endKinds; std::vector<std::string> incomplete; std::set<std::string> assertMsgs;
  std::vector<std::vector<std::pair<std::string,std::string>>> witnesses; int maxWitness=0; u64 maxSteps=20000000; bool trace=false; std::mt19937 rng{1}; unsigned assertTmo=10000; u64 maxForkEnum=256; double candBudget=25; std::set<std::pair<std::string,int>> lines; std::map<std::string,double> slow;
  std::map<std::string,std::function<bool(State&,const DI&,std::vector<Val>&,Val&)>> bi; u64 undecided=0; std::set<std::string> undecMsgs;
  z3::context& C=X.C; FracCtx& F=X.F;

  // ---------- values ----------
  bool isFP(Type*t){ return t->isDoubleTy()||t->isFloatTy()||t->isX86_FP80Ty(); }
  unsigned width(Type*t){ if(t->isPointerTy()) return 64; return t->getIntegerBitWidth(); }
  Val mkZ(unsigned w,z3::expr e){ if(w==1){ if(e.is_true()) return mkI(1,1); if(e.is_false()) return mkI(1,0); z3::expr s=e; Val v; v.k=VIS; v.w=1; v.p=std::make_shared<const z3::expr>(s); return v; }
    e=e.simplify(); if(w<=64&&e.is_numeral()){ uint64_t c=0; if(Z3_get_numeral_uint64(C,e,&c)) return mkI(w,c); } Val v; v.k=VIS; v.w=(uint16_t)w; v.p=std::make_shared<const z3::expr>(e); return v; }
  Val mkB(z3::expr e){ if(e.is_true()) return mkI(1,1); if(e.is_false()) return mkI(1,0); Val v; v.k=VIS; v.w=1; v.p=std::make_shared<const z3::expr>(e); return v; }
  Val freshInt(unsigned w,const char*n="undef"){ int s=X.newBV(std::string(n)+"!"+std::to_string(X.fresh++),w,false); return mkZ(w,X.syms[s].e); }
  Val freshReal(const char*n="undefr"){ int s=X.newReal(std::string(n)+"!"+std::to_string(X.fresh++),false,false); return mkR(F.var(X.syms[s].rvar)); }
  Val mkR(Frac f){ Rat r; if(F.isConst(f,&r)){ double d=r.get_d(); if(std::isfinite(d)&&Rat(d)==r) return mkD(d); } Val v; v.k=VRS; v.p=f; return v; }
  // ints: normalise to VI or VIS
  Val toInt(const Val&v,unsigned w){
    if(v.k==VI||v.k==VIS) return v; if(v.k==VU) return freshInt(w);
    if(v.k==VRC){ if(w==32){ float f=(float)asD(v); uint32_t u; memcpy(&u,&f,4); return mkI(32,u);} return mkI(64,v.c); }
    if(v.k==VRB||v.k==VRS){ std::string k=F.key(fr(v)); auto it=toBits.find(k); 
      // a real that itself came from bits
      auto fb=bitsOrigin.find(k); if(fb!=bitsOrigin.end()) return fb->second;
      int s; if(it==toBits.end()){ s=X.newBV("bits!"+std::to_string(X.fresh++),64,false); toBits[k]=s; fromBits.emplace(Z3_get_ast_id(C,X.syms[s].e),mkR(fr(v))); } else s=it->second; return mkZ(64,X.syms[s].e); }
    throw Kill{"toInt of aggregate"};
  }
  std::map<std::string,Val> bitsOrigin;
  Val toReal(const Val&v){ // value used as fp
    if(v.k==VRC||v.k==VRS) return v; if(v.k==VU) return freshReal();
    if(v.k==VRB){ Val r=v; r.k=VRS; r.w=0; return r; }
    if(v.k==VI){ if(v.w==32){ float f; uint32_t u=(uint32_t)v.c; memcpy(&f,&u,4); return mkD(f);} double d; memcpy(&d,&v.c,8); return mkD(d); }
    if(v.k==VIS){ unsigned id=Z3_get_ast_id(C,zx(v)); auto it=fromBits.find(id); if(it!=fromBits.end()) return it->second; Val r=freshReal("frombits"); X.keep.push_back(zx(v)); fromBits[id]=r; bitsOrigin[F.key(fr(r))]=v; return r; }
    throw Kill{"toReal of aggregate"};
  }
  z3::expr bv(const Val&v0,unsigned w){ Val v=toInt(v0,w); if(v.k==VI){ if(w==1) return C.bool_val(v.c&1); return C.bv_val((uint64_t)v.c,w); } return zx(v); }
  z3::expr boolOf(const Val&v){ return bv(v,1); }
  Frac frac(const Val&v0){ Val v=toReal(v0); if(v.k==VRS) return fr(v); double d=asD(v); if(!std::isfinite(d)) throw Kill{"nonfinite mixed"}; return F.cst(Rat(d)); }
  static bool nonfin(const Val&v){ return v.k==VRC&&!std::isfinite(asD(v)); }
  void drainDen(State&S){
    auto nd=std::move(F.newDen); F.newDen.clear();
    for(auto&p:nd){ if(S.denSeen.count(p->id)) continue; int sg=F.P.synSign(p); if(sg==2||sg==-2){ S.denSeen.insert(p->id); continue; }
      z3::expr nz= X.polyZ(p)!=0;
      if(S.divCheck){ Res r=X.check(S.pc, X.polyZ(p)==0, assertTmo); X.st.asserts++; if(r==RSAT){ S.denSeen.insert(p->id); report(S,"div-by-zero","division by zero",{X.polyZ(p)==0}); } else if(r==RUNK) undecidedHit("division by zero"); else X.st.assertsProved++; }
      else X.st.divAssumed++;
      S.denSeen.insert(p->id); addPC(S,nz); }
  }
  // ---------- real arithmetic ----------
  Val rbin(State&S,unsigned op,Val a,Val b){ Val r=rbin0(S,op,a,b); return S.rounding?rounded(r):r; }
  Val rounded(const Val&v){ Rat c; if(v.k==VRS&&F.isConst(fr(v),&c)) return mkD(c.get_d()); return v; }
  Val rbin0(State&S,unsigned op,Val a,Val b){
    a=toReal(a); b=toReal(b);
    if(a.k==VRC&&b.k==VRC){ double x=asD(a),y=asD(b);
      if(!std::isfinite(x)||!std::isfinite(y)){ double r= op=='+'?x+y: op=='-'?x-y: op=='*'?x*y:x/y; return mkD(r);} 
      if(op=='/'&&y==0){ return mkD(x/y); }
      if(S.rounding) return mkD(op=='+'?x+y: op=='-'?x-y: op=='*'?x*y:x/y);
      double r; if(op=='+'||op=='-'){ double yy= op=='-'?-y:y; r=x+yy; double bb=r-x; double err=(x-(r-bb))+(yy-bb); if(err==0&&std::isfinite(r)) return mkD(r); }
      else if(op=='*'){ r=x*y; if(std::isfinite(r)&&(r==0?(x==0||y==0):(std::fabs(r)>1e-200&&std::fma(x,y,-r)==0))) return mkD(r); }
      else { r=x/y; if(std::isfinite(r)&&(x==0||(std::fabs(r)>1e-200&&std::fabs(x)>1e-200&&std::fma(r,y,-x)==0))) return mkD(r); }
    }
    if(nonfin(a)||nonfin(b)){ // one is symbolic finite
      if((nonfin(a)&&std::isnan(asD(a)))||(nonfin(b)&&std::isnan(asD(b)))) return mkD(NAN);
      if(op=='+') return nonfin(a)?a:b; if(op=='-') return nonfin(a)?a:mkD(-asD(b));
      if(op=='/'&&nonfin(b)) return mkD(0.0);
      Val s=nonfin(a)?b:a; double inf=asD(nonfin(a)?a:b); if(s.k==VRC){ double y=asD(s); return mkD(op=='*'?inf*y:inf/y);} 
      if(decide(S,X.cmp0(frac(s),0))) return mkD(op=='*'?NAN:inf); bool neg=decide(S,X.cmp0(frac(s),1)); return mkD(neg?-inf:inf);
    }
    // cheap identities
    if(op=='*'){ if(a.k==VRC){ if(asD(a)==0) return mkD(0); if(asD(a)==1) return b; } if(b.k==VRC){ if(asD(b)==0) return mkD(0); if(asD(b)==1) return a; } }
    if(op=='+'){ if(a.k==VRC&&asD(a)==0) return b; if(b.k==VRC&&asD(b)==0) return a; }
    if(op=='-'&&b.k==VRC&&asD(b)==0) return a;
    if(op=='/'){ if(b.k==VRC&&asD(b)==1) return a; }
    try {
      Frac x=frac(a), y=frac(b);
      if(op=='+') return mkR(F.add(x,y)); if(op=='-') return mkR(F.add(x,y,true)); if(op=='*') return mkR(F.mul(x,y));
      if(PolyCtx::isZero(y->num)){ if(decide(S,X.cmp0(x,0))) return mkD(NAN); return mkD(decide(S,X.cmp0(x,1))?-INFINITY:INFINITY); }
      if(!S.divCheck&&divFork){ if(decide(S,X.cmp0(y,0))){ if(decide(S,X.cmp0(x,0))) return mkD(NAN); return mkD(decide(S,X.cmp0(x,1))?-INFINITY:INFINITY);} }
      Frac q=F.div(x,y); drainDen(S); return mkR(q);
    } catch(PolyBlowup&){ F.newDen.clear(); // abstract operands by defined symbols
      Val a2=define(a), b2=define(b); if(a2.p==a.p&&b2.p==b.p) throw; return rbin(S,op,a2,b2); }
  }
  bool divFork=false;
  // replace a large expression by a fresh symbol constrained to equal it
  Val define(const Val&v){ if(v.k!=VRS) return v; Frac f=fr(v); if(f->num->t.size()<4&&f->den.empty()) return v; std::string k="def:"+F.key(f); auto it=opaqueMemo.find(k); if(it!=opaqueMemo.end()) return it->second; int s=X.newReal("def!"+std::to_string(X.fresh++),false,false); z3::expr d=C.real_val(1); for(auto&p:f->den) for(int i=0;i<p.second;++i) d=d*X.polyZ(p.first); X.addSide(s,X.syms[s].e*d==X.polyZ(f->num)); Val r=mkR(F.var(X.syms[s].rvar)); opaqueMemo[k]=r; return r; }
  Val rneg(const Val&v0){ Val v=toReal(v0); if(v.k==VRC) return mkD(-asD(v)); return mkR(F.neg(fr(v))); }
  // cmp: 0 ==, 1 <, 2 <=
  z3::expr rcmp(Val a,Val b,int op){ a=toReal(a); b=toReal(b);
    if(a.k==VRC&&b.k==VRC){ double x=asD(a),y=asD(b); return C.bool_val(op==0?x==y:op==1?x<y:x<=y); }
    if(nonfin(a)||nonfin(b)){ if((nonfin(a)&&std::isnan(asD(a)))||(nonfin(b)&&std::isnan(asD(b)))) return C.bool_val(false); if(op==0) return C.bool_val(false); double x=nonfin(a)?asD(a):0,y=nonfin(b)?asD(b):0; return C.bool_val(x<y); }
    return X.cmp0(F.add(frac(a),frac(b),true),op); }
  bool uno(const Val&a,const Val&b){ auto n=[&](const Val&v0){ Val v=toReal(v0); return v.k==VRC&&std::isnan(asD(v)); }; return n(a)||n(b); }
  Val fcmp(CmpInst::Predicate p,const Val&a,const Val&b){
    if(a.k==VU||b.k==VU){ return freshInt(1); }
    bool u=uno(a,b);
    switch(p){ case CmpInst::FCMP_FALSE: return mkI(1,0); case CmpInst::FCMP_TRUE: return mkI(1,1); case CmpInst::FCMP_ORD: return mkI(1,!u); case CmpInst::FCMP_UNO: return mkI(1,u); default: break; }
    bool ord= p<8; if(u) return mkI(1,ord?0:1);
    switch(p){ case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return mkB(rcmp(a,b,0)); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return mkB(neg(rcmp(a,b,0)));
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return mkB(rcmp(a,b,1)); case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return mkB(rcmp(a,b,2)); case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return mkB(rcmp(b,a,1)); default: return mkB(rcmp(b,a,2)); }
  }
  z3::expr neg(const z3::expr&e){ if(e.is_true()) return C.bool_val(false); if(e.is_false()) return C.bool_val(true); if(e.is_not()) return e.arg(0); return !e; }
  Val rabs(State&S,const Val&v0){ Val v=toReal(v0); if(v.k==VRC) return mkD(std::fabs(asD(v))); return decide(S,X.cmp0(fr(v),1))?rneg(v):v; }
  Frac absPoly(State&S,Poly p){ int s=F.P.synSign(p); if(s>0) return F.mk(p); if(s<0) return F.mk(F.P.scale(p,-1)); return decide(S,X.cmp0(F.mk(p),1))?F.mk(F.P.scale(p,-1)):F.mk(p); }
  Val rsqrt(State&S,const Val&v0){ Val v=toReal(v0);
    if(v.k==VRC){ double d=asD(v); if(S.rounding||!std::isfinite(d)||d<0) return mkD(std::sqrt(d)); if(d==0) return v; Rat o; if(PolyCtx::ratSqrt(Rat(d),o)) return mkR(F.cst(o)); return mkR(sqrtPoly(S,F.P.cst(Rat(d)))); }
    Frac f=fr(v); Poly n=f->num; Frac den=F.mk(F.P.one_); 
    for(auto&p:f->den){ if(p.second%2) n=F.P.mul(n,p.first); Frac ap=absPoly(S,p.first); if(((p.second+1)/2)%2==0) ap=F.mk(p.first); for(int i=0;i<(p.second+1)/2;++i) den=F.mul(den,ap); }
    Rat c; if(PolyCtx::isConst(n)){ if(PolyCtx::constVal(n)<0) return mkD(NAN); }
    Frac r=sqrtPoly(S,n); Frac q=F.div(r,den); drainDen(S); return mkR(q); }
  Frac sqrtPoly(State&S,Poly n){ Rat o; if(PolyCtx::isConst(n)){ Rat c=PolyCtx::constVal(n); if(PolyCtx::ratSqrt(c,o)) return F.cst(o); }
    // rational content
    Rat c=abs(n->t[0].second); Frac pre=F.cst(1); if(c!=1&&PolyCtx::ratSqrt(c,o)){ pre=F.cst(o); n=F.P.scale(n,1/c); }
    if(!PolyCtx::isConst(n)){ MonoVec cm=F.P.monos[n->t[0].first]; for(auto&t:n->t){ MonoVec r2; for(auto&e:cm) for(auto&g:F.P.monos[t.first]) if(e.first==g.first) r2.push_back({e.first,std::min(e.second,g.second)}); cm=r2; }
      for(auto&e:cm) if(e.second>=2){ int k=e.second/2; MonoVec full{{e.first,2*k}}, half{{e.first,k}}; Poly q; if(F.P.exactDiv(n,F.P.mk({{F.P.monoId(full),Rat(1)}}),q)){ n=q; pre=F.mul(pre,absPoly(S,F.P.mk({{F.P.monoId(half),Rat(1)}}))); } } 
      if(PolyCtx::isConst(n)){ Rat c2=PolyCtx::constVal(n); if(PolyCtx::ratSqrt(c2,o)) return F.mul(pre,F.cst(o)); } }
    Poly q; if(F.P.polySqrt(n,q)) return F.mul(pre,absPoly(S,q));
    auto it=sqrtMemo.find(n->id); int s; if(it!=sqrtMemo.end()) s=it->second; else { s=X.newReal("sqrt!"+std::to_string(X.fresh++),true,false); F.P.vars[X.syms[s].rvar].isSqrt=true; X.setSq(s,n); F.P.polyNonneg[n->id]=1; sqrtMemo[n->id]=s;
      if(PolyCtx::isConst(n)){ double d=std::sqrt(PolyCtx::constVal(n).get_d()); X.addSide(s,X.syms[s].e>=X.ratZ(Rat(d*(1-1e-12)))); X.addSide(s,X.syms[s].e<=X.ratZ(Rat(d*(1+1e-12)))); } }
    return F.mul(pre,F.var(X.syms[s].rvar)); }
  void sincos(State&S,const Val&v0,Val*sn,Val*cs){ Val v=toReal(v0); if(v.k==VRC&&(S.rounding||asD(v)==0||!std::isfinite(asD(v)))){ if(sn)*sn=mkD(std::sin(asD(v))); if(cs)*cs=mkD(std::cos(asD(v))); return; }
    Frac f=frac(v); bool ng=f->num->t[0].second<0; if(ng) f=F.neg(f); std::string k=F.key(f); { auto ia=angleMemo.find(k); if(ia!=angleMemo.end()){ if(sn) *sn=ng?rneg(ia->second.first):ia->second.first; if(cs) *cs=ia->second.second; return; } } auto it=sincosMemo.find(k); std::pair<int,int> p;
    if(it==sincosMemo.end()){ p.first=X.newReal("sin!"+std::to_string(X.fresh),false,false); p.second=X.newReal("cos!"+std::to_string(X.fresh++),false,false); X.setSq(p.second,F.P.add(F.P.one_,F.P.mul(F.P.var(X.syms[p.first].rvar),F.P.var(X.syms[p.first].rvar)),true)); X.addSide(p.first,X.syms[p.first].e>=-1&&X.syms[p.first].e<=1);
      Rat r; if(F.isConst(f,&r)){ double a=r.get_d(); for(int i=0;i<2;++i){ double d=i?std::cos(a):std::sin(a); int s=i?p.second:p.first; X.addSide(s,X.syms[s].e>=X.ratZ(Rat(d-1e-12))); X.addSide(s,X.syms[s].e<=X.ratZ(Rat(d+1e-12))); } }
      sincosMemo[k]=p; } else p=it->second;
    if(sn){ *sn=mkR(F.var(X.syms[p.first].rvar)); if(ng)*sn=rneg(*sn); } if(cs) *cs=mkR(F.var(X.syms[p.second].rvar)); }
  Val opaque(const std::string&fn,std::vector<Val> as,double(*cf1)(double)=nullptr){ std::string k=fn; bool conc=true; for(auto&a:as){ a=toReal(a); if(a.k!=VRC) conc=false; } 
    if(conc&&as.size()==1&&cf1){ double r=cf1(asD(as[0])); if(!std::isfinite(r)||r==0||!std::isfinite(asD(as[0]))) return mkD(r); }
    for(auto&a:as) k+="|"+(a.k==VRC?std::to_string(asD(a)):F.key(fr(a))); auto it=opaqueMemo.find(k); if(it!=opaqueMemo.end()) return it->second; int s=X.newReal(fn+"!"+std::to_string(X.fresh++),fn=="exp",false); if(conc&&as.size()==1&&cf1){ double d=cf1(asD(as[0])); double e=1e-12*(1+std::fabs(d)); X.addSide(s,X.syms[s].e>=X.ratZ(Rat(d-e))); X.addSide(s,X.syms[s].e<=X.ratZ(Rat(d+e))); } Val r=mkR(F.var(X.syms[s].rvar)); opaqueMemo[k]=r; modelled.insert(fn+" (uninterpreted real function)"); return r; }
  // floor of a symbolic real by enumerating feasible cells
  Val rfloor(State&S,const Val&v0){ Val v=toReal(v0); if(v.k==VRC) return mkD(std::floor(asD(v))); Frac f=fr(v); Rat cc; if(F.isConst(f,&cc)){ mpz_class q; mpz_fdiv_q(q.get_mpz_t(),cc.get_num_mpz_t(),cc.get_den_mpz_t()); return mkD(q.get_d()); }
    std::string key=F.key(f); auto& last=floorKnown[&S]; (void)last;
    for(u64 it=0;it<maxForkEnum;++it){ double d=modelReal(S,f); double k=std::floor(d+1e-12); 
      for(int tries=0;tries<3;++tries){ double kk=k+(tries==1?-1:tries==2?1:0); Frac lo=F.add(f,F.cst(Rat(kk)),true), hi=F.add(f,F.cst(Rat(kk+1)),true); z3::expr c=neg(X.cmp0(lo,1))&&X.cmp0(hi,1); if(X.check(S.pc,c,X.tmo)==RUNSAT) continue; if(decide(S,c)) return mkD(kk); }
    }
    throw Kill{"floor enumeration bound"}; }
  std::map<State*,int> floorKnown;
  double modelReal(State&S,Frac f){ z3::expr t=X.fracZ(f); std::vector<z3::expr> cs; std::set<int> vs; X.slice(S.pc,{t},cs,vs); std::shared_ptr<z3::model> m; Res r=X.raw(cs,X.tmo*2,vs,&m); if(r==RUNSAT) throw Kill{"infeasible"}; if(r!=RSAT||!m) throw Kill{"no model for real value"}; z3::expr e=m->eval(t,true).simplify(); return Solver::numToD(C,e); }
  // ---------- path conditions ----------
  void addPC(State&S,const z3::expr&e){ if(e.is_true()) return; if(e.is_app()&&e.decl().decl_kind()==Z3_OP_AND){ for(unsigned i=0;i<e.num_args();++i) addPC(S,e.arg(i)); return; } X.keep.push_back(e); for(auto&c:S.pc) if(z3::eq(c.e,e)) return; S.pc.push_back({e,X.varsOf(e)}); }
  bool decide(State&S,const z3::expr&c0){ z3::expr c=c0; if(c.is_true()) return true; if(c.is_false()) return false; bool flip=false; while(c.is_not()){ c=c.arg(0); flip=!flip; }
    unsigned id=Z3_get_ast_id(C,c); auto it=S.known.find(id); if(it!=S.known.end()) return it->second!=flip;
    X.keep.push_back(c);
    Res t=X.check(S.pc,c,X.tmo), f= t==RUNSAT?RSAT:X.check(S.pc,!c,X.tmo);
    if(t==RUNSAT){ S.known[id]=false; return flip; }
    if(f==RUNSAT){ S.known[id]=true; return !flip; }
    auto O=std::make_unique<State>(S); O->known[id]=false; addPC(*O,!c); O->forks++; work.push_back(std::move(O)); X.st.forks++;
    if(trace){ std::cerr<<"fork "<<where(S)<<" : "<<c.to_string().substr(0,160)<<"\n"; }
    S.known[id]=true; addPC(S,c); S.forks++; return !flip; }
  u64 concretize(State&S,const Val&v0,unsigned w){ Val v=toInt(v0,w); if(v.k==VI) return v.c; z3::expr e=zx(v); 
    if(w==1) return decide(S,e)?1:0;
    for(u64 it=0;it<100000;++it){ std::vector<z3::expr> cs; std::set<int> vs; X.slice(S.pc,{e},cs,vs); std::shared_ptr<z3::model> m; Res r=X.raw(cs,X.tmo*4,vs,&m); if(r==RUNSAT) throw Kill{"infeasible"}; if(r!=RSAT) throw Kill{"no model for int"}; z3::expr ve=m->eval(e,true).simplify(); uint64_t c; if(!Z3_get_numeral_uint64(C,ve,&c)) throw Kill{"model eval"}; if(decide(S,e==ve)) return c; }
    throw Kill{"concretize"}; }
  // ---------- memory ----------
  ObjP& slotRef(State&S,u64 id){ u64 c=id/64; while(S.mem.size()<=c) S.mem.push_back(nullptr); auto&cp=S.mem[c]; if(!cp) cp=std::make_shared<Chunk>(); else if(cp.use_count()>1) cp=std::make_shared<Chunk>(*cp); return cp->o[id%64]; }
  Obj* getR(State&S,u64 id){ u64 c=id/64; if(c<S.mem.size()&&S.mem[c]){ Obj*o=S.mem[c]->o[id%64].get(); if(o) return o; } if(id>=1&&id<=gvs.size()) { initGlobal(S,id); return S.mem[id/64]->o[id%64].get(); } return nullptr; }
  Obj* getW(State&S,u64 id){ if(!getR(S,id)) return nullptr; ObjP&p=slotRef(S,id); if(p.use_count()>1) p=std::make_shared<Obj>(*p); return p.get(); }
  u64 alloc(State&S,u64 size,int kind,bool zero=false){ if(size>(1u<<28)) throw Kill{"huge allocation"}; u64 id=S.nextId++; auto o=std::make_shared<Obj>(); o->size=(uint32_t)size; o->kind=(uint8_t)kind; o->b.assign(size,0); o->tag.assign(size,zero?1:0); slotRef(S,id)=o; return addrOf(id); }
  void initGlobal(State&S,u64 id){ GlobalVariable*g=gvs[id-1]; u64 sz= g->getValueType()->isSized()? DL->getTypeAllocSize(g->getValueType()).getFixedValue():8; auto o=std::make_shared<Obj>(); bool ext=!g->hasInitializer(); if(ext) sz=std::max<u64>(sz,512); o->size=(uint32_t)sz; o->kind=1; o->b.assign(sz,0); o->tag.assign(sz,1); slotRef(S,id)=o; if(!ext) initConst(S,o.get(),0,g->getInitializer()); o->ro=false; }
  void initConst(State&S,Obj*o,u64 off,Constant*c){ Type*t=c->getType();
    if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)||isa<ConstantPointerNull>(c)) return;
    if(auto*d=dyn_cast<ConstantDataSequential>(c)){ u64 es=DL->getTypeAllocSize(d->getElementType()); for(unsigned i=0;i<d->getNumElements();++i) initConst(S,o,off+i*es,d->getElementAsConstant(i)); return; }
    if(auto*a=dyn_cast<ConstantArray>(c)){ u64 es=DL->getTypeAllocSize(a->getType()->getElementType()); for(unsigned i=0;i<a->getNumOperands();++i) initConst(S,o,off+i*es,a->getOperand(i)); return; }
    if(auto*a=dyn_cast<ConstantStruct>(c)){ auto*sl=DL->getStructLayout(a->getType()); for(unsigned i=0;i<a->getNumOperands();++i) initConst(S,o,off+sl->getElementOffset(i),a->getOperand(i)); return; }
    if(auto*a=dyn_cast<ConstantVector>(c)){ u64 es=DL->getTypeAllocSize(a->getType()->getElementType()); for(unsigned i=0;i<a->getNumOperands();++i) initConst(S,o,off+i*es,a->getOperand(i)); return; }
    Val v=constVal(c); storeObj(o,off,v,t); }
  void splitCell(Obj*o,uint32_t off){ auto it=o->sym.find(off); if(it==o->sym.end()) return; Cell c=it->second; o->sym.erase(it); unsigned w=c.size*8; z3::expr e=bv(c.v,w==8&&c.v.w==1?1:w); if(c.v.k==VIS&&c.v.w==1) e=z3::ite(e,C.bv_val(1,w),C.bv_val(0,w)); for(uint32_t i=0;i<c.size;++i){ if(off+i>=o->size||o->tag[off+i]!=2) continue; putVal(o,off+i,mkZ(8,e.extract(8*i+7,8*i)),1); } }
  void putVal(Obj*o,uint32_t off,const Val&v,uint32_t size){ // no overlap handling
    if(v.k==VI){ for(uint32_t i=0;i<size;++i){ o->b[off+i]= i<8? (uint8_t)(v.c>>(8*i)):0; o->tag[off+i]=1; } }
    else if(v.k==VU){ for(uint32_t i=0;i<size;++i) o->tag[off+i]=0; }
    else { for(uint32_t i=0;i<size;++i) o->tag[off+i]=2; o->sym[off]=Cell{v,size}; } }
  void clearRange(Obj*o,uint32_t off,uint32_t size){ if(o->sym.empty()||size==0) return; // split partially overlapped cells, erase covered
    auto it=o->sym.lower_bound(off); if(it!=o->sym.begin()){ auto p=std::prev(it); if(p->first+p->second.size>off){ splitCell(o,p->first); } }
    it=o->sym.lower_bound(off); while(it!=o->sym.end()&&it->first<off+size){ if(it->first+it->second.size>off+size){ uint32_t a=it->first; splitCell(o,a); it=o->sym.lower_bound(off); while(it!=o->sym.end()&&it->first<off+size&&it->first+it->second.size<=off+size) it=o->sym.erase(it); } else it=o->sym.erase(it); } }
  void storeObj(Obj*o,u64 off,Val v,Type*t){
    if(auto*st=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();++i) storeObj(o,off+sl->getElementOffset(i),v.k==VA?agg(v)[i]:Val(),st->getElementType(i)); return; }
    if(auto*at=dyn_cast<ArrayType>(t)){ u64 es=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements();++i) storeObj(o,off+i*es,v.k==VA?agg(v)[i]:Val(),at->getElementType()); return; }
    if(auto*vt=dyn_cast<FixedVectorType>(t)){ u64 es=DL->getTypeStoreSize(vt->getElementType()); for(unsigned i=0;i<vt->getNumElements();++i) storeObj(o,off+i*es,v.k==VA?agg(v)[i]:Val(),vt->getElementType()); return; }
    uint32_t sz=(uint32_t)DL->getTypeStoreSize(t); clearRange(o,(uint32_t)off,sz);
    if(isFP(t)){ v=v.k==VU?v:toReal(v); if(v.k==VRC){ if(t->isFloatTy()){ float f=(float)asD(v); uint32_t u; memcpy(&u,&f,4); v=mkI(32,u);} else if(t->isDoubleTy()) v=mkI(64,v.c); else { putVal(o,(uint32_t)off,v,sz); return; } } }
    else if(v.k==VRC) v=mkI(64,v.c);
    putVal(o,(uint32_t)off,v,sz); }
  Val loadObj(State&S,u64 id,Obj*o,u64 off,Type*t){
    if(auto*st=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(st); std::vector<Val> r; for(unsigned i=0;i<st->getNumElements();++i) r.push_back(loadObj(S,id,o,off+sl->getElementOffset(i),st->getElementType(i))); return mkA(r); }
    if(auto*at=dyn_cast<ArrayType>(t)){ std::vector<Val> r; u64 es=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements();++i) r.push_back(loadObj(S,id,o,off+i*es,at->getElementType())); return mkA(r); }
    if(auto*vt=dyn_cast<FixedVectorType>(t)){ std::vector<Val> r; u64 es=DL->getTypeStoreSize(vt->getElementType()); for(unsigned i=0;i<vt->getNumElements();++i) r.push_back(loadObj(S,id,o,off+i*es,vt->getElementType())); return mkA(r); }
    uint32_t sz=(uint32_t)DL->getTypeStoreSize(t); bool fp=isFP(t); bool allC=true,allU=true; for(uint32_t i=0;i<sz;++i){ if(o->tag[off+i]!=1) allC=false; if(o->tag[off+i]!=0) allU=false; }
    if(allC){ if(sz>8){ if(t->isX86_FP80Ty()) throw Kill{"fp80 bytes"}; z3::expr e=C.bv_val((uint64_t)o->b[off],8); for(uint32_t i=1;i<sz;++i) e=z3::concat(C.bv_val((uint64_t)o->b[off+i],8),e); return mkZ(sz*8,e); }
      u64 c=0; for(uint32_t i=0;i<sz;++i) c|=(u64)o->b[off+i]<<(8*i); if(fp) return toReal(mkI(sz*8,c)); return mkI(width(t),c); }
    if(allU) return Val();
    auto it=o->sym.find((uint32_t)off); if(it!=o->sym.end()&&it->second.size==sz){ Val v=it->second.v; if(fp) return toReal(v); if(v.k==VRS){ v.k=VRB; v.w=64; } if(v.k==VIS&&v.w!=width(t)){ z3::expr e=zx(v); if(v.w==1) return mkZ(width(t),z3::ite(e,C.bv_val(1,width(t)),C.bv_val(0,width(t)))); if(width(t)==1) return mkB((e.extract(0,0)==C.bv_val(1,1)).simplify()); if(width(t)<v.w) return mkZ(width(t),e.extract(width(t)-1,0)); } return v; }
    // bytewise
    Obj*w=getW(S,id); std::vector<z3::expr> bs;
    for(uint32_t i=0;i<sz;++i){ if(w->tag[off+i]==2){ auto jt=w->sym.upper_bound((uint32_t)off+i); --jt; if(jt->second.size!=1) splitCell(w,jt->first); } if(w->tag[off+i]==0){ putVal(w,(uint32_t)off+i,freshInt(8),1); } }
    for(uint32_t i=0;i<sz;++i){ if(w->tag[off+i]==1) bs.push_back(C.bv_val((uint64_t)w->b[off+i],8)); else { auto&c=w->sym[(uint32_t)off+i]; bs.push_back(bv(c.v,8)); } }
    z3::expr e=bs[0]; for(uint32_t i=1;i<sz;++i) e=z3::concat(bs[i],e); Val v=mkZ(sz*8,e); if(fp) return toReal(v); 
    if(v.k==VIS&&width(t)<sz*8) return width(t)==1? mkB((zx(v).extract(0,0)==C.bv_val(1,1)).simplify()):mkZ(width(t),zx(v).extract(width(t)-1,0)); if(v.k==VI) return mkI(width(t),v.c);
    if(v.k==VIS&&sz==8){ auto fb=fromBits.find(Z3_get_ast_id(C,zx(v))); if(fb!=fromBits.end()&&fb->second.k==VRS){ Val r=fb->second; r.k=VRB; r.w=64; return r; } }
    return v; }
  u64 resolve(State&S,const Val&pv,u64 size,const char*what){ u64 a=concretize(S,pv,64); u64 id=idOf(a); i64 off=(i64)(a&0xffffffffull)-(i64)BASEOFF; Obj*o= a>=FNBASE?nullptr:getR(S,id); if(!o||off<0||(u64)off+size>o->size){ report(S,"memory",std::string("invalid ")+what+(o?" (out of bounds)":a<4096?" (null pointer)":" (dangling or wild pointer)"),{C.bool_val(true)}); throw Kill{"memory error"}; } return a; }
  void store(State&S,const Val&p,const Val&v,Type*t){ u64 a=resolve(S,p,DL->getTypeStoreSize(t),"write"); storeObj(getW(S,idOf(a)),(a&0xffffffffull)-BASEOFF,v,t); }
  Val load(State&S,const Val&p,Type*t){ u64 a=resolve(S,p,DL->getTypeStoreSize(t),"read"); u64 id=idOf(a); return loadObj(S,id,getR(S,id),(a&0xffffffffull)-BASEOFF,t); }
  void memCopy(State&S,u64 d,u64 s,u64 n){ if(!n) return; resolve(S,mkI(64,d),n,"write"); resolve(S,mkI(64,s),n,"read"); u64 si=idOf(s),di=idOf(d); uint32_t so=(uint32_t)((s&0xffffffffull)-BASEOFF), dof=(uint32_t)((d&0xffffffffull)-BASEOFF);
    Obj*o=getR(S,si); bool part=false; if(!o->sym.empty()){ auto it=o->sym.lower_bound(so); if(it!=o->sym.begin()){ auto p=std::prev(it); if(p->first+p->second.size>so) part=true; } auto jt=o->sym.lower_bound(so+(uint32_t)n); if(jt!=o->sym.begin()){ auto p=std::prev(jt); if(p->first+p->second.size>so+n) part=true; } }
    if(part){ Obj*w=getW(S,si); std::vector<uint32_t> sp; for(auto&c:w->sym) if((c.first<so&&c.first+c.second.size>so)||(c.first<so+n&&c.first+c.second.size>so+n)) sp.push_back(c.first); for(auto x:sp) splitCell(w,x); o=w; }
    std::vector<uint8_t> tb(o->b.begin()+so,o->b.begin()+so+n), tt(o->tag.begin()+so,o->tag.begin()+so+n); std::vector<std::pair<uint32_t,Cell>> cs; if(!o->sym.empty()) for(auto it=o->sym.lower_bound(so);it!=o->sym.end()&&it->first<so+n;++it) cs.push_back({it->first-so,it->second});
    Obj*w=getW(S,di); clearRange(w,dof,(uint32_t)n); std::copy(tb.begin(),tb.end(),w->b.begin()+dof); std::copy(tt.begin(),tt.end(),w->tag.begin()+dof); for(auto&c:cs) w->sym[dof+c.first]=c.second; }
  void memSet(State&S,u64 d,const Val&v,u64 n){ if(!n) return; resolve(S,mkI(64,d),n,"write"); Obj*w=getW(S,idOf(d)); uint32_t off=(uint32_t)((d&0xffffffffull)-BASEOFF); clearRange(w,off,(uint32_t)n); Val b=toInt(v,8); for(u64 i=0;i<n;++i) putVal(w,off+(uint32_t)i,b,1); }
  Val loadByte(State&S,u64 a){ return load(S,mkI(64,a),Type::getInt8Ty(LC)); }
  std::string cstr(State&S,const Val&p){ u64 a=concretize(S,p,64); std::string s; for(;;){ Val b=loadByte(S,a++); u64 c=concretize(S,b,8); if(!c) break; s+=(char)c; if(s.size()>4096) break; } return s; }
  // ---------- reporting ----------
  std::string where(State&S){ std::string w; int n=0; for(int i=(int)S.fr.size()-1;i>=0&&n<6;--i){ auto&f=S.fr[i]; std::string nm=demangle(f.f->F->getName().str()); auto pr=nm.find('('); if(pr!=std::string::npos) nm=nm.substr(0,pr); if(nm.size()>90) nm=nm.substr(0,90); std::string ln; if(f.ip<(int)f.f->ins.size()) if(auto&dl=f.f->ins[f.ip].I->getDebugLoc()){ ln=std::string(dl->getFilename())+":"+std::to_string(dl.getLine()); auto sl=ln.rfind('/'); if(sl!=std::string::npos) ln=ln.substr(sl+1); } if(n++) w+=" <- "; w+=nm+"@"+ln; } return w; }
  void undecidedHit(const std::string&m){ undecided++; X.st.assertsUndecided++; undecMsgs.insert(m); }
  using Assign=std::vector<std::pair<std::string,std::string>>;
  static std::string hexd(double d){ char b[64]; snprintf(b,64,"%a",d); return b; }
  // solve full path + extra, component by component
  Res fullModel(State&S,const std::vector<z3::expr>&extra,unsigned ms,Assign&out){
    std::vector<std::shared_ptr<z3::model>> symModel(X.syms.size()); std::set<int> done; std::vector<z3::expr> cs; std::set<int> vs; X.slice(S.pc,extra,cs,vs); for(auto&e:extra) cs.push_back(e); std::shared_ptr<z3::model> m; Res r=X.raw(cs,ms,vs,&m); if(r!=RSAT) return r; for(int v:vs){ symModel[v]=m; done.insert(v); }
    for(auto&c:S.pc){ if(c.vars.empty()||done.count(c.vars[0])) continue; std::vector<z3::expr> c2; std::set<int> v2; X.slice(S.pc,{c.e},c2,v2); std::shared_ptr<z3::model> m2; Res q=X.raw(c2,ms,v2,&m2); if(q==RUNSAT) return RUNSAT; for(int v:v2){ symModel[v]= q==RSAT?m2:nullptr; done.insert(v); } }
    out.clear(); for(size_t i=0;i<X.syms.size();++i){ auto&s=X.syms[i]; if(!s.input) continue; if(s.kind==0){ double d; if(symModel[i]){ d=Solver::numToD(C,symModel[i]->eval(s.e,true).simplify()); } else { d= s.hasB? s.lo+(s.hi-s.lo)*(1+(int)(rng()%6))/8.0 : ((int)(rng()%33)-16)/8.0; if(s.hasB&&s.lo<=0.5&&s.hi>=2&&s.hi>8){ d=0.5+(rng()%12)/8.0; } } out.push_back({s.name,hexd(d)}); }
      else { std::string t="0"; if(symModel[i]){ z3::expr e=symModel[i]->eval(s.e,true).simplify(); if(s.kind==2) t=e.is_true()?"1":"0"; else { uint64_t c=0; Z3_get_numeral_uint64(C,e,&c); t=std::to_string(c); } } else if(s.kind==1&&s.hasB) t=std::to_string((u64)(i64)s.lo); out.push_back({s.name,t}); } }
    return RSAT; }
  bool infeasiblePath(State&S){ std::set<int> done; for(auto&c:S.pc){ if(c.vars.empty()){ if(c.e.is_false()) return true; continue; } if(done.count(c.vars[0])) continue; std::vector<z3::expr> c2; std::set<int> v2; X.slice(S.pc,{c.e},c2,v2); if(X.raw(c2,X.tmo,v2,nullptr)==RUNSAT) return true; for(int v:v2) done.insert(v); } return false; }
  // prefs: alternatives, strong to weak; any one suffices as a violation witness
  void report(State&S,const std::string&kind,const std::string&msg,std::vector<z3::expr> alts){
    std::string w=where(S); std::string key=kind+"|"+msg; int n=violCount[key]++; if(n>=6) return; auto t0=std::chrono::steady_clock::now(); auto el=[&]{ return std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); };
    Violation V{kind,msg,w,{},true}; Assign a; double bud=n==0?candBudget:candBudget/4;
    auto oldDl=X.deadline; X.deadline=std::max(X.deadline,t0+std::chrono::milliseconds((int)(bud*1000)));
    std::vector<z3::expr> good; for(auto&e:alts){ if(el()>bud) break; Res r=fullModel(S,{e},8000,a); if(r==RSAT){ V.cands.push_back(a); good.push_back(e); } }
    // diversified candidates with dyadic inputs
    if(!alts.empty()) for(int k=0;k<10&&el()<bud;++k){ z3::expr base= good.empty()?alts.back(): good[k%good.size()]; std::vector<z3::expr> ex{base}; std::vector<z3::expr> cs; std::set<int> vs; X.slice(S.pc,ex,cs,vs); std::vector<int> ins; for(int v:vs) if(X.syms[v].input&&X.syms[v].kind==0) ins.push_back(v); std::shuffle(ins.begin(),ins.end(),rng); if(ins.empty()){ break; }
      int fixed=0; for(int v:ins){ if(el()>bud) break; auto&s=X.syms[v]; double lo=s.hasB?std::max(s.lo,-4.0):-4, hi=s.hasB?std::min(s.hi,4.0):4; if(lo>hi){ lo=s.lo; hi=s.hi; } int L=(int)std::ceil(lo*8),H=(int)std::floor(hi*8); if(H<L) continue; double d=(L+(int)(rng()%(unsigned)(H-L+1)))/8.0; if(F.P.vars[s.rvar].hasSq){ static const double py[][1]={{0.6},{0.8},{-0.6},{-0.8},{0.28},{0.96}}; d=py[rng()%6][0]; Rat q=d==0.6?Rat(3,5):d==0.8?Rat(4,5):d==-0.6?Rat(-3,5):d==-0.8?Rat(-4,5):d==0.28?Rat(7,25):Rat(24,25); ex.push_back(s.e==X.ratZ(q)); } else ex.push_back(s.e==X.ratZ(Rat(d)));
        std::vector<z3::expr> c2; std::set<int> v2; X.slice(S.pc,ex,c2,v2); for(auto&e:ex) c2.push_back(e); Res r=X.raw(c2,1500,v2,nullptr); if(r!=RSAT) ex.pop_back(); else fixed++; }
      Res r=fullModel(S,ex,3000,a); if(r==RSAT) V.cands.push_back(a); }
    if(alts.empty()) { if(fullModel(S,{},3000,a)==RSAT) V.cands.push_back(a); }
    X.deadline=oldDl; viols.push_back(V); std::cerr<<"[cex] "<<kind<<": "<<msg<<" @ "<<w<<" cands="<<V.cands.size()<<"\n"; }
  // size of an allocation: one that no machine can satisfy is a failure of the program
  u64 allocSize(State&S,const Val&v0){ Val v=toInt(v0,64); const u64 lim=1u<<28; bool huge=false; std::vector<z3::expr> alts;
    if(v.k==VI){ if(v.c<=lim) return v.c; huge=true; alts.push_back(C.bool_val(true)); }
    else { z3::expr e=zx(v),far=z3::ugt(e,C.bv_val((uint64_t)1<<47,64)); if(X.check(S.pc,z3::ugt(e,C.bv_val((uint64_t)lim,64)),X.tmo)==RSAT){ huge=true; alts.push_back(far); alts.push_back(z3::ugt(e,C.bv_val((uint64_t)1<<36,64))); alts.push_back(z3::ugt(e,C.bv_val((uint64_t)lim,64))); } }
    if(huge){ if(S.allowThrow){ X.st.paths++; endKinds["throw-allowed"]++; throw Kill{"done"}; } report(S,"alloc","allocation of an absurd size",alts); throw Kill{"huge allocation"}; }
    return concretize(S,v0,64); }
  // assertion with alternatives (negations strong to weak; last = exact negation)
  void assertNeg(State&S,const std::string&msg,std::vector<z3::expr> negs,const z3::expr&assume,const std::string&kind="assert"){
    X.st.asserts++; assertMsgs.insert(msg); z3::expr n=negs.back(); auto t0=std::chrono::steady_clock::now();
    Res r=X.check(S.pc,n,assertTmo); slow[msg]+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
    if(r==RUNSAT){ X.st.assertsProved++; return; }
    if(r==RSAT&&infeasiblePath(S)){ X.st.assertsProved++; throw Kill{"infeasible"}; }
    if(r==RSAT){ report(S,kind,msg,negs); }
    else { // try to find a witness by partial concretisation; otherwise undecided
      size_t before=viols.size(); int k0=violCount[kind+"|"+msg]; if(k0<3){ report(S,kind,msg,negs); bool real=viols.size()>before&&!viols.back().cands.empty(); if(!real&&viols.size()>before) viols.pop_back(); else if(real) viols.back().allDecided=false; } undecidedHit(msg); }
    if(X.check(S.pc,assume,X.tmo)==RUNSAT) throw Kill{"assertion always fails"}; addPC(S,assume); }
  // ---------- constants / decode ----------
  Val constVal(Constant*c){ Type*t=c->getType();
    if(auto*ci=dyn_cast<ConstantInt>(c)){ unsigned w=ci->getBitWidth(); if(w<=64) return mkI(w,ci->getZExtValue()); SmallString<64> s; ci->getValue().toStringUnsigned(s,10); return mkZ(w,C.bv_val(s.c_str(),w)); }
    if(auto*cf=dyn_cast<ConstantFP>(c)){ APFloat f=cf->getValueAPF(); if(t->isDoubleTy()) return mkD(f.convertToDouble()); if(t->isFloatTy()) return mkD(f.convertToFloat()); bool li; f.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&li); return mkD(f.convertToDouble()); }
    if(isa<ConstantPointerNull>(c)) return mkI(64,0); if(isa<UndefValue>(c)){ if(t->isAggregateType()||t->isVectorTy()){ unsigned n= t->isStructTy()?t->getStructNumElements(): t->isArrayTy()?t->getArrayNumElements(): cast<FixedVectorType>(t)->getNumElements(); return mkA(std::vector<Val>(n)); } return Val(); }
    if(auto*f=dyn_cast<Function>(c)) return mkI(64,fnAddr(f)); if(auto*g=dyn_cast<GlobalVariable>(c)) return mkI(64,addrOf(gvId[g])); if(auto*ga=dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
    if(isa<ConstantAggregateZero>(c)){ std::vector<Val> r; unsigned n= t->isStructTy()?t->getStructNumElements(): t->isArrayTy()?t->getArrayNumElements(): cast<FixedVectorType>(t)->getNumElements(); for(unsigned i=0;i<n;++i) r.push_back(constVal(c->getAggregateElement(i))); return mkA(r); }
    if(isa<ConstantAggregate>(c)||isa<ConstantDataSequential>(c)){ std::vector<Val> r; unsigned n= t->isStructTy()?t->getStructNumElements(): t->isArrayTy()?t->getArrayNumElements(): cast<FixedVectorType>(t)->getNumElements(); for(unsigned i=0;i<n;++i) r.push_back(constVal(c->getAggregateElement(i))); return mkA(r); }
    if(auto*ce=dyn_cast<ConstantExpr>(c)){ switch(ce->getOpcode()){ case Instruction::GetElementPtr:{ APInt off(64,0); auto*g=cast<GEPOperator>(ce); if(!g->accumulateConstantOffset(*DL,off)) throw Kill{"const gep"}; return mkI(64,constVal(cast<Constant>(g->getPointerOperand())).c+off.getZExtValue()); }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::PtrToInt: case Instruction::IntToPtr: { Val v=constVal(ce->getOperand(0)); if(v.k==VI&&t->isIntegerTy()) return mkI(width(t),v.c); return v; }
        case Instruction::Trunc: return mkI(width(t),constVal(ce->getOperand(0)).c);
        case Instruction::Add: return mkI(width(t),constVal(ce->getOperand(0)).c+constVal(ce->getOperand(1)).c); case Instruction::Sub: return mkI(width(t),constVal(ce->getOperand(0)).c-constVal(ce->getOperand(1)).c); case Instruction::Mul: return mkI(width(t),constVal(ce->getOperand(0)).c*constVal(ce->getOperand(1)).c);
        case Instruction::ICmp:{ u64 a=constVal(ce->getOperand(0)).c,b=constVal(ce->getOperand(1)).c; return mkI(1,ce->getPredicate()==CmpInst::ICMP_EQ?a==b:a!=b); }
        default: throw Kill{std::string("constexpr ")+ce->getOpcodeName()}; } }
    throw Kill{"constant"}; }
  u64 fnAddr(Function*f){ auto it=fnIdx.find(f); if(it!=fnIdx.end()) return FNBASE+it->second*16; fns.push_back(f); fnIdx[f]=fns.size()-1; return FNBASE+(fns.size()-1)*16; }
  FInfo* info(Function*F_){ auto&p=finfo[F_]; if(p) return p.get(); p=std::make_unique<FInfo>(); p->F=F_; std::unordered_map<const Value*,int> slot; int n=0; for(auto&a:F_->args()) slot[&a]=n++; for(auto&b:*F_) for(auto&i:b) if(!i.getType()->isVoidTy()) slot[&i]=n++; p->nslots=n; std::unordered_map<const Value*,int> cidx;
    for(auto&b:*F_){ p->bbStart[&b]=(int)p->ins.size(); for(auto&i:b){ if(isa<DbgInfoIntrinsic>(i)) continue; DI d; d.I=&i; d.dst=i.getType()->isVoidTy()?-1:slot[&i]; d.op=i.getOpcode(); for(auto&o:i.operands()){ Value*v=o.get(); if(isa<BasicBlock>(v)||isa<MetadataAsValue>(v)||isa<InlineAsm>(v)) d.ops.push_back(INT_MIN); else if(auto*c=dyn_cast<Constant>(v)){ auto it=cidx.find(c); if(it==cidx.end()){ int k=(int)p->consts.size(); Val cv; try{ cv=constVal(c);}catch(Kill&){ } p->consts.push_back(cv); it=cidx.emplace(c,k).first; } d.ops.push_back(-1-it->second); } else d.ops.push_back(slot[v]); } p->ins.push_back(std::move(d)); } }
    if(auto*sp=F_->getSubprogram()){ std::string fn=(sp->getFile()?(sp->getFile()->getDirectory().str()+"|"+sp->getFile()->getFilename().str()):""); if(fn.find(repoRoot)!=std::string::npos){ p->repo=true; } }
    return p.get(); }
  std::string repoRoot="/repo/";
  const Val& ev(Frame&f,int o){ if(o>=0) return f.regs[o]; return f.f->consts[-1-o]; }
  // signed interval of a bit-vector term from its structure and the declared ranges of inputs; used to run multiplications and divisions at the width they need
  typedef __int128 W; struct Rg { bool ok=false; W lo=0,hi=0; };
  std::unordered_map<unsigned,Rg> rgMemo;
  static Rg mkRg(W lo,W hi,unsigned w){ Rg r; W m=((W)1)<<(w-1); if(lo>=-m&&hi<m){ r.ok=true; r.lo=lo; r.hi=hi; } return r; }
  Rg irange(const z3::expr&e,int depth=0){ unsigned w=e.get_sort().bv_size(); if(w>64) return Rg(); unsigned id=Z3_get_ast_id(C,e); auto it=rgMemo.find(id); if(it!=rgMemo.end()) return it->second; Rg r; W m=((W)1)<<(w-1); r.ok=true; r.lo=-m; r.hi=m-1;
    if(e.is_numeral()){ uint64_t v=e.get_numeral_uint64(); W x=(W)v; if(x>=m) x-=2*m; r=mkRg(x,x,w); }
    else if(e.is_app()&&depth<60){ auto k=e.decl().decl_kind(); auto A=[&](unsigned i){ return irange(e.arg(i),depth+1); }; Rg t; 
      if(k==Z3_OP_UNINTERPRETED&&e.num_args()==0){ auto d=X.declToSym.find(e.decl().id()); if(d!=X.declToSym.end()){ auto&sy=X.syms[d->second]; if(sy.hasB&&sy.lo>=-9e15&&sy.hi<=9e15) t=mkRg((W)sy.lo,(W)sy.hi,w); } }
      else if(k==Z3_OP_SIGN_EXT){ t=A(0); }
      else if(k==Z3_OP_ZERO_EXT){ Rg a=A(0); if(a.ok&&a.lo>=0) t=a; else { unsigned aw=e.arg(0).get_sort().bv_size(); t=mkRg(0,((W)1<<aw)-1,w); } }
      else if(k==Z3_OP_CONCAT&&e.num_args()==2&&e.arg(0).is_numeral()&&e.arg(0).get_numeral_uint64()==0){ Rg a=A(1); if(a.ok&&a.lo>=0) t=a; else { unsigned aw=e.arg(1).get_sort().bv_size(); t=mkRg(0,((W)1<<aw)-1,w); } }
      else if(k==Z3_OP_BADD){ W lo=0,hi=0; bool ok=true; for(unsigned i=0;i<e.num_args()&&ok;++i){ Rg a=A(i); ok=a.ok; lo+=a.lo; hi+=a.hi; } if(ok) t=mkRg(lo,hi,w); }
      else if(k==Z3_OP_BSUB&&e.num_args()==2){ Rg a=A(0),b=A(1); if(a.ok&&b.ok) t=mkRg(a.lo-b.hi,a.hi-b.lo,w); }
      else if(k==Z3_OP_BNEG){ Rg a=A(0); if(a.ok) t=mkRg(-a.hi,-a.lo,w); }
      else if(k==Z3_OP_BMUL&&e.num_args()==2){ Rg a=A(0),b=A(1); if(a.ok&&b.ok) t=mul(a,b,w); }
      else if(k==Z3_OP_ITE){ Rg a=A(1),b=A(2); if(a.ok&&b.ok) t=mkRg(std::min(a.lo,b.lo),std::max(a.hi,b.hi),w); }
      else if(k==Z3_OP_EXTRACT&&Z3_get_decl_int_parameter(C,e.decl(),1)==0){ Rg a=A(0); if(a.ok) t=mkRg(a.lo,a.hi,w); }
      if(t.ok) r=t; }
    X.keep.push_back(e); rgMemo[id]=r; return r; }
  static bool fits(W x){ return x>=-((W)1<<62)&&x<=((W)1<<62); }
  Rg mul(const Rg&a,const Rg&b,unsigned w){ if(!(fits(a.lo)&&fits(a.hi)&&fits(b.lo)&&fits(b.hi))) return Rg(); W p[4]={a.lo*b.lo,a.lo*b.hi,a.hi*b.lo,a.hi*b.hi}; return mkRg(*std::min_element(p,p+4),*std::max_element(p,p+4),w); }
  static unsigned bitsOf(const Rg&a){ unsigned b=1; while(b<70&&!(a.lo>=-((W)1<<(b-1))&&a.hi<((W)1<<(b-1)))) ++b; return b; }
  void noteRange(const Val&v,const Rg&r){ if(v.k!=VIS||v.w==1||!r.ok) return; const z3::expr&e=*std::static_pointer_cast<const z3::expr>(v.p); unsigned id=Z3_get_ast_id(C,e); if(!rgMemo.count(id)) X.keep.push_back(e); rgMemo[id]=r; }
  // narrow multiplication / division; false when nothing is gained
  bool narrow(unsigned op,const z3::expr&x,const z3::expr&y,unsigned w,Val&out){ if(w>64||w<16) return false; Rg a=irange(x),b=irange(y); if(!a.ok||!b.ok) return false; Rg r; bool us=op==Instruction::UDiv||op==Instruction::URem; if(us&&(a.lo<0||b.lo<0)) return false;
    if(op==Instruction::Mul) r=mul(a,b,w);
    else { if(!fits(a.lo)||!fits(a.hi)||!fits(b.lo)||!fits(b.hi)) return false; W ma=std::max(a.hi,-a.lo),mb=std::max(b.hi,-b.lo); if(op==Instruction::SDiv||op==Instruction::UDiv) r=us?mkRg(0,a.hi,w):mkRg(-ma,ma,w); else { W q=std::min(ma,mb>0?mb-1:0); r=mkRg(a.lo<0?-q:0,a.hi>0?q:0,w); } }
    if(!r.ok) return false; unsigned n=std::max(bitsOf(r),std::max(bitsOf(a),bitsOf(b))); if(n+2>w) return false; 
    z3::expr p=x.extract(n-1,0).simplify(),q=y.extract(n-1,0).simplify(); z3::expr e(C); switch(op){ case Instruction::Mul: e=p*q; break; case Instruction::SDiv: case Instruction::UDiv: e=p/q; break; default: e=z3::srem(p,q); } 
    { X.keep.push_back(e); unsigned id=Z3_get_ast_id(C,e); if(!rgMemo.count(id)) rgMemo[id]=r; } out=mkZ(w,z3::sext(e,w-n)); noteRange(out,r); return true; }
  // ---------- integer ops ----------
  Val ibin(State&S,unsigned op,const Val&a0,const Val&b0,unsigned w){ Val a=toInt(a0,w),b=toInt(b0,w);
    if(a.k==VI&&b.k==VI&&w<=64){ u64 x=a.c,y=b.c; auto sx=[&](u64 v){ return w==64?(i64)v:(i64)(v<<(64-w))>>(64-w); };
      switch(op){ case Instruction::Add: return mkI(w,x+y); case Instruction::Sub: return mkI(w,x-y); case Instruction::Mul: return mkI(w,x*y); case Instruction::And: return mkI(w,x&y); case Instruction::Or: return mkI(w,x|y); case Instruction::Xor: return mkI(w,x^y);
        case Instruction::Shl: return mkI(w,y>=w?0:x<<y); case Instruction::LShr: return mkI(w,y>=w?0:x>>y); case Instruction::AShr: return mkI(w,(u64)(sx(x)>>(y>=w?w-1:y)));
        case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: if(y==0){ report(S,"div-by-zero","integer division by zero",{C.bool_val(true)}); throw Kill{"div0"}; } if(op==Instruction::UDiv) return mkI(w,x/y); if(op==Instruction::URem) return mkI(w,x%y); if(sx(y)==-1) return op==Instruction::SDiv?mkI(w,(u64)0-x):mkI(w,0); return op==Instruction::SDiv?mkI(w,(u64)(sx(x)/sx(y))):mkI(w,(u64)(sx(x)%sx(y))); } }
    z3::expr x=bv(a,w),y=bv(b,w);
    if(w==1){ switch(op){ case Instruction::And: case Instruction::Mul: if(a.k==VI) return a.c?b:a; if(b.k==VI) return b.c?a:b; return mkB(x&&y); case Instruction::Or: if(a.k==VI) return a.c?a:b; if(b.k==VI) return b.c?b:a; return mkB(x||y); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: if(a.k==VI) return a.c?mkB(neg(y)):b; if(b.k==VI) return b.c?mkB(neg(x)):a; return mkB(x!=y); default: throw Kill{"i1 op"}; } }
    { Val nv; if(op==Instruction::Mul&&narrow(op,x,y,w,nv)) return nv; }
    if((op==Instruction::Add||op==Instruction::Sub)&&w<=64){ Val o=mkZ(w,op==Instruction::Add?x+y:x-y); Rg a_=irange(x),b_=irange(y); if(a_.ok&&b_.ok) noteRange(o,op==Instruction::Add?mkRg(a_.lo+b_.lo,a_.hi+b_.hi,w):mkRg(a_.lo-b_.hi,a_.hi-b_.lo,w)); return o; }
    switch(op){ case Instruction::Add: return mkZ(w,x+y); case Instruction::Sub: return mkZ(w,x-y); case Instruction::Mul: return mkZ(w,x*y); case Instruction::And: return mkZ(w,x&y); case Instruction::Or: return mkZ(w,x|y); case Instruction::Xor: return mkZ(w,x^y); case Instruction::Shl: return mkZ(w,z3::shl(x,y)); case Instruction::LShr: return mkZ(w,z3::lshr(x,y)); case Instruction::AShr: return mkZ(w,z3::ashr(x,y)); default: break; }
    z3::expr z=(y==C.bv_val(0,w)); if(!b.k||b.k==VIS){ unsigned id=Z3_get_ast_id(C,z); if(!S.known.count(id)){ X.keep.push_back(z); Res r=X.check(S.pc,z,assertTmo); X.st.asserts++; if(r==RSAT){ report(S,"div-by-zero","integer division by zero",{z}); addPC(S,!z); if(X.check(S.pc,!z,X.tmo)==RUNSAT) throw Kill{"div0"}; } else X.st.assertsProved++; S.known[id]=false; } }
    { Val nv; if(narrow(op,x,y,w,nv)) return nv; }
    switch(op){ case Instruction::UDiv: return mkZ(w,z3::udiv(x,y)); case Instruction::URem: return mkZ(w,z3::urem(x,y)); case Instruction::SDiv: return mkZ(w,x/y); case Instruction::SRem: return mkZ(w,z3::srem(x,y)); }
    throw Kill{"ibin"}; }
  Val icmp(CmpInst::Predicate p,const Val&a0,const Val&b0,unsigned w){ Val a=toInt(a0,w),b=toInt(b0,w);
    if(a.k==VI&&b.k==VI&&w<=64){ u64 x=a.c,y=b.c; auto sx=[&](u64 v){ return w==64?(i64)v:(i64)(v<<(64-w))>>(64-w); }; bool r=false; switch(p){ case CmpInst::ICMP_EQ: r=x==y; break; case CmpInst::ICMP_NE: r=x!=y; break; case CmpInst::ICMP_UGT: r=x>y; break; case CmpInst::ICMP_UGE: r=x>=y; break; case CmpInst::ICMP_ULT: r=x<y; break; case CmpInst::ICMP_ULE: r=x<=y; break; case CmpInst::ICMP_SGT: r=sx(x)>sx(y); break; case CmpInst::ICMP_SGE: r=sx(x)>=sx(y); break; case CmpInst::ICMP_SLT: r=sx(x)<sx(y); break; case CmpInst::ICMP_SLE: r=sx(x)<=sx(y); break; default: break; } return mkI(1,r); }
    z3::expr x=bv(a,w),y=bv(b,w); if(w==1){ if(p==CmpInst::ICMP_EQ) return mkB((x==y).simplify()); if(p==CmpInst::ICMP_NE) return mkB((x!=y).simplify()); z3::expr o=C.bv_val(1,1),z=C.bv_val(0,1); x=z3::ite(x,o,z); y=z3::ite(y,o,z); }
    z3::expr e(C); switch(p){ case CmpInst::ICMP_EQ: e=x==y; break; case CmpInst::ICMP_NE: e=x!=y; break; case CmpInst::ICMP_UGT: e=z3::ugt(x,y); break; case CmpInst::ICMP_UGE: e=z3::uge(x,y); break; case CmpInst::ICMP_ULT: e=z3::ult(x,y); break; case CmpInst::ICMP_ULE: e=z3::ule(x,y); break; case CmpInst::ICMP_SGT: e=x>y; break; case CmpInst::ICMP_SGE: e=x>=y; break; case CmpInst::ICMP_SLT: e=x<y; break; default: e=x<=y; break; }
    return mkB(e.simplify()); }
  Val ext(const Val&v0,unsigned fw,unsigned tw,bool sg){ Val v=toInt(v0,fw); if(v.k==VI&&tw<=64){ if(sg){ i64 s=fw==64?(i64)v.c:(i64)(v.c<<(64-fw))>>(64-fw); return mkI(tw,(u64)s);} return mkI(tw,v.c); } z3::expr e=bv(v,fw); if(fw==1){ return mkZ(tw,z3::ite(e,sg?-C.bv_val(1,tw):C.bv_val(1,tw),C.bv_val(0,tw))); } Val o=mkZ(tw,sg?z3::sext(e,tw-fw):z3::zext(e,tw-fw)); if(tw<=64){ Rg a=irange(e); if(a.ok&&(sg||a.lo>=0)) noteRange(o,a); else noteRange(o,mkRg(0,((W)1<<fw)-1,tw)); } return o; }
  Val trunc(const Val&v0,unsigned fw,unsigned tw){ Val v=toInt(v0,fw); if(v.k==VI) return mkI(tw,v.c); z3::expr e=zx(v); if(tw==1) return mkB((e.extract(0,0)==C.bv_val(1,1)).simplify()); return mkZ(tw,e.extract(tw-1,0)); }
  Val fptoi(State&S,const Val&v0,unsigned w,bool sg){ Val v=toReal(v0); if(v.k==VRC){ double d=std::trunc(asD(v)); double lim=std::ldexp(1.0,(int)(sg?w-1:w)); if(!(d<lim&&d>=(sg?-lim:0.0))){ report(S,"ub","float to integer conversion out of range",{C.bool_val(true)}); throw Kill{"fptoi range"}; } return mkI(w,sg?(u64)(i64)d:(u64)d); }
    if(decide(S,X.cmp0(frac(v),1))) { Val f=rfloor(S,rneg(v)); return fptoi(S,rneg(f),w,sg); } return fptoi(S,rfloor(S,v),w,sg); }
  // ---------- stepping ----------
  void jump(State&S,Frame&f,const BasicBlock*to){ const BasicBlock*from=f.bb; int ip=f.f->bbStart[to]; std::vector<std::pair<int,Val>> ph; while(f.f->ins[ip].op==Instruction::PHI){ auto&d=f.f->ins[ip]; auto*pn=cast<PHINode>(d.I); int k=pn->getBasicBlockIndex(from); ph.push_back({d.dst,ev(f,d.ops[k])}); ++ip; } for(auto&p:ph) f.regs[p.first]=p.second; f.prev=from; f.bb=to; f.ip=ip; (void)S; }
  // ---- exceptions: a throw that some caller handles unwinds through the landing pads; any other ends the path
  std::map<const Value*,unsigned> typeIds; unsigned typeId(const Value*t){ if(!t||isa<ConstantPointerNull>(t)) return 1; auto it=typeIds.find(t); if(it!=typeIds.end()) return it->second; unsigned n=(unsigned)typeIds.size()+2; typeIds[t]=n; return n; }
  static bool derives(const Value*t,const Value*want){ if(t==want) return true; auto*g=dyn_cast_or_null<GlobalVariable>(t); auto*w=dyn_cast<GlobalVariable>(want); if(!g||!w) return false; if(g->getName()==w->getName()) return true; if(!g->hasInitializer()) return false; auto*cs=dyn_cast<ConstantStruct>(g->getInitializer()); if(!cs||cs->getNumOperands()!=3) return false; return derives(cs->getOperand(2)->stripPointerCasts(),want); }
  // 0: the pad does not stop this exception, 1: it catches it, -1: cleanup only
  static int clauseOf(const LandingPadInst*lp,const Value*t,const Value*&m){ for(unsigned i=0;i<lp->getNumClauses();++i) if(lp->isCatch(i)){ const Value*c=lp->getClause(i)->stripPointerCasts(); if(isa<ConstantPointerNull>(c)||derives(t,c)){ m=c; return 1; } } return lp->isCleanup()?-1:0; }
  static bool terminates(const BasicBlock*b){ for(auto&i:*b) if(auto*c=dyn_cast<CallBase>(&i)) if(auto*f=c->getCalledFunction()) if(f->getName()=="__clang_call_terminate") return true; return false; }
  bool handled(State&S,const Value*t){ for(size_t k=S.fr.size();k-->0;){ Frame&g=S.fr[k]; auto*iv=dyn_cast<InvokeInst>(g.f->ins[g.ip].I); if(!iv) continue; auto*lp=iv->getLandingPadInst(); const Value*m=nullptr; if(clauseOf(lp,t,m)==1) return !terminates(lp->getParent()); } return false; }
  void unwind(State&S,bool here){ if(!here){ Frame&f=S.fr.back(); for(u64 a:f.allocas) slotRef(S,a)=nullptr; S.fr.pop_back(); }
    while(!S.fr.empty()){ Frame&g=S.fr.back(); if(auto*iv=dyn_cast<InvokeInst>(g.f->ins[g.ip].I)){ const Value*m=nullptr; if(clauseOf(iv->getLandingPadInst(),S.excType,m)){ jump(S,g,iv->getUnwindDest()); return; } } for(u64 a:g.allocas) slotRef(S,a)=nullptr; S.fr.pop_back(); }
    throw Kill{"exception left the harness"}; }
  void pushCall(State&S,Function*fn,std::vector<Val>&args){ if(S.fr.size()>600) { report(S,"nontermination","call depth bound",{}); throw Kill{"stack depth"}; } FInfo*fi=info(fn); if(fi->repo) repoFns.insert(demangle(fn->getName().str())); Frame nf; nf.f=fi; nf.bb=&fn->getEntryBlock(); nf.prev=nullptr; nf.ip=0; nf.regs.resize(fi->nslots); for(size_t i=0;i<args.size()&&i<fn->arg_size();++i){ nf.regs[i]=args[i]; } 
    for(unsigned i=0;i<fn->arg_size();++i) if(fn->getArg(i)->hasByValAttr()){ u64 sz=DL->getTypeAllocSize(fn->getParamByValType(i)); u64 a=alloc(S,sz,3); memCopy(S,a,args[i].c,sz); nf.regs[i]=mkI(64,a); nf.allocas.push_back(idOf(a)); }
    S.fr.push_back(std::move(nf)); }
  void finishPath(State&S,const std::string&kind){ X.st.paths++; endKinds[kind]++; if((int)witnesses.size()<maxWitness){ Assign a; if(fullModel(S,{},3000,a)==RSAT) witnesses.push_back(a); } throw Kill{"done"}; }
  template<class Fn> Val vecMap(Type*t,const Val&a,const Val&b,Fn fn){ if(auto*vt=dyn_cast<FixedVectorType>(t)){ std::vector<Val> r; for(unsigned i=0;i<vt->getNumElements();++i) r.push_back(fn(vt->getElementType(),a.k==VA?agg(a)[i]:Val(),b.k==VA?agg(b)[i]:Val())); return mkA(r); } return fn(t,a,b); }
  void step(State&S){
    Frame&f=S.fr.back(); DI&d=f.f->ins[f.ip]; Instruction*I=d.I; auto set=[&](const Val&v){ Frame&g=S.fr.back(); g.regs[d.dst]=v; g.ip++; }; auto A=[&](int i)->const Val&{ return ev(S.fr.back(),d.ops[i]); }; S.steps++; X.st.instr++;
    switch(d.op){
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      set(vecMap(I->getType(),A(0),A(1),[&](Type*t,const Val&a,const Val&b){ return ibin(S,d.op,a,b,width(t)); })); return;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: { unsigned o= d.op==Instruction::FAdd?'+':d.op==Instruction::FSub?'-':d.op==Instruction::FMul?'*':'/'; set(vecMap(I->getType(),A(0),A(1),[&](Type*,const Val&a,const Val&b){ return rbin(S,o,a,b); })); return; }
    case Instruction::FNeg: set(vecMap(I->getType(),A(0),A(0),[&](Type*,const Val&a,const Val&){ return rneg(a); })); return;
    case Instruction::FRem: { Val a=toReal(A(0)),b=toReal(A(1)); if(a.k==VRC&&b.k==VRC){ set(mkD(std::fmod(asD(a),asD(b)))); return; } set(rfmod(S,a,b)); return; }
    case Instruction::ICmp: { auto*c=cast<ICmpInst>(I); set(vecMap(I->getOperand(0)->getType(),A(0),A(1),[&](Type*t,const Val&a,const Val&b){ return icmp(c->getPredicate(),a,b,width(t)); })); return; }
    case Instruction::FCmp: { auto*c=cast<FCmpInst>(I); set(vecMap(I->getOperand(0)->getType(),A(0),A(1),[&](Type*,const Val&a,const Val&b){ return fcmp(c->getPredicate(),a,b); })); return; }
    case Instruction::Alloca: { auto*ai=cast<AllocaInst>(I); u64 n=concretize(S,A(0),width(ai->getArraySize()->getType())); u64 a=alloc(S,n*DL->getTypeAllocSize(ai->getAllocatedType()),3); S.fr.back().allocas.push_back(idOf(a)); set(mkI(64,a)); return; }
    case Instruction::Load: { Val v=load(S,A(0),I->getType()); set(v); return; }
    case Instruction::Store: { auto*si=cast<StoreInst>(I); store(S,A(1),A(0),si->getValueOperand()->getType()); S.fr.back().ip++; return; }
    case Instruction::GetElementPtr: { auto*g=cast<GetElementPtrInst>(I); Val base=toInt(A(0),64); unsigned k=1; bool sym=base.k!=VI; i64 off=0; z3::expr soff=C.bv_val(0,64); bool symOff=false;
      for(auto gt=gep_type_begin(g),e=gep_type_end(g);gt!=e;++gt,++k){ if(StructType*st=gt.getStructTypeOrNull()){ off+=(i64)DL->getStructLayout(st)->getElementOffset((unsigned)A(k).c); } else { u64 es=DL->getTypeAllocSize(gt.getIndexedType()); unsigned w=width(gt.getOperand()->getType()); Val ix=toInt(A(k),w); if(ix.k==VI){ i64 s=w==64?(i64)ix.c:(i64)(ix.c<<(64-w))>>(64-w); off+=s*(i64)es; } else { symOff=true; z3::expr e2=zx(ix); if(w<64) e2=z3::sext(e2,64-w); soff=soff+e2*C.bv_val((uint64_t)es,64); } } }
      if(!sym&&!symOff){ set(mkI(64,base.c+(u64)off)); return; } set(mkZ(64,bv(base,64)+soff+C.bv_val((int64_t)off,64))); return; }
    case Instruction::Trunc: set(vecMap(I->getType(),A(0),A(0),[&](Type*t,const Val&a,const Val&){ return trunc(a,width(I->getOperand(0)->getType()->getScalarType()),width(t)); })); return;
    case Instruction::ZExt: case Instruction::SExt: set(vecMap(I->getType(),A(0),A(0),[&](Type*t,const Val&a,const Val&){ return ext(a,width(I->getOperand(0)->getType()->getScalarType()),width(t),d.op==Instruction::SExt); })); return;
    case Instruction::FPTrunc: { Val v=toReal(A(0)); if(v.k==VRC&&I->getType()->isFloatTy()) v=mkD((float)asD(v)); set(v); return; }
    case Instruction::FPExt: set(toReal(A(0))); return;
    case Instruction::FPToSI: case Instruction::FPToUI: { Val v=fptoi(S,A(0),width(I->getType()),d.op==Instruction::FPToSI); set(v); return; }
    case Instruction::SIToFP: case Instruction::UIToFP: set(vecMap(I->getType(),A(0),A(0),[&](Type*,const Val&a,const Val&){ unsigned w=width(I->getOperand(0)->getType()->getScalarType()); u64 c=concretize(S,a,w); double r= d.op==Instruction::SIToFP?(double)(w==64?(i64)c:(i64)(c<<(64-w))>>(64-w)):(double)c; return mkD(r); })); return;
    case Instruction::PtrToInt: { unsigned w=width(I->getType()); set(w<64?trunc(A(0),64,w):A(0)); return; } case Instruction::IntToPtr: { unsigned w=width(I->getOperand(0)->getType()); set(w<64?ext(A(0),w,64,false):A(0)); return; }
    case Instruction::BitCast: { Type*ft=I->getOperand(0)->getType(),*tt=I->getType(); const Val&a=A(0); if(ft==tt||(ft->isPointerTy()&&tt->isPointerTy())){ set(a); return; } if(isFP(ft)&&tt->isIntegerTy()){ Val v=a.k==VU?a:toReal(a); if(v.k==VRC) v=toInt(v,width(tt)); else if(v.k==VRS){ v.k=VRB; v.w=64; } set(v); return; } if(ft->isIntegerTy()&&isFP(tt)){ set(a.k==VU?a:toReal(a)); return; } u64 tmp=alloc(S,64,3); Obj*o=getW(S,idOf(tmp)); storeObj(o,0,a,ft); Val v=loadObj(S,idOf(tmp),getR(S,idOf(tmp)),0,tt); slotRef(S,idOf(tmp))=nullptr; set(v); return; }
    case Instruction::Freeze: { Val v=A(0); if(v.k==VU){ Type*t=I->getType(); if(isFP(t)) v=freshReal(); else if(t->isIntegerTy()||t->isPointerTy()) v=freshInt(width(t)); } set(v); return; }
    case Instruction::Select: { const Val&c=A(0); Type*t=I->getType(); if(c.k==VA){ std::vector<Val> r; for(size_t i=0;i<agg(c).size();++i){ Val ci=agg(c)[i]; bool b=decide(S,boolOf(ci)); r.push_back(agg(A(b?1:2))[i]); } set(mkA(r)); return; } Val cb=toInt(c,1); if(cb.k==VI){ set(cb.c?A(1):A(2)); return; } if(t->isIntegerTy()&&A(1).k!=VRB&&A(2).k!=VRB&&A(1).k!=VU&&A(2).k!=VU){ unsigned w=width(t); z3::expr cz=zx(cb); bool b; auto it=S.known.find(Z3_get_ast_id(C,cz)); if(it!=S.known.end()){ b=it->second; set(b?A(1):A(2)); return; } if(w==1){ Val a1=toInt(A(1),1),a2=toInt(A(2),1); if(a1.k==VI&&a2.k==VI){ set(a1.c==a2.c?a1:a1.c?cb:mkB(neg(cz))); return; } if(a2.k==VI&&a2.c==0){ set(mkB(cz&&boolOf(a1))); return; } if(a1.k==VI&&a1.c==1){ set(mkB(cz||boolOf(a2))); return; } } set(mkZ(w,z3::ite(cz,bv(A(1),w),bv(A(2),w)))); return; } bool b=decide(S,boolOf(c)); set(b?A(1):A(2)); return; }
    case Instruction::ExtractValue: { Val v=A(0); for(unsigned ix:cast<ExtractValueInst>(I)->indices()) v= v.k==VA?agg(v)[ix]:Val(); set(v); return; }
    case Instruction::InsertValue: { auto*iv=cast<InsertValueInst>(I); std::function<Val(Val,unsigned,Type*)> ins=[&](Val v,unsigned k,Type*t)->Val{ if(k==iv->getNumIndices()) return A(1); unsigned ix=iv->getIndices()[k]; unsigned n=t->isStructTy()?t->getStructNumElements():t->getArrayNumElements(); std::vector<Val> r= v.k==VA?agg(v):std::vector<Val>(n); Type*et=t->isStructTy()?t->getStructElementType(ix):t->getArrayElementType(); r[ix]=ins(r[ix],k+1,et); return mkA(r); }; set(ins(A(0),0,I->getType())); return; }
    case Instruction::ExtractElement: { u64 ix=concretize(S,A(1),width(I->getOperand(1)->getType())); set(A(0).k==VA?agg(A(0))[ix]:Val()); return; }
    case Instruction::InsertElement: { u64 ix=concretize(S,A(2),width(I->getOperand(2)->getType())); unsigned n=cast<FixedVectorType>(I->getType())->getNumElements(); std::vector<Val> r=A(0).k==VA?agg(A(0)):std::vector<Val>(n); r[ix]=A(1); set(mkA(r)); return; }
    case Instruction::ShuffleVector: { auto*sv=cast<ShuffleVectorInst>(I); unsigned n=cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements(); std::vector<Val> r; for(int m:sv->getShuffleMask()){ if(m<0) r.push_back(Val()); else { const Val&s= m<(int)n?A(0):A(1); r.push_back(s.k==VA?agg(s)[m%n]:Val()); } } set(mkA(r)); return; }
    case Instruction::Br: { auto*b=cast<BranchInst>(I); if(b->isUnconditional()){ jump(S,f,b->getSuccessor(0)); return; } Val c=toInt(A(0),1); bool t= c.k==VI? c.c : decide(S,zx(c)); jump(S,S.fr.back(),b->getSuccessor(t?0:1)); return; }
    case Instruction::Switch: { auto*sw=cast<SwitchInst>(I); unsigned w=width(sw->getCondition()->getType()); Val c=toInt(A(0),w); if(c.k==VI){ for(auto&cs:sw->cases()) if(cs.getCaseValue()->getZExtValue()==c.c){ jump(S,f,cs.getCaseSuccessor()); return; } jump(S,f,sw->getDefaultDest()); return; }
      // group by destination to avoid needless forks
      std::map<BasicBlock*,z3::expr> by; std::vector<BasicBlock*> order; for(auto&cs:sw->cases()){ z3::expr e=(zx(c)==C.bv_val((uint64_t)cs.getCaseValue()->getZExtValue(),w)); auto it=by.find(cs.getCaseSuccessor()); if(it==by.end()){ by.emplace(cs.getCaseSuccessor(),e); order.push_back(cs.getCaseSuccessor()); } else it->second=it->second||e; }
      for(auto*b:order) if(decide(S,by.at(b))){ jump(S,S.fr.back(),b); return; } jump(S,S.fr.back(),sw->getDefaultDest()); return; }
    case Instruction::Ret: { Val r; bool has=I->getNumOperands()>0; if(has) r=A(0); for(u64 a:f.allocas) slotRef(S,a)=nullptr; S.fr.pop_back(); if(S.fr.empty()){ finishPath(S,"return"); } Frame&g=S.fr.back(); DI&cd=g.f->ins[g.ip]; if(cd.dst>=0) g.regs[cd.dst]=r; if(auto*iv=dyn_cast<InvokeInst>(cd.I)) jump(S,g,iv->getNormalDest()); else g.ip++; return; }
    case Instruction::Unreachable: report(S,"ub","reached unreachable code",{C.bool_val(true)}); throw Kill{"unreachable"};
    case Instruction::Fence: S.fr.back().ip++; return;
    case Instruction::AtomicRMW: { auto*r=cast<AtomicRMWInst>(I); Type*t=r->getValOperand()->getType(); Val o=load(S,A(0),t),n; unsigned w=width(t); switch(r->getOperation()){ case AtomicRMWInst::Add: n=ibin(S,Instruction::Add,o,A(1),w); break; case AtomicRMWInst::Sub: n=ibin(S,Instruction::Sub,o,A(1),w); break; case AtomicRMWInst::Xchg: n=A(1); break; default: throw Kill{"atomicrmw"}; } store(S,A(0),n,t); set(o); return; }
    case Instruction::Call: case Instruction::Invoke: doCall(S,d); return;
    case Instruction::LandingPad: { const Value*m=nullptr; int c=clauseOf(cast<LandingPadInst>(I),S.excType,m); set(mkA({mkI(64,S.excPtr),mkI(32,c>0?typeId(m):0)})); return; }
    case Instruction::Resume: unwind(S,false); return;
    default: throw Kill{std::string("unsupported instruction ")+I->getOpcodeName()};
    } }
  Val rfmod(State&S,const Val&a,const Val&b){ // a - b*trunc(a/b)
    Val q=rbin(S,'/',a,b); Val t= decide(S,rcmp(q,mkD(0),1))? rneg(rfloor(S,rneg(q))):rfloor(S,q); return rbin(S,'-',a,rbin(S,'*',b,t)); }
  void doCall(State&S,DI&d){ auto*cb=cast<CallBase>(d.I); Frame&f=S.fr.back(); std::vector<Val> args; for(unsigned i=0;i<cb->arg_size();++i) args.push_back(d.ops[i]==INT_MIN?Val():ev(f,d.ops[i]));
    Function*fn=cb->getCalledFunction(); if(!fn){ Value*cv=cb->getCalledOperand()->stripPointerCasts(); fn=dyn_cast<Function>(cv); if(auto*ga=dyn_cast<GlobalAlias>(cv)) fn=dyn_cast<Function>(ga->getAliasee()); } if(!fn){ if(cb->isInlineAsm()){ f.ip++; return; } u64 a=concretize(S,ev(f,d.ops.back()),64); if(a<FNBASE||(a-FNBASE)/16>=fns.size()){ report(S,"memory","call through invalid function pointer",{C.bool_val(true)}); throw Kill{"bad fn ptr"}; } fn=fns[(a-FNBASE)/16]; }
    auto ret=[&](const Val&v){ Frame&g=S.fr.back(); if(d.dst>=0) g.regs[d.dst]=v; if(auto*iv=dyn_cast<InvokeInst>(d.I)) jump(S,g,iv->getNormalDest()); else g.ip++; };
    if(fn->isIntrinsic()){ Val r; intrinsic(S,d,fn,args,r); ret(r); return; }
    std::string nm=fn->getName().str();
    auto it=bi.find(nm); if(it!=bi.end()){ Val r; if(it->second(S,d,args,r)) ret(r); return; }
    if(Function*ov=M->getFunction("ovr."+nm)){ modelled.insert(demangle(nm)); pushCall(S,ov,args); return; }
    if(isStreamOut(nm)){ u64 a=args.empty()||args[0].k!=VI?0:args[0].c; if(isStd(a)){ ret(args[0]); return; } }
    if(!fn->isDeclaration()){ pushCall(S,fn,args); return; }
    throw Kill{"call to unmodelled external function "+nm+" ["+demangle(nm)+"]"}; }
  u64 cerrA=0,coutA=0; bool isStd(u64 a){ return a&&(a==cerrA||a==coutA); }
  bool isStreamOut(const std::string&nm){ return nm.rfind("_ZStls",0)==0||nm.rfind("_ZNSo",0)==0||nm.rfind("_ZSt16__ostream_insert",0)==0||nm.rfind("_ZSt4endl",0)==0||nm.rfind("_ZStlsI",0)==0; }
  void intrinsic(State&S,DI&d,Function*fn,std::vector<Val>&a,Val&r){ Type*t=d.I->getType(); auto id=fn->getIntrinsicID(); unsigned w=t->isIntegerTy()?width(t):0;
    switch(id){
    case Intrinsic::memcpy: case Intrinsic::memmove: { u64 n=concretize(S,a[2],width(fn->getArg(2)->getType())); memCopy(S,concretize(S,a[0],64),concretize(S,a[1],64),n); return; }
    case Intrinsic::memset: { u64 n=concretize(S,a[2],width(fn->getArg(2)->getType())); memSet(S,concretize(S,a[0],64),a[1],n); return; }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::invariant_end: return;
    case Intrinsic::stacksave: case Intrinsic::invariant_start: r=mkI(64,0); return;
    case Intrinsic::expect: r=a[0]; return; case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: r=a[0]; return;
    case Intrinsic::is_constant: r=mkI(1,0); return; case Intrinsic::objectsize: r=mkI(w,~0ull); return;
    case Intrinsic::fabs: r=vecMap(t,a[0],a[0],[&](Type*,const Val&x,const Val&){ return rabs(S,x); }); return; case Intrinsic::sqrt: r=rsqrt(S,a[0]); return; case Intrinsic::floor: r=rfloor(S,a[0]); return; case Intrinsic::ceil: r=rneg(rfloor(S,rneg(a[0]))); return; case Intrinsic::trunc: { Val v=toReal(a[0]); r=decide(S,rcmp(v,mkD(0),1))?rneg(rfloor(S,rneg(v))):rfloor(S,v); return; }
    case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: { Val v=toReal(a[0]); if(v.k==VRC){ r=mkD(id==Intrinsic::round?std::round(asD(v)):std::rint(asD(v))); return; } r=decide(S,rcmp(v,mkD(0),1))?rneg(rfloor(S,rbin(S,'+',rneg(v),mkD(0.5)))):rfloor(S,rbin(S,'+',v,mkD(0.5))); return; }
    case Intrinsic::fmuladd: case Intrinsic::fma: r=rbin(S,'+',rbin(S,'*',a[0],a[1]),a[2]); return;
    case Intrinsic::minnum: case Intrinsic::maxnum: { Val x=toReal(a[0]),y=toReal(a[1]); if(uno(x,x)){ r=y; return; } if(uno(y,y)){ r=x; return; } bool lt=decide(S,rcmp(x,y,1)); r=(lt==(id==Intrinsic::minnum))?x:y; return; }
    case Intrinsic::copysign: { Val m=rabs(S,a[0]); Val s=toReal(a[1]); bool ng= s.k==VRC?std::signbit(asD(s)):decide(S,rcmp(s,mkD(0),1)); r=ng?rneg(m):m; return; }
    case Intrinsic::sin: sincos(S,a[0],&r,nullptr); return; case Intrinsic::cos: sincos(S,a[0],nullptr,&r); return; case Intrinsic::exp: r=opaque("exp",{a[0]},std::exp); return; case Intrinsic::log: r=opaque("log",{a[0]},std::log); return; case Intrinsic::pow: r=rpow(S,a[0],a[1]); return;
    case Intrinsic::is_fpclass: { Val v=toReal(a[0]); unsigned m=(unsigned)a[1].c; if(v.k==VRC){ double x=asD(v); bool b=false; if(std::isnan(x)) b=m&3; else if(std::isinf(x)) b=x>0?(m&512):(m&4); else if(x==0) b=std::signbit(x)?(m&32):(m&64); else b=x>0?(m&(256|128)):(m&(8|16)); r=mkI(1,b); } else { unsigned fin=m&(8|16|32|64|128|256); if(fin==0) r=mkI(1,0); else if(fin==(8|16|32|64|128|256)) r=mkI(1,1); else { bool z=decide(S,rcmp(v,mkD(0),0)); if(z) r=mkI(1,(m&64)!=0); else { bool ng=decide(S,rcmp(v,mkD(0),1)); r=mkI(1,ng?(m&8)!=0:(m&256)!=0); } } } return; }
    case Intrinsic::smax: r=selInt(CmpInst::ICMP_SGT,a[0],a[1],w); return; case Intrinsic::smin: r=selInt(CmpInst::ICMP_SLT,a[0],a[1],w); return; case Intrinsic::umax: r=selInt(CmpInst::ICMP_UGT,a[0],a[1],w); return; case Intrinsic::umin: r=selInt(CmpInst::ICMP_ULT,a[0],a[1],w); return;
    case Intrinsic::abs: { Val v=toInt(a[0],w); Val n=ibin(S,Instruction::Sub,mkI(w,0),v,w); Val c=icmp(CmpInst::ICMP_SLT,v,mkI(w,0),w); if(c.k==VI) r=c.c?n:v; else r=mkZ(w,z3::ite(zx(c),bv(n,w),bv(v,w))); return; }
    case Intrinsic::usub_sat: { Val c=icmp(CmpInst::ICMP_UGT,a[0],a[1],w); Val df=ibin(S,Instruction::Sub,a[0],a[1],w); if(c.k==VI) r=c.c?df:mkI(w,0); else r=mkZ(w,z3::ite(zx(c),bv(df,w),C.bv_val(0,w))); return; }
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bswap: { u64 c=concretize(S,a[0],w); if(id==Intrinsic::ctpop) r=mkI(w,(u64)__builtin_popcountll(c)); else if(id==Intrinsic::cttz) r=mkI(w,c?(u64)__builtin_ctzll(c):w); else if(id==Intrinsic::ctlz) r=mkI(w,c?(u64)__builtin_clzll(c)-(64-w):w); else { u64 o=0; for(unsigned i=0;i<w/8;++i) o|=((c>>(8*i))&255)<<(w-8-8*i); r=mkI(w,o);} return; }
    case Intrinsic::fshl: case Intrinsic::fshr: { u64 sh=concretize(S,a[2],w)%w; z3::expr x=bv(a[0],w),y=bv(a[1],w); z3::expr c=z3::concat(x,y); if(id==Intrinsic::fshl) r=mkZ(w,z3::shl(c,C.bv_val((uint64_t)sh,2*w)).extract(2*w-1,w)); else r=mkZ(w,z3::lshr(c,C.bv_val((uint64_t)sh,2*w)).extract(w-1,0)); return; }
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
      unsigned ww=width(fn->getArg(0)->getType()); bool sg=id==Intrinsic::smul_with_overflow||id==Intrinsic::sadd_with_overflow||id==Intrinsic::ssub_with_overflow; unsigned op= (id==Intrinsic::umul_with_overflow||id==Intrinsic::smul_with_overflow)?Instruction::Mul:(id==Intrinsic::uadd_with_overflow||id==Intrinsic::sadd_with_overflow)?Instruction::Add:Instruction::Sub;
      Val res=ibin(S,op,a[0],a[1],ww); Val x=toInt(a[0],ww),y=toInt(a[1],ww); Val ov; if(x.k==VI&&y.k==VI){ __int128 p,q; if(sg){ auto sx=[&](u64 v){ return ww==64?(i64)v:(i64)(v<<(64-ww))>>(64-ww); }; p=sx(x.c); q=sx(y.c); } else { p=x.c; q=y.c; } __int128 rr= op==Instruction::Mul?p*q:op==Instruction::Add?p+q:p-q; __int128 lo=sg?-((__int128)1<<(ww-1)):0, hi=sg?((__int128)1<<(ww-1))-1:((__int128)1<<ww)-1; ov=mkI(1,rr<lo||rr>hi); }
      else { z3::expr e1=sg?z3::sext(bv(x,ww),ww):z3::zext(bv(x,ww),ww), e2=sg?z3::sext(bv(y,ww),ww):z3::zext(bv(y,ww),ww); z3::expr wide= op==Instruction::Mul?e1*e2:op==Instruction::Add?e1+e2:e1-e2; z3::expr nar=sg?z3::sext(bv(res,ww),ww):z3::zext(bv(res,ww),ww); ov=mkB((wide!=nar).simplify()); }
      r=mkA({res,ov}); return; }
    case Intrinsic::trap: case Intrinsic::ubsantrap: report(S,"ub","trap reached",{C.bool_val(true)}); throw Kill{"trap"};
    case Intrinsic::eh_typeid_for: r=mkI(32,typeId(cast<CallBase>(d.I)->getArgOperand(0)->stripPointerCasts())); return;
    case Intrinsic::threadlocal_address: r=a[0]; return;
    case Intrinsic::vector_reduce_fadd: { Val s=a[0]; for(auto&e:agg(a[1])) s=rbin(S,'+',s,e); r=s; return; }
    default: throw Kill{"unsupported intrinsic "+fn->getName().str()}; } }
  Val selInt(CmpInst::Predicate p,const Val&a,const Val&b,unsigned w){ Val c=icmp(p,a,b,w); if(c.k==VI) return c.c?toInt(a,w):toInt(b,w); return mkZ(w,z3::ite(zx(c),bv(a,w),bv(b,w))); }
  Val rpow(State&S,const Val&x0,const Val&y0){ Val y=toReal(y0),x=toReal(x0); if(y.k==VRC){ double e=asD(y); if(e==0.5) return rsqrt(S,x); if(e==std::floor(e)&&std::fabs(e)<=8){ Val r=mkD(1); for(int i=0;i<(int)std::fabs(e);++i) r=rbin(S,'*',r,x); return e<0?rbin(S,'/',mkD(1),r):r; } if(e*2==std::floor(e*2)&&e>0&&e<8){ Val r=rsqrt(S,x); for(int i=0;i<(int)e;++i) r=rbin(S,'*',r,x); return r; } } return opaque("pow",{x,y}); }
  std::map<std::string,std::string> symTag;
  int symByName(const std::string&n,const std::string&tag,std::function<int()> mk){ auto it=nameToSym.find(n); if(it!=nameToSym.end()){ if(symTag[n]!=tag){ fprintf(stderr,"harness error: input %s declared as %s and as %s\n",n.c_str(),symTag[n].c_str(),tag.c_str()); exit(9); } return it->second; } int s=mk(); nameToSym[n]=s; symTag[n]=tag; return s; }
  void setupBuiltins();
  bool load_(const std::string&file);
  void runEntry(const std::string&entry);
  void loop(double budget);
  std::string json(const std::string&entry,double wall);
};
#include "builtins.inc"
int main(int argc,char**argv){ std::string file,entry,out,repo; double budget=60; Engine E; 
  for(int i=1;i<argc;++i){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); }; if(a=="--entry") entry=nx(); else if(a=="--out") out=nx(); else if(a=="--budget") budget=std::stod(nx()); else if(a=="--tmo") E.X.tmo=(unsigned)std::stoi(nx()); else if(a=="--atmo") E.assertTmo=(unsigned)std::stoi(nx()); else if(a=="--steps") E.maxSteps=std::stoull(nx()); else if(a=="--witness") E.maxWitness=std::stoi(nx()); else if(a=="--trace") E.trace=true; else if(a=="--repo") E.repoRoot=nx(); else if(a=="--seed") E.rng.seed((unsigned)std::stoi(nx())); else if(a=="--dump") E.X.dumpDir=nx(); else if(a=="--cand") E.candBudget=std::stod(nx()); else file=a; }
  auto t0=std::chrono::steady_clock::now(); E.X.deadline=t0+std::chrono::milliseconds((i64)(budget*1000));
  if(!E.load_(file)) return 3; E.setupBuiltins();
  try { E.runEntry(entry); E.loop(budget); } catch(z3::exception&e){ E.incomplete.push_back(std::string("z3: ")+e.msg()); } catch(std::exception&e){ E.incomplete.push_back(std::string("exception: ")+e.what()); }
  double wall=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); std::string j=E.json(entry,wall); if(out.empty()) std::cout<<j<<"\n"; else { std::ofstream o(out); o<<j<<"\n"; } std::cout.flush(); std::cerr.flush(); _exit(0); }
