// Symbol table, real<->z3 translation, solver front end.
#pragma once
#include "core.hpp"
enum Res { RSAT, RUNSAT, RUNK };
struct Sym { std::string name; int kind; /*0 real 1 bv 2 bool*/ int rvar; unsigned w; z3::expr e; std::vector<z3::expr> side; std::vector<int> sideVars; bool input; double lo,hi; bool hasB; };
struct Stats { u64 queries=0, sat=0, unsat=0, unknown=0, cacheHits=0, trivial=0; double secs=0; u64 asserts=0, assertsProved=0, assertsUndecided=0; u64 paths=0, instr=0, forks=0; u64 divAssumed=0; };

struct Solver {
  z3::context C; FracCtx F; std::vector<Sym> syms; std::unordered_map<unsigned,int> declToSym; std::vector<int> rvarToSym; Stats st;
  std::unordered_map<int,z3::expr> polyMemo; std::unordered_map<unsigned,std::vector<int>> varMemo; std::vector<z3::expr> keep;
  std::map<std::vector<unsigned>,int> cache; unsigned tmo=3000; std::chrono::steady_clock::time_point deadline; int fresh=0;
  std::string dumpDir; 
  bool expired(){ return std::chrono::steady_clock::now()>deadline; }
  int newReal(const std::string&n,bool nonneg,bool input){
    int rv=F.P.newVar(n,nonneg); z3::expr e=C.real_const(n.c_str()); Sym s{n,0,rv,0,e,{},{},input,0,0,false};
    int id=(int)syms.size(); if(nonneg) s.side.push_back(e>=0); declToSym[e.decl().id()]=id; keep.push_back(e); syms.push_back(s); while((int)rvarToSym.size()<=rv) rvarToSym.push_back(-1); rvarToSym[rv]=id; return id;
  }
  int newBV(const std::string&n,unsigned w,bool input){
    z3::expr e= w==1? C.bool_const(n.c_str()) : C.bv_const(n.c_str(),w); int id=(int)syms.size(); syms.push_back(Sym{n,w==1?2:1,-1,w,e,{},{},input,0,0,false}); declToSym[e.decl().id()]=id; keep.push_back(e); return id;
  }
  void addSide(int s,z3::expr e){ keep.push_back(e); syms[s].side.push_back(e); for(int v:varsOf(e)) if(v!=s) syms[s].sideVars.push_back(v); }
  // v^2 = p
  void setSq(int s,Poly p){ auto&rv=F.P.vars[syms[s].rvar]; rv.hasSq=true; rv.sq=p; z3::expr e=syms[s].e*syms[s].e==polyZ(p); addSide(s,e); }
  z3::expr ratZ(const Rat&r){ return C.real_val(r.get_str().c_str()); }
  z3::expr polyZ(const Poly&p){
    auto it=polyMemo.find(p->id); if(it!=polyMemo.end()) return it->second;
    z3::expr_vector terms(C);
    for(auto&t:p->t){ z3::expr_vector fs(C); if(t.second!=1||t.first==0) fs.push_back(ratZ(t.second)); for(auto&e:F.P.monos[t.first]) for(int i=0;i<e.second;++i) fs.push_back(syms[rvarToSym[e.first]].e);
      if(fs.size()==1) terms.push_back(fs[0]); else { std::vector<Z3_ast> a; for(unsigned i=0;i<fs.size();++i) a.push_back(fs[i]); terms.push_back(z3::expr(C,Z3_mk_mul(C,a.size(),a.data()))); } }
    z3::expr r=C.real_val(0); if(terms.size()==1) r=terms[0]; else if(terms.size()>1){ std::vector<Z3_ast> a; for(unsigned i=0;i<terms.size();++i) a.push_back(terms[i]); r=z3::expr(C,Z3_mk_add(C,a.size(),a.data())); }
    polyMemo.emplace(p->id,r); return r;
  }
  z3::expr fracZ(const Frac&f){ z3::expr n=polyZ(f->num); if(f->den.empty()) return n; z3::expr d=C.real_val(1); bool first=true; for(auto&p:f->den) for(int i=0;i<p.second;++i){ d= first? polyZ(p.first): d*polyZ(p.first); first=false; } return n/d; }
  // comparison of frac with 0 ; op: 0 ==,1 <,2 <=
  z3::expr cmp0(const Frac&f,int op){
    Poly n=f->num; Rat c; if(F.isConst(f,&c)) return C.bool_val(op==0? c==0: op==1? c<0: c<=0);
    if(op!=0){ bool flip=false; for(auto&p:f->den) if(p.second%2){ int s=F.P.synSign(p.first); if(s>0) continue; if(s<0){ flip=!flip; continue; } n=F.P.mul(n,p.first); } if(flip) n=F.P.scale(n,-1);
      // scale out positive content for sharing
      int s=F.P.synSign(n); if(s==2) return C.bool_val(false); if(s==-2) return C.bool_val(true); if(s==1&&op==1) return C.bool_val(false); if(s==-1&&op==2) return C.bool_val(true); }
    else { int s=F.P.synSign(n); if(s==2||s==-2) return C.bool_val(false); }
    if(n->t.empty()) return C.bool_val(op!=1);
    Rat a=abs(n->t[0].second); n=F.P.scale(n,1/a); bool neg=n->t[0].second<0;
    if(op==0){ if(neg) n=F.P.scale(n,-1); return polyZ(n)==0; }
    if(neg){ n=F.P.scale(n,-1); return op==1? polyZ(n)>0 : polyZ(n)>=0; }
    return op==1? polyZ(n)<0 : polyZ(n)<=0;
  }
  const std::vector<int>& varsOf(const z3::expr&e){
    unsigned id=Z3_get_ast_id(C,e); auto it=varMemo.find(id); if(it!=varMemo.end()) return it->second;
    std::set<int> s; std::vector<z3::expr> st{e}; std::set<unsigned> seen;
    while(!st.empty()){ z3::expr x=st.back(); st.pop_back(); if(!seen.insert(Z3_get_ast_id(C,x)).second) continue; if(!x.is_app()) continue;
      if(x.num_args()==0){ auto d=declToSym.find(x.decl().id()); if(d!=declToSym.end()) s.insert(d->second); } for(unsigned i=0;i<x.num_args();++i) st.push_back(x.arg(i)); }
    keep.push_back(e); return varMemo.emplace(id,std::vector<int>(s.begin(),s.end())).first->second;
  }
  // closure of constraints relevant to vars of `seed`
  void slice(const std::vector<Constraint>&pc,const std::vector<z3::expr>&seed,std::vector<z3::expr>&out,std::set<int>&vs){
    std::vector<int> work; for(auto&e:seed) for(int v:varsOf(e)) if(vs.insert(v).second) work.push_back(v);
    std::vector<char> used(pc.size(),0); std::unordered_map<int,std::vector<int>> idx; for(size_t i=0;i<pc.size();++i) for(int v:pc[i].vars) idx[v].push_back((int)i);
    while(!work.empty()){ int v=work.back(); work.pop_back();
      for(int u:syms[v].sideVars) if(vs.insert(u).second) work.push_back(u);
      auto it=idx.find(v); if(it==idx.end()) continue; for(int i:it->second) if(!used[i]){ used[i]=1; for(int u:pc[i].vars) if(vs.insert(u).second) work.push_back(u); } }
    for(size_t i=0;i<pc.size();++i) if(used[i]) out.push_back(pc[i].e);
    for(int v:vs) for(auto&e:syms[v].side) out.push_back(e);
  }
  Res raw(const std::vector<z3::expr>&cs,unsigned ms,const std::set<int>&vs,std::shared_ptr<z3::model>*m){
    bool real=false,bv=false; for(int v:vs){ if(syms[v].kind==0) real=true; else bv=true; }
    std::vector<unsigned> key; for(auto&e:cs) key.push_back(Z3_get_ast_id(C,e)); std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end());
    if(!m){ auto it=cache.find(key); if(it!=cache.end()&&it->second!=RUNK){ st.cacheHits++; return (Res)it->second; } }
    auto t0=std::chrono::steady_clock::now(); Res r=RUNK; st.queries++;
    auto rem=std::chrono::duration_cast<std::chrono::milliseconds>(deadline-t0).count(); if(rem<200) rem=200; if((long)ms>rem) ms=(unsigned)rem;
    auto run=[&](z3::solver s,unsigned t){ z3::params p(C); p.set("timeout",t); s.set(p); for(auto&e:cs) s.add(e); Res q=RUNK; try{ auto x=s.check(); q= x==z3::sat?RSAT: x==z3::unsat?RUNSAT:RUNK; if(q==RSAT&&m) *m=std::make_shared<z3::model>(s.get_model()); }catch(z3::exception&ex){ q=RUNK; } return q; };
    if(real&&!bv){ 
      r=run(z3::solver(C,"QF_NRA"),ms);
      if(r==RUNK) r=run((z3::tactic(C,"simplify")&z3::tactic(C,"propagate-values")&z3::tactic(C,"solve-eqs")&z3::tactic(C,"purify-arith")&z3::tactic(C,"qfnra-nlsat")).mk_solver(),ms);
      if(r==RUNK) r=run(z3::solver(C,z3::solver::simple()),ms);
    } else if(bv&&!real) r=run(z3::solver(C,"QF_BV"),ms*4);
    else r=run(z3::solver(C),ms*2);
    st.secs+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
    if(r==RSAT) st.sat++; else if(r==RUNSAT) st.unsat++; else { st.unknown++; if(!dumpDir.empty()){ z3::solver s(C); for(auto&e:cs) s.add(e); std::ofstream o(dumpDir+"/unk"+std::to_string(st.unknown)+".smt2"); o<<s.to_smt2(); } }
    for(auto&e:cs) keep.push_back(e); cache[key]=r; return r;
  }
  Res check(const std::vector<Constraint>&pc,const z3::expr&extra,unsigned ms,std::shared_ptr<z3::model>*m=nullptr){
    if(extra.is_true()&&!m) return RSAT; if(extra.is_false()){ st.trivial++; return RUNSAT; }
    std::vector<z3::expr> cs; std::set<int> vs; slice(pc,{extra},cs,vs); cs.push_back(extra); return raw(cs,ms,vs,m);
  }
  static double numToD(z3::context&C,const z3::expr&e){
    if(e.is_numeral()){ std::string s=Z3_get_numeral_string(C,e); Rat r(s); return mpq_get_d_nearest(r); }
    if(e.is_algebraic()){ std::string s=Z3_get_numeral_decimal_string(C,e,25); if(!s.empty()&&s.back()=='?') s.pop_back(); return strtod(s.c_str(),nullptr); }
    return 0;
  }
  static double mpq_get_d_nearest(const Rat&r){ double d=r.get_d(); double best=d; Rat be=abs(r-Rat(d)); for(double q:{std::nextafter(d,INFINITY),std::nextafter(d,-INFINITY)}) if(std::isfinite(q)){ Rat e=abs(r-Rat(q)); if(e<be){ be=e; best=q; } } return best; }
};
