// Exact multivariate rational functions over named real symbols.
// Every symbol may carry a quadratic rewrite rule v^2 -> rhs (square roots, sines/cosines, unit vectors),
// applied eagerly so that most algebraic identities become syntactic.
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <cmath>
#include <stdexcept>

struct PolyBlowup : std::runtime_error { PolyBlowup() : std::runtime_error("poly-blowup") {} };

using Rat = mpq_class;
using MonoVec = std::vector<std::pair<int,int>>; // (var, exp) sorted by var

struct PolyT;
using Poly = std::shared_ptr<const PolyT>;
struct PolyT { std::vector<std::pair<int,Rat>> t; int id = -1; }; // sorted by mono id; interned

struct RVar { std::string name; bool nonneg=false; bool hasSq=false; bool isSqrt=false; Poly sq; };

struct PolyCtx {
  std::vector<RVar> vars;
  std::vector<MonoVec> monos;
  std::map<MonoVec,int> monoIdx;
  std::unordered_map<uint64_t,int> mulMemo;
  std::vector<signed char> redState; // 0 unknown 1 irreducible 2 reducible
  std::unordered_map<int,Poly> redMemo;
  std::unordered_map<size_t,std::vector<Poly>> intern;
  std::vector<Poly> byId;
  std::vector<char> polyNonneg; // by poly id: known >=0
  size_t maxTerms = 60000;
  Poly zero_, one_;
  PolyCtx() { monoId({}); zero_ = mk({}); one_ = cst(1); }
  int monoId(const MonoVec& m) {
    auto it = monoIdx.find(m); if(it!=monoIdx.end()) return it->second;
    int id=(int)monos.size(); monos.push_back(m); monoIdx[m]=id; redState.push_back(0); return id;
  }
  int newVar(const std::string& n, bool nonneg=false) { RVar v; v.name=n; v.nonneg=nonneg; vars.push_back(v); return (int)vars.size()-1; }
  Poly mk(std::vector<std::pair<int,Rat>> t) {
    size_t h=1469598103934665603ull;
    for(auto& p: t){ h=(h^(size_t)p.first)*1099511628211ull; h=(h^(size_t)mpz_get_si(p.second.get_num_mpz_t()))*1099511628211ull; h=(h^(size_t)mpz_get_si(p.second.get_den_mpz_t()))*1099511628211ull; }
    auto& b=intern[h];
    for(auto& q: b) if(q->t.size()==t.size() && std::equal(t.begin(),t.end(),q->t.begin())) return q;
    auto p=std::make_shared<PolyT>(); p->t=std::move(t); p->id=(int)byId.size(); byId.push_back(p); polyNonneg.push_back(0); b.push_back(p); return p;
  }
  Poly cst(const Rat& r){ if(r==0) return mk({}); return mk({{0,r}}); }
  Poly var(int v){ return mk({{monoId({{v,1}}),Rat(1)}}); }
  static bool isConst(const Poly& p){ return p->t.empty() || (p->t.size()==1 && p->t[0].first==0); }
  static Rat constVal(const Poly& p){ return p->t.empty()?Rat(0):p->t[0].second; }
  static bool isZero(const Poly& p){ return p->t.empty(); }
  Poly add(const Poly&a,const Poly&b,bool sub=false){
    std::vector<std::pair<int,Rat>> r; r.reserve(a->t.size()+b->t.size());
    size_t i=0,j=0;
    while(i<a->t.size()||j<b->t.size()){
      if(j>=b->t.size()||(i<a->t.size()&&a->t[i].first<b->t[j].first)) r.push_back(a->t[i++]);
      else if(i>=a->t.size()||b->t[j].first<a->t[i].first){ r.push_back(b->t[j++]); if(sub) r.back().second=-r.back().second; }
      else { Rat s = sub? Rat(a->t[i].second-b->t[j].second):Rat(a->t[i].second+b->t[j].second); if(s!=0) r.push_back({a->t[i].first,s}); ++i;++j; }
    }
    return mk(std::move(r));
  }
  Poly scale(const Poly&a,const Rat&c){ if(c==0) return zero_; if(c==1) return a; auto r=a->t; for(auto&p:r) p.second*=c; return mk(std::move(r)); }
  int mulMono(int a,int b){
    if(a==0) return b; if(b==0) return a; if(a>b) std::swap(a,b);
    uint64_t k=((uint64_t)a<<32)|(uint32_t)b; auto it=mulMemo.find(k); if(it!=mulMemo.end()) return it->second;
    const MonoVec x=monos[a], y=monos[b]; MonoVec r; size_t i=0,j=0;
    while(i<x.size()||j<y.size()){
      if(j>=y.size()||(i<x.size()&&x[i].first<y[j].first)) r.push_back(x[i++]);
      else if(i>=x.size()||y[j].first<x[i].first) r.push_back(y[j++]);
      else { r.push_back({x[i].first,x[i].second+y[j].second}); ++i;++j; }
    }
    int id=monoId(r); mulMemo[k]=id; return id;
  }
  // returns null when irreducible
  Poly reduceMono(int m){
    if(redState[m]==1) return nullptr; if(redState[m]==2) return redMemo[m];
    MonoVec mv=monos[m]; int which=-1;
    for(size_t i=0;i<mv.size();++i) if(mv[i].second>=2 && vars[mv[i].first].hasSq){ which=(int)i; break; }
    if(which<0){ redState[m]=1; return nullptr; }
    int v=mv[which].first; mv[which].second-=2; if(mv[which].second==0) mv.erase(mv.begin()+which);
    Poly rest=mk({{monoId(mv),Rat(1)}});
    Poly rr=reduceMono(monoId(mv)); if(rr) rest=rr;
    Poly res=mul(rest,vars[v].sq);
    redState[m]=2; redMemo[m]=res; return res;
  }
  uint64_t work=0, maxWork=400000000ull;
  Poly mul(const Poly&a,const Poly&b){
    if(a->t.empty()||b->t.empty()) return zero_;
    if(isConst(a)) return scale(b,a->t[0].second);
    if(isConst(b)) return scale(a,b->t[0].second);
    if(a->t.size()*b->t.size()>20000000ull) throw PolyBlowup();
    std::unordered_map<int,Rat> acc; acc.reserve(a->t.size()*b->t.size());
    for(auto&x:a->t) for(auto&y:b->t){ int m=mulMono(x.first,y.first); acc[m]+=x.second*y.second; }
    // reduce
    std::vector<std::pair<int,Rat>> out; std::unordered_map<int,Rat> acc2; bool any=false;
    for(auto&p:acc){ if(p.second==0) continue; Poly r=reduceMono(p.first); if(!r) acc2[p.first]+=p.second; else { any=true; for(auto&q:r->t) acc2[q.first]+=q.second*p.second; } }
    (void)any;
    for(auto&p:acc2) if(p.second!=0) out.push_back(p);
    if(out.size()>maxTerms) throw PolyBlowup();
    std::sort(out.begin(),out.end(),[](auto&x,auto&y){return x.first<y.first;});
    return mk(std::move(out));
  }
  // lexicographic monomial order on variables (lower var id = bigger); returns a>b
  bool monoGreater(int a,int b) const {
    const MonoVec&x=monos[a]; const MonoVec&y=monos[b]; size_t i=0,j=0;
    while(i<x.size()&&j<y.size()){
      if(x[i].first<y[j].first) return true; if(x[i].first>y[j].first) return false;
      if(x[i].second!=y[j].second) return x[i].second>y[j].second; ++i;++j;
    }
    return i<x.size();
  }
  bool monoDiv(int a,int b,int& q){
    const MonoVec x=monos[a]; const MonoVec y=monos[b]; MonoVec r; size_t i=0,j=0;
    while(i<x.size()){
      if(j<y.size()&&y[j].first<x[i].first) return false;
      if(j<y.size()&&y[j].first==x[i].first){ int e=x[i].second-y[j].second; if(e<0) return false; if(e>0) r.push_back({x[i].first,e}); ++i;++j; }
      else r.push_back(x[i++]);
    }
    if(j<y.size()) return false; q=monoId(r); return true;
  }
  int leadIdx(const Poly&p) const { int b=0; for(size_t i=1;i<p->t.size();++i) if(monoGreater(p->t[i].first,p->t[b].first)) b=(int)i; return b; }
  // exact division in the plain polynomial ring; false when not divisible
  bool exactDiv(const Poly&a,const Poly&b,Poly&q){
    if(a->t.empty()){ q=zero_; return true; }
    if(isConst(b)){ q=scale(a,1/constVal(b)); return true; }
    if(a->t.size()*b->t.size()>400000) return false;
    auto cmp=[this](int x,int y){ return monoGreater(x,y); };
    std::map<int,Rat,decltype(cmp)> rem(cmp); for(auto&p:a->t) rem[p.first]=p.second;
    auto& lt=b->t[leadIdx(b)]; std::vector<std::pair<int,Rat>> qt; int steps=0;
    while(!rem.empty()){
      auto it=rem.begin(); int qm; if(!monoDiv(it->first,lt.first,qm)) return false;
      if(++steps>20000) return false;
      Rat qc=it->second/lt.second; qt.push_back({qm,qc});
      for(auto&p:b->t){ int m=mulMono(p.first,qm); auto& c=rem[m]; c-=p.second*qc; if(c==0) rem.erase(m); }
    }
    std::sort(qt.begin(),qt.end(),[](auto&x,auto&y){return x.first<y.first;});
    q=mk(std::move(qt)); return true;
  }
  static bool ratSqrt(const Rat&r,Rat&o){ if(r<0) return false; mpz_class n=sqrt(r.get_num()), d=sqrt(r.get_den()); if(n*n==r.get_num()&&d*d==r.get_den()){ o=Rat(n,d); return true;} return false; }
  // polynomial square root in the plain ring
  bool polySqrt(const Poly&p,Poly&out){
    if(p->t.empty()){ out=p; return true; }
    if(p->t.size()>200) return false;
    auto halfMono=[&](int m,int&h){ MonoVec v=monos[m]; for(auto&e:v){ if(e.second%2) return false; e.second/=2; } h=monoId(v); return true; };
    Poly rem=p; auto lt=p->t[leadIdx(p)]; int hm; Rat hc; if(!halfMono(lt.first,hm)||!ratSqrt(lt.second,hc)) return false;
    std::vector<std::pair<int,Rat>> q={{hm,hc}}; int lead=hm; Rat lc=hc;
    // plain (unreduced) square
    auto plainMul=[&](const std::vector<std::pair<int,Rat>>&a,const std::vector<std::pair<int,Rat>>&b){ std::map<int,Rat> acc; for(auto&x:a)for(auto&y:b) acc[mulMono(x.first,y.first)]+=x.second*y.second; return acc; };
    for(int it=0;it<60;++it){
      auto sq=plainMul(q,q); std::map<int,Rat> r; for(auto&x:p->t) r[x.first]+=x.second; for(auto&x:sq) r[x.first]-=x.second;
      int best=-1; for(auto&x:r) if(x.second!=0 && (best<0||monoGreater(x.first,best))) best=x.first;
      if(best<0){ std::sort(q.begin(),q.end(),[](auto&x,auto&y){return x.first<y.first;}); out=mk(q); return true; }
      int qm; if(!monoDiv(best,lead,qm)) return false; if(!monoGreater(lead,qm)) return false;
      q.push_back({qm,r[best]/(2*lc)});
    }
    return false;
  }
  // syntactic sign: 1 => >=0 certain, 2 => >0 certain, -1 => <=0, -2 => <0, 0 unknown
  int synSign(const Poly&p){
    if(p->t.empty()) return 0; bool pos=true,neg=true,strict=false;
    if(polyNonneg[p->id]) return 1;
    for(auto&x:p->t){ bool mn=true; for(auto&e:monos[x.first]) if(e.second%2 && !vars[e.first].nonneg){ mn=false; break; }
      if(!mn){ return 0; } if(x.second>0) neg=false; else pos=false; if(x.first==0) strict=true; }
    if(pos) return strict?2:1; if(neg) return strict?-2:-1; return 0;
  }
  void collectVars(const Poly&p,std::set<int>&s){ for(auto&x:p->t) for(auto&e:monos[x.first]) s.insert(e.first); }
  std::string str(const Poly&p){ if(p->t.empty()) return "0"; std::string s; int n=0; for(auto&x:p->t){ if(n++) s+=" + "; if(n>12){ s+="..."; break;} s+=x.second.get_str(); for(auto&e:monos[x.first]){ s+="*"+vars[e.first].name; if(e.second>1) s+="^"+std::to_string(e.second);} } return s; }
};

struct FracT; using Frac=std::shared_ptr<const FracT>;
struct FracT { Poly num; std::vector<std::pair<Poly,int>> den; }; // den sorted by poly id

struct FracCtx {
  PolyCtx P;
  std::vector<Poly> newDen; // denominators introduced since last drain
  Frac mk(Poly n, std::vector<std::pair<Poly,int>> d={}){ auto f=std::make_shared<FracT>(); f->num=n; if(!PolyCtx::isZero(n)) f->den=std::move(d); return f; }
  Frac cst(const Rat&r){ return mk(P.cst(r)); }
  Frac var(int v){ return mk(P.var(v)); }
  bool isConst(const Frac&f,Rat*r=nullptr){ if(f->den.empty()&&PolyCtx::isConst(f->num)){ if(r)*r=PolyCtx::constVal(f->num); return true;} return false; }
  Frac cancel(Poly n, std::vector<std::pair<Poly,int>> d){
    if(PolyCtx::isZero(n)) return mk(n);
    for(auto&p:d) while(p.second>0){ Poly q; if(P.exactDiv(n,p.first,q)){ n=q; --p.second; } else break; }
    d.erase(std::remove_if(d.begin(),d.end(),[](auto&p){return p.second==0;}),d.end());
    return mk(n,std::move(d));
  }
  Frac add(const Frac&a,const Frac&b,bool sub=false){
    if(PolyCtx::isZero(b->num)) return a; 
    if(a->den==b->den){ Poly n=P.add(a->num,b->num,sub); if(a->den.empty()) return mk(n); return cancel(n,a->den); }
    std::map<int,std::pair<Poly,std::pair<int,int>>> m;
    for(auto&p:a->den){ m[p.first->id].first=p.first; m[p.first->id].second.first=p.second; }
    for(auto&p:b->den){ m[p.first->id].first=p.first; m[p.first->id].second.second=p.second; }
    Poly na=a->num, nb=b->num; std::vector<std::pair<Poly,int>> d;
    for(auto&kv:m){ int ea=kv.second.second.first, eb=kv.second.second.second, e=std::max(ea,eb); for(int i=ea;i<e;++i) na=P.mul(na,kv.second.first); for(int i=eb;i<e;++i) nb=P.mul(nb,kv.second.first); d.push_back({kv.second.first,e}); }
    return cancel(P.add(na,nb,sub),d);
  }
  // equal up to the rounding of constants: over a common denominator all coefficients agree to 1e-12 of the largest
  bool nearEq(const Frac&a,const Frac&b){
    std::map<int,std::pair<Poly,std::pair<int,int>>> m;
    for(auto&p:a->den){ m[p.first->id].first=p.first; m[p.first->id].second.first=p.second; }
    for(auto&p:b->den){ m[p.first->id].first=p.first; m[p.first->id].second.second=p.second; }
    Poly na=a->num, nb=b->num;
    for(auto&kv:m){ int ea=kv.second.second.first, eb=kv.second.second.second, e=std::max(ea,eb); for(int i=ea;i<e;++i) na=P.mul(na,kv.second.first); for(int i=eb;i<e;++i) nb=P.mul(nb,kv.second.first); }
    double M=0; for(auto&x:na->t) M=std::max(M,std::fabs(x.second.get_d())); for(auto&x:nb->t) M=std::max(M,std::fabs(x.second.get_d()));
    Poly d=P.add(na,nb,true); for(auto&x:d->t) if(!(std::fabs(x.second.get_d())<=1e-12*M)) return false; return true;
  }
  Frac neg(const Frac&a){ return mk(P.scale(a->num,-1),a->den); }
  Frac mul(const Frac&a,const Frac&b){
    if(PolyCtx::isZero(a->num)||PolyCtx::isZero(b->num)) return mk(P.zero_);
    if(a->den.empty()&&b->den.empty()) return mk(P.mul(a->num,b->num));
    // pre-cancel crosswise
    Poly na=a->num, nb=b->num; auto da=a->den, db=b->den;
    auto red=[&](Poly&n,std::vector<std::pair<Poly,int>>&d){ for(auto&p:d) while(p.second>0){ Poly q; if(P.exactDiv(n,p.first,q)){ n=q; --p.second;} else break; } };
    red(na,db); red(nb,da);
    std::map<int,std::pair<Poly,int>> m; for(auto&p:da) if(p.second){ m[p.first->id].first=p.first; m[p.first->id].second+=p.second; } for(auto&p:db) if(p.second){ m[p.first->id].first=p.first; m[p.first->id].second+=p.second; }
    std::vector<std::pair<Poly,int>> d; for(auto&kv:m) d.push_back(kv.second);
    return cancel(P.mul(na,nb),d);
  }
  // factor a polynomial into (const, factors); sqrt symbols are rationalised into the numerator
  Frac inv(const Frac&a){ // 1/a, a->num nonzero poly
    Frac r = mk(P.one_); for(auto&p:a->den) for(int i=0;i<p.second;++i) r=mk(P.mul(r->num,p.first));
    Poly n=a->num; Rat c=1; 
    // content: normalise by coefficient of the first stored term
    c=n->t[0].second; n=P.scale(n,1/c); Frac res=mk(P.scale(r->num,1/c));
    // common monomial
    MonoVec cm=P.monos[n->t[0].first]; for(auto&t:n->t){ MonoVec r2; for(auto&e:cm) for(auto&f:P.monos[t.first]) if(e.first==f.first) r2.push_back({e.first,std::min(e.second,f.second)}); cm=r2; }
    if(!cm.empty()){ Poly cp=P.mk({{P.monoId(cm),Rat(1)}}); Poly q; P.exactDiv(n,cp,q); n=q; for(auto&e:cm) for(int i=0;i<e.second;++i) res=divVar(res,e.first); }
    if(!PolyCtx::isConst(n)) res=divFactor(res,n); else if(PolyCtx::constVal(n)!=1) res=mk(P.scale(res->num,1/PolyCtx::constVal(n)),res->den);
    return res;
  }
  Frac divVar(const Frac&f,int v){
    if(P.vars[v].isSqrt){ // 1/s = s/p
      Frac g=mul(f,var(v)); Frac pi=inv(mk(P.vars[v].sq)); return mul(g,pi);
    }
    return divFactor(f,P.var(v));
  }
  Frac divFactor(const Frac&f,Poly n){
    // normalise sign/scale: leading stored coefficient 1
    Rat c=n->t[0].second; if(c!=1){ n=P.scale(n,1/c); }
    // perfect square factors
    Poly s; if(P.polySqrt(n,s) && !PolyCtx::isConst(s)){ Frac r=divFactor(divFactor(f,s),s); return c!=1?mk(P.scale(r->num,1/c),r->den):r; }
    newDen.push_back(n);
    Frac d=mk(P.one_,{{n,1}}); Frac r=mul(f,d); if(c!=1) r=mk(P.scale(r->num,1/c),r->den); return r;
  }
  Frac div(const Frac&a,const Frac&b){ return mul(a,inv(b)); }
  std::string key(const Frac&f){ std::string k=std::to_string(f->num->id); for(auto&p:f->den) k+="/"+std::to_string(p.first->id)+"^"+std::to_string(p.second); return k; }
};
