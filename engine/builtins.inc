bool Engine::load_(const std::string&file){ SMDiagnostic err; M=parseIRFile(file,err,LC); if(!M){ err.print("vpsym",errs()); return false; } DL=&M->getDataLayout(); for(auto&g:M->globals()){ gvs.push_back(&g); gvId[&g]=gvs.size(); } for(auto&f:*M) fnAddr(&f);
  if(auto*g=M->getNamedGlobal("_ZSt4cerr")) cerrA=addrOf(gvId[g]); if(auto*g=M->getNamedGlobal("_ZSt4cout")) coutA=addrOf(gvId[g]); return true; }
void Engine::runEntry(const std::string&entry){
  auto mk=[&]{ auto S=std::make_unique<State>(); S->nextId=gvs.size()+1; return S; };
  StateP S=mk();
  // static initialisers first (executed concretely)
  if(auto*g=M->getNamedGlobal("llvm.global_ctors")) if(g->hasInitializer()) if(auto*a=dyn_cast<ConstantArray>(g->getInitializer())) for(auto&o:a->operands()){ auto*cs=cast<ConstantStruct>(o); auto*f=dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()); if(!f||f->isDeclaration()) continue; std::vector<Val> no; pushCall(*S,f,no); StateP keepS; try { while(!S->fr.empty()){ if(S->fr.size()==1&&S->fr.back().f->ins[S->fr.back().ip].op==Instruction::Ret){ for(u64 x:S->fr.back().allocas) slotRef(*S,x)=nullptr; S->fr.pop_back(); break; } step(*S); } } catch(Kill&k){ incomplete.push_back("static initialiser: "+k.why); S->fr.clear(); } }
  Function*f=M->getFunction(entry); if(!f){ incomplete.push_back("no entry "+entry); return; } std::vector<Val> no; pushCall(*S,f,no); work.push_back(std::move(S)); }
void Engine::loop(double){ while(!work.empty()){ if(X.expired()){ incomplete.push_back("time budget exhausted with "+std::to_string(work.size())+" pending paths"); return; } StateP S=std::move(work.back()); work.pop_back();
    try { while(true){ if((S->steps&1023)==0&&X.expired()) throw Kill{"time budget exhausted"}; if(S->steps>maxSteps){ report(*S,"nontermination","step bound exceeded",{}); throw Kill{"step bound exceeded"}; } step(*S); } }
    catch(Kill&k){ if(k.why=="done"||k.why=="infeasible"||k.why=="assume"||k.why=="assertion always fails"||k.why=="memory error"||k.why=="div0"||k.why=="fptoi range"||k.why=="exit"||k.why=="throw"||k.why=="trap"||k.why=="bad fn ptr"||k.why=="unreachable"){ if(k.why!="done") endKinds[k.why]++; } else { incomplete.push_back(k.why+" @ "+where(*S)); } }
    catch(PolyBlowup&){ incomplete.push_back("term size bound @ "+where(*S)); } 
    if(incomplete.size()>50) return; } }
std::string Engine::json(const std::string&entry,double wall){ std::ostringstream o; auto asg=[&](const Assign&a){ std::string s="{"; for(size_t i=0;i<a.size();++i){ if(i) s+=","; s+="\""+jesc(a[i].first)+"\":\""+a[i].second+"\""; } return s+"}"; };
  o<<"{\"entry\":\""<<entry<<"\",\"wall\":"<<wall<<",\"queries\":"<<X.st.queries<<",\"sat\":"<<X.st.sat<<",\"unsat\":"<<X.st.unsat<<",\"unknown\":"<<X.st.unknown<<",\"trivial\":"<<X.st.trivial<<",\"cache_hits\":"<<X.st.cacheHits<<",\"solver_s\":"<<X.st.secs<<",\"asserts\":"<<X.st.asserts<<",\"proved\":"<<X.st.assertsProved<<",\"undecided\":"<<X.st.assertsUndecided<<",\"paths\":"<<X.st.paths<<",\"instr\":"<<X.st.instr<<",\"forks\":"<<X.st.forks<<",\"div_assumed\":"<<X.st.divAssumed;
  auto lst=[&](const char*n,auto&c){ o<<",\""<<n<<"\":["; bool f=true; for(auto&s:c){ if(!f) o<<","; f=false; o<<"\""<<jesc(s)<<"\""; } o<<"]"; };
  lst("repo_functions",repoFns); lst("modelled",modelled); lst("incomplete",incomplete); lst("undecided_msgs",undecMsgs); lst("assert_msgs",assertMsgs);
  o<<",\"ends\":{"; bool f=true; for(auto&e:endKinds){ if(!f) o<<","; f=false; o<<"\""<<jesc(e.first)<<"\":"<<e.second; } o<<"},\"covers\":{"; f=true; for(auto&e:covers){ if(!f) o<<","; f=false; o<<"\""<<jesc(e.first)<<"\":"<<e.second; } o<<"},\"slow\":{"; f=true; for(auto&e:slow){ if(e.second<0.5) continue; if(!f) o<<","; f=false; o<<"\""<<jesc(e.first)<<"\":"<<e.second; }
  o<<"},\"violations\":["; f=true; for(auto&v:viols){ if(!f) o<<","; f=false; o<<"{\"kind\":\""<<v.kind<<"\",\"msg\":\""<<jesc(v.msg)<<"\",\"where\":\""<<jesc(v.where)<<"\",\"decided\":"<<(v.allDecided?"true":"false")<<",\"cands\":["; for(size_t i=0;i<v.cands.size();++i){ if(i) o<<","; o<<asg(v.cands[i]); } o<<"]}"; }
  o<<"],\"witnesses\":["; f=true; for(auto&w:witnesses){ if(!f) o<<","; f=false; o<<asg(w); } o<<"]}"; return o.str(); }
void Engine::setupBuiltins(){
  using ST=State; using VV=std::vector<Val>;
  auto nameOf=[this](ST&S,VV&a){ std::string n=cstr(S,a[0]); u64 i=concretize(S,a[1],32); return n+"_"+std::to_string(i); };
  bi["vp_real"]=[=,this](ST&S,const DI&,VV&a,Val&r){ std::string n=nameOf(S,a); double lo=asD(toReal(a[2])),hi=asD(toReal(a[3])); int s=symByName(n,"r"+std::to_string(lo)+":"+std::to_string(hi),[&]{ bool b=lo<=hi; int s=X.newReal(n,b&&lo>=0,true); if(b){ X.syms[s].hasB=true; X.syms[s].lo=lo; X.syms[s].hi=hi; X.addSide(s,X.syms[s].e>=X.ratZ(Rat(lo))); X.addSide(s,X.syms[s].e<=X.ratZ(Rat(hi))); } return s; }); r=mkR(F.var(X.syms[s].rvar)); return true; };
  bi["vp_int"]=[=,this](ST&S,const DI&,VV&a,Val&r){ std::string n=nameOf(S,a); i64 lo=(i64)a[2].c,hi=(i64)a[3].c; int s=symByName(n,"i"+std::to_string(lo)+":"+std::to_string(hi),[&]{ int s=X.newBV(n,64,true); X.addSide(s,X.syms[s].e>=C.bv_val((int64_t)lo,64)); X.addSide(s,X.syms[s].e<=C.bv_val((int64_t)hi,64)); X.syms[s].hasB=true; X.syms[s].lo=(double)lo; X.syms[s].hi=(double)hi; return s; }); r=mkZ(64,X.syms[s].e); return true; };
  bi["vp_byte"]=[=,this](ST&S,const DI&,VV&a,Val&r){ std::string n=nameOf(S,a); int s=symByName(n,"y",[&]{ return X.newBV(n,8,true); }); r=mkZ(8,X.syms[s].e); return true; };
  bi["vp_bool"]=[=,this](ST&S,const DI&,VV&a,Val&r){ std::string n=nameOf(S,a); int s=symByName(n,"b",[&]{ return X.newBV(n,1,true); }); r=mkB(X.syms[s].e); return true; };
  bi["vp_choose"]=[=,this](ST&S,const DI&,VV&a,Val&r){ std::string n=nameOf(S,a); u64 k=a[2].c; int s=symByName(n,"c"+std::to_string(k),[&]{ int s=X.newBV(n,8,true); X.addSide(s,z3::ult(X.syms[s].e,C.bv_val((uint64_t)k,8))); return s; }); u64 v=concretize(S,mkZ(8,X.syms[s].e),8); r=mkI(32,v); return true; };
  auto unit=[=,this](ST&S,VV&a,std::vector<std::string> comps,int dep){ std::string n=nameOf(S,a); std::vector<int> id; for(auto&c:comps) id.push_back(symByName(n+c,"u",[&]{ int s=X.newReal(n+c,false,true); X.addSide(s,X.syms[s].e>=-1); X.addSide(s,X.syms[s].e<=1); X.syms[s].hasB=true; X.syms[s].lo=-1; X.syms[s].hi=1; return s; })); auto&rv=F.P.vars[X.syms[id[dep]].rvar]; if(!rv.hasSq){ Poly p=F.P.one_; for(int i=0;i<(int)id.size();++i) if(i!=dep){ Poly v=F.P.var(X.syms[id[i]].rvar); p=F.P.add(p,F.P.mul(v,v),true); } X.setSq(id[dep],p); } u64 out=concretize(S,a[2],64); for(size_t i=0;i<id.size();++i) store(S,mkI(64,out+8*i),mkR(F.var(X.syms[id[i]].rvar)),Type::getDoubleTy(LC)); };
  bi["vp_strtod"]=[=,this](ST&S,const DI&,VV&a,Val&r){ r=mkD(std::strtod(cstr(S,a[0]).c_str(),nullptr)); return true; };
  bi["vp_rat"]=[=,this](ST&S,const DI&,VV&a,Val&r){ Rat q(long(i64(a[0].c)),1); q/=Rat(long(i64(a[1].c)),1); r=mkR(F.cst(q)); return true; };
  bi["vp_angle"]=[=,this](ST&S,const DI&,VV&a,Val&r){ long p=long(i64(a[2].c)),q=long(i64(a[3].c)); std::string n=nameOf(S,a)+"_"+std::to_string(p)+"_"+std::to_string(q); double t=2*std::atan2(double(p),double(q)); int s=symByName(n,"angle",[&]{ int s=X.newReal(n,false,true); X.addSide(s,X.syms[s].e>=X.ratZ(Rat(t-1e-12))); X.addSide(s,X.syms[s].e<=X.ratZ(Rat(t+1e-12))); return s; }); Frac f=F.var(X.syms[s].rvar); Rat P(p,1),Q(q,1),d=P*P+Q*Q; angleMemo[F.key(f)]={mkR(F.cst(Rat(2*P*Q/d))),mkR(F.cst(Rat((Q*Q-P*P)/d)))}; r=mkR(f); return true; };
  bi["vp_unit2"]=[=,this](ST&S,const DI&,VV&a,Val&){ unit(S,a,{"c","s"},0); return true; };
  bi["vp_unit3"]=[=,this](ST&S,const DI&,VV&a,Val&){ unit(S,a,{"x","y","z"},2); return true; };
  bi["vp_quat"]=[=,this](ST&S,const DI&,VV&a,Val&){ unit(S,a,{"x","y","z","w"},3); return true; };
  bi["vp_assume"]=[=,this](ST&S,const DI&,VV&a,Val&){ Val v=toInt(a[0],1); z3::expr e=boolOf(v); if(e.is_false()) throw Kill{"assume"}; if(e.is_true()) return true; auto it=S.known.find(Z3_get_ast_id(C,e)); if(it!=S.known.end()){ if(!it->second) throw Kill{"assume"}; return true; } if(X.check(S.pc,e,X.tmo)==RUNSAT) throw Kill{"assume"}; addPC(S,e); return true; };
  bi["vp_check"]=[=,this](ST&S,const DI&,VV&a,Val&){ Val v=toInt(a[0],1); std::string m=cstr(S,a[1]); z3::expr e=boolOf(v); assertNeg(S,m,{neg(e)},e); return true; };
  auto nf=[=,this](const Val&v){ return nonfin(v); };
  bi["vp_check_eq"]=[=,this](ST&S,const DI&,VV&a,Val&){ std::string m=cstr(S,a[2]); Val x=toReal(a[0]),y=toReal(a[1]); if(nf(x)||nf(y)){ bool ok= nf(x)&&nf(y)&&(asD(x)==asD(y)||(std::isnan(asD(x))&&std::isnan(asD(y)))); assertNeg(S,m,{C.bool_val(!ok)},C.bool_val(ok)); return true; }
    Frac df=F.add(frac(x),frac(y),true); z3::expr eq=X.cmp0(df,0); Frac p=F.add(df,F.cst(Rat(1,16)),true), q=F.add(F.neg(df),F.cst(Rat(1,16)),true); if(eq.is_true()||F.nearEq(frac(x),frac(y))){ assertNeg(S,m,{C.bool_val(false)},C.bool_val(true)); return true; } z3::expr big=neg(X.cmp0(p,1))||neg(X.cmp0(q,1)); assertNeg(S,m,{big&&neg(eq),neg(eq)},eq); return true; };
  auto lecheck=[=,this](ST&S,VV&a,int op){ std::string m=cstr(S,a[2]); Val x=toReal(a[0]),y=toReal(a[1]); if(nf(x)||nf(y)){ z3::expr e=uno(x,y)?C.bool_val(false):rcmp(x,y,op); assertNeg(S,m,{neg(e)},e); return true; } Frac df=F.add(frac(x),frac(y),true); z3::expr le=X.cmp0(df,op); z3::expr big=X.cmp0(F.add(F.cst(Rat(1,16)),df,true),2); assertNeg(S,m,{big&&neg(le),neg(le)},le); return true; };
  bi["vp_check_le"]=[=,this](ST&S,const DI&,VV&a,Val&){ return lecheck(S,a,2); };
  bi["vp_check_lt"]=[=,this](ST&S,const DI&,VV&a,Val&){ return lecheck(S,a,1); };
  bi["vp_check_same"]=[=,this](ST&S,const DI&,VV&a,Val&){ std::string m=cstr(S,a[2]); Val x=a[0],y=a[1]; if(x.k==VRC&&y.k==VRC){ assertNeg(S,m,{C.bool_val(x.c!=y.c)},C.bool_val(x.c==y.c)); return true; } if(nf(toReal(x))||nf(toReal(y))){ assertNeg(S,m,{C.bool_val(true)},C.bool_val(false)); return true; } z3::expr eq=rcmp(x,y,0); assertNeg(S,m,{neg(eq)},eq); return true; };
  bi["vp_cover"]=[=,this](ST&S,const DI&,VV&a,Val&){ covers[cstr(S,a[0])]++; return true; };
  bi["vp_allow_exit"]=[=,this](ST&S,const DI&,VV&a,Val&){ S.allowExit=a[0].c; return true; };
  bi["vp_allow_throw"]=[=,this](ST&S,const DI&,VV&a,Val&){ S.allowThrow=a[0].c; return true; };
  bi["vp_divcheck"]=[=,this](ST&S,const DI&,VV&a,Val&){ S.divCheck=a[0].c==1; divFork=a[0].c==2; return true; };
  bi["vp_rounding"]=[=,this](ST&S,const DI&,VV&a,Val&){ S.rounding=a[0].c!=0; return true; };
  bi["vp_concrete"]=[=,this](ST&S,const DI&,VV&a,Val&r){ r=mkI(64,concretize(S,a[0],64)); return true; };
  bi["vp_symbolic_run"]=[=](ST&,const DI&,VV&,Val&r){ r=mkI(32,1); return true; };
  bi["vp_pause"]=[=](ST&,const DI&,VV&,Val&){ return true; };
  bi["vp_print"]=[=,this](ST&S,const DI&,VV&a,Val&){ Val v=toReal(a[1]); std::cerr<<"[print] "<<cstr(S,a[0])<<" = "<<(v.k==VRC?std::to_string(asD(v)):F.P.str(fr(v)->num)+(fr(v)->den.empty()?"":" / "+F.P.str(fr(v)->den[0].first)+"^"+std::to_string(fr(v)->den[0].second)+(fr(v)->den.size()>1?" ...":"")))<<"\n"; return true; };
  // memory
  auto mal=[=,this](ST&S,const DI&,VV&a,Val&r){ r=mkI(64,alloc(S,allocSize(S,a[0]),2)); return true; };
  for(auto n:{"malloc","_Znwm","_Znam"}) bi[n]=mal; bi["_ZnwmRKSt9nothrow_t"]=mal; bi["_ZnamRKSt9nothrow_t"]=mal; bi["_ZnwmSt11align_val_t"]=mal; bi["_ZnamSt11align_val_t"]=mal; bi["__cxa_allocate_exception"]=mal;
  bi["aligned_alloc"]=[=,this](ST&S,const DI&,VV&a,Val&r){ r=mkI(64,alloc(S,concretize(S,a[1],64),2)); return true; };
  bi["calloc"]=[=,this](ST&S,const DI&,VV&a,Val&r){ r=mkI(64,alloc(S,concretize(S,a[0],64)*concretize(S,a[1],64),2,true)); return true; };
  auto fre=[=,this](ST&S,const DI&,VV&a,Val&){ u64 p=concretize(S,a[0],64); if(!p) return true; u64 id=idOf(p); Obj*o=p>=FNBASE?nullptr:getR(S,id); if(!o||o->kind!=2||p!=addrOf(id)){ report(S,"memory","invalid or double free",{C.bool_val(true)}); throw Kill{"memory error"}; } slotRef(S,id)=nullptr; return true; };
  for(auto n:{"free","_ZdlPv","_ZdaPv","_ZdlPvm","_ZdaPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t"}) bi[n]=fre;
  bi["realloc"]=[=,this](ST&S,const DI&d,VV&a,Val&r){ u64 p=concretize(S,a[0],64),n=concretize(S,a[1],64); u64 q=alloc(S,n,2); if(p){ Obj*o=getR(S,idOf(p)); if(!o){ report(S,"memory","realloc of dangling pointer",{C.bool_val(true)}); throw Kill{"memory error"}; } memCopy(S,q,p,std::min<u64>(n,o->size)); slotRef(S,idOf(p))=nullptr; } r=mkI(64,q); return true; };
  auto mc=[=,this](ST&S,const DI&,VV&a,Val&r){ memCopy(S,concretize(S,a[0],64),concretize(S,a[1],64),concretize(S,a[2],64)); r=a[0]; return true; }; bi["memcpy"]=mc; bi["memmove"]=mc;
  bi["memset"]=[=,this](ST&S,const DI&,VV&a,Val&r){ memSet(S,concretize(S,a[0],64),trunc(a[1],32,8),concretize(S,a[2],64)); r=a[0]; return true; };
  auto mcmp=[=,this](ST&S,const DI&,VV&a,Val&r){ u64 p=concretize(S,a[0],64),q=concretize(S,a[1],64),n=concretize(S,a[2],64); Val acc=mkI(32,0); for(i64 i=(i64)n-1;i>=0;--i){ Val x=toInt(loadByte(S,p+i),8),y=toInt(loadByte(S,q+i),8); if(x.k==VI&&y.k==VI){ if(x.c!=y.c) acc=mkI(32,x.c<y.c?~0u:1); } else { z3::expr X1=bv(x,8),Y1=bv(y,8); acc=mkZ(32,z3::ite(X1==Y1,bv(acc,32),z3::ite(z3::ult(X1,Y1),C.bv_val(-1,32),C.bv_val(1,32)))); } } r=acc; return true; }; bi["memcmp"]=mcmp; bi["bcmp"]=mcmp;
  bi["strlen"]=[=,this](ST&S,const DI&,VV&a,Val&r){ u64 p=concretize(S,a[0],64); u64 n=0; for(;;++n){ Val b=toInt(loadByte(S,p+n),8); if(b.k==VI){ if(!b.c) break; } else if(decide(S,zx(b)==C.bv_val(0,8))) break; } r=mkI(64,n); return true; };
  bi["strcmp"]=[=,this](ST&S,const DI&,VV&a,Val&r){ u64 p=concretize(S,a[0],64),q=concretize(S,a[1],64); for(;;++p,++q){ u64 x=concretize(S,loadByte(S,p),8),y=concretize(S,loadByte(S,q),8); if(x!=y){ r=mkI(32,x<y?~0u:1u); return true; } if(!x){ r=mkI(32,0); return true; } } };
  bi["memchr"]=[=,this](ST&S,const DI&,VV&a,Val&r){ u64 p=concretize(S,a[0],64),n=concretize(S,a[2],64); Val ch=trunc(a[1],32,8); for(u64 i=0;i<n;++i){ Val c=icmp(CmpInst::ICMP_EQ,loadByte(S,p+i),ch,8); bool e= c.k==VI?c.c:decide(S,zx(c)); if(e){ r=mkI(64,p+i); return true; } } r=mkI(64,0); return true; };
  bi["isspace"]=[=,this](ST&S,const DI&,VV&a,Val&r){ Val c=toInt(a[0],32); if(c.k==VI){ i64 v=(int)(uint32_t)c.c; r=mkI(32,v==32||(v>=9&&v<=13)); } else { z3::expr e=zx(c); r=mkZ(32,z3::ite(e==C.bv_val(32,32)||(z3::uge(e,C.bv_val(9,32))&&z3::ule(e,C.bv_val(13,32))),C.bv_val(1,32),C.bv_val(0,32))); } return true; };
  auto isdig=[=,this](ST&S,const DI&,VV&a,Val&r){ Val c=toInt(a[0],32); z3::expr e=bv(c,32); r=mkZ(32,z3::ite(z3::uge(e,C.bv_val(48,32))&&z3::ule(e,C.bv_val(57,32)),C.bv_val(1,32),C.bv_val(0,32))); return true; }; bi["isdigit"]=isdig;
  // math
  bi["sqrt"]=[=,this](ST&S,const DI&,VV&a,Val&r){ r=rsqrt(S,a[0]); return true; }; bi["sin"]=[=,this](ST&S,const DI&,VV&a,Val&r){ sincos(S,a[0],&r,nullptr); return true; }; bi["cos"]=[=,this](ST&S,const DI&,VV&a,Val&r){ sincos(S,a[0],nullptr,&r); return true; };
  bi["sincos"]=[=,this](ST&S,const DI&,VV&a,Val&){ Val s,c; sincos(S,a[0],&s,&c); store(S,a[1],s,Type::getDoubleTy(LC)); store(S,a[2],c,Type::getDoubleTy(LC)); return true; };
  bi["tan"]=[=,this](ST&S,const DI&,VV&a,Val&r){ Val s,c; sincos(S,a[0],&s,&c); r=rbin(S,'/',s,c); return true; };
  bi["fabs"]=[=,this](ST&S,const DI&,VV&a,Val&r){ r=rabs(S,a[0]); return true; }; bi["floor"]=[=,this](ST&S,const DI&,VV&a,Val&r){ r=rfloor(S,a[0]); return true; }; bi["ceil"]=[=,this](ST&S,const DI&,VV&a,Val&r){ r=rneg(rfloor(S,rneg(a[0]))); return true; }; bi["fmod"]=[=,this](ST&S,const DI&,VV&a,Val&r){ Val x=toReal(a[0]),y=toReal(a[1]); r=(x.k==VRC&&y.k==VRC)?mkD(std::fmod(asD(x),asD(y))):rfmod(S,x,y); return true; };
  bi["round"]=[=,this](ST&S,const DI&,VV&a,Val&r){ Val v=toReal(a[0]); if(v.k==VRC){ r=mkD(std::round(asD(v))); return true; } r=decide(S,rcmp(v,mkD(0),1))?rneg(rfloor(S,rbin(S,'+',rneg(v),mkD(0.5)))):rfloor(S,rbin(S,'+',v,mkD(0.5))); return true; };
  bi["pow"]=[=,this](ST&S,const DI&,VV&a,Val&r){ r=rpow(S,a[0],a[1]); return true; };
  bi["acos"]=[=,this](ST&,const DI&,VV&a,Val&r){ r=opaque("acos",{a[0]},std::acos); return true; }; bi["asin"]=[=,this](ST&,const DI&,VV&a,Val&r){ r=opaque("asin",{a[0]},std::asin); return true; }; bi["atan"]=[=,this](ST&,const DI&,VV&a,Val&r){ r=opaque("atan",{a[0]},std::atan); return true; }; bi["exp"]=[=,this](ST&,const DI&,VV&a,Val&r){ r=opaque("exp",{a[0]},std::exp); return true; }; bi["log"]=[=,this](ST&,const DI&,VV&a,Val&r){ r=opaque("log",{a[0]},std::log); return true; }; bi["log10"]=[=,this](ST&,const DI&,VV&a,Val&r){ r=opaque("log10",{a[0]},std::log10); return true; };
  bi["atan2"]=[=,this](ST&S,const DI&,VV&a,Val&r){ Val y=toReal(a[0]),x=toReal(a[1]); if(x.k==VRC&&y.k==VRC&&asD(y)==0){ r=mkD(std::atan2(asD(y),asD(x))); return true; } r=opaque("atan2",{y,x}); // sin/cos of the angle
    if(r.k==VRS){ std::string k=F.key(fr(r)); if(!sincosMemo.count(k)){ Val s,c; sincos(S,r,&s,&c); Val n=rsqrt(S,rbin(S,'+',rbin(S,'*',x,x),rbin(S,'*',y,y))); int sv=sincosMemo[k].first; X.addSide(sv,X.cmp0(F.add(F.mul(frac(s),frac(n)),frac(y),true),0)); X.addSide(sv,X.cmp0(F.add(F.mul(frac(c),frac(n)),frac(x),true),0)); } } return true; };
  // control
  bi["exit"]=[=,this](ST&S,const DI&,VV&,Val&)->bool{ if(S.allowExit){ X.st.paths++; endKinds["exit-allowed"]++; throw Kill{"done"}; } report(S,"exit","unexpected program exit",{C.bool_val(true)}); throw Kill{"exit"}; };
  auto thr=[=,this](ST&S,const DI&,VV&,Val&)->bool{ if(S.allowThrow){ X.st.paths++; endKinds["throw-allowed"]++; throw Kill{"done"}; } report(S,"throw","unexpected exception",{C.bool_val(true)}); throw Kill{"throw"}; };
  for(auto n:{"_ZSt20__throw_length_errorPKc","_ZSt17__throw_bad_allocv","_ZSt24__throw_out_of_range_fmtPKcz","_ZSt20__throw_out_of_rangePKc","_ZSt19__throw_logic_errorPKc","_ZSt28__throw_bad_array_new_lengthv","_ZSt25__throw_bad_function_callv","_ZSt24__throw_invalid_argumentPKc","_ZSt16__throw_bad_castv","_ZSt9terminatev","_Unwind_Resume","abort","__assert_fail","__cxa_pure_virtual","__clang_call_terminate","_ZSt21__glibcxx_assert_failPKciS0_S0_"}) bi[n]=thr;
  bi["__cxa_throw"]=[=,this](ST&S,const DI&d,VV&a,Val&r)->bool{ const Value*t=cast<CallBase>(d.I)->getArgOperand(1)->stripPointerCasts(); if(!handled(S,t)) return thr(S,d,a,r); S.excPtr=concretize(S,a[0],64); S.excType=t; unwind(S,true); return false; };
  bi["__cxa_rethrow"]=[=,this](ST&S,const DI&d,VV&a,Val&r)->bool{ if(S.caught.empty()) return thr(S,d,a,r); auto c=S.caught.back(); if(!handled(S,c.second)) return thr(S,d,a,r); S.excPtr=c.first; S.excType=c.second; unwind(S,true); return false; };
  bi["__cxa_begin_catch"]=[=,this](ST&S,const DI&,VV&a,Val&r){ S.caught.push_back({S.excPtr,S.excType}); r=a[0]; return true; };
  bi["__cxa_get_exception_ptr"]=[=,this](ST&,const DI&,VV&a,Val&r){ r=a[0]; return true; };
  bi["__cxa_end_catch"]=[=,this](ST&S,const DI&,VV&,Val&r){ if(!S.caught.empty()) S.caught.pop_back(); r=mkI(32,0); return true; };
  auto nop=[](ST&,const DI&,VV&,Val&r){ r=mkI(32,0); return true; };
  for(auto n:{"_ZNSt8ios_base4InitC1Ev","_ZNSt8ios_base4InitD1Ev","__cxa_atexit","_ZNSo5flushEv","__cxa_free_exception","__cxa_guard_release","__cxa_guard_abort"}) bi[n]=nop;
  bi["__cxa_guard_acquire"]=[=,this](ST&S,const DI&,VV&a,Val&r){ Val v=toInt(load(S,a[0],Type::getInt8Ty(LC)),8); bool first=v.k==VI&&v.c==0; if(first) store(S,a[0],mkI(8,1),Type::getInt8Ty(LC)); r=mkI(32,first); return true; };
  auto zero64=[](ST&,const DI&,VV&,Val&r){ r=mkI(64,0); return true; }; for(auto n:{"_ZNSt6chrono3_V212system_clock3nowEv","_ZNSt6chrono3_V212steady_clock3nowEv","clock","time"}) bi[n]=zero64; bi["gettimeofday"]=[=,this](ST&S,const DI&,VV&a,Val&r){ store(S,a[0],mkI(64,0),Type::getInt64Ty(LC)); store(S,mkI(64,a[0].c+8),mkI(64,0),Type::getInt64Ty(LC)); r=mkI(32,0); return true; };
  bi["__dynamic_cast"]=[=,this](ST&S,const DI&,VV&a,Val&r){ u64 p=concretize(S,a[0],64),dst=concretize(S,a[2],64); if(!p){ r=mkI(64,0); return true; } auto ld=[&](u64 x){ return concretize(S,load(S,mkI(64,x),Type::getInt64Ty(LC)),64); }; u64 vp=ld(p); u64 ti=ld(vp-8); i64 top=(i64)ld(vp-16); u64 si=0; if(auto*g=M->getNamedGlobal("_ZTVN10__cxxabiv120__si_class_type_infoE")) si=addrOf(gvId[g])+16; while(ti){ if(ti==dst){ r=mkI(64,p+(u64)top); return true; } if(ld(ti)!=si) break; ti=ld(ti+16); } r=mkI(64,0); return true; };
}
