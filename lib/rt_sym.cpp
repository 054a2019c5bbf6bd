// Definitions of C++ runtime pieces that live in libstdc++.so, for the symbolic run only.
#include <map>
#include <set>
#include <list>
#include <unordered_map>
#include <cstddef>
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; }
  else { _Rb_tree_node_base* y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; }
  return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if(x->_M_color==_S_red && x->_M_parent->_M_parent==x) x=x->_M_right;
  else if(x->_M_left){ _Rb_tree_node_base* y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; }
  else { _Rb_tree_node_base* y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; }
  return x; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// unbalanced insertion preserves the ordering contract and is enough at harness sizes; header is coloured red as in libstdc++
void _Rb_tree_insert_and_rebalance(const bool left,_Rb_tree_node_base* x,_Rb_tree_node_base* p,_Rb_tree_node_base& header) throw() {
  x->_M_parent=p; x->_M_left=nullptr; x->_M_right=nullptr; x->_M_color=_S_black;
  if(left){ p->_M_left=x; if(p==&header){ header._M_parent=x; header._M_right=x; } else if(p==header._M_left) header._M_left=x; }
  else { p->_M_right=x; if(p==header._M_right) header._M_right=x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z,_Rb_tree_node_base& header) throw() {
  _Rb_tree_node_base*& root=header._M_parent; _Rb_tree_node_base*& leftmost=header._M_left; _Rb_tree_node_base*& rightmost=header._M_right;
  _Rb_tree_node_base* y=z; _Rb_tree_node_base* x=nullptr; _Rb_tree_node_base* xp=nullptr;
  if(!y->_M_left) x=y->_M_right; else if(!y->_M_right) x=y->_M_left; else { y=y->_M_right; while(y->_M_left) y=y->_M_left; x=y->_M_right; }
  if(y!=z){ z->_M_left->_M_parent=y; y->_M_left=z->_M_left; if(y!=z->_M_right){ xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y;
    if(root==z) root=y; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y; y->_M_parent=z->_M_parent; y=z; }
  else { xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; if(root==z) root=x; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x;
    if(leftmost==z){ if(!z->_M_right) leftmost=z->_M_parent; else { _Rb_tree_node_base* m=x; while(m->_M_left) m=m->_M_left; leftmost=m; } }
    if(rightmost==z){ if(!z->_M_left) rightmost=z->_M_parent; else { _Rb_tree_node_base* m=x; while(m->_M_right) m=m->_M_right; rightmost=m; } } }
  return y; }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* const n=_M_next; _List_node_base* const p=_M_prev; p->_M_next=n; n->_M_prev=p; }
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { std::size_t p= n<13?13: n<29?29: n<97?97: n<389?389:1543; _M_next_resize=p; return p; }
std::pair<bool,std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t b,std::size_t e,std::size_t i) const { if(e+i>_M_next_resize){ std::size_t m=e+i; if(m<b) m=b+1; return {true,_M_next_bkt(m)}; } return {false,0}; }
}
}
// ---- locale / ios_base in the classic "C" locale, just enough for std::stringstream ----
#include <sstream>
#include <locale>
#include <cstring>
static char vp_ctype_buf[sizeof(std::ctype<char>)];
static void* vp_facets[64];
static char vp_impl_buf[256];
static bool vp_loc_ready=false;
static void vp_loc_init(){ if(vp_loc_ready) return; vp_loc_ready=true; auto* ct=reinterpret_cast<std::ctype<char>*>(vp_ctype_buf); ct->_M_widen_ok=1; ct->_M_narrow_ok=1; for(int i=0;i<256;++i){ ct->_M_widen[i]=(char)i; ct->_M_narrow[i]=(char)i; } vp_facets[1]=vp_ctype_buf; auto* im=reinterpret_cast<std::locale::_Impl*>(vp_impl_buf); im->_M_facets=(const std::locale::facet**)(vp_facets); im->_M_facets_size=64; im->_M_refcount=1; }
extern "C" {
void ovr_loc_ctor(std::locale* l) asm("ovr._ZNSt6localeC1Ev"); void ovr_loc_ctor(std::locale* l){ vp_loc_init(); l->_M_impl=reinterpret_cast<std::locale::_Impl*>(vp_impl_buf); }
void ovr_loc_dtor(std::locale*) asm("ovr._ZNSt6localeD1Ev"); void ovr_loc_dtor(std::locale*){}
void ovr_loc_cctor(std::locale* l,const std::locale& o) asm("ovr._ZNSt6localeC1ERKS_"); void ovr_loc_cctor(std::locale* l,const std::locale& o){ l->_M_impl=o._M_impl; }
const std::locale* ovr_loc_asg(std::locale* l,const std::locale& o) asm("ovr._ZNSt6localeaSERKS_"); const std::locale* ovr_loc_asg(std::locale* l,const std::locale& o){ l->_M_impl=o._M_impl; return l; }
size_t ovr_id(const std::locale::id* i) asm("ovr._ZNKSt6locale2id5_M_idEv"); size_t ovr_id(const std::locale::id* i){ return i==&std::ctype<char>::id ? 1 : 0; }
void ovr_ios(std::ios_base* b) asm("ovr._ZNSt8ios_baseC2Ev"); void ovr_ios(std::ios_base* b){ b->_M_precision=6; b->_M_width=0; b->_M_flags=(std::ios_base::fmtflags)(std::ios_base::skipws|std::ios_base::dec); b->_M_exception=std::ios_base::goodbit; b->_M_streambuf_state=std::ios_base::goodbit; b->_M_callbacks=nullptr; b->_M_word_size=8; b->_M_word=b->_M_local_word; ovr_loc_ctor(&b->_M_ios_locale); }
void ovr_iosd(std::ios_base*) asm("ovr._ZNSt8ios_baseD2Ev"); void ovr_iosd(std::ios_base*){}
void ovr_iosinit(std::ios_base* b) asm("ovr._ZNSt8ios_base7_M_initEv"); void ovr_iosinit(std::ios_base* b){ b->_M_precision=6; b->_M_width=0; b->_M_flags=(std::ios_base::fmtflags)(std::ios_base::skipws|std::ios_base::dec); ovr_loc_ctor(&b->_M_ios_locale); }
}
// std::cerr / std::cout: just enough layout for inlined std::endl; output itself is discarded by the engine
struct vp_ios_fake { char base[216]; void* tie; char fill[16]; const void* ctype; void* rest[2]; };
struct vp_os_fake { const long* vptr; vp_ios_fake ios; };
static const char vp_std_ctype[sizeof(std::ctype<char>)] = {0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0, 1};
static const long vp_os_vt[6] = { 8, 0, 0, 0, 0, 0 };
extern vp_os_fake vp_cerr asm("_ZSt4cerr"); vp_os_fake vp_cerr = { &vp_os_vt[3], { {}, nullptr, {}, vp_std_ctype, {} } };
extern vp_os_fake vp_cout asm("_ZSt4cout"); vp_os_fake vp_cout = { &vp_os_vt[3], { {}, nullptr, {}, vp_std_ctype, {} } };
static_assert( sizeof( std::ios ) == sizeof( vp_ios_fake ), "layout" );

#include <limits>
#include <istream>
#include <ostream>
// ---- numbers in streams. Text "@k" stands for the k-th number the harness registered (any value); other text is parsed as usual.
extern "C" { double vp_strtod(const char*); double vp_tok_d[512]; long vp_tok_i[512]; }
namespace {
typedef std::istream IS; typedef std::ostream OS;
bool vp_ready(IS& s){ if(!s.good()){ s.setstate(std::ios::failbit); return false; } std::streambuf* b=s.rdbuf(); for(;;){ int c=b->sgetc(); if(c==EOF){ s.setstate(std::ios::eofbit|std::ios::failbit); return false; } if(c==' '||(c>=9&&c<=13)) b->sbumpc(); else return true; } }
bool vp_isd(int c){ return c>='0'&&c<='9'; }
int vp_next(std::streambuf* b){ b->sbumpc(); return b->sgetc(); }
int vp_token(std::streambuf* b){ int k=0; int c=vp_next(b); while(vp_isd(c)){ k=10*k+(c-'0'); c=vp_next(b); } return k; }
void vp_getd(IS& s,double& v){ if(!vp_ready(s)) return; std::streambuf* b=s.rdbuf(); int c=b->sgetc(); if(c=='@'){ v=vp_tok_d[vp_token(b)]; if(b->sgetc()==EOF) s.setstate(std::ios::eofbit); return; }
  char t[64]; int n=0,dig=0; if(c=='+'||c=='-'){ t[n++]=(char)c; c=vp_next(b); } while(vp_isd(c)&&n<60){ t[n++]=(char)c; ++dig; c=vp_next(b); } if(c=='.'){ t[n++]='.'; c=vp_next(b); while(vp_isd(c)&&n<60){ t[n++]=(char)c; ++dig; c=vp_next(b); } }
  bool bad=!dig; if(dig&&(c=='e'||c=='E')){ int e=0; t[n++]='e'; c=vp_next(b); if(c=='+'||c=='-'){ t[n++]=(char)c; c=vp_next(b); } while(vp_isd(c)&&n<60){ t[n++]=(char)c; ++e; c=vp_next(b); } if(!e) bad=true; } t[n]=0;
  if(c==EOF) s.setstate(std::ios::eofbit); if(bad){ v=0; s.setstate(std::ios::failbit); } else v=vp_strtod(t); }
// magnitude up to lim (or nlim when negative)
bool vp_geti(IS& s,unsigned long lim,unsigned long nlim,unsigned long& v,bool& neg){ neg=false; if(!vp_ready(s)) return false; std::streambuf* b=s.rdbuf(); int c=b->sgetc(); if(c=='@'){ long k=vp_tok_i[vp_token(b)]; neg=k<0; v=neg?-(unsigned long)k:(unsigned long)k; if(b->sgetc()==EOF) s.setstate(std::ios::eofbit); }
  else { if(c=='+'||c=='-'){ neg=c=='-'; c=vp_next(b); } int dig=0; bool over=false; v=0; while(vp_isd(c)){ unsigned long d=(unsigned long)(c-'0'); ++dig; if(dig>19||v>(~0ul-d)/10) over=true; else v=10*v+d; c=vp_next(b); } if(c==EOF) s.setstate(std::ios::eofbit); if(!dig){ v=0; neg=false; s.setstate(std::ios::failbit); return true; } if(over) v=~0ul; }
  if(v>(neg?nlim:lim)){ v=neg?nlim:lim; s.setstate(std::ios::failbit); } return true; }
template<class T> void vp_gets(IS& s,T& v){ unsigned long m; bool neg; const unsigned long lim=(unsigned long)std::numeric_limits<T>::max(); if(vp_geti(s,lim,lim+1,m,neg)) v=neg?(T)-m:(T)m; }
template<class T> void vp_getu(IS& s,T& v){ unsigned long m; bool neg; const unsigned long lim=(unsigned long)std::numeric_limits<T>::max(); if(!vp_geti(s,lim,lim,m,neg)) return; if(s.fail()&&m) { v=(T)lim; return; } v=neg?(T)-m:(T)m; }
void vp_getb(IS& s,bool& v){ unsigned long m; bool neg; if(!vp_geti(s,~0ul,~0ul,m,neg)) return; if(s.fail()){ v=false; return; } if(m==0&&!neg) v=false; else if(m==1&&!neg) v=true; else { v=true; s.setstate(std::ios::failbit); } }
OS& vp_put(OS& s,const char* t,int n){ if(!s.good()||!s.rdbuf()) return s; int w=(int)s.width(); bool left=(s.flags()&std::ios::adjustfield)==std::ios::left; std::streambuf* b=s.rdbuf(); char f=s.fill(); if(!left) for(int i=n;i<w;++i) b->sputc(f); for(int i=0;i<n;++i) b->sputc(t[i]); if(left) for(int i=n;i<w;++i) b->sputc(f); s.width(0); return s; }
OS& vp_putu(OS& s,unsigned long v,bool neg){ char t[24]; int n=24; do { t[--n]=(char)('0'+v%10); v/=10; } while(v); if(neg) t[--n]='-'; return vp_put(s,t+n,24-n); }
OS& vp_putl(OS& s,long v){ return v<0?vp_putu(s,-(unsigned long)v,true):vp_putu(s,(unsigned long)v,false); }
// real numbers print as 0.000 with the stream's number of decimals: only the shape of the text is modelled
OS& vp_putd(OS& s){ char t[40]; int n=0; t[n++]='0'; long p=s.precision(); if(p>0){ t[n++]='.'; for(long i=0;i<p&&n<40;++i) t[n++]='0'; } return vp_put(s,t,n); }
}
extern "C" {
#define VPX(sym,T,f) IS& ovr_x##sym(IS& s,T& v) asm("ovr._ZNSi10_M_extractI" #sym "EERSiRT_"); IS& ovr_x##sym(IS& s,T& v){ f(s,v); return s; }
VPX(d,double,vp_getd) VPX(b,bool,vp_getb) VPX(t,unsigned short,vp_getu) VPX(j,unsigned,vp_getu) VPX(l,long,vp_gets) VPX(m,unsigned long,vp_getu) VPX(x,long long,vp_gets) VPX(y,unsigned long long,vp_getu)
IS& ovr_xi(IS& s,int& v) asm("ovr._ZNSirsERi"); IS& ovr_xi(IS& s,int& v){ vp_gets(s,v); return s; }
OS& ovr_im(OS& s,unsigned long v) asm("ovr._ZNSo9_M_insertImEERSoT_"); OS& ovr_im(OS& s,unsigned long v){ return vp_putu(s,v,false); }
OS& ovr_iy(OS& s,unsigned long long v) asm("ovr._ZNSo9_M_insertIyEERSoT_"); OS& ovr_iy(OS& s,unsigned long long v){ return vp_putu(s,v,false); }
OS& ovr_il(OS& s,long v) asm("ovr._ZNSo9_M_insertIlEERSoT_"); OS& ovr_il(OS& s,long v){ return vp_putl(s,v); }
OS& ovr_ix(OS& s,long long v) asm("ovr._ZNSo9_M_insertIxEERSoT_"); OS& ovr_ix(OS& s,long long v){ return vp_putl(s,v); }
OS& ovr_ib(OS& s,bool v) asm("ovr._ZNSo9_M_insertIbEERSoT_"); OS& ovr_ib(OS& s,bool v){ return vp_putu(s,v,false); }
OS& ovr_idbl(OS& s,double) asm("ovr._ZNSo9_M_insertIdEERSoT_"); OS& ovr_idbl(OS& s,double){ return vp_putd(s); }
OS& ovr_ii(OS& s,int v) asm("ovr._ZNSolsEi"); OS& ovr_ii(OS& s,int v){ return vp_putl(s,v); }
IS& ovr_gl(IS& s,std::string& o,char d) asm("ovr._ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_");
IS& ovr_gl(IS& s,std::string& o,char d){ if(!s.good()){ s.setstate(std::ios::failbit); return s; } o.clear(); std::streambuf* b=s.rdbuf(); bool any=false; for(;;){ int c=b->sbumpc(); if(c==EOF){ s.setstate(any?std::ios::eofbit:(std::ios::eofbit|std::ios::failbit)); return s; } any=true; if((char)c==d) return s; o.push_back((char)c); } }
IS& ovr_gl2(IS& s,std::string& o) asm("ovr._ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE"); IS& ovr_gl2(IS& s,std::string& o){ return ovr_gl(s,o,'\n'); }
IS& ovr_xs(IS& s,std::string& o) asm("ovr._ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE");
IS& ovr_xs(IS& s,std::string& o){ if(!vp_ready(s)) return s; o.clear(); std::streambuf* b=s.rdbuf(); int w=(int)s.width(); for(int n=0;w<=0||n<w;++n){ int c=b->sgetc(); if(c==EOF){ s.setstate(std::ios::eofbit); break; } if(c==' '||(c>=9&&c<=13)) break; o.push_back((char)c); b->sbumpc(); } s.width(0); return s; }
}
