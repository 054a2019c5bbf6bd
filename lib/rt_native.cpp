// Native side of the harness interface: replays a solver model against the real, natively compiled code.
// exit status: 0 property held; 10 assertion failed; 11 an assumption is not met by the (rounded) inputs;
// 12 the code under test called exit(); 13 exception; signals / sanitizer errors as they are.
#include "vp.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <string>
#include <unistd.h>
#include <exception>
static std::map<std::string,std::string> in; static bool running=false; static int allowExit=0, allowThrow=0;
static std::string key(const char*n,int i){ return std::string(n)+"_"+std::to_string(i); }
static bool has(const std::string&k){ return in.count(k); }
static double getd(const std::string&k,double def){ return has(k)? strtod(in[k].c_str(),nullptr):def; }
static void done(int c){ fflush(stdout); fflush(stderr); _exit(c); }
extern "C" {
double vp_real(const char*n,int i,double lo,double hi){ double d=getd(key(n,i), lo<=hi? (lo<=0&&hi>=0? (hi>=1?1.0:hi/2):(lo+(hi-lo)*0.25)) : 0.5); if(lo<=hi){ if(d<lo) d=lo; if(d>hi) d=hi; } return d; }
int64_t vp_int(const char*n,int i,int64_t lo,int64_t hi){ auto k=key(n,i); int64_t v= has(k)?(int64_t)strtoull(in[k].c_str(),nullptr,10):lo; if(v<lo||v>hi) done(11); return v; }
unsigned char vp_byte(const char*n,int i){ auto k=key(n,i); return has(k)?(unsigned char)strtoul(in[k].c_str(),nullptr,10):0; }
bool vp_bool(const char*n,int i){ return vp_byte(n,i)!=0; }
int vp_choose(const char*n,int i,int m){ int v=vp_byte(n,i); if(v>=m) done(11); return v; }
double vp_rat(int64_t p,int64_t q){ return double(p)/double(q); }
double vp_angle(const char*,int,int64_t p,int64_t q){ return 2*std::atan2(double(p),double(q)); }
void vp_unit2(const char*n,int i,double*o){ auto k=key(n,i); double s=getd(k+"s",0.0), c=getd(k+"c",1.0); double l=std::hypot(s,c); if(!(l>0)){ c=1; s=0; l=1; } o[0]=c/l; o[1]=s/l; }
void vp_unit3(const char*n,int i,double*o){ auto k=key(n,i); double x=getd(k+"x",0),y=getd(k+"y",0),z=getd(k+"z",1); double l=std::sqrt(x*x+y*y+z*z); if(!(l>0)){ z=1; l=1; } o[0]=x/l;o[1]=y/l;o[2]=z/l; }
void vp_quat(const char*n,int i,double*o){ auto k=key(n,i); double v[4]={getd(k+"x",0),getd(k+"y",0),getd(k+"z",0),getd(k+"w",1)}; double l=std::sqrt(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]+v[3]*v[3]); if(!(l>0)){ v[3]=1; l=1; } for(int j=0;j<4;++j) o[j]=v[j]/l; }
void vp_assume(bool c){ if(!c){ fprintf(stderr,"assumption not met\n"); done(11); } }
static void fail(const char*m){ fprintf(stderr,"PROPERTY VIOLATED: %s\n",m); done(10); }
void vp_check(bool c,const char*m){ if(!c) fail(m); }
static double tol(double a,double b){ return 1e-7*(1.0+std::fabs(a)+std::fabs(b)); }
void vp_check_eq(double a,double b,const char*m){ if(std::isnan(a)&&std::isnan(b)) return; if(a==b) return; if(!(std::fabs(a-b)<=tol(a,b))){ fprintf(stderr,"  %.17g vs %.17g\n",a,b); fail(m); } }
void vp_check_le(double a,double b,const char*m){ if(!(a<=b+tol(a,b))){ fprintf(stderr,"  %.17g > %.17g\n",a,b); fail(m); } }
void vp_check_lt(double a,double b,const char*m){ if(!(a<b+tol(a,b))){ fprintf(stderr,"  %.17g >= %.17g\n",a,b); fail(m); } }
void vp_check_same(double a,double b,const char*m){ if(memcmp(&a,&b,8)!=0){ fprintf(stderr,"  %.17g vs %.17g\n",a,b); fail(m); } }
void vp_cover(const char*){}
void vp_allow_exit(int v){ allowExit=v; }
void vp_allow_throw(int v){ allowThrow=v; }
void vp_divcheck(int){}
void vp_rounding(int){}
int64_t vp_concrete(int64_t v){ return v; }
int vp_symbolic_run(void){ return 0; }
void vp_print(const char*n,double v){ fprintf(stderr,"%s = %.17g\n",n,v); }
void VP_ENTRY();
}
static void atEnd(){ if(running) _exit(allowExit?0:12); }
static void onTerm(){ fprintf(stderr,"exception escaped\n"); _exit(allowThrow?0:13); }
int main(int argc,char**argv){ if(argc>1){ std::ifstream f(argv[1]); std::string k,v; while(f>>k>>v) in[k]=v; } std::atexit(atEnd); std::set_terminate(onTerm); running=true; VP_ENTRY(); running=false; printf("ok\n"); return 0; }
