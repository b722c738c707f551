// Native run-time of a replay: feeds the solver's assignment to the harness, real sources, real libraries.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>
#include <exception>
#include <typeinfo>
#include <unistd.h>
#include <csignal>
#include "vf.h"
extern "C" { int vf_random_limit=-1; void vf_draw(void){ if(vf_random_limit<0) return; vf_assume(vf_random_limit>0); vf_random_limit--; } int vf_random_fixed=0; unsigned vf_fraction_k=0; double vf_next_fraction(void){ unsigned k=++vf_fraction_k; return (double)((k*633u)%1024u)/1024.0; } }
struct In { char k; std::string name; double d; long long i; };
static std::vector<In> ins; static size_t nxt=0; static FILE*rep;
static void done(int rc,const char*what,const char*msg){ fprintf(rep,"%s %s\n",what,msg); fflush(rep); fflush(stdout); _exit(rc); }
static In& take(char k,const char*n){ if(nxt>=ins.size()) done(44,"REPLAY-DIVERGED","more inputs requested than recorded"); In&x=ins[nxt++]; if(x.k!=k||x.name!=n) done(44,"REPLAY-DIVERGED",("input order: expected "+x.name+" got "+n).c_str()); return x; }
extern "C" {
double vf_double(const char*n){ return take('d',n).d; }
int vf_int(const char*n,int lo,int hi){ int v=(int)take('i',n).i; if(v<lo) v=lo; if(v>hi) v=hi; return v; }
int vf_concrete(int v){ return v; }
void vf_assume(bool c){ if(!c) done(43,"REPLAY-ASSUME","assumption not met"); }
void vf_assert(bool c,const char*m){ if(!c) done(42,"REPLAY-VIOLATION",m); }
void vf_reach(const char*){}
void vf_observe(const char*n,double v){ fprintf(rep,"OBS %s %.17g\n",n,v); }
void vf_end(void){ done(0,"REPLAY-END",""); }
int vf_is_symbolic(double){ return 0; }
int vf_is_engine(void){ return 0; }
int vf_mode_real(void){ return 0; }
void vf_debug(const char*,...){}
int vf_fmt_double(char*b,double v,int f,int p){ return f==1?sprintf(b,"%.*f",p,v):f==2?sprintf(b,"%.*e",p,v):sprintf(b,"%.*g",p,v); }
int rand(void){ if(nxt<ins.size()&&ins[nxt].k=='i'&&ins[nxt].name=="rand") return (int)ins[nxt++].i; return 0; }
int system(const char*c);
}
// Parallel regions: one thread at a time runs, from one waiting point (lock, barrier, iteration, end) to the next; where several can
// continue, the recorded input "schedule" decides - as in the engine's scheduler (nextThread in engine/rsym.cpp).
#include <pthread.h>
#include <map>
#include <set>
#include <atomic>
static int vfMax=1,vfSet=0; static __thread int vfMe=0; static bool vfPar=false; static int vfT=1; static std::atomic<int> vfTok{0};
struct VfThr { int wait=0; void*lock=nullptr; unsigned loops=0,singles=0; }; static VfThr*vfThr; static std::map<void*,pthread_mutex_t*> vfMx; static std::set<void*> vfOwn;
static long vfLo,vfHi,vfInc,vfChunk; static unsigned vfUse; static std::set<unsigned> vfSingles;
static pthread_mutex_t* vfMutex(void*k){ auto&m=vfMx[k]; if(!m){ m=new pthread_mutex_t; pthread_mutex_init(m,nullptr); } return m; }
static int vfNext(){ for(int k=0;k<vfT;k++) if(vfThr[k].wait==0) return k; std::vector<int> c; bool all=true; for(int k=0;k<vfT;k++){ auto&t=vfThr[k]; if(t.wait!=2&&t.wait!=9) all=false; if(t.wait==3||(t.wait==1&&!vfOwn.count(t.lock))) c.push_back(k); }
  if(all){ for(int k=0;k<vfT;k++) if(vfThr[k].wait==2) return k; return -1; } if(c.empty()) done(45,"REPLAY-CRASH","deadlock"); if(c.size()==1) return c[0]; long v=nxt<ins.size()?take('i',"schedule").i:0; if(v<0||v>=(long)c.size()) v=0; return c[v]; }
static void vfWaitTok(){ while(vfTok.load()!=vfMe) usleep(50); }
static void vfResume(int k){ if(vfThr[k].wait==2) for(int j=0;j<vfT;j++) if(vfThr[j].wait==2&&j!=k) vfThr[j].wait=0; if(vfThr[k].wait==1) vfOwn.insert(vfThr[k].lock); vfThr[k].wait=0; vfTok.store(k); }
static void vfBlock(int why,void*l){ vfThr[vfMe].wait=why; vfThr[vfMe].lock=l; vfResume(vfNext()); vfWaitTok(); }
struct VfArg { void(*fn)(void*); void*data; int id; };
static void* vfBody(void*p){ auto*a=(VfArg*)p; vfMe=a->id; vfWaitTok(); a->fn(a->data); vfThr[vfMe].wait=9; int k=vfNext(); if(k>=0) vfResume(k); return nullptr; }
extern "C" {
void vf_set_threads(int n){ vfMax=n; }
int omp_get_max_threads(){ int n=vfSet>0?vfSet:1; return n<vfMax?n:vfMax; } int omp_get_num_threads(){ return vfPar?vfT:1; } int omp_get_thread_num(){ return vfPar?vfMe:0; } void omp_set_num_threads(int n){ vfSet=n; } int omp_in_parallel(){ return vfPar; }
void GOMP_parallel(void(*fn)(void*),void*data,unsigned,unsigned){ int n=omp_get_max_threads(); if(vfPar||n<=1){ fn(data); return; } vfT=n; vfThr=new VfThr[n]; vfPar=true; vfUse=0; vfSingles.clear(); vfTok.store(0); std::vector<pthread_t> th(n); std::vector<VfArg> ar(n); for(int i=1;i<n;i++){ ar[i]=VfArg{fn,data,i}; pthread_create(&th[i],nullptr,vfBody,&ar[i]); } ar[0]=VfArg{fn,data,0}; vfBody(&ar[0]); for(int i=1;i<n;i++) pthread_join(th[i],nullptr); vfPar=false; delete[] vfThr; vfMe=0; }
static int vfOne; 
void GOMP_critical_name_start(void**k){ if(!vfPar) return; vfBlock(1,k); pthread_mutex_lock(vfMutex(k)); } void GOMP_critical_name_end(void**k){ if(!vfPar) return; pthread_mutex_unlock(vfMutex(k)); vfOwn.erase(k); }
void GOMP_critical_start(){ GOMP_critical_name_start((void**)&vfOne); } void GOMP_critical_end(){ GOMP_critical_name_end((void**)&vfOne); }
void GOMP_barrier(){ if(vfPar) vfBlock(2,nullptr); }
bool GOMP_single_start(){ if(!vfPar) return true; return vfSingles.insert(vfThr[vfMe].singles++).second; }
bool GOMP_loop_dynamic_next(long*a,long*b){ if(vfPar) vfBlock(3,nullptr); bool more=vfInc>0?vfLo<vfHi:vfLo>vfHi; if(!more) return false; *a=vfLo; long e=vfLo+vfChunk*vfInc; if(vfInc>0?e>vfHi:e<vfHi) e=vfHi; *b=e; vfLo=e; return true; }
bool GOMP_loop_nonmonotonic_dynamic_next(long*a,long*b){ return GOMP_loop_dynamic_next(a,b); } bool GOMP_loop_guided_next(long*a,long*b){ return GOMP_loop_dynamic_next(a,b); } bool GOMP_loop_nonmonotonic_guided_next(long*a,long*b){ return GOMP_loop_dynamic_next(a,b); }
void GOMP_loop_end(){ GOMP_barrier(); } void GOMP_loop_end_nowait(){}
static void vfPLoop(void(*fn)(void*),void*d,long lo,long hi,long inc,long ch){ int n=omp_get_max_threads(); (void)n; vfLo=lo; vfHi=hi; vfInc=inc; vfChunk=ch<1?1:ch; GOMP_parallel(fn,d,0,0); }
void GOMP_parallel_loop_dynamic(void(*fn)(void*),void*d,unsigned,long lo,long hi,long inc,long ch,unsigned){ vfPLoop(fn,d,lo,hi,inc,ch); } void GOMP_parallel_loop_nonmonotonic_dynamic(void(*fn)(void*),void*d,unsigned,long lo,long hi,long inc,long ch,unsigned){ vfPLoop(fn,d,lo,hi,inc,ch); }
void GOMP_parallel_loop_guided(void(*fn)(void*),void*d,unsigned,long lo,long hi,long inc,long ch,unsigned){ vfPLoop(fn,d,lo,hi,inc,ch); } void GOMP_parallel_loop_nonmonotonic_guided(void(*fn)(void*),void*d,unsigned,long lo,long hi,long inc,long ch,unsigned){ vfPLoop(fn,d,lo,hi,inc,ch); }
}
void vf_write_file(const std::string&n,const std::string&c){ std::ofstream f(n,std::ios::binary); f<<c; }
bool vf_file_exists(const std::string&n){ return access(n.c_str(),F_OK)==0; }
std::string vf_read_file(const std::string&n){ std::ifstream f(n,std::ios::binary); std::stringstream s; s<<f.rdbuf(); return s.str(); }
void vf_remove_file(const std::string&n){ unlink(n.c_str()); }
double (*vf_udf)(int,const double*)=nullptr;
#define VF_U(k) double constraintFunction##k(double*x){ return vf_udf?vf_udf(k,x):0.0; }
VF_U(0) VF_U(1) VF_U(2) VF_U(3) VF_U(4) VF_U(5) VF_U(6) VF_U(7) VF_U(8) VF_U(9) VF_U(10) VF_U(11) VF_U(12) VF_U(13) VF_U(14) VF_U(15) VF_U(16) VF_U(17) VF_U(18) VF_U(19) 
int (*vf_external_handler)(const char*)=nullptr;
int vf_run_external(const std::string&c){ return vf_external_handler?vf_external_handler(c.c_str()):0; }
extern "C" int system(const char*c){ int r=vf_run_external(c); return r<0?127<<8:r<<8; }
std::string vf_num(double v,int prec){ char b[64]; int n=vf_fmt_double(b,v,0,prec); return std::string(b,n); }
extern "C" void VF_ENTRY(void);
static void onTerm(){ const char*w="terminate"; std::string s; try{ auto p=std::current_exception(); if(p) std::rethrow_exception(p);}catch(const std::exception&e){ s=std::string("uncaught ")+typeid(e).name()+": "+e.what(); }catch(...){ s="uncaught exception"; } done(45,"REPLAY-CRASH",s.c_str()); }
static void onSig(int s){ char b[64]; snprintf(b,64,"signal %d",s); done(45,"REPLAY-CRASH",b); }
int main(int c,char**v){ rep=fdopen(dup(2),"w"); FILE*f=fopen(v[1],"r"); char line[4096]; while(fgets(line,sizeof line,f)){ In x; std::string l(line); while(!l.empty()&&(l.back()=='\n'||l.back()==' ')) l.pop_back(); if(l.size()<3||l[1]!=' ') continue; // "i NAME VALUE" or "d NAME BITS TEXT"; names may contain spaces
  if(l[0]=='d'){ size_t b=l.rfind(' '); if(b==std::string::npos||b<2) continue; size_t a=l.rfind(' ',b-1); if(a==std::string::npos||a<2) continue; unsigned long long u; if(sscanf(l.c_str()+a,"%llx",&u)!=1) continue; x.k='d'; x.name=l.substr(2,a-2); memcpy(&x.d,&u,8); x.i=0; ins.push_back(x); }
  else if(l[0]=='i'){ size_t a=l.rfind(' '); long long v; if(a<2||sscanf(l.c_str()+a,"%lld",&v)!=1) continue; x.k='i'; x.name=l.substr(2,a-2); x.i=v; x.d=0; ins.push_back(x); } }
  fclose(f); std::set_terminate(onTerm);
#ifndef VF_SANITIZE
  signal(SIGSEGV,onSig); signal(SIGABRT,onSig); signal(SIGFPE,onSig); signal(SIGBUS,onSig); signal(SIGILL,onSig);
#endif
  freopen("/dev/null","w",stdout); VF_ENTRY(); done(0,"REPLAY-END",""); }
