// Run-time library of the symbolic build: libc / libstdc++ / BLAS+LAPACK functions that exist only as
// compiled code in the real build are provided here as source, so that the engine can execute them.
// Compiled with -fno-builtin.
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <stdexcept>
#include <string>
#include <vector>
#include <new>
#include <typeinfo>
#include <functional>
#include <map>
#include <set>
#include <list>
#include <unordered_map>
#include <unordered_set>
#include <chrono>
#include <iostream>
#include <fstream>
#include <filesystem>
#include <chrono>
#include <cmath>
#include "../include/vf.h"
extern "C" { int vf_random_limit=-1; void vf_draw(void){ if(vf_random_limit<0) return; vf_assume(vf_random_limit>0); vf_random_limit--; } int vf_random_fixed=0; unsigned vf_fraction_k=0; double vf_next_fraction(void){ unsigned k=++vf_fraction_k; return (double)((k*633u)%1024u)/1024.0; } }
extern "C" {
size_t strlen(const char*s){ size_t n=0; while(s[n]) n++; return n; }
int memcmp(const void*a,const void*b,size_t n){ const unsigned char*x=(const unsigned char*)a,*y=(const unsigned char*)b; for(size_t i=0;i<n;i++) if(x[i]!=y[i]) return x[i]<y[i]?-1:1; return 0; }
int bcmp(const void*a,const void*b,size_t n){ return memcmp(a,b,n); }
#undef memchr
void* vf_memchr(const void*a,int c,size_t n) __asm__("memchr");
void* vf_memchr(const void*a,int c,size_t n){ const unsigned char*x=(const unsigned char*)a; for(size_t i=0;i<n;i++) if(x[i]==(unsigned char)c) return (void*)(x+i); return nullptr; }
int strcmp(const char*a,const char*b){ while(*a&&*a==*b){a++;b++;} return (int)(unsigned char)*a-(int)(unsigned char)*b; }
int strncmp(const char*a,const char*b,size_t n){ for(;n;n--,a++,b++){ if(*a!=*b) return (int)(unsigned char)*a-(int)(unsigned char)*b; if(!*a) break; } return 0; }
static int lo(int c){ return c>='A'&&c<='Z'?c+32:c; }
int strcasecmp(const char*a,const char*b){ while(*a&&lo((unsigned char)*a)==lo((unsigned char)*b)){a++;b++;} return lo((unsigned char)*a)-lo((unsigned char)*b); }
int strncasecmp(const char*a,const char*b,size_t n){ for(;n;n--,a++,b++){ int d=lo((unsigned char)*a)-lo((unsigned char)*b); if(d||!*a) return d; } return 0; }
char* vf_strchr(const char*s,int c) __asm__("strchr"); char* vf_strchr(const char*s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return nullptr; } }
char* vf_strrchr(const char*s,int c) __asm__("strrchr"); char* vf_strrchr(const char*s,int c){ const char*r=nullptr; for(;;s++){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } }
char* vf_strstr(const char*s,const char*t) __asm__("strstr"); char* vf_strstr(const char*s,const char*t){ size_t n=strlen(t); for(;;s++){ if(strncmp(s,t,n)==0) return (char*)s; if(!*s) return nullptr; } }
char* strcpy(char*d,const char*s){ char*r=d; while((*d++=*s++)); return r; }
char* strncpy(char*d,const char*s,size_t n){ size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char* strcat(char*d,const char*s){ strcpy(d+strlen(d),s); return d; }
char* strdup(const char*s){ char*d=(char*)malloc(strlen(s)+1); strcpy(d,s); return d; }
char* strerror(int){ return (char*)"error"; }
int isspace(int c){ return c==' '||(c>=9&&c<=13); } int isdigit(int c){ return c>='0'&&c<='9'; } int isupper(int c){ return c>='A'&&c<='Z'; } int islower(int c){ return c>='a'&&c<='z'; } int isalpha(int c){ return isupper(c)||islower(c); } int isalnum(int c){ return isalpha(c)||isdigit(c); } int isprint(int c){ return c>=32&&c<127; } int isgraph(int c){ return c>32&&c<127; } int ispunct(int c){ return isgraph(c)&&!isalnum(c); } int isxdigit(int c){ return isdigit(c)||(c>='a'&&c<='f')||(c>='A'&&c<='F'); } int iscntrl(int c){ return c<32||c==127; } int isblank(int c){ return c==' '||c=='\t'; }
int tolower(int c){ return isupper(c)?c+32:c; } int toupper(int c){ return islower(c)?c-32:c; }
static int vf_errno; int* __errno_location(void){ return &vf_errno; }
static unsigned long long parseInt(const char*s,char**e,int base,bool&neg,bool&over){ const char*p=s; while(isspace((unsigned char)*p)) p++; neg=false; over=false; if(*p=='-'||*p=='+'){ neg=*p=='-'; p++; } if((base==0||base==16)&&p[0]=='0'&&(p[1]=='x'||p[1]=='X')&&isxdigit((unsigned char)p[2])){ p+=2; base=16; } if(base==0) base=*p=='0'?8:10; unsigned long long v=0; bool any=false; for(;;p++){ int c=(unsigned char)*p,d; if(isdigit(c)) d=c-'0'; else if(isalpha(c)) d=tolower(c)-'a'+10; else break; if(d>=base) break; any=true; if(v>(~0ULL-d)/base) over=true; v=v*base+d; } if(e) *e=(char*)(any?p:s); return v; }
long strtol(const char*s,char**e,int b){ bool n,o; unsigned long long v=parseInt(s,e,b,n,o); if(o||v>(n?9223372036854775808ULL:9223372036854775807ULL)){ vf_errno=34; return n?(long)0x8000000000000000ULL:0x7fffffffffffffffL; } return n?-(long)v:(long)v; }
long long strtoll(const char*s,char**e,int b){ return strtol(s,e,b); }
unsigned long strtoul(const char*s,char**e,int b){ bool n,o; unsigned long long v=parseInt(s,e,b,n,o); if(o){ vf_errno=34; return ~0UL; } return n?-v:v; }
unsigned long long strtoull(const char*s,char**e,int b){ return strtoul(s,e,b); }

double vf_strtod(const char*,char**);
double strtod(const char*s,char**e){ char*q; double d=vf_strtod(s,&q); if(e) *e=q; if(vf_is_symbolic(d)) return d; const char*p=s; while(isspace((unsigned char)*p)) p++; if(*p=='-'||*p=='+') p++; double m=d<0?-d:d; if(m>1.7976931348623157e308){ if(!isalpha((unsigned char)*p)) vf_errno=34; } else if(m==0){ for(;p<q&&*p!='e'&&*p!='E';p++) if(*p>='1'&&*p<='9'){ vf_errno=34; break; } } else if(m<2.2250738585072014e-308) vf_errno=34; return d; }
int atoi(const char*s){ return (int)strtol(s,nullptr,10);} long atol(const char*s){ return strtol(s,nullptr,10);} 
int abs(int x){ return x<0?-x:x; } long labs(long x){ return x<0?-x:x; }
void vf_bind(){ }
int chdir(const char*p){ if(strcmp(p,".")==0||strcmp(p,"./")==0||strcmp(p,"/scratch")==0) return 0; vf_errno=2; return -1; } char* getcwd(char*b,size_t n){ strcpy(b,"/scratch"); return b; }
int remove(const char*n){ VfFile*f=vf_fs_find(n); if(!f) return -1; f->exists=false; return 0; } int unlink(const char*n){ return remove(n); }
int access(const char*n,int){ return vf_fs_find(n)?0:-1; }
struct tm* localtime(const time_t*){ static struct tm t; return &t; } struct tm* gmtime(const time_t*t){ return localtime(t);} size_t strftime(char*b,size_t n,const char*,const struct tm*){ strcpy(b,"2026-01-01"); return 10; } char* ctime(const time_t*){ return (char*)"Thu Jan  1 00:00:00 2026\n"; } char* asctime(const struct tm*){ return ctime(nullptr);} time_t mktime(struct tm*){ return 0; }
unsigned long pthread_self(void){ return 1; } int sched_yield(void){ return 0; }
int nanosleep(const struct timespec*,struct timespec*){ return 0; }
// OpenMP queries are answered by the engine
double difftime(time_t a,time_t b){ return (double)(a-b); }
int omp_get_num_procs(){ return 1; } double omp_get_wtime(){ return 0; }
// ---- BLAS / LAPACK reference semantics -------------------------------------------------
void cblas_dcopy(int n,const double*x,int ix,double*y,int iy){ for(int i=0;i<n;i++) y[i*iy]=x[i*ix]; }
void cblas_dscal(int n,double a,double*x,int ix){ for(int i=0;i<n;i++) x[i*ix]*=a; }
void cblas_daxpy(int n,double a,const double*x,int ix,double*y,int iy){ for(int i=0;i<n;i++) y[i*iy]+=a*x[i*ix]; }
double cblas_ddot(int n,const double*x,int ix,const double*y,int iy){ double s=0; for(int i=0;i<n;i++) s+=x[i*ix]*y[i*iy]; return s; }
double cblas_dnrm2(int n,const double*x,int ix){ double s=0; for(int i=0;i<n;i++) s+=x[i*ix]*x[i*ix]; return sqrt(s); }
double cblas_dasum(int n,const double*x,int ix){ double s=0; for(int i=0;i<n;i++) s+=x[i*ix]<0?-x[i*ix]:x[i*ix]; return s; }
void cblas_dgemv(int order,int trans,int m,int n,double alpha,const double*a,int lda,const double*x,int incx,double beta,double*y,int incy){ bool t=(trans!=111); bool col=(order==102); int rows=t?n:m,cols=t?m:n; for(int i=0;i<rows;i++){ double s=0; for(int j=0;j<cols;j++){ int r=t?j:i,c=t?i:j; s+=(col?a[r+c*lda]:a[r*lda+c])*x[j*incx]; } if(alpha!=1) s*=alpha; y[i*incy]= beta==0? s : s+beta*y[i*incy]; } }
void cblas_dgemm(int order,int ta,int tb,int m,int n,int k,double alpha,const double*a,int lda,const double*b,int ldb,double beta,double*c,int ldc){ bool col=order==102; for(int i=0;i<m;i++) for(int j=0;j<n;j++){ double s=0; for(int l=0;l<k;l++){ int ar=ta!=111?l:i,ac=ta!=111?i:l,br=tb!=111?j:l,bc=tb!=111?l:j; s+=(col?a[ar+ac*lda]:a[ar*lda+ac])*(col?b[br+bc*ldb]:b[br*ldb+bc]); } if(alpha!=1) s*=alpha; double*d=col?c+i+j*ldc:c+i*ldc+j; *d= beta==0? s : s+beta**d; } }
void cblas_dtrsv(int order,int uplo,int trans,int diag,int n,const double*a,int lda,double*x,int incx){ bool col=order==102; bool lower=uplo==122; bool t=trans!=111; bool unit=diag==132; auto A=[&](int i,int j){ int r=t?j:i,c=t?i:j; return col?a[r+c*lda]:a[r*lda+c]; }; if(lower!=t){ for(int i=0;i<n;i++){ double s=x[i*incx]; for(int j=0;j<i;j++) s-=A(i,j)*x[j*incx]; x[i*incx]=unit?s:s/A(i,i); } } else { for(int i=n-1;i>=0;i--){ double s=x[i*incx]; for(int j=i+1;j<n;j++) s-=A(i,j)*x[j*incx]; x[i*incx]=unit?s:s/A(i,i); } } }
void openblas_set_num_threads(int){}
void dpotrf_(const char*uplo,const int*n_,double*a,const int*lda_,int*info){ int n=*n_,lda=*lda_; bool L=*uplo=='L'||*uplo=='l'; auto at=[&](int i,int j)->double&{ return L? a[i+j*lda]:a[j+i*lda]; }; *info=0; for(int j=0;j<n;j++){ double s=at(j,j); for(int k=0;k<j;k++) s-=at(j,k)*at(j,k); if(!(s>0)){ at(j,j)=s; *info=j+1; return; } double d=sqrt(s); at(j,j)=d; for(int i=j+1;i<n;i++){ double t=at(i,j); for(int k=0;k<j;k++) t-=at(i,k)*at(j,k); at(i,j)=t/d; } } }
void dgetrf_(const int*m_,const int*n_,double*a,const int*lda_,int*ipiv,int*info){ int m=*m_,n=*n_,lda=*lda_; *info=0; int mn=m<n?m:n; for(int j=0;j<mn;j++){ int p=j; double best=fabs(a[j+j*lda]); for(int i=j+1;i<m;i++){ double v=fabs(a[i+j*lda]); if(v>best){ best=v; p=i; } } ipiv[j]=p+1; if(a[p+j*lda]!=0){ if(p!=j) for(int k=0;k<n;k++){ double t=a[j+k*lda]; a[j+k*lda]=a[p+k*lda]; a[p+k*lda]=t; } for(int i=j+1;i<m;i++) a[i+j*lda]/=a[j+j*lda]; } else if(*info==0) *info=j+1; for(int i=j+1;i<m;i++) for(int k=j+1;k<n;k++) a[i+k*lda]-=a[i+j*lda]*a[j+k*lda]; } }
void dgetrs_(const char*trans,const int*n_,const int*nrhs,const double*a,const int*lda_,const int*ipiv,double*b,const int*ldb,int*info){ int n=*n_,lda=*lda_; *info=0; bool t=*trans!='N'&&*trans!='n'; for(int r=0;r<*nrhs;r++){ double*x=b+r**ldb; if(!t){ for(int i=0;i<n;i++){ int p=ipiv[i]-1; if(p!=i){ double y=x[i]; x[i]=x[p]; x[p]=y; } } for(int i=0;i<n;i++) for(int j=0;j<i;j++) x[i]-=a[i+j*lda]*x[j]; for(int i=n-1;i>=0;i--){ for(int j=i+1;j<n;j++) x[i]-=a[i+j*lda]*x[j]; x[i]/=a[i+i*lda]; } } else { for(int i=0;i<n;i++){ for(int j=0;j<i;j++) x[i]-=a[j+i*lda]*x[j]; x[i]/=a[i+i*lda]; } for(int i=n-1;i>=0;i--) for(int j=i+1;j<n;j++) x[i]-=a[j+i*lda]*x[j]; for(int i=n-1;i>=0;i--){ int p=ipiv[i]-1; if(p!=i){ double y=x[i]; x[i]=x[p]; x[p]=y; } } } } }
void dgetri_(const int*n_,double*a,const int*lda_,const int*ipiv,double*work,const int*lwork,int*info){ int n=*n_,lda=*lda_; *info=0; if(*lwork==-1){ work[0]=n*64; return; } for(int i=0;i<n;i++) if(a[i+i*lda]==0){ *info=i+1; return; } std::vector<double> inv((size_t)n*n); std::vector<double> e(n); int one=1; for(int c=0;c<n;c++){ for(int i=0;i<n;i++) e[i]=i==c; int inf; const char N='N'; dgetrs_(&N,n_,&one,a,lda_,ipiv,e.data(),n_,&inf); for(int i=0;i<n;i++) inv[i+(size_t)c*n]=e[i]; } for(int i=0;i<n;i++) for(int j=0;j<n;j++) a[i+j*lda]=inv[i+(size_t)j*n]; }
void dgesv_(const int*n,const int*nrhs,double*a,const int*lda,int*ipiv,double*b,const int*ldb,int*info){ dgetrf_(n,n,a,lda,ipiv,info); if(*info==0){ const char N='N'; dgetrs_(&N,n,nrhs,a,lda,ipiv,b,ldb,info);} }
void dpotrs_(const char*uplo,const int*n,const int*nrhs,const double*a,const int*lda,double*b,const int*ldb,int*info){ *info=0; bool L=*uplo=='L'; for(int r=0;r<*nrhs;r++){ double*x=b+r**ldb; cblas_dtrsv(102,L?122:121,L?111:112,131,*n,a,*lda,x,1); cblas_dtrsv(102,L?122:121,L?112:111,131,*n,a,*lda,x,1); } }
}
// ---- model file system -------------------------------------------------------------------
static VfFile* vf_files[64]; static int vf_nfiles=0;
static std::string vf_norm(const char*n){ if(n[0]=='.'&&n[1]=='/') n+=2; if(strncmp(n,"/scratch/",9)==0) n+=9; return n; }
VfFile* vf_fs_find(const char*name){ std::string n=vf_norm(name); for(int i=0;i<vf_nfiles;i++) if(vf_files[i]->exists&&vf_files[i]->name==n) return vf_files[i]; return nullptr; }
VfFile* vf_fs_create(const char*name){ if(vf_nfiles>=64) abort(); VfFile*f=new VfFile; f->name=vf_norm(name); vf_files[vf_nfiles++]=f; return f; }
bool vf_fs_can_write(const char*name){ std::string n=vf_norm(name); return !n.empty()&&n.find('/')==std::string::npos; }
bool std::filesystem::vf_is_dir(const char*n){ return strcmp(n,".")==0||strcmp(n,"./")==0||strcmp(n,"/scratch")==0; }
bool std::filesystem::remove(const path&p){ return ::remove(p.c_str())==0; }
void vf_write_file(const std::string&n,const std::string&c){ VfFile*f=vf_fs_find(n.c_str()); if(!f) f=vf_fs_create(n.c_str()); f->data=c; }
bool vf_file_exists(const std::string&n){ return vf_fs_find(n.c_str())!=nullptr; }
std::string vf_read_file(const std::string&n){ VfFile*f=vf_fs_find(n.c_str()); return f?f->data:std::string(); }
void vf_remove_file(const std::string&n){ ::remove(n.c_str()); }
double (*vf_udf)(int,const double*)=nullptr;
#define VF_U(k) double constraintFunction##k(double*x){ return vf_udf?vf_udf(k,x):0.0; }
VF_U(0) VF_U(1) VF_U(2) VF_U(3) VF_U(4) VF_U(5) VF_U(6) VF_U(7) VF_U(8) VF_U(9) VF_U(10) VF_U(11) VF_U(12) VF_U(13) VF_U(14) VF_U(15) VF_U(16) VF_U(17) VF_U(18) VF_U(19) 
int (*vf_external_handler)(const char*)=nullptr;
int vf_run_external(const std::string&c){ return vf_external_handler? vf_external_handler(c.c_str()):0; }
extern "C" int system(const char*c){ int r=vf_run_external(c); return r<0?127<<8:r<<8; }
std::string vf_num(double v,int prec){ char b[64]; int n=vf_fmt_double(b,v,0,prec); return std::string(b,n); }
// ---- iostream objects --------------------------------------------------------------------
#define VF_I __attribute__((init_priority(101)))
namespace std { VF_I ostream cout; VF_I ostream cerr; VF_I ostream clog; VF_I istream cin; struct _VfStdInit{ _VfStdInit(){ cout._own._sink=cerr._own._sink=clog._own._sink=true; cout._own._open=cerr._own._open=clog._own._open=true; } }; __attribute__((init_priority(101))) static _VfStdInit _vfStdInit; }
// ---- libstdc++ out-of-line parts ---------------------------------------------------------
namespace std {
  exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
  bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
  bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
  bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
  bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
  bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
  bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
  __cow_string::__cow_string(){ _M_p=""; } __cow_string::__cow_string(const std::string&s){ _M_p=strdup(s.c_str()); } __cow_string::__cow_string(const char*s,size_t n){ _M_p=strdup(std::string(s,n).c_str()); } __cow_string::__cow_string(const __cow_string&o) noexcept { _M_p=o._M_p; } __cow_string& __cow_string::operator=(const __cow_string&o) noexcept { _M_p=o._M_p; return *this; } __cow_string::~__cow_string(){} __cow_string::__cow_string(__cow_string&&o) noexcept { _M_p=o._M_p; } __cow_string& __cow_string::operator=(__cow_string&&o) noexcept { _M_p=o._M_p; return *this; }
#define VF_EXC(B) B::B(const string&s):exception(),_M_msg(s){} B::B(const char*s):exception(),_M_msg(std::string(s)){} B::B(const B&o) noexcept:exception(o),_M_msg(o._M_msg){} B& B::operator=(const B&o) noexcept { _M_msg=o._M_msg; return *this; } B::B(B&&o) noexcept:_M_msg(o._M_msg){} B& B::operator=(B&&o) noexcept { _M_msg=o._M_msg; return *this; } B::~B() noexcept {} const char* B::what() const noexcept { return *(const char*const*)&_M_msg; }
  VF_EXC(logic_error) VF_EXC(runtime_error)
#define VF_EXC2(D,B) D::D(const string&s):B(s){} D::D(const char*s):B(s){} D::~D() noexcept {}
  VF_EXC2(domain_error,logic_error) VF_EXC2(invalid_argument,logic_error) VF_EXC2(length_error,logic_error) VF_EXC2(out_of_range,logic_error) VF_EXC2(range_error,runtime_error) VF_EXC2(overflow_error,runtime_error) VF_EXC2(underflow_error,runtime_error)
  void __throw_bad_alloc(){ throw bad_alloc(); } void __throw_bad_array_new_length(){ throw bad_array_new_length(); } void __throw_bad_cast(){ throw bad_cast(); } void __throw_bad_typeid(){ throw bad_typeid(); } void __throw_bad_function_call(){ throw bad_function_call(); } void __throw_bad_exception(){ throw bad_exception(); }
  void __throw_logic_error(const char*s){ throw logic_error(s); } void __throw_domain_error(const char*s){ throw domain_error(s); } void __throw_invalid_argument(const char*s){ throw invalid_argument(s); } void __throw_length_error(const char*s){ throw length_error(s); } void __throw_out_of_range(const char*s){ throw out_of_range(s); } void __throw_out_of_range_fmt(const char*s,...){ throw out_of_range(s); } void __throw_runtime_error(const char*s){ throw runtime_error(s); } void __throw_range_error(const char*s){ throw range_error(s); } void __throw_overflow_error(const char*s){ throw overflow_error(s); } void __throw_underflow_error(const char*s){ throw underflow_error(s); } void __throw_system_error(int){ throw runtime_error("system error"); }
  _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base*x) throw(){ if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; } else { auto*y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; } return x; }
  const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base*x) throw(){ return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
  _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base*x) throw(){ if(x->_M_color==_S_red&&x->_M_parent->_M_parent==x) x=x->_M_right; else if(x->_M_left){ auto*y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; } else { auto*y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; } return x; }
  const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base*x) throw(){ return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
  // plain binary search tree (no rebalancing): same contents and order
  void _Rb_tree_insert_and_rebalance(const bool left,_Rb_tree_node_base*x,_Rb_tree_node_base*p,_Rb_tree_node_base&h) throw(){ x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_black; if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; } else { p->_M_right=x; if(p==h._M_right) h._M_right=x; } }
  _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base*const z,_Rb_tree_node_base&h) throw(){ auto*&root=h._M_parent; auto*&lm=h._M_left; auto*&rm=h._M_right; auto*y=z; _Rb_tree_node_base*x=0,*xp=0; if(!y->_M_left) x=y->_M_right; else if(!y->_M_right) x=y->_M_left; else { y=y->_M_right; while(y->_M_left) y=y->_M_left; x=y->_M_right; } if(y!=z){ z->_M_left->_M_parent=y; y->_M_left=z->_M_left; if(y!=z->_M_right){ xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y; if(root==z) root=y; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y; y->_M_parent=z->_M_parent; y=z; } else { xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; if(root==z) root=x; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x; if(lm==z){ if(!z->_M_right) lm=z->_M_parent; else { auto*m=x; while(m->_M_left) m=m->_M_left; lm=m; } } if(rm==z){ if(!z->_M_left) rm=z->_M_parent; else { auto*m=x; while(m->_M_right) m=m->_M_right; rm=m; } } } return y; }
  namespace __detail { void _List_node_base::_M_hook(_List_node_base*p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; } void _List_node_base::_M_unhook() noexcept { auto*n=_M_next; auto*p=_M_prev; p->_M_next=n; n->_M_prev=p; } void _List_node_base::_M_transfer(_List_node_base*f,_List_node_base*l) noexcept { if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; auto*t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } } void _List_node_base::swap(_List_node_base&a,_List_node_base&b) noexcept { auto fix=[](_List_node_base&x,_List_node_base&ox){ if(x._M_next==&ox){ x._M_next=x._M_prev=&x; } else { x._M_next->_M_prev=&x; x._M_prev->_M_next=&x; } }; auto n=a._M_next,p=a._M_prev; a._M_next=b._M_next; a._M_prev=b._M_prev; b._M_next=n; b._M_prev=p; fix(a,b); fix(b,a); } void _List_node_base::_M_reverse() noexcept { auto*t=this; do{ auto*n=t->_M_next; t->_M_next=t->_M_prev; t->_M_prev=n; t=n; }while(t!=this); }
    size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t k=13; while(k<n) k=k*2+1; _M_next_resize=k; return k; } std::pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t b,size_t e,size_t i) const { if(e+i>b){ size_t n=_M_next_bkt(e+i); return {true,n}; } return {false,0}; } }
  size_t _Hash_bytes(const void*p,size_t n,size_t seed){ size_t h=seed; for(size_t i=0;i<n;i++) h=(h^((const unsigned char*)p)[i])*1099511628211ULL; return h; }
  namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration(1000000000)); } steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(1000000000)); } } }
  inline namespace _V2 { struct _VfCat : public error_category { const char*name()const noexcept override{return "generic";} string message(int)const override{return "error";} }; 
    error_category::~error_category() noexcept {} __cow_string error_category::_M_message(int)const{ return __cow_string(); } error_condition error_category::default_error_condition(int i)const noexcept{ return error_condition(i,*this);} bool error_category::equivalent(int i,const error_condition&c)const noexcept{ return c.value()==i;} bool error_category::equivalent(const error_code&c,int i)const noexcept{ return c.value()==i; }
    const error_category& generic_category() noexcept { static _VfCat c; return c; } const error_category& system_category() noexcept { static _VfCat c; return c; } }
  error_condition error_code::default_error_condition() const noexcept { return error_condition(value(),category()); }
  type_info::~type_info(){} bool type_info::__is_pointer_p()const{return false;} bool type_info::__is_function_p()const{return false;}
  const nothrow_t nothrow{};
}
