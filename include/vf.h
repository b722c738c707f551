// Harness interface.  The same harness is (a) executed symbolically by rsym and (b) compiled natively
// against the real sources to replay a counterexample.
#pragma once
#ifdef __cplusplus
#include <string>
extern "C" {
#endif
double vf_double(const char*name);              // arbitrary double (finite real in real mode)
int    vf_int(const char*name,int lo,int hi);   // arbitrary integer in [lo,hi]
int    vf_concrete(int v);                      // fork over all values of v
void   vf_assume(bool c);
void   vf_assert(bool c,const char*msg);
void   vf_reach(const char*label);              // reachability witness
void   vf_observe(const char*name,double v);    // differential check engine <-> native
void   vf_end(void);
int    vf_is_symbolic(double);
int    vf_is_engine(void);
int    vf_mode_real(void);
int    vf_fmt_double(char*buf,double v,int fmt,int prec);
void   vf_debug(const char*,...);
// harnesses in which the draws do not matter set this: draws then follow a fixed low-discrepancy sequence instead of being arbitrary
extern int vf_random_fixed;
// harnesses of code which draws until a condition holds limit the number of draws of real numbers
extern int vf_random_limit;
// parallel regions use up to this many threads (1 if not called); interleavings are decided by the inputs named "schedule"
void vf_set_threads(int n);
void vf_draw(void); double vf_next_fraction(void);
#ifdef __cplusplus
}
// files of the modelled file system (native: files in the scratch directory)
void vf_write_file(const std::string&name,const std::string&content);
bool vf_file_exists(const std::string&name);
std::string vf_read_file(const std::string&name);
void vf_remove_file(const std::string&name);
// external program runs: the harness may install a handler (returns the exit code; <0: cannot be started)
extern int (*vf_external_handler)(const char*command);
// user-supplied constraint functions constraintFunction<k>(double*)
extern double (*vf_udf)(int k,const double*x);
// text of a double as the standard library would write it with the given precision (general format)
std::string vf_num(double v,int prec=17);
inline double vf_range(const char*n,double lo,double hi){ double x=vf_double(n); vf_assume(x>=lo); vf_assume(x<=hi); return x; }
inline int vf_pick(const char*n,int lo,int hi){ return vf_concrete(vf_int(n,lo,hi)); }
inline bool vf_flag(const char*n){ return vf_pick(n,0,1)!=0; }
inline double vf_min(double a,double b){ return a<b?a:b; }
inline double vf_max(double a,double b){ return a>b?a:b; }
inline double vf_absd(double x){ return x<0?-x:x; }
inline bool vf_close(double a,double b,double tol){ double d=a-b; return (d<=tol) & (d>=-tol); }
inline bool vf_same(double a,double b){ return a==b; }
#define VF_HARNESS(name) extern "C" void name(void)
#endif
