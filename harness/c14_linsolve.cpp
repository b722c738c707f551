// C14: linear solvers
#include "common.h"
#include "LinearAlgebra/INCLUDE/linear_solver.hpp"
#ifdef VF_DEEP
#define D 3
#else
#define D 2
#endif
static double det(const mat&a,int n){ if(n==1) return a(0,0); if(n==2) return a(0,0)*a(1,1)-a(0,1)*a(1,0); return a(0,0)*(a(1,1)*a(2,2)-a(1,2)*a(2,1))-a(0,1)*(a(1,0)*a(2,2)-a(1,2)*a(2,0))+a(0,2)*(a(1,0)*a(2,1)-a(1,1)*a(2,0)); }
static double minor_(const mat&a,int k){ return det(a,k); }
static mat symm(int n){ mat a(n,n); for(int i=0;i<n;i++) for(int j=0;j<=i;j++){ double x=vf_range("a",-10,10); a(i,j)=x; a(j,i)=x; } return a; }
static void residual(const mat&a,const vec&x,const vec&b,int n){ CHECK(x.getSize()==(unsigned)n); for(int i=0;i<n;i++){ double s=0; for(int j=0;j<n;j++) s+=a(i,j)*x(j); CLOSE(s,b(i),1e-5); } }
// @entry c14_cholesky prop=C14 mode=real time=120 qtime=20000
// @bounds symmetric 1x1..2x2 (3x3 thorough), entries in [-10,10], leading minors >= 0.1 (accepted) or some leading minor <= 0 (rejected); exact real arithmetic
VF_HARNESS(c14_cholesky){
  int n=vf_pick("n",1,D); mat a=symm(n); bool pd=true,notpd=false; for(int k=1;k<=n;k++){ double m=minor_(a,k); pd=pd&(m>=0.1); notpd=notpd|(m<=0); } vf_assume(pd|notpd);
  CholeskySystem s(n); s.setMatrix(a); CHECK(!s.isFactorizationDone()); s.factorize(); CHECKM(s.isFactorizationDone()==pd,"factorization succeeds exactly for positive definite matrices"); int ret=7; mat l=a.cholesky(ret); CHECKM((ret==1)==pd,"cholesky status"); if(notpd){ CHECKM(ret==-1,"failure is reported as -1"); vf_reach("rejected"); return; }
  mat f=s.getFactorizedMatrix(); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ double p=0,q=0; for(int k=0;k<n;k++){ p+=l(i,k)*l(j,k); q+=f(i,k)*f(j,k); } CLOSE(p,a(i,j),1e-6); CLOSE(q,a(i,j),1e-6); if(j>i){ CHECKM(l(i,j)==0,"factor is lower triangular"); CHECKM(f(i,j)==0,"factor is lower triangular"); } } for(int i=0;i<n;i++) CHECKM(l(i,i)>0,"positive diagonal");
  CLOSE(s.calculateDeterminant(),det(a,n),1e-4); double ld=0; for(int i=0;i<n;i++) ld+=2*std::log(f(i,i)); CLOSE(s.calculateLogDeterminant(),ld,1e-8); CHECK(s.getDimension()==(unsigned)n); CHECK(s.checkDimension(n)); mat g=s.getMatrix(); for(int i=0;i<n;i++) for(int j=0;j<n;j++) CHECK(g(i,j)==a(i,j)); vf_observe("det",s.calculateDeterminant()); vf_reach("factored");
}
// @entry c14_cholsolve prop=C14 mode=real time=120 qtime=20000
// @bounds lower-triangular factor of size 1..2 (3 thorough), entries in [-10,10], diagonal in [0.3,10], any right-hand side in [-10,10]^n
VF_HARNESS(c14_cholsolve){
  int n=vf_pick("n",1,D); mat l(n,n); for(int i=0;i<n;i++) for(int j=0;j<=i;j++) l(i,j)=i==j?vf_range("ld",0.3,10):vf_range("lo",-10,10); vec b=vf_vec(n,"b",-10,10); mat a(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ double s=0; for(int k=0;k<n;k++) s+=l(i,k)*l(j,k); a(i,j)=s; }
  bool naive=vf_flag("naive"); vec x=naive?l.solveCholeskyNaive(b):l.solveCholesky(b); residual(a,x,b,n); THROWS(l.solveCholesky(vec(n+1))); vf_reach("solved"); vf_observe("x0",x(0));
}
// @entry c14_cholsystem prop=C14 mode=real time=120 qtime=20000
// @bounds SPD matrices of size 1..2, minors >= 0.1, entries in [-10,10]; factorize and solve, then replace the matrix and solve again
VF_HARNESS(c14_cholsystem){
  int n=vf_pick("n",1,2); mat a=symm(n),c(n,n); for(int k=1;k<=n;k++) vf_assume(minor_(a,k)>=0.1); for(int i=0;i<n;i++) c(i,i)=vf_range("c",0.5,5); vec b=vf_vec(n,"b",-10,10);
  CholeskySystem s(n); s.setMatrix(a); s.factorize(); CHECK(s.isFactorizationDone()); residual(a,s.solveLinearSystem(b),b,n); s.setMatrix(c); CHECKM(!s.isFactorizationDone(),"replacing the matrix invalidates the factorization"); s.factorize(); residual(c,s.solveLinearSystem(b),b,n); mat bad(n,n,-1.0); s.setMatrix(bad); s.factorize(); CHECKM(!s.isFactorizationDone(),"a failed factorization is not usable"); CholeskySystem t(3); t.setDimension(n); CHECK(t.getDimension()==(unsigned)n); vf_reach("end");
}
// @entry c14_lu prop=C14 mode=real time=150 qtime=20000
// @bounds square 1x1..2x2 (3x3 thorough), entries in [-10,10], |det| >= 0.1 or det = 0; exact real arithmetic
VF_HARNESS(c14_lu){
  int n=vf_pick("n",1,D); int how=vf_pick("how",0,3); mat a=vf_mat(n,n,"a",-10,10); vec b=vf_vec(n,"b",-10,10); double d=det(a,n); bool reg=vf_absd(d)>=0.1; vf_assume(reg|(d==0));
  vec x; bool ok=false; if(how==0){ LUSystem s(n); s.setMatrix(a); CHECK(!s.isFactorizationDone()); s.factorize(); ok=s.isFactorizationDone(); if(ok) x=s.solveLinearSystem(b); THROWS(s.solveLinearSystem(vec(n+1))); } else if(how==1){ ok=!vf_throws([&]{ x=a.solve(b); }); THROWS(a.solve(vec(n+1))); } else if(how==2){ std::vector<int> p(n); int r=5; mat l=a.lu(p.data(),r); ok=r==1; if(!ok) CHECK(r==-1); else x=l.solveLU(p.data(),b); } else { std::vector<int> p(n); int r=5; mat l=a.luNaive(p.data(),r); ok=r==1; if(!ok) CHECK(r==-1); else x=l.solveLUNaive(p.data(),b); }
  CHECKM(ok==reg,"solvable exactly when regular"); if(!ok){ vf_reach("singular"); return; } vf_reach("regular"); residual(a,x,b,n); vf_observe("x0",x(0));
}
// @entry c14_invert prop=C14 mode=real time=150 qtime=20000
// @bounds square 1x1..2x2 (3x3 thorough), entries in [-10,10], |det| >= 0.1 or det = 0; exact real arithmetic
VF_HARNESS(c14_invert){
  int n=vf_pick("n",1,D); bool naive=vf_flag("naive"); mat a=vf_mat(n,n,"a",-10,10); double d=det(a,n); bool reg=vf_absd(d)>=0.1; vf_assume(reg|(d==0)); mat v; bool t=vf_throws([&]{ v=naive?a.invertNaive():a.invert(); }); CHECKM(t==!reg,"invertible exactly when regular"); if(t){ vf_reach("singular"); return; } vf_reach("regular"); CHECK(v.getNRows()==(unsigned)n&&v.getNCols()==(unsigned)n); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ double s=0; for(int k=0;k<n;k++) s+=a(i,k)*v(k,j); CLOSE(s,(i==j?1.0:0.0),1e-6); }
  THROWS(mat(n,n+1).invert());
}
// @entry c14_shapes prop=C14 mode=real time=60
// @bounds shapes 0..3 x 0..3
VF_HARNESS(c14_shapes){
  int r=vf_pick("r",0,3),c=vf_pick("c",0,3),k=vf_pick("k",0,3); mat m(r,c); for(int i=0;i<r&&i<c;i++) m(i,i)=2; int ret; std::vector<int> p(4); vec x; if(r!=c){ THROWS(m.cholesky(ret)); THROWS(m.lu(p.data(),ret)); THROWS(m.invert()); THROWS(m.invertNaive()); THROWS(m.solve(vec(r))); THROWS(m.solveCholesky(vec(r))); vf_reach("nonsquare"); } else if(r>0&&k!=r){ THROWS(m.solve(vec(k))); THROWS(m.solveCholesky(vec(k))); THROWS(m.solveLU(p.data(),vec(k))); THROWS(m.solveLUNaive(p.data(),vec(k))); vf_reach("rhs"); } THROWS(LUSystem(0)); LUSystem s(2); THROWS(s.setDimension(0)); CHECK(s.checkDimension(2)); CHECK(!s.checkDimension(3)); CHECK(s.getDimension()==2);
}
