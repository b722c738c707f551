// C03: discrete parameters are rounded to the nearest grid value
#include "opt.h"
static Optimizer* opt(int d,const vec&lb,const vec&ub){ Optimizer*O=new Optimizer; Bounds b(lb,ub); bool gt[1]; double t[1]; vf_study(*O,d,b,0,gt,t); return O; }
static void nearest(double v,double x,double lb,double dx,int K,double tol){ bool grid=false; for(int k=0;k<=K;k++){ grid=grid|vf_close(v,lb+k*dx,tol); CHECKM(vf_absd(v-x)<=vf_absd(lb+k*dx-x)+tol,"no grid value is nearer"); } CHECKM(grid,"a grid value"); }
// @entry c03_nearest prop=C03 mode=real time=100
// @bounds one discrete parameter, 1..6 grid values, lower bound in [-5,5], increment in [0.1,2], every rest above the top grid value, proposed value anywhere in the box
VF_HARNESS(c03_nearest){
  int K=vf_pick("K",0,5); double l=vf_range("lb",-5,5),dx=vf_range("dx",0.1,2),r=vf_range("rest",0,2); vf_assume(r<=dx*0.999); vf_assume(K>0||r>=0.01); vec lb(1,l),ub(1); ub(0)=l+K*dx+r; Optimizer*O=opt(1,lb,ub); O->setParameterToDiscrete(0,dx); vec x(1); x(0)=vf_double("x"); vf_assume(x(0)>=lb(0)); vf_assume(x(0)<=ub(0)); double x0=x(0); O->roundDiscreteParameters(x); nearest(x(0),x0,l,dx,K,1e-9); CHECKM(x(0)<=ub(0)+1e-9&&x(0)>=lb(0)-1e-9,"inside the box"); vf_reach("end");
}
// @entry c03_top prop=C03 mode=real time=100
// @bounds grids of 2..6 values whose top value is the upper bound up to a relative rounding error of 1e-13, lower bound 0, -1 or 0.1, increment in [0.1,2]
VF_HARNESS(c03_top){
  int K=vf_pick("K",1,5),a=vf_pick("lb",0,2); double l=a==0?0.0:a==1?-1.0:0.1,dx=vf_range("dx",0.1,2),e=vf_range("e",-1e-13,1e-13); vec lb(1,l),ub(1); ub(0)=l+K*dx*(1+e); Optimizer*O=opt(1,lb,ub); O->setParameterToDiscrete(0,dx); vec x(1); x(0)=vf_double("x"); vf_assume(x(0)>=lb(0)); vf_assume(x(0)<=ub(0)); double x0=x(0); O->roundDiscreteParameters(x); nearest(x(0),x0,l,dx,K,1e-9); vf_reach("end");
}
// @entry c03_others prop=C03 mode=real time=100
// @bounds 2..3 parameters, each discrete or not (declared in any order), proposed values anywhere in the box
VF_HARNESS(c03_others){
  int d=vf_pick("d",2,3); vec lb(d),ub(d),dx(d); const double L[3]={-1,0,2},U[3]={1.25,3,4},D[3]={0.5,1,0.75}; int K[3]={4,3,2}; bool disc[3]; for(int i=0;i<d;i++){ lb(i)=L[i]; ub(i)=U[i]; disc[i]=vf_flag("discrete"); } Optimizer*O=opt(d,lb,ub); if(vf_flag("reverse")){ for(int i=d-1;i>=0;i--) if(disc[i]) O->setParameterToDiscrete(i,D[i]); } else for(int i=0;i<d;i++) if(disc[i]) O->setParameterToDiscrete(i,D[i]); vec x(d),x0; for(int i=0;i<d;i++){ x(i)=vf_double("x"); vf_assume(x(i)>=L[i]); vf_assume(x(i)<=U[i]); } x0=x; O->roundDiscreteParameters(x); for(int i=0;i<d;i++) if(disc[i]) nearest(x(i),x0(i),L[i],D[i],K[i],1e-9); else CHECKM(vf_same(x(i),x0(i)),"continuous parameters keep their value"); vf_reach("end");
}
