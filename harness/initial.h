#pragma once
#include "opt.h"
// initial history built from training data files: the objective file lists N samples, every constraint file the same samples
// in its own order, possibly without one of them
struct Initial { int N,d,nc; mat obj; std::vector<vec> con; std::vector<std::vector<bool>> has; bool gt[3]; double target[3]; Optimizer*O; };
static void initial(Initial&I,int Nmax,int dmax,int ncmax,int grid){
  int&N=I.N; N=vf_pick("N",2,Nmax); I.d=vf_pick("d",1,dmax); I.nc=vf_pick("nc",0,ncmax); int d=I.d; vec lb(d,0.0),ub(d,4.0); static const double P[3][2]={{0.5,1.25},{3,0.25},{1.75,3.5}}; I.obj=mat(N,d+1); for(int i=0;i<N;i++) for(int j=0;j<=d;j++) I.obj(i,j)=j<d?P[i][j]:vf_range("f",-50,50); vf_write_file("objective.csv",csv(I.obj));
  for(int k=0;k<I.nc;k++){ int perm=vf_pick("order",0,N-1),miss=vf_pick("missing",-1,N-1); I.gt[k]=vf_flag("gt"); I.target[k]=vf_range("target",-20,20); vec c(N); std::vector<bool> h(N,true); for(int i=0;i<N;i++) c(i)=vf_range("c",-20,20); mat m(N-(miss>=0),d+1); int r=0; for(int q=0;q<N;q++){ int i=N-1-(q+perm)%N; if(i==miss){ h[i]=false; continue; } for(int j=0;j<d;j++) m(r,j)=P[i][j]; m(r,d)=c(i); r++; } vf_write_file("constraint"+std::to_string(k)+".csv",csv(m)); I.con.push_back(c); I.has.push_back(h); }
  Bounds b(lb,ub); I.O=new Optimizer; vf_study(*I.O,d,b,I.nc,I.gt,I.target); I.O->initializeSurrogates(); I.O->initializeOptimizationHistory();
}
static bool feasible(const Initial&I,int i){ bool e=true; for(int k=0;k<I.nc;k++) e=e&I.has[k][i]&(I.gt[k]?I.con[k](i)>I.target[k]:I.con[k](i)<I.target[k]); return e; }
