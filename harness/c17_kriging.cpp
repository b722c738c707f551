// C17: Kriging predictor
#include "data.h"
#include "SurrogateModels/INCLUDE/kriging_training.hpp"
static void model(KrigingModel&K,const mat&raw,int d,const vec&lb,const vec&ub){ vf_write_file("train.csv",csv(raw)); K.setDimension(d); K.setNameOfInputFile("train.csv"); K.setBoxConstraints(Bounds(lb,ub)); K.readData(); K.normalizeData(); }
// solves the n x n system by Gaussian elimination (positive definite matrices)
static vec gauss(mat A,vec b,int n){ for(int k=0;k<n;k++) for(int i=k+1;i<n;i++){ double f=A(i,k)/A(k,k); for(int j=k;j<n;j++) A(i,j)=A(i,j)-f*A(k,j); b(i)=b(i)-f*b(k); } vec x(n); for(int i=n-1;i>=0;i--){ double s=b(i); for(int j=i+1;j<n;j++) s-=A(i,j)*x(j); x(i)=s/A(i,i); } return x; }
static double kern(const vec&a,const vec&b,const vec&h,int d){ double s=0; for(int i=0;i<d;i++) s+=h(i)*std::pow(vf_absd(a(i)-b(i)),h(d+i)); return std::exp(-s); }
// @entry c17_grid prop=C17 mode=real time=150 qtime=20000
// @bounds 1..3 samples of 1..2 parameters at distinct grid points, three hyperparameter vectors, epsilon 0 or 0.01, with and without linear regression, every output in [-20,20] (variance of three samples: one free output); predictions at the training points and at grid points
VF_HARNESS(c17_grid){
  int d=vf_pick("d",1,2),n=vf_pick("n",1,3); vec lb(d,0.0),ub(d,4.0); mat raw(n,d+1); static const int P[3][2]={{0,1},{3,0},{1,4}}; 
#ifdef VF_DEEP
  int sh=vf_pick("shift",0,1);
#else
  int sh=0;
#endif
  for(int i=0;i<n;i++){ for(int j=0;j<d;j++) raw(i,j)=P[i][j]*(sh?0.5:1.0); raw(i,d)=vf_range("y",-20,20); }
  bool reg=vf_flag("regression"); KrigingModel K; int hk=vf_pick("h",0,2); bool var=vf_flag("variance"); if(var&&n==3){ raw(1,d)=2; raw(2,d)=-3; } K.ifUseAverageBeta0=hk==0&&!reg&&vf_flag("avg"); if(reg) K.setLinearRegressionOn(); model(K,raw,d,lb,ub); double eps=hk!=1&&vf_flag("eps")?0.01:0.0; K.setEpsilon(eps); K.initializeSurrogateModel(); vec h(2*d); for(int i=0;i<d;i++){ h(i)=hk==0?1.0:hk==1?8.0:0.5+i; h(d+i)=hk==0?2.0:hk==1?1.0:1.5; } K.setHyperParameters(h); K.updateAuxilliaryFields(); CHECK(K.getHyperParameters()(0)==h(0));
  mat R=K.getCorrelationMatrix(); vec X[3]; for(int i=0;i<n;i++){ X[i]=vec(d); for(int j=0;j<d;j++) X[i](j)=norm1(raw(i,j),0,4,d); } mat O(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ O(i,j)=i==j?1+eps:kern(X[i],X[j],h,d); CLOSE(R(i,j),O(i,j),1e-9); }
  vec w; if(reg) w=K.getRegressionWeights(); auto lin=[&](const vec&x){ if(!reg) return 0.0; double e=w(0); for(int j=0;j<d;j++) e+=w(j+1)*x(j); return e; }; vec y(n),one(n,1.0); for(int i=0;i<n;i++) y(i)=raw(i,d)-lin(X[i]); vec r1=gauss(O,one,n),ry=gauss(O,y,n); double s1=0,sy=0,sm=0; for(int i=0;i<n;i++){ s1+=r1(i); sy+=ry(i); sm+=y(i); } double b0=K.ifUseAverageBeta0?sm/n:sy/s1; vec yb(n); for(int i=0;i<n;i++) yb(i)=y(i)-b0; vec a=gauss(O,yb,n); double s2=0; for(int i=0;i<n;i++) s2+=yb(i)*a(i); s2/=n;
  for(int t=0;t<n+2;t++){ vec x(d); if(t<n) x=X[t]; else for(int j=0;j<d;j++) x(j)=norm1(t==n?2.0+j:1.25,0,4,d); vec r(n); for(int i=0;i<n;i++) r(i)=kern(x,X[i],h,d); double f=b0+lin(x); for(int i=0;i<n;i++) f+=r(i)*a(i); double g=K.interpolate(x),m=0,v=0; CHECKM(vf_close(g,f,1e-6),"prediction is beta0 + r' R^-1 (y-beta0)"); if(t<n&&eps==0) CHECKM(vf_close(g,raw(t,d),1e-6),"training points are reproduced"); if(!var) continue; K.interpolateWithVariance(x,&m,&v); CHECKM(vf_close(m,g,1e-6),"both predictors give the same mean"); vec q=gauss(O,r,n); double rr=0,r0=0; for(int i=0;i<n;i++){ rr+=r(i)*q(i); r0+=r(i)*r1(i); } double fac=1-rr+(1-r0)*(1-r0)/s1; if(t==n||t==0){ CHECKM(vf_close(v,s2*fac,1e-4),"variance formula"); } CHECKM(v>=-1e-6,"variance is not negative"); if(t<n&&eps==0) CHECKM(vf_close(v,0,1e-5),"no variance at training points"); }
  mat Q(2,d); for(int j=0;j<d;j++){ Q(0,j)=X[0](j); Q(1,j)=0.3/d; } vec I=K.interpolateVector(Q); CHECK(I.getSize()==2); for(int t=0;t<2;t++) CLOSE(I(t),K.interpolate(Q.getRow(t)),1e-9); vf_observe("b0",b0); vf_reach("end");
}
// @entry c17_two prop=C17 mode=real time=150 qtime=30000
// @bounds 1..2 samples of one parameter at every pair of points at least 0.05 apart in [0,1], theta in [0.5,20], gamma 2, every output in [-10,10] predictions at every point of [0,1] (sign of the variance away from the samples: one sample here, grid points in c17_grid)
VF_HARNESS(c17_two){
  int n=vf_pick("n",1,2); vec lb(1,0.0),ub(1,1.0); mat raw(n,2); for(int i=0;i<n;i++){ raw(i,0)=vf_range("x",0,1); raw(i,1)=vf_range("y",-10,10); } if(n==2) vf_assume(vf_absd(raw(0,0)-raw(1,0))>=0.05); KrigingModel K; model(K,raw,1,lb,ub); K.setEpsilon(0); K.initializeSurrogateModel(); vec h(2); h(0)=vf_range("th",0.5,20); h(1)=2.0; K.setHyperParameters(h); K.updateAuxilliaryFields();
  for(int i=0;i<n;i++){ vec x(1); x(0)=raw(i,0); double m,v; CHECKM(vf_close(K.interpolate(x),raw(i,1),1e-5),"training points are reproduced"); K.interpolateWithVariance(x,&m,&v); CHECKM(vf_close(v,0,1e-5),"no variance at training points"); }
  vec x(1); x(0)=vf_range("p",0,1); double m,v; K.interpolateWithVariance(x,&m,&v); if(n==1){ CHECKM(v>=-1e-6,"variance is not negative"); } CHECKM(vf_close(m,K.interpolate(x),1e-9),"both predictors give the same mean"); if(n==2) vf_reach("two"); vf_reach("end");
}
// @entry c17_likelihood prop=C17 mode=real time=100 qtime=20000
// @bounds 2..3 samples of one parameter on a grid, two hyperparameter vectors, every output in [-20,20]; duplicated samples for failing factorizations
VF_HARNESS(c17_likelihood){
  int n=vf_pick("n",2,3); bool dup=vf_flag("dup"); vec lb(1,0.0),ub(1,4.0); mat raw(n,2); for(int i=0;i<n;i++){ raw(i,0)=dup?1.0:i==0?0.0:i==1?3.0:1.0; raw(i,1)=vf_range("y",-20,20); } KrigingModel K; vec h(2); h(0)=vf_flag("h")?5.0:1.0; h(1)=2.0; THROWS(K.calculateLikelihoodFunction(h)); THROWS(K.updateAuxilliaryFields()); THROWS(K.initializeSurrogateModel()); THROWS(K.train()); model(K,raw,1,lb,ub); K.setEpsilon(0); K.initializeSurrogateModel(); THROWS(K.setHyperParameters(vec(3))); double L=K.calculateLikelihoodFunction(h);
  if(dup){ CHECKM(L==-std::numeric_limits<double>::max(),"a correlation matrix that cannot be factorized has the lowest likelihood"); vf_reach("singular"); return; }
  mat O(n,n); vec X[3]; for(int i=0;i<n;i++){ X[i]=vec(1); X[i](0)=raw(i,0)/4; } for(int i=0;i<n;i++) for(int j=0;j<n;j++) O(i,j)=i==j?1.0:kern(X[i],X[j],h,1); vec y(n),one(n,1.0); for(int i=0;i<n;i++) y(i)=raw(i,1); vec r1=gauss(O,one,n),ry=gauss(O,y,n); double s1=0,sy=0; for(int i=0;i<n;i++){ s1+=r1(i); sy+=ry(i); } double b0=sy/s1; vec yb(n); for(int i=0;i<n;i++) yb(i)=y(i)-b0; vec a=gauss(O,yb,n); double s2=0; for(int i=0;i<n;i++) s2+=yb(i)*a(i); s2/=n; double det=n==2?1-O(0,1)*O(0,1):1+2*O(0,1)*O(0,2)*O(1,2)-O(0,1)*O(0,1)-O(0,2)*O(0,2)-O(1,2)*O(1,2);
  vf_assume(s2>=0.01); vf_assume(L>-1e300); CHECKM(vf_close(K.sigmaSquared,s2,1e-6),"sigma squared"); CHECKM(vf_close(L,-0.5*n*std::log(K.sigmaSquared)-0.5*std::log(det),1e-5),"concentrated log-likelihood"); vf_reach("end");
}
// @entry c17_validation prop=C17 mode=real time=100 qtime=20000
// @bounds 3 samples of one parameter of which two coincide or none, one held back for validation, every outcome of the shuffle, every output in [-20,20]
VF_HARNESS(c17_validation){
  bool dup=vf_flag("dup"); vec lb(1,0.0),ub(1,4.0); mat raw(3,2); for(int i=0;i<3;i++){ raw(i,0)=dup?1.0:i==0?0.0:i==1?3.0:1.0; raw(i,1)=vf_range("y",-20,20); } KrigingModel K; K.setRatioValidationSamples(0.34); model(K,raw,1,lb,ub); K.setEpsilon(0); K.initializeSurrogateModel(); vec h(2); h(0)=2; h(1)=2; double e=K.calculateValidationErrorForGivenHyperparameters(h);
  if(dup){ CHECKM(e>=1e30,"hyperparameters whose correlation matrix cannot be factorized are never preferred"); vf_reach("singular"); return; } SurrogateModelData D=K.getData(); mat XV=D.getInputMatrixValidation(); vec yv=D.getOutputVectorValidation(); CHECK(XV.getNRows()==1); CHECKM(vf_close(e,vf_absd(K.interpolate(XV.getRow(0))-yv(0)),1e-6),"validation error is the mean absolute residual of the validation samples"); vf_reach("end");
}
