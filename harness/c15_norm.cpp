// C15: normalization
#include "data.h"
#include "SurrogateModels/INCLUDE/surrogate_model_data.hpp"
#ifdef VF_DEEP
#define MD 3
#define MN 3
#else
#define MD 2
#define MN 2
#endif
// @entry c15_vector prop=C15 mode=real time=60 qtime=15000
// @bounds vectors of 1..4 entries in [-50,50], bounds in [-10,10] with widths >= 0.01
VF_HARNESS(c15_vector){
  int d=vf_pick("d",1,4); vec lb,ub; vf_box(lb,ub,d,-10,10,0.01); vec x=vf_vec(d,"x",-50,50); vec n=x.normalizeVector(lb,ub),nf=x.normalizeVectorFast(lb,ub-lb); CHECK(n.getSize()==(unsigned)d);
  for(int i=0;i<d;i++){ CHECKM(vf_close(n(i)*d*(ub(i)-lb(i)),x(i)-lb(i),1e-9),"affine map of each parameter"); CLOSE(nf(i),n(i),1e-9); }
  vec b=n.denormalizeVector(lb,ub),bf=n.denormalizeVectorFast(lb,ub-lb); CHECK(b.getSize()==(unsigned)d); for(int i=0;i<d;i++){ CHECKM(vf_close(b(i),x(i),1e-7),"denormalizing undoes normalizing"); CHECKM(vf_close(bf(i),x(i),1e-7),"denormalizing (fast) undoes normalizing"); }
  vec l=lb.normalizeVector(lb,ub),u=ub.normalizeVector(lb,ub); for(int i=0;i<d;i++){ CHECKM(vf_close(l(i),0,1e-12),"lower bound goes to 0"); CHECKM(vf_close(u(i),1.0/d,1e-12),"upper bound goes to 1/dimension"); }
  for(int i=0;i<d;i++){ bool in=(x(i)>=lb(i))&(x(i)<=ub(i)); CHECKM(in==((n(i)>=0)&(n(i)<=1.0/d))||vf_close(x(i),ub(i),1e-6),"inside stays inside"); }
  vec s=x.normalizeVector(lb(0),ub(0)); for(int i=0;i<d;i++) CHECKM(vf_close(s(i)*d*(ub(0)-lb(0)),x(i)-lb(0),1e-9),"scalar bounds"); vf_observe("n0",n(0)); vf_reach("end");
}
// @entry c15_matrix prop=C15 mode=real time=60 qtime=15000
// @bounds 0..3 rows, 1..3 columns, entries in [-50,50], bounds in [-10,10] with widths >= 0.01; invalid bound vectors
VF_HARNESS(c15_matrix){
  int r=vf_pick("r",1,3),d=vf_pick("d",1,3); vec lb,ub; vf_box(lb,ub,d,-10,10,0.01); mat m=vf_mat(r,d,"m",-50,50); mat n=m.normalizeMatrix(lb,ub); CHECK(n.getNRows()==(unsigned)r&&n.getNCols()==(unsigned)d);
  for(int i=0;i<r;i++){ vec v=m.getRow(i).normalizeVector(lb,ub); for(int j=0;j<d;j++){ CLOSE(n(i,j),v(j),1e-9); CHECKM(vf_close(n(i,j)*d*(ub(j)-lb(j)),m(i,j)-lb(j),1e-9),"affine map of each parameter"); } }
  mat q=m.normalizeMatrix(lb(0),ub(0)); for(int i=0;i<r;i++) for(int j=0;j<d;j++) CHECKM(vf_close(q(i,j)*d*(ub(0)-lb(0)),m(i,j)-lb(0),1e-9),"scalar bounds");
  THROWS(m.normalizeMatrix(ub,lb)); THROWS(m.normalizeMatrix(lb,lb)); THROWS(m.normalizeMatrix(ub(0),lb(0))); vec l1(lb); l1.push_back(0); vec u1(ub); u1.push_back(1); THROWS(m.normalizeMatrix(l1,ub)); THROWS(m.normalizeMatrix(l1,u1)); vf_observe("n",n(0,0)); vf_reach("end");
}
// @entry c15_data prop=C15,C28 mode=real time=100 qtime=15000
// @bounds 1..2 (3) samples, 1..2 (3) parameters, plain / gradient / directional data, 0..2 test samples (with and without outputs), values in [-20,20], bounds in [-10,10] with widths >= 0.1 (equal widths for directional data)
VF_HARNESS(c15_data){
  int k=vf_pick("kind",0,2),d=vf_pick("d",1,MD),n=vf_pick("n",1,MN); vec lb,ub; vf_box(lb,ub,d,-10,10,0.1); if(k==2) for(int i=1;i<d;i++) ub(i)=lb(i)+(ub(0)-lb(0)); int c=k==0?d+1:k==1?2*d+1:2*d+2; mat raw=vf_mat(n,c,"s",-20,20); vf_write_file("train.csv",csv(raw)); Bounds box(lb,ub);
  SurrogateModelData D; D.setDimension(d); D.setBoxConstraints(box); if(k==1) D.setGradientsOn(); if(k==2) D.setDirectionalDerivativesOn(); D.readData("train.csv"); CHECK(D.getNumberOfSamples()==(unsigned)n); CHECK(D.getDimension()==(unsigned)d); D.normalize(); CHECK(D.isDataNormalized()); mat X=D.getInputMatrix(); vec y=D.getOutputVector(); CHECK(X.getNRows()==(unsigned)n&&X.getNCols()==(unsigned)d&&y.getSize()==(unsigned)n);
  for(int i=0;i<n;i++){ CHECKM(y(i)==raw(i,d),"output of its sample"); vec xr=D.getRowXRaw(i),xn=D.getRowX(i); for(int j=0;j<d;j++){ CHECKM(xr(j)==raw(i,j),"raw inputs kept"); CHECKM(xn(j)==X(i,j),"row access"); CHECKM(vf_close(X(i,j)*d*(ub(j)-lb(j)),raw(i,j)-lb(j),1e-9),"inputs normalized by the box"); } }
  if(k==1){ mat G=D.getGradientMatrix(); CHECK(G.getNRows()==(unsigned)n&&G.getNCols()==(unsigned)d); for(int i=0;i<n;i++){ vec g=D.getRowGradient(i),gr=D.getRowGradientRaw(i); for(int j=0;j<d;j++){ CHECKM(gr(j)==raw(i,d+1+j),"raw gradient kept"); CHECKM(vf_close(G(i,j),raw(i,d+1+j)*(ub(j)-lb(j))*d,1e-7),"gradient rescaled by its own chain-rule factor"); CHECK(g(j)==G(i,j)); } } vf_reach("gradient"); }
  if(k==2){ vec dd=D.getDirectionalDerivativesVector(); CHECK(dd.getSize()==(unsigned)n); for(int i=0;i<n;i++){ CHECKM(vf_close(dd(i),raw(i,d+1)*(ub(0)-lb(0))*d,1e-7),"directional derivative rescaled by the chain-rule factor"); vec dir=D.getRowDifferentiationDirection(i); for(int j=0;j<d;j++) CHECKM(dir(j)==raw(i,d+2+j),"directions kept"); } vf_reach("directional"); }
  bool withY=vf_flag("withY"); int nt=vf_pick("nt",1,2); mat T=vf_mat(nt,d+(withY?1:0),"t",-20,20); vf_write_file("test.csv",csv(T)); D.readDataTest("test.csv"); CHECK(D.getNumberOfSamplesTest()==(unsigned)nt); D.normalizeSampleInputMatrixTest(); mat XT=D.getInputMatrixTest(); CHECK(XT.getNRows()==(unsigned)nt&&XT.getNCols()==(unsigned)d); CHECK(D.ifTestDataHasFunctionValues==withY); for(int i=0;i<nt;i++) for(int j=0;j<d;j++) CHECKM(vf_close(XT(i,j)*d*(ub(j)-lb(j)),T(i,j)-lb(j),1e-9),"test inputs normalized by the same box"); if(withY){ vec yt=D.getOutputVectorTest(); for(int i=0;i<nt;i++) CHECK(yt(i)==T(i,d)); } vf_observe("x",X(0,0)); vf_reach("end");
}
// @entry c15_validation prop=C15,C28 mode=real time=120 qtime=15000
// @bounds 2..3 (4) samples of 1..2 parameters, validation ratio any value in [0,1] leaving a training sample, every outcome of the random shuffle, values in [-20,20]; gradients on or off
VF_HARNESS(c15_validation){
  int g=vf_pick("grad",0,1),d=vf_pick("d",1,2),n=vf_pick("n",2,MN+1); double ratio=vf_range("ratio",0,1); vec lb,ub; vf_box(lb,ub,d,-10,10,0.1); mat raw=vf_mat(n,g?2*d+1:d+1,"s",-20,20); for(int i=0;i<n;i++) for(int j=0;j<i;j++) vf_assume(raw(i,0)!=raw(j,0)); vf_write_file("train.csv",csv(raw)); int k=vf_pick("k",0,n-1); vf_assume((ratio*n>=k)&(ratio*n<k+1));
  SurrogateModelData D; D.setDimension(d); D.setBoxConstraints(Bounds(lb,ub)); if(g) D.setGradientsOn(); D.setValidationRatio(ratio);
  int rounds=vf_pick("rounds",1,2); for(int t=0;t<rounds;t++){ D.readData("train.csv");
    CHECKM(D.getNumberOfSamples()==(unsigned)(n-k),"training samples are those not used for validation"); CHECKM(D.getNumberOfSamplesValidation()==(unsigned)k,"number of validation samples follows the ratio"); D.normalize(); mat X=D.getInputMatrix(); vec y=D.getOutputVector(); mat XV; vec yV; if(k>0){ XV=D.getInputMatrixValidation(); yV=D.getOutputVectorValidation(); CHECKM(XV.getNRows()==(unsigned)k&&XV.getNCols()==(unsigned)d&&yV.getSize()==(unsigned)k,"validation set has the number of samples reported"); } CHECK(X.getNRows()==(unsigned)(n-k)&&y.getSize()==(unsigned)(n-k)); mat G; if(g) G=D.getGradientMatrix();
    for(int i=0;i<n;i++){ int hits=0; for(int a=0;a<n-k;a++){ bool same=y(a)==raw(i,d); for(int j=0;j<d;j++) same=same&vf_close(X(a,j)*d*(ub(j)-lb(j)),raw(i,j)-lb(j),1e-12); if(g) for(int j=0;j<d;j++) same=same&vf_close(G(a,j),raw(i,d+1+j)*(ub(j)-lb(j))*d,1e-9); hits+=same?1:0; } for(int a=0;a<k;a++){ bool same=yV(a)==raw(i,d); for(int j=0;j<d;j++) same=same&vf_close(XV(a,j)*d*(ub(j)-lb(j)),raw(i,j)-lb(j),1e-12); hits+=same?1:0; } CHECKM(hits>=1,"every sample is in the training or the validation set, with its own output"); } }
  if(vf_flag("revert")){ D.revertBackToFullData(); CHECK(D.getNumberOfSamples()==(unsigned)n&&D.getNumberOfSamplesValidation()==0); mat X=D.getInputMatrix(); vec y=D.getOutputVector(); for(int i=0;i<n;i++){ CHECK(y(i)==raw(i,d)); for(int j=0;j<d;j++) CHECKM(vf_close(X(i,j)*d*(ub(j)-lb(j)),raw(i,j)-lb(j),1e-9),"full data after reverting"); } vf_reach("reverted"); }
  if(k>0) vf_reach("with validation"); vf_observe("n",D.getNumberOfSamples()); vf_reach("end");
}
