// C18: adding evaluated samples to a Kriging model
#include "data.h"
#include "SurrogateModels/INCLUDE/kriging_training.hpp"
#include "SurrogateModels/INCLUDE/linear_regression.hpp"
static void model(KrigingModel&K,const mat&raw,int d,const vec&lb,const vec&ub){ vf_write_file("train.csv",csv(raw)); K.setDimension(d); K.setNameOfInputFile("train.csv"); K.setBoxConstraints(Bounds(lb,ub)); K.readData(); K.normalizeData(); K.initializeSurrogateModel(); }
static void state(KrigingModel&K,const mat&exp,int n,int d,const vec&lb,const vec&ub){ CHECKM(K.getNumberOfSamples()==(unsigned)n,"number of samples"); mat R=K.getRawData(),X=K.getX(); vec y=K.gety(); CHECK(R.getNRows()==(unsigned)n&&R.getNCols()==(unsigned)d+1&&X.getNRows()==(unsigned)n&&y.getSize()==(unsigned)n); for(int i=0;i<n;i++){ for(int j=0;j<=d;j++) CHECKM(vf_close(R(i,j),exp(i,j),1e-9),"raw data are the earlier samples in order and the new one"); for(int j=0;j<d;j++) CHECKM(vf_close(X(i,j),norm1(exp(i,j),lb(j),ub(j),d),1e-9),"model inputs are refreshed from the enlarged data"); CHECKM(vf_close(y(i),exp(i,d),1e-9),"model outputs are refreshed from the enlarged data"); } mat C=K.getCorrelationMatrix(); CHECKM(C.getNRows()==(unsigned)n&&C.getNCols()==(unsigned)n,"correlation matrix is refreshed"); mat F; F.readFromCSV("train.csv"); CHECKM(F.getNRows()==(unsigned)n&&F.getNCols()==(unsigned)d+1,"training file has one row per sample"); for(int i=0;i<n;i++) for(int j=0;j<=d;j++) CHECKM(vf_close(F(i,j),exp(i,j),1e-9),"training file holds the samples in order"); }
// @entry c18_add prop=C18 mode=real time=120 qtime=15000
// @bounds 1..2 (3) samples of 1..2 parameters on a grid, up to 2 new samples: every output in [-20,20]; one input anywhere in [0,4] when one sample is added to one stored sample, otherwise grid inputs (distance to stored samples not within 1e-9 of the tolerance 1e-4)
VF_HARNESS(c18_add){
#ifdef VF_DEEP
  int nmax=3;
#else
  int nmax=2;
#endif
  int d=vf_pick("d",1,2),n=vf_pick("n",1,nmax); vec lb(d,0.0),ub(d,4.0); static const int P[3][2]={{0,1},{3,0},{1,4}}; mat raw(n+2,d+1); mat first(n,d+1); for(int i=0;i<n;i++) for(int j=0;j<=d;j++){ raw(i,j)=j<d?P[i][j]:vf_range("y",-20,20); first(i,j)=raw(i,j); } KrigingModel K; model(K,first,d,lb,ub); state(K,raw,n,d,lb,ub);
  THROWS(K.addNewSampleToData(vec(d))); THROWS(K.addNewSampleToData(vec(d+2))); int adds=vf_pick("adds",1,2); int m=n;
  for(int t=0;t<adds;t++){ vec s(d+1); bool rep=t==1&&vf_flag("repeat"); for(int j=0;j<=d;j++) s(j)=rep?raw(m-1,j):j<d?(m==1&&j==0&&adds==1?vf_range("x",0,4):vf_pick("xg",0,1)*1.75+0.5):vf_range("ynew",-20,20); bool close=false; for(int i=0;i<m;i++){ bool c=true; for(int j=0;j<=d;j++){ double e=vf_absd(raw(i,j)-s(j)); if(!rep) vf_assume(!vf_close(e,1e-4,1e-9)); c=c&(e<=1e-4); } close=close|c; } std::string before=vf_read_file("train.csv"); if(!close){ double w=0; for(int i=0;i<m;i++){ double q=0; for(int j=0;j<d;j++) q+=vf_absd(raw(i,j)-s(j)); vf_assume(q>=0.2); } }
    K.addNewSampleToData(s); std::string after=vf_read_file("train.csv");
    if(close){ CHECKM(after==before,"a sample that is already there changes nothing"); vf_reach("duplicate"); } else { for(int j=0;j<=d;j++) raw(m,j)=s(j); m++; CHECKM(after.size()>before.size()&&after.compare(0,before.size(),before)==0,"earlier lines of the training file stay as they were"); vf_reach("added"); } state(K,raw,m,d,lb,ub); if(d==1&&!close){ vec xs(1); xs(0)=norm1(s(0),0,4,1); CHECKM(vf_close(K.correlationFunction.computeCorrelationVector(xs)(m-1),1.0,1e-9),"the new sample takes part in the predictions"); } }
  vf_reach("end");
}
// @entry c18_near prop=C18 mode=real time=60 qtime=15000
// @bounds 1..2 samples of one parameter, a new sample with the inputs of a stored one and every output
VF_HARNESS(c18_near){
  int n=vf_pick("n",1,2); vec lb(1,0.0),ub(1,4.0); mat raw(n+1,2),first(n,2); for(int i=0;i<n;i++){ raw(i,0)=i*2+1; raw(i,1)=vf_range("y",-20,20); first(i,0)=raw(i,0); first(i,1)=raw(i,1); } KrigingModel K; model(K,first,1,lb,ub); vec s(2); s(0)=raw(0,0); s(1)=vf_range("ynew",-20,20); double e=vf_absd(s(1)-raw(0,1)); vf_assume(!vf_close(e,1e-4,1e-9)); K.addNewSampleToData(s); mat F; F.readFromCSV("train.csv"); mat R=K.getRawData(); if(e<=1e-4){ CHECK(F.getNRows()==(unsigned)n); CHECK(R.getNRows()==(unsigned)n); } else { CHECKM(F.getNRows()==(unsigned)n+1,"a different output is a new sample"); CHECK(R.getNRows()==(unsigned)n+1); CLOSE(R(n,1),s(1),1e-9); vf_reach("different output"); } vf_reach("end");
}
// @entry c18_digits prop=C18 mode=real time=60
// @bounds one stored sample of one parameter, a new sample with an output of 6 scales (concrete, as printed numbers are), relative tolerance 1e-8
VF_HARNESS(c18_digits){
  static const double Y[6]={1.234567e-9,-3.75e-7,0.0123456789,-8.0000000125,123456.789012345,-9.87654321e9}; int k=vf_pick("scale",0,5); bool in=vf_flag("input"); mat first(1,2); first(0,0)=3; first(0,1)=2; vec lb(1,0.0),ub(1,4.0); KrigingModel K; model(K,first,1,lb,ub); vec s(2); s(0)=in?1.23456789e-8:1.0; s(1)=Y[k]; K.addNewSampleToData(s); mat F,R=K.getRawData(); F.readFromCSV("train.csv"); CHECK(F.getNRows()==2u&&R.getNRows()==2u); for(int j=0;j<2;j++){ CHECKM(vf_close(F(1,j),s(j),1e-8*vf_absd(s(j))),"the training file holds the sample, whatever its scale"); CHECKM(vf_close(R(1,j),s(j),1e-8*vf_absd(s(j))),"the training data hold the sample, whatever its scale"); } vf_reach("end");
}
