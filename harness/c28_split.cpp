// C28: reading and splitting training data (see also c15_data, c15_validation)
#include "data.h"
#include "SurrogateModels/INCLUDE/surrogate_model_data.hpp"
// @entry c28_columns prop=C28 mode=real time=60 qtime=10000
// @bounds 1..2 samples with 1..7 columns, plain / gradient / directional data, declared dimension 0 (undeclared)..3, values in [-20,20]
VF_HARNESS(c28_columns){
  int k=vf_pick("kind",0,2),c=vf_pick("c",1,7),dd=vf_pick("declared",0,3),n=vf_pick("n",1,2); mat raw=vf_mat(n,c,"s",-20,20); vf_write_file("train.csv",csv(raw)); SurrogateModelData D; if(dd) D.setDimension(dd); if(k==1) D.setGradientsOn(); if(k==2) D.setDirectionalDerivativesOn();
  int dim=0; for(int e=1;e<=7;e++) if(c==(k==0?e+1:k==1?2*e+1:2*e+2)) dim=e; bool ok=dim>0&&(dd==0||dd==dim); bool t=vf_throws([&]{ D.readData("train.csv"); }); CHECKM(t==!ok,"files whose column count does not fit are rejected, others accepted");
  if(t){ CHECK(!D.isDataRead()); vf_reach("rejected"); return; } CHECK(D.isDataRead()); CHECK(D.getDimension()==(unsigned)dim); CHECK(D.getNumberOfSamples()==(unsigned)n); mat R=D.getRawData(),X=D.getInputMatrix(); vec y=D.getOutputVector(); CHECK(R.getNRows()==(unsigned)n&&R.getNCols()==(unsigned)c); for(int i=0;i<n;i++){ CHECK(y(i)==raw(i,dim)); vec rr=D.getRowRawData(i); for(int j=0;j<c;j++){ CHECK(R(i,j)==raw(i,j)); CHECK(rr(j)==raw(i,j)); } for(int j=0;j<dim;j++) CHECK(X(i,j)==raw(i,j)); } vf_reach("accepted");
}
// @entry c28_test prop=C28 mode=real time=60 qtime=10000
// @bounds test files of 1..2 samples and 1..5 columns read once or twice for 1..3 parameters, values in [-20,20]
VF_HARNESS(c28_test){
  int d=vf_pick("d",1,3); SurrogateModelData D; D.setDimension(d); THROWS(D.readDataTest("")); THROWS(D.readDataTest("missing.csv")); int rounds=vf_pick("rounds",1,2);
  for(int t=0;t<rounds;t++){ int n=vf_pick("n",1,2),c=vf_pick("c",1,5); mat raw=vf_mat(n,c,"t",-20,20); vf_write_file("test.csv",csv(raw)); bool bad=vf_throws([&]{ D.readDataTest("test.csv"); }); CHECKM(bad==!(c==d||c==d+1),"test files with a wrong number of columns are rejected"); if(bad){ vf_reach("rejected"); return; } CHECK(D.ifTestDataIsRead); CHECKM(D.ifTestDataHasFunctionValues==(c==d+1),"test outputs are recognised by the column count"); CHECK(D.getNumberOfSamplesTest()==(unsigned)n); mat X=D.getInputMatrixTest(); CHECK(X.getNRows()==(unsigned)n&&X.getNCols()==(unsigned)d); for(int i=0;i<n;i++){ vec r=D.getRowXTest(i),rr=D.getRowXRawTest(i); CHECK(rr.getSize()==(unsigned)c); for(int j=0;j<d;j++) CHECK(X(i,j)==raw(i,j)&&r(j)==raw(i,j)); for(int j=0;j<c;j++) CHECK(rr(j)==raw(i,j)); } if(c==d+1){ vec y=D.getOutputVectorTest(); CHECK(y.getSize()==(unsigned)n); for(int i=0;i<n;i++) CHECK(y(i)==raw(i,d)); } }
  vf_reach("end");
}
// @entry c28_indices prop=C28 mode=fp time=90 qtime=10000
// @bounds 1..4 samples, every ratio (any double), every outcome of the random shuffle
VF_HARNESS(c28_indices){
  int n=vf_pick("n",1,4); SurrogateModelData D; double r=vf_number("r"); CHECKM(vf_throws([&]{ D.setValidationRatio(r); })==!((r>=0)&(r<=1)),"ratio outside [0,1] is rejected"); vf_assume((r>=0)&(r<=1)); std::vector<int> v=D.generateRandomIndicesForValidationData(n,r); int k=(int)v.size(); CHECKM((k<=r*n)&(r*n<k+1),"number of validation samples is the truncated ratio"); for(int i=0;i<k;i++){ CHECK((v[i]>=0)&(v[i]<n)); for(int j=0;j<i;j++) CHECKM(v[i]!=v[j],"no sample is taken twice"); } vf_reach("end");
}
// @entry c28_reject prop=C28 mode=real time=30
// @bounds missing and empty training files
VF_HARNESS(c28_reject){
  SurrogateModelData D; if(vf_flag("empty")) vf_write_file("train.csv",""); THROWS(D.readData("train.csv")); CHECK(!D.isDataRead()); THROWS(D.normalizeSampleInputMatrixTest()); SurrogateModelData E; THROWS(E.readDataTest("train.csv")); vf_reach("end");
}
