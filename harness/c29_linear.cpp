// C29: linear regression, in-sample / out-of-sample errors, test results
#include "data.h"
#include "SurrogateModels/INCLUDE/linear_regression.hpp"
static void model(LinearModel&M,const mat&raw,int d,const vec&lb,const vec&ub){ vf_write_file("train.csv",csv(raw)); M.setDimension(d); M.setNameOfInputFile("train.csv"); M.setBoxConstraints(Bounds(lb,ub)); M.readData(); M.normalizeData(); }
static void normalEq(const mat&X,const vec&y,const vec&w,double lam,double tol,int n,int d){ CHECK(w.getSize()==(unsigned)(d+1)); for(int a=0;a<=d;a++){ double s=lam*w(a); for(int i=0;i<n;i++){ double p=w(0)-y(i); for(int j=0;j<d;j++) p+=w(j+1)*X(i,j); s+=(a==0?1.0:X(i,a-1))*p; } CHECKM(vf_close(s,0,tol),"weights solve the regularized normal equations"); } }
// @entry c29_fit prop=C29 mode=real time=100 qtime=20000
// @bounds 1..3 samples of 1..2 parameters with inputs from a grid of 3 values, every output in [-20,20], regularization 1e-8 (default) or 0.1, predictions at points in [-5,5]
VF_HARNESS(c29_fit){
  int d=vf_pick("d",1,2),n=vf_pick("n",1,d==1?3:2); vec lb(d,0.0),ub(d,4.0); if(d==2) ub(1)=2; mat raw(n,d+1); for(int i=0;i<n;i++){ for(int j=0;j<d;j++) raw(i,j)=vf_pick("x",0,2)*1.0; raw(i,d)=vf_range("y",-20,20); }
  LinearModel M; THROWS(M.train()); THROWS(M.initializeSurrogateModel()); model(M,raw,d,lb,ub); bool def=vf_flag("default"); double lam=1e-8; mat X(n,d); vec y(n); for(int i=0;i<n;i++){ y(i)=raw(i,d); for(int j=0;j<d;j++) X(i,j)=norm1(raw(i,j),lb(j),ub(j),d); }
  M.initializeSurrogateModel(); CHECK(M.ifInitialized); if(!def){ lam=0.1; M.setRegularizationParameter(lam); CHECK(M.getRegularizationParameter()==lam); M.train(); } vec w=M.getWeights(); normalEq(X,y,w,lam,1e-6,n,d);
  vec p=vf_vec(d,"p",-5,5); double e=w(0); for(int j=0;j<d;j++) e+=w(j+1)*p(j); CHECKM(vf_close(M.interpolate(p),e,1e-4),"prediction is the affine function of the weights"); if(n==d+1&&def) vf_reach("determined"); vf_observe("w0",w(0)); vf_reach("end");
}
// @entry c29_fitx prop=C29 mode=real time=100 qtime=30000
// @bounds 1..2 samples of one parameter with every input in the box [0,1] and output in [-20,20], regularization in [0.01,1]
VF_HARNESS(c29_fitx){
  int n=vf_pick("n",1,2); vec lb(1,0.0),ub(1,1.0); mat raw(n,2); for(int i=0;i<n;i++){ raw(i,0)=vf_range("x",0,1); raw(i,1)=vf_range("y",-20,20); } double lam=vf_range("lam",0.01,1); LinearModel M; model(M,raw,1,lb,ub); M.setRegularizationParameter(lam); M.train(); vec w=M.getWeights(); mat X(n,1); vec y(n); for(int i=0;i<n;i++){ X(i,0)=raw(i,0); y(i)=raw(i,1); } normalEq(X,y,w,lam,1e-5,n,1); vf_observe("w0",w(0)); vf_reach("end");
}
// @entry c29_errors prop=C29 mode=real time=100 qtime=20000
// @bounds 1..2 training and 1..2 test samples of 1..2 parameters (with and without test outputs), weights in [-3,3], values in [-5,5], box widths >= 0.5
VF_HARNESS(c29_errors){
  int d=vf_pick("d",1,2),n=vf_pick("n",1,2),nt=vf_pick("nt",1,2); bool withY=vf_flag("withY"); vec lb,ub; if(vf_flag("fixedbox")){ lb=vec(d,-1.0); ub=vec(d,3.0); } else vf_box(lb,ub,d,-5,5,0.5); mat raw=vf_mat(n,d+1,"s",-5,5),T=vf_mat(nt,d+(withY?1:0),"t",-5,5); LinearModel M; M.setName("m"); model(M,raw,d,lb,ub); vec w=vf_vec(d+1,"w",-3,3); M.setWeights(w); THROWS(M.calculateInSampleError()); M.ifInitialized=true; THROWS(M.calculateOutSampleError());
  auto pred=[&](const mat&A,int i){ double e=w(0); for(int j=0;j<d;j++) e+=w(j+1)*norm1(A(i,j),lb(j),ub(j),d); return e; };
  double se=0; for(int i=0;i<n;i++){ double e=pred(raw,i)-raw(i,d); se+=e*e; } CHECKM(vf_close(M.calculateInSampleError(),se/n,1e-6),"in-sample error is the mean squared residual"); THROWS(M.calculateInSampleError("nonsense"));
  vf_write_file("test.csv",csv(T)); M.setNameOfInputFileTest("test.csv"); M.readDataTest(); THROWS(M.tryOnTestData()); M.normalizeDataTest();
  if(!withY){ THROWS(M.calculateOutSampleError()); M.tryOnTestData(); } else { double oe=M.calculateOutSampleError(); double s=0; for(int i=0;i<nt;i++){ double e=pred(T,i)-T(i,d); s+=e*e; } CHECKM(vf_close(oe,s/nt,1e-6),"out-of-sample error is the mean squared residual over the test samples"); CHECKM(vf_close(M.generalizationError,s/nt,1e-6),"generalization error"); }
  mat R=M.testResults; CHECK(R.getNRows()==(unsigned)nt&&R.getNCols()==(unsigned)(withY?d+3:d+1)); for(int i=0;i<nt;i++){ for(int j=0;j<d;j++) CHECKM(R(i,j)==T(i,j),"test results list the test inputs in order"); double p=pred(T,i); CHECKM(vf_close(R(i,d),p,1e-6),"prediction of that test sample"); if(withY){ CHECKM(R(i,d+1)==T(i,d),"true value of that test sample"); CHECKM(vf_close(R(i,d+2),(p-T(i,d))*(p-T(i,d)),1e-6),"squared error of that test sample"); } } THROWS(M.tryOnTestData("nonsense"));
  M.setNameOfOutputFileTest("res.csv"); int rep=vf_pick("rep",1,2); for(int k=0;k<rep;k++) M.saveTestResults(); std::vector<std::string> L=vf_lines(vf_read_file("res.csv")); CHECK(L.size()==(size_t)nt+1); mat B; B.readFromCSV("res.csv",true); CHECK(B.getNRows()==(unsigned)nt&&B.getNCols()==R.getNCols()); for(int i=0;i<nt;i++) for(unsigned j=0;j<R.getNCols();j++) CHECKM(vf_close(B(i,j),R(i,j),1e-6),"saved results"); if(withY) vf_reach("with outputs"); vf_reach("end");
}
// @entry c29_validation prop=C29 mode=real time=100 qtime=20000
// @bounds 2..3 samples of one parameter, one of them held back for validation, weights in [-3,3], values in [-5,5], every outcome of the shuffle
VF_HARNESS(c29_validation){
  int n=vf_pick("n",2,3); vec lb(1,-5.0),ub(1,5.0); mat raw=vf_mat(n,2,"s",-5,5); LinearModel M; M.setRatioValidationSamples(n==2?0.5:0.34); model(M,raw,1,lb,ub); vec w=vf_vec(2,"w",-3,3); M.setWeights(w); M.ifInitialized=true; mat R=M.getRawData(); SurrogateModelData D=M.getData(); CHECK(D.getNumberOfSamples()==(unsigned)(n-1)&&D.getNumberOfSamplesValidation()==1); mat X=D.getInputMatrix(),XV=D.getInputMatrixValidation(); vec y=D.getOutputVector(),yv=D.getOutputVectorValidation();
  double s=0; for(int i=0;i<n-1;i++){ double e=w(0)+w(1)*X(i,0)-y(i); s+=e*e; } CHECKM(vf_close(M.calculateInSampleError(),s/(n-1),1e-6),"in-sample error uses the outputs of the training samples"); double e=w(0)+w(1)*XV(0,0)-yv(0); CHECKM(vf_close(M.calculateValidationError(),vf_absd(e),1e-6),"validation error is the mean absolute residual of the validation samples"); vf_reach("end");
}
