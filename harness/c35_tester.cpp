// C35: surrogate model tests
#include "data.h"
#include "SurrogateModels/INCLUDE/surrogate_model_tester.hpp"
static void set(SurrogateModel&M,int d,const vec&lb,const vec&ub){ M.setName("test"); M.setDimension(d); M.setNameOfInputFile("train.csv"); M.setBoxConstraints(Bounds(lb,ub)); M.readData(); M.normalizeData(); M.initializeSurrogateModel(); }
// @entry c35_test prop=C35 mode=real time=150 qtime=10000
// @bounds tests of linear, ordinary and universal Kriging models (hyperparameters restarted from a file), 2..3 training samples of 1..2 parameters at grid points and 1..2 test samples at grid points with or without outputs, any one training output or all test outputs anywhere in [-20,20], with and without variances, test repeated or not
VF_HARNESS(c35_test){
  int d=vf_pick("d",1,2),n=vf_pick("n",2,2+DEEP),nt=vf_pick("nt",1,2),kind=vf_pick("model",0,2),open=vf_pick("free",0,n); bool withY=vf_flag("withY"),var=kind>0&&vf_flag("variances"); vec lb(d,-1.0),ub(d,3.0); mat raw(n,d+1),T(nt,d+(withY?1:0)); for(int i=0;i<n;i++){ for(int j=0;j<d;j++) raw(i,j)=(i*(j+2)+j)%3; raw(i,d)=open==i?vf_range("y",-20,20):2.5-4*i; } for(int i=0;i<nt;i++){ for(int j=0;j<d;j++) T(i,j)=(i+2*j+1)%3-0.5; if(withY) T(i,d)=open==n?vf_range("t",-20,20):i-1.25; } vf_write_file("train.csv",csv(raw)); vf_write_file("other.csv",csv(T)); vec h(2*d); for(int i=0;i<d;i++){ h(i)=1.5+i; h(d+i)=2.0-0.5*i; } if(kind) { std::string s; for(int i=0;i<2*d;i++) s+=vf_num(h(i))+"\n"; vf_write_file("test_hyperparameters.csv",s); }
  LinearModel L; KrigingModel K; SurrogateModel&M=kind?(SurrogateModel&)K:(SurrogateModel&)L; if(kind==2) K.setLinearRegressionOn(); set(M,d,lb,ub); if(kind){ K.setHyperParameters(h); K.updateAuxilliaryFields(); } else M.train();
  SurrogateModelTester S; S.setName("test"); S.setDimension(d); S.setBoxConstraints(Bounds(lb,ub)); S.setFileNameTrainingData("train.csv"); S.setFileNameTestData("other.csv"); S.setSurrogateModel(kind==0?LINEAR_REGRESSION:kind==1?ORDINARY_KRIGING:UNIVERSAL_KRIGING); S.bindSurrogateModels(); S.ifVariancesShouldBeComputedInTest=var; S.ifReadWarmStart=kind>0; vf_random_fixed=1; S.performSurrogateModelTest(); if(vf_flag("again")){ for(int i=0;i<nt;i++) if(withY) T(i,d)=T(i,d)+1; vf_write_file("other.csv",csv(T)); SurrogateModelTester R; R.setName("test"); R.setDimension(d); R.setBoxConstraints(Bounds(lb,ub)); R.setFileNameTrainingData("train.csv"); R.setFileNameTestData("other.csv"); R.setSurrogateModel(kind==0?LINEAR_REGRESSION:kind==1?ORDINARY_KRIGING:UNIVERSAL_KRIGING); R.bindSurrogateModels(); R.ifVariancesShouldBeComputedInTest=var; R.ifReadWarmStart=kind>0; R.performSurrogateModelTest(); vf_reach("again"); }
  std::vector<std::string> l=vf_lines(vf_read_file("surrogateTestResults.csv")); CHECKM((int)l.size()==nt+1,"one line per test sample below the header"); std::vector<std::string> H=vf_split(l[0],','); int w=d+1+(withY?2:0)+(var?1:0); CHECKM((int)H.size()==w,"one title per column"); for(int i=0;i<nt;i++){ std::vector<std::string> f=vf_split(l[i+1],','); CHECKM((int)f.size()==w,"one field per column"); vec x(d); for(int j=0;j<d;j++){ CHECKM(vf_close(std::stod(f[j]),T(i,j),1e-5),"inputs of the test sample"); x(j)=norm1(T(i,j),lb(j),ub(j),d); }
    double e,s=0; if(var) M.interpolateWithVariance(x,&e,&s); else e=M.interpolate(x); double p=std::stod(f[d]); CHECKM(vf_close(p,e,1e-3),"the estimate of the model trained with the training data"); if(withY){ CHECKM(vf_close(std::stod(f[d+1]),T(i,d),1e-3),"the output of the test sample"); CHECKM(vf_close(std::stod(f[d+2]),(e-T(i,d))*(e-T(i,d)),0.02),"the squared error"); } if(var) CHECKM(vf_close(std::stod(f[w-1]),s,0.02),"the variance of the estimate"); } vf_reach("end");
}
// @entry c35_ratio prop=C35,C34 mode=real time=200 qtime=10000
// @bounds test of an ordinary or universal Kriging model of 3 (4) samples (fixed values) of which none (ratio 0 or 0.2) or one (0.5) is held back for validation, trained with fixed draws with 1..2 threads or restarted from a file, every value of the test sample's parameter; model trained once or twice
VF_HARNESS(c35_ratio){
  static const double R[3]={0,0.2,0.5}; int k=vf_pick("ratio",0,2); double r=R[k]; bool warm=vf_flag("restart"),uni=(DEEP||warm||k==2)&&vf_flag("universal"); int T=warm?1:DEEP?vf_pick("threads",1,2):2-k/2,times=vf_pick("times",1,2); vec lb(1,-1.0),ub(1,3.0); const int n=3+DEEP; mat raw(n,2); for(int i=0;i<n;i++){ raw(i,0)=(i*3)%4-0.5; raw(i,1)=2.5-i*i; } vf_write_file("train.csv",csv(raw)); vf_write_file("test_hyperparameters.csv","1.5\n2\n"); double t=vf_range("t",-1,3); vf_write_file("other.csv",vf_num(t)+",0.5\n"); vf_random_fixed=1;
  SurrogateModelTester S; S.setName("test"); S.setDimension(1); S.setBoxConstraints(Bounds(lb,ub)); S.setFileNameTrainingData("train.csv"); S.setFileNameTestData("other.csv"); S.setSurrogateModel(uni?UNIVERSAL_KRIGING:ORDINARY_KRIGING); S.bindSurrogateModels(); S.setRatioValidationSamples(r); S.setNumberOfTrainingIterations(1); S.krigingModel.setNumberOfThreads(T); S.krigingModel.setEpsilon(0.01); S.ifReadWarmStart=warm; vf_set_threads(T); bool bad=vf_throws([&]{ S.performSurrogateModelTest(); }); CHECKM(!bad,"the test is performed"); if(bad) return; KrigingModel&K=S.krigingModel; if(times==2){ double a=K.interpolate(vec(1,0.5)); K.train(); CHECK(K.getNumberOfSamples()==(unsigned)n); if(warm) CHECKM(vf_close(K.interpolate(vec(1,0.5)),a,1e-6),"a restart repeated changes nothing"); vf_reach("trained again"); vf_set_threads(1); return; } vf_set_threads(1);
  CHECKM(K.getNumberOfSamples()==(unsigned)n,"every training sample is part of the model that is tested"); vec h=K.getHyperParameters(); CHECK(h.getSize()==2); KrigingModel M; if(uni) M.setLinearRegressionOn(); M.setDimension(1); M.setNameOfInputFile("train.csv"); M.setBoxConstraints(Bounds(lb,ub)); M.readData(); M.normalizeData(); M.setEpsilon(0.01); M.initializeSurrogateModel(); M.setHyperParameters(h); M.updateAuxilliaryFields(); std::vector<std::string> l=vf_lines(vf_read_file("surrogateTestResults.csv")); CHECK(l.size()==2); std::vector<std::string> f=vf_split(l[1],','); CHECK(f.size()>=2); if(!uni||r<0.5){ vec x(1); x(0)=norm1(t,-1,3,1); CHECKM(vf_close(std::stod(f[1]),M.interpolate(x),1e-3),"the estimate of the model of all training samples"); vf_reach("compared"); } vf_reach("end");
}
// @entry c35_rebind prop=C35 mode=real time=150 qtime=10000
// @bounds one tester used for two tests in a row: first with a linear, ordinary or universal Kriging model (or only bound with it), then with any of them or with a model that is not available, training data of 3 samples changed between the tests or not, hyperparameters restarted from a file, every output of one test sample in [-20,20] and every value of its parameter
VF_HARNESS(c35_rebind){
  static const SURROGATE_MODEL TY[5]={LINEAR_REGRESSION,ORDINARY_KRIGING,UNIVERSAL_KRIGING,GRADIENT_ENHANCED,TANGENT_ENHANCED}; int a=vf_pick("first",0,2),b=vf_pick("second",0,4); bool run1=vf_flag("testFirst"),change=run1&&vf_flag("newData"); vec lb(1,-1.0),ub(1,3.0); const int n=3; mat raw(n,2); for(int i=0;i<n;i++){ raw(i,0)=(i*3)%4-0.5; raw(i,1)=2.5-i*i; } vf_write_file("train.csv",csv(raw)); vf_write_file("test_hyperparameters.csv","1.5\n2\n"); double t=vf_range("t",-1,3),yt=vf_range("yt",-20,20); vf_write_file("other.csv",vf_num(t)+","+vf_num(yt)+"\n"); vf_random_fixed=1;
  SurrogateModelTester S; S.setName("test"); S.setDimension(1); S.setBoxConstraints(Bounds(lb,ub)); S.setFileNameTrainingData("train.csv"); S.setFileNameTestData("other.csv"); S.setSurrogateModel(TY[a]); S.bindSurrogateModels(); S.ifReadWarmStart=a>0; if(run1) S.performSurrogateModelTest(); if(change){ raw(1,1)=-7; raw.addRow(vec(2,0.75)); vf_write_file("train.csv",csv(raw)); }
  S.setSurrogateModel(TY[b]); bool bad=vf_throws([&]{ S.bindSurrogateModels(); }); CHECKM(bad==(b>2),"models that are not available are refused"); if(bad){ bool t2=vf_throws([&]{ S.performSurrogateModelTest(); }); CHECKM(t2,"no other model is tested in place of one that was refused"); vf_reach("refused"); return; } S.ifReadWarmStart=b>0; S.performSurrogateModelTest();
  LinearModel L; KrigingModel K; SurrogateModel&M=b?(SurrogateModel&)K:(SurrogateModel&)L; if(b==2) K.setLinearRegressionOn(); set(M,1,lb,ub); if(b){ vec h(2); h(0)=1.5; h(1)=2; K.setHyperParameters(h); K.updateAuxilliaryFields(); } else M.train();
  std::vector<std::string> l=vf_lines(vf_read_file("surrogateTestResults.csv")); CHECK(l.size()==2); std::vector<std::string> f=vf_split(l[1],','); CHECK(f.size()==4); vec x(1); x(0)=norm1(t,-1,3,1); double e=M.interpolate(x); CHECKM(vf_close(std::stod(f[0]),t,1e-5)&vf_close(std::stod(f[2]),yt,1e-5),"the test sample"); CHECKM(vf_close(std::stod(f[1]),e,1e-3),"the estimate of the model that was named last"); vf_reach("end");
}
