// C34: hyperparameters of Kriging models: saved, loaded, restarted
#include "data.h"
#include "SurrogateModels/INCLUDE/kriging_training.hpp"
static void samples(int n,int d,bool any){ mat raw(n,d+1); for(int i=0;i<n;i++){ for(int j=0;j<d;j++) raw(i,j)=(i*(j+2)+j)%3; raw(i,d)=any?vf_range("y",-20,20):i==0?1:i==1?-2:0.5; } vf_write_file("train.csv",csv(raw)); }
static void prepared(KrigingModel&K,int d,bool linear,bool val=false){ K.setName("m"); if(linear) K.setLinearRegressionOn(); K.setDimension(d); K.setNameOfInputFile("train.csv"); vec lb(d,0.0),ub(d,4.0); K.setBoxConstraints(Bounds(lb,ub)); if(val) K.setRatioValidationSamples(0.5); K.readData(); K.normalizeData(); K.initializeSurrogateModel(); }
static bool near(double a,double b){ return vf_absd(a-b)<=1e-5*(1+vf_absd(b)); }
// @entry c34_file prop=C34 mode=real time=100 qtime=10000
// @bounds models of 1..2 (3) parameters, every theta in [0.001,20] and gamma in [1,2]; saved, loaded into a new model under the default or a given file name; files with another number of entries, with text or missing
VF_HARNESS(c34_file){
  int d=vf_pick("d",1,2+DEEP),f=vf_pick("file",0,4); bool named=vf_flag("named"); KrigingModel K,L; samples(1,d,false); prepared(K,d,false); prepared(L,d,false); std::string name=named?"own.csv":"m_hyperparameters.csv"; if(named){ K.setNameOfHyperParametersFile(name); L.setNameOfHyperParametersFile(name); } vec h(2*d); for(int i=0;i<d;i++){ h(i)=vf_range("theta",0.001,20); h(d+i)=vf_range("gamma",1,2); } K.setHyperParameters(h); K.saveHyperParameters(); CHECK(vf_file_exists(name)); std::vector<std::string> w=vf_lines(vf_read_file(name)); CHECKM((int)w.size()==2*d,"one line per hyperparameter"); for(int i=0;i<2*d;i++) CHECKM(near(std::stod(w[i]),h(i)),"theta, then gamma, in order");
  vec before=L.getHyperParameters(); if(f==1) vf_write_file(name,vf_read_file(name)+"\n1.5\n"); else if(f==2) vf_write_file(name,"1.5\n"); else if(f==3) vf_write_file(name,"1\ntext\n"); else if(f==4) vf_remove_file(name); bool t=vf_throws([&]{ L.loadHyperParameters(); }); vec g=L.getHyperParameters(); CHECK((int)g.getSize()==2*d); if(f>2) CHECKM(t,"a file that cannot be read is rejected"); for(int i=0;i<2*d;i++){ if(f==0) CHECKM(!t&near(g(i),h(i)),"the model has the hyperparameters that were saved"); else CHECKM(g(i)==before(i),"a file that does not fit changes nothing"); }
  THROWS(K.setNameOfHyperParametersFile("")); THROWS(K.setHyperParameters(vec(2*d+1,1.0))); vf_reach("end");
}
// @entry c34_train prop=C34 mode=real time=150 qtime=10000
// @bounds models of 1..3 samples of 1..2 parameters at grid points with every output in [-20,20], with and without linear regression, restarted with 3 saved hyperparameter vectors of 5 digits; predictions and deviations at every grid point of step 1/8
VF_HARNESS(c34_train){
  int d=vf_pick("d",1,2),n=vf_pick("n",1,3),c=vf_pick("case",0,2); bool lin=vf_flag("linear"); KrigingModel K,L; samples(n,d,true); prepared(K,d,lin); prepared(L,d,lin); vec h(2*d); for(int i=0;i<d;i++){ h(i)=c==0?0.5:c==1?12.25:2.0+i; h(d+i)=c==0?2.0:c==1?1.0:1.5; } K.setHyperParameters(h); K.saveHyperParameters(); K.updateAuxilliaryFields(); vf_random_fixed=1; L.setReadWarmStartFileFlag(true); L.setNumberOfTrainingIterations(1); L.train(); CHECK(L.ifModelTrainingIsDone); vec g=L.getHyperParameters(); for(int i=0;i<2*d;i++) CHECKM(near(g(i),h(i)),"a restarted model is not trained again");
  vec x(d); for(int i=0;i<d;i++) x(i)=vf_pick("x",0,8)/8.0/d; double a,b,s,t; K.interpolateWithVariance(x,&a,&s); L.interpolateWithVariance(x,&b,&t); CHECKM(vf_close(a,b,1e-6)&vf_close(s,t,1e-6),"a restarted model predicts what the model that was saved predicts"); CHECK(vf_close(L.interpolate(x),K.interpolate(x),1e-6)); vf_reach("end");
}
// @entry c34_whole prop=C34 mode=real time=200 qtime=10000
// @bounds models of one parameter of 2 samples, or 4 of which half are set aside for validation (fixed values), with and without linear regression, trained with fixed draws, saved, restarted; predictions at every grid point of step 1/8
VF_HARNESS(c34_whole){
  vf_random_fixed=1; bool save=vf_flag("save"),val=vf_flag("validation"),lin=vf_flag("linear"); int n=val?4:2; KrigingModel K; samples(n,1,false); prepared(K,1,lin,val); K.setEpsilon(0.01); K.setNumberOfTrainingIterations(1); K.setWriteWarmStartFileFlag(save); K.train(); CHECKM(vf_file_exists("m_hyperparameters.csv")==save,"hyperparameters are saved if that is switched on"); vec h=K.getHyperParameters(); CHECKM((h.getSize()==2)&(h(0)>=0)&(h(0)<=20)&(h(1)>=1)&(h(1)<=2),"hyperparameters found by training lie in their range"); if(save){ KrigingModel L; prepared(L,1,lin,val); L.setEpsilon(0.01); L.setReadWarmStartFileFlag(true); L.train(); CHECKM(L.getNumberOfSamples()==K.getNumberOfSamples(),"a restarted model uses the samples the trained model uses"); vec x(1); x(0)=vf_pick("x",0,8)/8.0; double a,b,s,t; K.interpolateWithVariance(x,&a,&s); L.interpolateWithVariance(x,&b,&t); CHECKM(vf_close(a,b,1e-4)&vf_close(s,t,1e-4),"a restarted model predicts what the trained model predicts"); vf_reach("restarted"); } vf_reach("end");
}
