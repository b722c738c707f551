// C04, C07: optimum and best value known after reading the initial data
#include "initial.h"
// @entry c04_initial prop=C04 mode=real time=200 qtime=15000
// @bounds 2..3 initial samples of 1..2 parameters on a grid, 0..1 (2) constraints with every value, target, order and at most one missing sample
VF_HARNESS(c04_initial){
  Initial I; initial(I,3,2,DEEP?2:1,0); const GlobalOptimalDesign&G=I.O->globalOptimalDesign; mat H=I.O->getHistory(); int d=I.d,n=I.N,w=d+I.nc+3; bool any=false; for(int i=0;i<n;i++) any=any|(H(i,w-1)>0.5); CHECKM(G.isDesignFeasible==any,"flagged feasible exactly when a feasible design was evaluated"); bool member=false; for(int i=0;i<n;i++){ bool f=H(i,w-1)>0.5; if(any){ CHECKM(!f||G.trueValue<=H(i,d)+1e-9,"no feasible design is better"); } else CHECKM(G.trueValue<=H(i,d)+1e-9,"no design is better"); bool same=(f==any)&vf_close(G.trueValue,H(i,d),1e-9); for(int j=0;j<d;j++) same=same&vf_close(G.designParameters(j),H(i,j),1e-9); for(int k=0;k<I.nc;k++) same=same&vf_close(G.constraintTrueValues(k),H(i,d+1+k),1e-9); member=member|same; } CHECKM(member,"all reported values come from one history entry"); CHECKM(vf_read_file("globalOptimalDesign.xml").find("<Feasibility>"+std::string(any?"YES":"NO"))!=std::string::npos,"reported in the XML file"); vf_reach("end");
}
// @entry c07_files prop=C07 mode=real time=200 qtime=15000
// @bounds 2..3 initial samples of 1..2 parameters on a grid, 0..1 (2) constraints with every value, target, order and at most one missing sample; one design evaluated afterwards with every objective value, feasible or not
VF_HARNESS(c07_files){
  Initial I; initial(I,3,1,DEEP?2:1,0); mat H=I.O->getHistory(); int d=I.d,n=I.N,w=d+I.nc+3; bool any=false; double best=1e9; for(int i=0;i<n;i++) if(H(i,w-1)>0.5){ any=true; if(H(i,d)<best) best=H(i,d); } Design D(d); D.setNumberOfConstraints(I.nc); D.trueValue=vf_range("new",-100,100); D.isDesignFeasible=vf_flag("feasible"); I.O->calculateImprovementValue(D); double v=D.improvementValue; CHECKM(v>=0,"never negative"); if(!D.isDesignFeasible) CHECKM(vf_same(v,0),"nothing for an infeasible design"); else if(!any) CHECKM(v>0&&v<=1e-6,"token amount for the first feasible design"); else CHECKM(vf_close(v,D.trueValue<best?best-D.trueValue:0.0,1e-9),"the amount by which the best feasible value at the start is undercut"); vf_reach("end");
}
