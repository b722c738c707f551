// C05: initial history from the training data of the objective and of the constraints
#include "initial.h"
// @entry c05_initial prop=C05 mode=real time=200 qtime=15000
// @bounds 2..3 samples of 1..2 parameters on a grid, 0..2 constraints whose files list the samples in any rotated order with at most one missing; every objective, constraint and target value
VF_HARNESS(c05_initial){
  Initial I; initial(I,DEEP?3:3,2,DEEP?2:1,0); mat H=I.O->getHistory(); int d=I.d; CHECKM(H.getNRows()==(unsigned)I.N&&H.getNCols()==(unsigned)(d+I.nc+3),"one row per training sample"); for(int i=0;i<I.N;i++){ for(int j=0;j<=d;j++) CHECKM(vf_close(H(i,j),I.obj(i,j),1e-9),"parameters and objective of the sample"); for(int k=0;k<I.nc;k++) if(I.has[k][i]) CHECKM(vf_close(H(i,d+1+k),I.con[k](i),1e-9),"constraint value of the same sample"); else CHECKM(I.gt[k]?H(i,d+1+k)<=-1e10:H(i,d+1+k)>=1e10,"a sample without constraint value counts as violated"); CHECKM(vf_close(H(i,d+I.nc+1),0.0,1e-12),"no improvement is credited to initial samples"); CHECKM(vf_close(H(i,d+I.nc+2),feasible(I,i)?1.0:0.0,1e-12),"feasibility flag of the sample"); }
  std::vector<std::string> L=vf_lines(vf_read_file("optimizationHistory.csv")); CHECKM(L.size()==(size_t)I.N+1,"one header line and one line per row"); vf_reach("end");
}
