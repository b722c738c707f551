// C33: sample rows and files of a design
#include "data.h"
#include "Design/INCLUDE/design.hpp"
static void filled(Design&D,int d,int nc){ D=Design(d); if(nc) D.setNumberOfConstraints(nc); D.designParameters=vf_vecn(d,"x"); D.gradient=vf_vecn(d,"g"); D.gradientLowFidelity=vf_vecn(d,"gl"); D.tangentDirection=vf_vecn(d,"t"); D.trueValue=vf_number("f"); D.trueValueLowFidelity=vf_number("fl"); D.tangentValue=vf_number("tv"); D.tangentValueLowFidelity=vf_number("tl");
  for(int k=0;k<nc;k++){ D.constraintTrueValues(k)=vf_number("c"); D.constraintTrueValuesLowFidelity(k)=vf_number("cl"); D.constraintTangent(k)=vf_number("ct"); D.constraintTangentLowFidelity(k)=vf_number("ctl"); for(int i=0;i<d;i++){ D.constraintGradientsMatrix(k,i)=vf_number("cg"); D.constraintGradientsMatrixLowFi(k,i)=vf_number("cgl"); D.constraintDifferentiationDirectionsMatrix(k,i)=vf_number("cd"); D.constraintDifferentiationDirectionsMatrixLowFi(k,i)=vf_number("cdl"); } } }
static void row(const vec&s,const Design&D,int d,double f){ for(int i=0;i<d;i++) CHECKM(s(i)==D.designParameters(i),"a sample starts with the design parameters in order"); CHECKM(s(d)==f,"the value of the function follows the parameters"); }
template<class T> static void tail(const vec&s,int from,int d,T at){ CHECKM((int)s.getSize()==from+d,"a sample has the entries of its kind and no others"); for(int i=0;i<d;i++) CHECKM(s(from+i)==at(i),"the derivatives of the function follow its value in order"); }
// @entry c33_objective prop=C33 mode=fp time=60
// @bounds designs of 1..3 parameters with 0..2 constraints, every non-NaN double; every kind of sample of the objective function; derivative data of a wrong size
VF_HARNESS(c33_objective){
  int d=vf_pick("d",1,3),nc=vf_pick("nc",0,2); Design D; filled(D,d,nc); vec s=D.constructSampleObjectiveFunction(); row(s,D,d,D.trueValue); CHECK((int)s.getSize()==d+1); s=D.constructSampleObjectiveFunctionLowFi(); row(s,D,d,D.trueValueLowFidelity); CHECK((int)s.getSize()==d+1);
  s=D.constructSampleObjectiveFunctionWithGradient(); row(s,D,d,D.trueValue); tail(s,d+1,d,[&](int i){ return D.gradient(i); }); s=D.constructSampleObjectiveFunctionWithGradientLowFi(); row(s,D,d,D.trueValueLowFidelity); tail(s,d+1,d,[&](int i){ return D.gradientLowFidelity(i); }); s=D.constructSampleObjectiveFunctionWithZeroGradient(); row(s,D,d,D.trueValue); tail(s,d+1,d,[&](int){ return 0.0; });
  s=D.constructSampleObjectiveFunctionWithTangent(); row(s,D,d,D.trueValue); tail(s,d+2,d,[&](int i){ return D.tangentDirection(i); }); CHECKM(s(d+1)==D.tangentValue,"the directional derivative precedes its direction"); s=D.constructSampleObjectiveFunctionWithTangentLowFi(); row(s,D,d,D.trueValueLowFidelity); tail(s,d+2,d,[&](int i){ return D.tangentDirection(i); }); CHECKM(s(d+1)==D.tangentValueLowFidelity,"the directional derivative precedes its direction");
  int w=vf_pick("wrong",0,4); if(w!=d){ Design E=D; E.gradient=vec(w); E.gradientLowFidelity=vec(w); E.tangentDirection=vec(w); THROWS(E.constructSampleObjectiveFunctionWithGradient()); THROWS(E.constructSampleObjectiveFunctionWithGradientLowFi()); THROWS(E.constructSampleObjectiveFunctionWithZeroGradient()); THROWS(E.constructSampleObjectiveFunctionWithTangent()); THROWS(E.constructSampleObjectiveFunctionWithTangentLowFi()); vf_reach("wrong size"); } vf_reach("end");
}
// @entry c33_constraint prop=C33 mode=fp time=60
// @bounds designs of 1..2 (3) parameters with 1..3 constraints, every non-NaN double; every kind of sample of every constraint, constraint numbers up to 4, data of a wrong number of constraints
VF_HARNESS(c33_constraint){
  int d=vf_pick("d",1,2+DEEP),nc=vf_pick("nc",1,3),k=vf_pick("k",0,4); Design D; filled(D,d,nc); D.ID=vf_pick("ID",0,4); if(k>=nc){ THROWS(D.constructSampleConstraint(k)); THROWS(D.constructSampleConstraintLowFi(k)); THROWS(D.constructSampleConstraintWithTangent(k)); THROWS(D.constructSampleConstraintWithTangentLowFi(k)); THROWS(D.constructSampleConstraintWithGradient(k)); THROWS(D.constructSampleConstraintWithGradientLowFi(k)); vf_reach("wrong number"); }
  else { vec s=D.constructSampleConstraint(k); row(s,D,d,D.constraintTrueValues(k)); CHECK((int)s.getSize()==d+1); s=D.constructSampleConstraintLowFi(k); row(s,D,d,D.constraintTrueValuesLowFidelity(k)); CHECK((int)s.getSize()==d+1);
    s=D.constructSampleConstraintWithGradient(k); row(s,D,d,D.constraintTrueValues(k)); tail(s,d+1,d,[&](int i){ return D.constraintGradientsMatrix(k,i); }); s=D.constructSampleConstraintWithGradientLowFi(k); row(s,D,d,D.constraintTrueValuesLowFidelity(k)); tail(s,d+1,d,[&](int i){ return D.constraintGradientsMatrixLowFi(k,i); });
    s=D.constructSampleConstraintWithTangent(k); row(s,D,d,D.constraintTrueValues(k)); tail(s,d+2,d,[&](int i){ return D.constraintDifferentiationDirectionsMatrix(k,i); }); CHECKM(s(d+1)==D.constraintTangent(k),"the directional derivative precedes its direction"); s=D.constructSampleConstraintWithTangentLowFi(k); row(s,D,d,D.constraintTrueValuesLowFidelity(k)); tail(s,d+2,d,[&](int i){ return D.constraintDifferentiationDirectionsMatrixLowFi(k,i); }); CHECKM(s(d+1)==D.constraintTangentLowFidelity(k),"the directional derivative precedes its direction");
    Design E=D; E.constraintTrueValues=vec(nc+1); THROWS(E.constructSampleConstraint(k)); THROWS(E.constructSampleConstraintWithTangent(k)); THROWS(E.constructSampleConstraintWithGradient(k)); E=D; E.constraintTrueValuesLowFidelity=vec(nc+1); THROWS(E.constructSampleConstraintLowFi(k)); E=D; E.constraintTangent=vec(nc+1); THROWS(E.constructSampleConstraintWithTangent(k)); E=D; E.constraintDifferentiationDirectionsMatrix=mat(nc+1,d); THROWS(E.constructSampleConstraintWithTangent(k)); } vf_reach("end");
}
// @entry c33_nan prop=C33 mode=fp time=60
// @bounds designs of 1..3 parameters with 0..2 constraints, value, gradient and constraint values every double; then reset, and given another dimension and number of constraints
VF_HARNESS(c33_nan){
  int d=vf_pick("d",1,3),nc=vf_pick("nc",0,2); Design D(d); if(nc) D.setNumberOfConstraints(nc); bool nan=false; auto any=[&](const char*n){ double v=vf_double(n); nan=nan|!(v==v); return v; }; D.trueValue=any("f"); for(int i=0;i<d;i++) D.gradient(i)=any("g"); for(int k=0;k<nc;k++) D.constraintTrueValues(k)=any("c"); CHECKM(D.checkIfHasNan()==nan,"undefined values are found wherever they are"); D.reset(); CHECKM(!D.checkIfHasNan()&(D.trueValue==0),"a reset design holds no values"); CHECK((int)D.designParameters.getSize()==d);
  int e=vf_pick("e",0,3),m=vf_pick("m",0,3); if(e==0){ THROWS(D.setDimension(0)); THROWS(Design(0)); THROWS(Design(-1)); Design F; THROWS(F.setNumberOfConstraints(1)); } else { D.setDimension(e); D.setNumberOfConstraints(m); CHECK((int)D.designParameters.getSize()==e&&(int)D.gradient.getSize()==e&&(int)D.constraintTrueValues.getSize()==m&&(int)D.constraintTangent.getSize()==m&&(int)D.constraintGradientsMatrix.getNRows()==m&&(m==0||(int)D.constraintGradientsMatrix.getNCols()==e)&&(int)D.constraintDifferentiationDirectionsMatrix.getNRows()==m); } vf_reach("end");
}
// @entry c33_files prop=C33 mode=real time=60 qtime=10000
// @bounds designs of 1..3 parameters in [-1000,1000] saved in one line and in one column, the files read back; empty file names
VF_HARNESS(c33_files){
  int d=vf_pick("d",1,3); Design D(d); D.designParameters=vf_vec(d,"x",-1000,1000); D.saveDesignVectorAsCSVFile("x.csv"); D.saveDesignVector("x.dat"); std::vector<std::string> l=vf_lines(vf_read_file("x.csv")); CHECKM(l.size()==1,"one line"); std::vector<std::string> w=vf_split(l[0],','); CHECKM((int)w.size()==d,"one field per parameter"); for(int i=0;i<d;i++) CHECKM(vf_close(std::stod(w[i]),D.designParameters(i),1e-6),"parameters are written in order"); l=vf_lines(vf_read_file("x.dat")); CHECKM((int)l.size()==d,"one line per parameter"); for(int i=0;i<d;i++) CHECKM(vf_close(std::stod(l[i]),D.designParameters(i),1e-6),"parameters are written in order"); THROWS(D.saveDesignVectorAsCSVFile("")); THROWS(D.saveDesignVector("")); vf_reach("end");
}
