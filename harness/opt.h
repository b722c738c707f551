#pragma once
#include "data.h"
#include "Optimizers/INCLUDE/optimization.hpp"
#include "Design/INCLUDE/design.hpp"
static inline ObjectiveFunctionDefinition vf_def(const std::string&n){ ObjectiveFunctionDefinition d; d.name=n; d.designVectorFilename="dv.dat"; d.executableName="exe_"+n; d.outputFilename=n+".dat"; d.nameHighFidelityTrainingData=n+".csv"; return d; }
static inline ObjectiveFunction vf_objective(int d,const Bounds&b){ ObjectiveFunction f; f.setDimension(d); f.setParametersByDefinition(vf_def("objective")); f.setParameterBounds(b); return f; }
static inline ConstraintFunction vf_constraint(int d,const Bounds&b,int id,bool gt,double target){ ConstraintFunction c; c.setDimension(d); c.setParametersByDefinition(vf_def("constraint"+std::to_string(id))); ConstraintDefinition cd; cd.ID=id; cd.constraintName="constraint"+std::to_string(id); cd.inequalityType=gt?">":"<"; cd.value=target; c.setConstraintDefinition(cd); c.setParameterBounds(b); return c; }
// an optimizer with nc constraints; types and targets filled in
static inline void vf_study(Optimizer&O,int d,const Bounds&b,int nc,bool*gt,double*target,ObjectiveFunctionPtr fp=nullptr,ObjectiveFunctionPtr*cp=nullptr){ O.setDimension(d); ObjectiveFunction f=vf_objective(d,b); if(fp) f.setFunctionPtr(fp); O.addObjectFunction(f); for(int i=0;i<nc;i++){ ConstraintFunction c=vf_constraint(d,b,i,gt[i],target[i]); if(cp) c.setFunctionPtr(cp[i]); O.addConstraint(c); } O.setBoxConstraints(b); }
