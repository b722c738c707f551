#pragma once
#include "common.h"
#include "InternalOptimizers/INCLUDE/ea_optimizer.hpp"
static inline EAIndividual vf_individual(int d,unsigned id,double J){ EAIndividual I(d); vec g(d); for(int i=0;i<d;i++) g(i)=(double)id+0.125*i; I.setGenes(g); I.setId(id); I.setObjectiveFunctionValue(J); return I; }
