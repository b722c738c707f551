#pragma once
#include "opt.h"
#include "SurrogateModels/INCLUDE/surrogate_model.hpp"
// a surrogate model whose predictions are whatever the harness says
class Havoc : public SurrogateModel { public:
  void (*answer)(const vec&x,double*f,double*s2)=nullptr;
  void setNameOfInputFile(std::string) override {} void setNameOfHyperParametersFile(std::string) override {} void setNumberOfTrainingIterations(unsigned int) override {} void setBoxConstraints(Bounds) override {} void readData(void) override {} void normalizeData(void) override {} void initializeSurrogateModel(void) override {} void printSurrogateModel(void) const override {} void printHyperParameters(void) const override {} void saveHyperParameters(void) const override {} void loadHyperParameters(void) override {} void train(void) override {}
  double interpolate(vec x) const override { double f,s; answer(x,&f,&s); return f; } double interpolateUsingDerivatives(vec x) const override { return interpolate(x); } void interpolateWithVariance(vec x,double*f,double*s) const override { answer(x,f,s); }
  void addNewSampleToData(vec) override {} void addNewLowFidelitySampleToData(vec) override {} void updateModelWithNewData(void) override {}
};
#include "SurrogateModels/INCLUDE/kriging_training.hpp"
// Kriging models whose training only takes note of itself: the hyperparameters stay as they are
struct Training { const void*model; unsigned samples; }; static std::vector<Training> vf_trainings;
class Untrained : public KrigingModel { public: void train(void) override { vf_trainings.push_back({(const void*)this,data.getNumberOfSamples()}); updateAuxilliaryFields(); ifModelTrainingIsDone=true; } };
// makes the Kriging model of a function an untrained one (the classes differ in their virtual functions only)
static inline void vf_untrain(ObjectiveFunction&f){ static Untrained u; __builtin_memcpy((void*)&f.surrogateModel,(const void*)&u,sizeof(void*)); }
static inline void vf_untrain(Optimizer&O){ vf_untrain(O.objFun); for(auto&c:O.constraintFunctions) vf_untrain(c); }
