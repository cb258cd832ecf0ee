// Symbolic-run definitions of the out-of-line parts of Ceres used by the code.
#include "sx_api.h"
#include <ceres/ceres.h>
namespace ceres {
CostFunction::CostFunction() : num_residuals_(0) {}
CostFunction::~CostFunction() {}
LossFunction::~LossFunction() {}
void HuberLoss::Evaluate(double, double out[3]) const { out[0] = out[1] = out[2] = 0; }
}
