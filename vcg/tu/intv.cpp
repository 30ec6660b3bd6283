// includes and instantiates /repo's interval estimation; no logic of its own
#include <cmath>
#include <cstdlib>
#include <cstddef>
#include <vector>
#include "sz_def.hpp"
#include "sz_compression_utils.hpp"
#include "sz_prediction.hpp"
#include "sz_optimize_quant_intervals.hpp"
extern "C" unsigned int k_estimate(const std::vector<size_t> * v, size_t n){ return estimate_quantization_intervals(*v, n); }
extern "C" bool k_opt_f(const float * d, size_t r1, size_t r2, size_t r3, double p, int * cap){ return optimize_quant_invl_3d<float>(d, r1, r2, r3, p, *cap).use_mean; }
extern "C" bool k_opt_d(const double * d, size_t r1, size_t r2, size_t r3, double p, int * cap){ return optimize_quant_invl_3d<double>(d, r1, r2, r3, p, *cap).use_mean; }
