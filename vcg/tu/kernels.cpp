// includes and instantiates /repo's kernels; no logic of its own
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <vector>
#include <cassert>
#include "sz_def.hpp"
#include "sz_compression_utils.hpp"
#include "sz_decompression_utils.hpp"
#include "sz_cp_preserve_utils.hpp"
#include "sz3_utils.hpp"
#define K(T, S) \
extern "C" int k_quant_ow_##S(float pred, T cur, double prec, int cap, int rad, T ** u, T * d){ return quantize<T>(pred, cur, prec, cap, rad, *u, d); } \
extern "C" int k_quant_##S(float pred, T cur, double prec, int cap, int rad, T ** u){ return quantize<T>(pred, cur, prec, cap, rad, *u); } \
extern "C" T k_recover_##S(float pred, double prec, int type, int rad, const T ** u){ return recover<T>(pred, prec, type, rad, *u); } \
extern "C" T k_recover_mean_##S(const meanInfo<T> * m, float pred, double prec, int type, int rad, const T ** u){ return recover<T>(*m, pred, prec, type, rad, *u); } \
extern "C" int k_sz3_##S(VariableEBLinearQuantizer<T,T> * q, T * data, T pred, T eb){ return q->quantize_and_overwrite(*data, pred, eb); } \
extern "C" int k_sz3d_##S(VariableEBLinearQuantizer<T,T> * q, T data, T pred, T eb, T * dest){ return q->quantize_and_overwrite(data, pred, eb, *dest); } \
extern "C" T k_sz3rec_##S(VariableEBLinearQuantizer<T,T> * q, T pred, int qi, T eb){ return q->recover(pred, qi, eb); }
K(float, f)
K(double, d)
extern "C" int k_ebexp(double * eb, int base, double lob, double thr){ return eb_exponential_quantize(*eb, base, lob, thr); }
extern "C" int k_eblin(double * eb, double thr){ return eb_linear_quantize(*eb, thr); }
