// includes and instantiates /repo's block kernels; no logic of its own
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <vector>
#include <cassert>
#include "sz_def.hpp"
#include "sz_compression_utils.hpp"
#include "sz_decompression_utils.hpp"
#include "sz_prediction.hpp"
#include "sz_compress_block_processing.hpp"
#include "sz_decompress_block_processing.hpp"
#define B(T) \
template void block_pred_and_quant_regression_2d_with_buffer<T>(const T *, const float *, T *, double, int, int, int, int, size_t, size_t, int *&, T *&); \
template void block_pred_and_quant_lorenzo_2d<T>(const meanInfo<T>&, const T *, T *, double, int, int, int, int, size_t, size_t, int *&, T *&); \
template void block_pred_and_quant_lorenzo_2d_with_eb<T>(const meanInfo<T>&, const T *, T *, const double *, int, int, int, int, size_t, size_t, int *&, T *&); \
template void block_pred_and_quant_regression_3d<T>(const T *, const float *, double, int, int, int, int, int, size_t, size_t, int *&, T *&); \
template void block_pred_and_quant_regression_3d_with_buffer<T>(const T *, const float *, T *, double, int, int, int, int, int, size_t, size_t, size_t, size_t, int *&, T *&); \
template void block_pred_and_quant_lorenzo_3d<T>(const meanInfo<T>&, const T *, T *, double, int, int, int, int, int, size_t, size_t, size_t, size_t, int *&, T *&); \
template void block_pred_and_decompress_regression_2d_with_buffer<T>(const float *, T *, double, int, int, int, size_t, size_t, const int *&, const T *&, T *); \
template void block_pred_and_decompress_lorenzo_2d<T>(const meanInfo<T>&, T *, double, int, int, int, size_t, size_t, const int *&, const T *&, T *); \
template void block_pred_and_decompress_lorenzo_2d_with_eb<T>(const meanInfo<T>&, T *, const double *, int, int, int, size_t, size_t, const int *&, const T *&, T *); \
template void block_pred_and_decompress_regression_3d<T>(const float *, double, int, int, int, int, size_t, size_t, const int *&, const T *&, T *); \
template void block_pred_and_decompress_regression_3d_with_buffer<T>(const float *, T *, double, int, int, int, int, size_t, size_t, size_t, size_t, const int *&, const T *&, T *); \
template void block_pred_and_decompress_lorenzo_3d<T>(const meanInfo<T>&, T *, double, int, int, int, int, size_t, size_t, size_t, size_t, const int *&, const T *&, T *);
B(float)
B(double)
