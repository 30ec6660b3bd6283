// /repo's block-wise compressors and decompressors; no logic of its own
#include "sz_compress_3d.cpp"
#include "sz_decompress_3d.cpp"
#define E2(T) template size_t prediction_and_quantization_2d_with_border_prediction<T>(const T *, const DSize_2d&, const meanInfo<T>&, double, int, int, unsigned char *, int *, int *, float *&, T *&); \
template void prediction_and_decompression_2d_with_border_prediction<T>(const DSize_2d&, const meanInfo<T>&, double, int, const float *, const unsigned char *, const int *, const T *, T *);
#define EB(T) template size_t prediction_and_quantization_2d_with_border_prediction_with_eb<T>(const T *, const double *, const DSize_2d&, const meanInfo<T>&, int, int, unsigned char *, int *, int *, float *&, T *&); \
template void prediction_and_decompression_2d_with_border_prediction_with_eb<T>(const DSize_2d&, const double *, const meanInfo<T>&, int, const float *, const unsigned char *, const int *, const T *, T *);
#define E3(T, W) template size_t prediction_and_quantization_3d##W<T>(const T *, const DSize_3d&, const meanInfo<T>&, double, int, int, unsigned char *, int *, int *, float *&, T *&); \
template void prediction_and_decompression_3d##W<T>(const DSize_3d&, const meanInfo<T>&, double, int, const float *, const unsigned char *, const int *, const T *, T *);
E2(float) EB(float) EB(double) E3(float,) E3(double,) E3(float, _with_border_prediction) E3(double, _with_border_prediction)
