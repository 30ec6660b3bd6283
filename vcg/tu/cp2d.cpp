// /repo's critical-point preserving compressors and decompressors; no logic of its own
#include "sz_compress_cp_preserve_2d.cpp"
#include "sz_decompress_cp_preserve_2d.cpp"
