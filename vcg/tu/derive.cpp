// includes and instantiates /repo's tolerance derivations; no logic of its own
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <vector>
#include <cassert>
#include "sz_compress_cp_preserve_2d.cpp"
#define K(T, S) \
extern "C" double k_keepabs_##S(T a, T b, T c){ return max_eb_to_keep_sign_2d_online_abs<T>(a, b, c); } \
extern "C" double k_keep_##S(T a, T b, T c){ return max_eb_to_keep_sign_2d_online<T>(a, b, c); } \
extern "C" double k_pos_##S(T a, T b, T c, T d, T e, T f){ return max_eb_to_keep_position_online<T>(a, b, c, d, e, f); } \
extern "C" double k_type_##S(T a, T b, T c, T d, T e, T f, const T * m){ return max_eb_to_keep_type_online<T>(a, b, c, d, e, f, m); } \
extern "C" double k_dabs_##S(T u0, T u1, T u2, T v0, T v1, T v2){ return derive_cp_eb_for_positions_online_abs<T>(u0, u1, u2, v0, v1, v2); } \
extern "C" double k_drel_##S(T u0, T u1, T u2, T v0, T v1, T v2, const T * c){ return derive_cp_eb_for_positions_online<T>(u0, u1, u2, v0, v1, v2, c); } \
extern "C" double k_off_##S(T u0, T u1, T u2, T v0, T v1, T v2, T x0, T x1, T x2, T y0, T y1, T y2){ return max_eb_to_keep_position_and_type<T>(u0, u1, u2, v0, v1, v2, x0, x1, x2, y0, y1, y2); } \
extern "C" double k_sign_##S(T p, T n, int d){ return max_eb_to_keep_sign<T>(p, n, d); } \
extern "C" double k_off2_##S(T a, T b){ return max_eb_to_keep_sign_2d_offline_2<T>(a, b); } \
extern "C" double k_off4_##S(T a, T b, T c, T d){ return max_eb_to_keep_sign_2d_offline_4<T>(a, b, c, d); } \
extern "C" double k_det_##S(T a, T b, T c, T d, T e, T f){ return max_eb_to_keep_sign_det2x2<T>(a, b, c, d, e, f); } \
extern "C" double k_eig_##S(T u0, T u1, T u2, T v0, T v1, T v2, T x0, T x1, T x2, T y0, T y1, T y2){ return max_eb_to_keep_sign_eigen_delta_2<T>(u0, u1, u2, v0, v1, v2, x0, x1, x2, y0, y1, y2); } \
extern "C" void k_adj_##S(T x0, T x1, T x2, T y0, T y1, T y2, T * c){ get_adjugate_matrix_for_position<T>(x0, x1, x2, y0, y1, y2, c); }
K(float, f)
K(double, d)
extern "C" int k_ebq(double * eb, int base, double lob, double thr){ return eb_exponential_quantize(*eb, base, lob, thr); }
