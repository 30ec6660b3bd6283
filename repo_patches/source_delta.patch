From 902f707eadbfaf7e248202fddf8b7c39666599c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:51 +0000
Subject: [PATCH 01/14] fix: allocate the unpredictable-data and output buffers
 large enough for incompressible data

---
 include/sz_compression_utils.hpp            |  4 +++
 src/sz_compress_3d.cpp                      | 31 +++++++++++++--------
 src/sz_compress_cp_preserve_2d.cpp          | 19 ++++++++-----
 src/sz_compress_cp_preserve_2d_bilinear.cpp |  3 +-
 src/sz_compression_utils.cpp                | 12 ++++++++
 5 files changed, 50 insertions(+), 19 deletions(-)

diff --git a/include/sz_compression_utils.hpp b/include/sz_compression_utils.hpp
index a335c15..339d6f4 100644
--- a/include/sz_compression_utils.hpp
+++ b/include/sz_compression_utils.hpp
@@ -117,6 +117,10 @@ convertIntArray2ByteArray_fast_1b_to_result_sz(const unsigned char* intArray, si
 HuffmanTree *
 build_Huffman_tree(const int * type, size_t num_elements, size_t state_num);
 
+// upper bound of the bytes touched by Huffman_encode_tree_and_data
+size_t
+Huffman_encoded_size_bound(size_t state_num, size_t num_elements);
+
 void
 Huffman_encode_tree_and_data(size_t state_num, const int * type, size_t num_elements, unsigned char*& compressed_pos);
 
diff --git a/src/sz_compress_3d.cpp b/src/sz_compress_3d.cpp
index 941ee10..ba16023 100644
--- a/src/sz_compress_3d.cpp
+++ b/src/sz_compress_3d.cpp
@@ -6,6 +6,19 @@
 #include "sz_optimize_quant_intervals.hpp"
 #include "sz_regression_utils.hpp"
 
+// upper bound of the compressed size of the block-wise compressors
+template<typename T>
+size_t
+compressed_size_bound(size_t num_elements, size_t num_blocks, size_t state_num, size_t unpredictable_count, size_t reg_coeff_count){
+	// block size, precision, dependancy, radius, mean, regression and unpredictable counts
+	size_t bound = sizeof(int) + sizeof(double) + sizeof(char) + sizeof(int) + sizeof(meanInfo<T>) + 2*sizeof(size_t);
+	bound += unpredictable_count*sizeof(T);
+	bound += num_blocks/8 + 1;
+	bound += sizeof(size_t) + reg_coeff_count*sizeof(float) + Huffman_encoded_size_bound(2*RegCoeffCapacity, reg_coeff_count);
+	bound += Huffman_encoded_size_bound(state_num, num_elements);
+	return bound;
+}
+
 // return regression count
 // use block-dependant lorenzo pred & quant
 template<typename T>
@@ -86,7 +99,7 @@ sz_compress_2d(const T * data, size_t r1, size_t r2, double precision, size_t& c
 	meanInfo<T> mean_info;// = optimize_quant_invl_2d(data, r1, r2, precision, capacity);
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum2d * size.num_blocks * sizeof(int));
@@ -95,8 +108,7 @@ sz_compress_2d(const T * data, size_t r1, size_t r2, double precision, size_t& c
 	size_t reg_count = prediction_and_quantization_2d_with_border_prediction(data, size, mean_info, precision, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t est_size = compressed_size_bound<T>(size.num_elements, size.num_blocks, 2*capacity, unpredictable_count, RegCoeffNum2d*reg_count);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -212,8 +224,7 @@ sz_compress_2d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	size_t reg_count = prediction_and_quantization_2d_with_border_prediction_with_eb(data, precisions, size, mean_info, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t est_size = compressed_size_bound<T>(size.num_elements, size.num_blocks, 2*capacity, unpredictable_count, RegCoeffNum2d*reg_count);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -401,7 +412,7 @@ sz_compress_3d(const T * data, size_t r1, size_t r2, size_t r3, double precision
 	meanInfo<T> mean_info = optimize_quant_invl_3d(data, r1, r2, r3, precision, capacity);
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum3d * size.num_blocks * sizeof(int));
@@ -411,8 +422,7 @@ sz_compress_3d(const T * data, size_t r1, size_t r2, size_t r3, double precision
 			: prediction_and_quantization_3d_with_border_prediction(data, size, mean_info, precision, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t est_size = compressed_size_bound<T>(size.num_elements, size.num_blocks, 2*capacity, unpredictable_count, RegCoeffNum3d*reg_count);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -533,7 +543,7 @@ sz_compress_3d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	meanInfo<T> mean_info;
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum3d * size.num_blocks * sizeof(int));
@@ -542,8 +552,7 @@ sz_compress_3d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	size_t reg_count = prediction_and_quantization_3d_with_border_prediction_with_eb(data, precisions, size, mean_info, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t est_size = compressed_size_bound<T>(size.num_elements, size.num_blocks, 2*capacity, unpredictable_count, RegCoeffNum3d*reg_count);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 94100d3..7f74add 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -232,7 +232,7 @@ sz_compress_cp_preserve_2d_offline(const T * U, const T * V, size_t r1, size_t r
 	}
 	free(eb);
 	printf("quantize eb done\n");
-	unsigned char * compressed_eb = (unsigned char *) malloc(2*num_elements*sizeof(int));
+	unsigned char * compressed_eb = (unsigned char *) malloc(Huffman_encoded_size_bound(2*1024, 2*num_elements));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, 2*num_elements, compressed_eb_pos);
 	size_t compressed_eb_size = compressed_eb_pos - compressed_eb;
@@ -334,7 +334,7 @@ sz_compress_cp_preserve_2d_offline_log(const T * U, const T * V, size_t r1, size
 		// *(eb_quant_index_pos ++) = eb_linear_quantize(eb[i], 5e-3);
 	}
 	// printf("quantize eb done\n");
-	unsigned char * compressed_eb = (unsigned char *) malloc(num_elements*sizeof(int));
+	unsigned char * compressed_eb = (unsigned char *) malloc(Huffman_encoded_size_bound(2*1024, num_elements));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, num_elements, compressed_eb_pos);
 	size_t compressed_eb_size = compressed_eb_pos - compressed_eb;
@@ -696,7 +696,8 @@ sz_compress_cp_preserve_2d_online(const T * U, const T * V, size_t r1, size_t r2
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	size_t header_size = sizeof(base) + sizeof(threshold) + sizeof(intv_radius) + sizeof(size_t) + unpred_data.size()*sizeof(T);
+	unsigned char * compressed = (unsigned char *) malloc(header_size + Huffman_encoded_size_bound(2*1024, 2*num_elements) + Huffman_encoded_size_bound(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -961,7 +962,8 @@ sz_compress_cp_preserve_2d_online_log(const T * U, const T * V, size_t r1, size_
 	free(decompressed_U);
 	free(decompressed_V);
 	// printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	size_t header_size = sizeof(base) + sizeof(intv_radius) + 2*sign_map_size + sizeof(size_t) + unpred_data.size()*sizeof(T);
+	unsigned char * compressed = (unsigned char *) malloc(header_size + Huffman_encoded_size_bound(2*1024, num_elements) + Huffman_encoded_size_bound(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -1224,7 +1226,8 @@ sz_compress_cp_preserve_2d_online_abs(const T * U, const T * V, size_t r1, size_
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	size_t header_size = sizeof(base) + sizeof(threshold) + sizeof(intv_radius) + sizeof(size_t) + unpred_data.size()*sizeof(T);
+	unsigned char * compressed = (unsigned char *) malloc(header_size + Huffman_encoded_size_bound(2*1024, 2*num_elements) + Huffman_encoded_size_bound(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -1512,7 +1515,8 @@ sz_compress_cp_preserve_2d_online_abs_relax_FN(const T * U, const T * V, size_t
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	size_t header_size = sizeof(base) + sizeof(threshold) + sizeof(intv_radius) + sizeof(size_t) + unpred_data.size()*sizeof(T);
+	unsigned char * compressed = (unsigned char *) malloc(header_size + Huffman_encoded_size_bound(2*1024, 2*num_elements) + Huffman_encoded_size_bound(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -1795,7 +1799,8 @@ sz3_compress_cp_preserve_2d_online_abs(const T * U, const T * V, size_t r1, size
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q: %ld %ld\n", eb_quant_index_pos - eb_quant_index, quant_index);
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	size_t header_size = sizeof(base) + sizeof(threshold) + sizeof(capacity) + sizeof(unsigned char) + sizeof(int) + sizeof(size_t) + quantizer.size_est();
+	unsigned char * compressed = (unsigned char *) malloc(header_size + Huffman_encoded_size_bound(2*1024, num_elements) + Huffman_encoded_size_bound(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
diff --git a/src/sz_compress_cp_preserve_2d_bilinear.cpp b/src/sz_compress_cp_preserve_2d_bilinear.cpp
index 370e3a7..900830c 100644
--- a/src/sz_compress_cp_preserve_2d_bilinear.cpp
+++ b/src/sz_compress_cp_preserve_2d_bilinear.cpp
@@ -1052,7 +1052,8 @@ sz_compress_cp_preserve_2d_bilinear_online_log(const T * U, const T * V, size_t
 	free(decompressed_U);
 	free(decompressed_V);
 	// printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	size_t header_size = sizeof(base) + sizeof(intv_radius) + 2*sign_map_size + sizeof(size_t) + unpred_data.size()*sizeof(T);
+	unsigned char * compressed = (unsigned char *) malloc(header_size + Huffman_encoded_size_bound(2*1024, num_elements) + Huffman_encoded_size_bound(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
diff --git a/src/sz_compression_utils.cpp b/src/sz_compression_utils.cpp
index 2fd36e5..46e23c8 100644
--- a/src/sz_compression_utils.cpp
+++ b/src/sz_compression_utils.cpp
@@ -58,6 +58,18 @@ build_Huffman_tree(size_t state_num, const int * type, size_t num_elements){
 	return huffman;
 }
 
+size_t
+Huffman_encoded_size_bound(size_t state_num, size_t num_elements){
+	// node count, tree size and size of the codes
+	size_t header_size = 2*sizeof(size_t) + sizeof(unsigned int);
+	// a tree node takes at most two child indices, one state and one tag
+	size_t node_count = 2*((state_num < num_elements) ? state_num : num_elements);
+	size_t tree_size = 1 + node_count*(3*sizeof(unsigned int) + sizeof(unsigned char));
+	// codes are not longer on average than fixed-length ones, encode() writes 8 bytes at a time
+	size_t data_size = num_elements*sizeof(int) + 2*sizeof(unsigned long);
+	return header_size + tree_size + data_size;
+}
+
 void
 Huffman_encode_tree_and_data(size_t state_num, const int * type, size_t num_elements, unsigned char*& compressed_pos){
 	HuffmanTree * huffman = build_Huffman_tree(state_num, type, num_elements);
-- 
2.43.0


From 38ea9cef2c53869d904e59633ee6dd0730eb4651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:51 +0000
Subject: [PATCH 02/14] fix: skip unpredictable data with the element size in
 sz_decompress_3d

---
 src/sz_decompress_3d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sz_decompress_3d.cpp b/src/sz_decompress_3d.cpp
index 6710b38..bd7700d 100644
--- a/src/sz_decompress_3d.cpp
+++ b/src/sz_decompress_3d.cpp
@@ -271,7 +271,7 @@ sz_decompress_3d(const unsigned char * compressed, size_t r1, size_t r2, size_t
 	size_t unpredictable_count = 0;
 	read_variable_from_src(compressed_pos, unpredictable_count);
 	const T * unpredictable_data = (const T *) compressed_pos;
-	compressed_pos += unpredictable_count * sizeof(float);
+	compressed_pos += unpredictable_count * sizeof(T);
 	unsigned char * indicator = convertByteArray2IntArray_fast_1b_sz(size.num_blocks, compressed_pos, (size.num_blocks - 1)/8 + 1);
 	float * reg_params = NULL;
 	if(reg_count) reg_params = decode_regression_coefficients(compressed_pos, reg_count, size.block_size, precision);
-- 
2.43.0


From daf32e08acb39b8aeabfdedf800630b3dc00a7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:51 +0000
Subject: [PATCH 03/14] fix: count the stored threshold in the size of the
 offline compressed data

---
 src/sz_compress_cp_preserve_2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 7f74add..71ed4f2 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -243,7 +243,7 @@ sz_compress_cp_preserve_2d_offline(const T * U, const T * V, size_t r1, size_t r
 	printf("eb_size = %ld, u_size = %ld, v_size = %ld\n", compressed_eb_size, compressed_u_size, compressed_v_size);
 	free(eb_u);
 	free(eb_v);
-	compressed_size = sizeof(int) + sizeof(size_t) + compressed_eb_size + sizeof(size_t) + compressed_u_size + sizeof(size_t) + compressed_v_size;
+	compressed_size = sizeof(int) + sizeof(double) + sizeof(size_t) + compressed_eb_size + sizeof(size_t) + compressed_u_size + sizeof(size_t) + compressed_v_size;
 	unsigned char * compressed = (unsigned char *) malloc(compressed_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
-- 
2.43.0


From 321ffea0924bffeb13916f95c051fa4d4a7316c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:28 +0000
Subject: [PATCH 04/14] fix: keep sampling of the rough mean moving forward on
 tiny 3D data

---
 include/sz_optimize_quant_intervals.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sz_optimize_quant_intervals.hpp b/include/sz_optimize_quant_intervals.hpp
index 896ec65..4abe24a 100644
--- a/include/sz_optimize_quant_intervals.hpp
+++ b/include/sz_optimize_quant_intervals.hpp
@@ -40,6 +40,8 @@ float
 sample_rough_mean_3d(const T * data, size_t r1, size_t r2, size_t r3, size_t sample_distance){
 	double mean = 0;
 	size_t len = r1 * r2 * r3;
+	// the two backward steps below must not cancel the stride
+	if(sample_distance < 3) sample_distance = 3;
 	const T * data_pos = data;
 	size_t offset_count = 0;
 	size_t offset_count_2 = 0;
-- 
2.43.0


From 0ab6ac993e0debd040b62d3f6d3664ee600252fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 05/14] fix: transform double data with double-precision
 logarithm in the log-domain compressors

---
 include/sz_cp_preserve_utils.hpp     | 2 +-
 src/sz_decompress_cp_preserve_2d.cpp | 4 ++--
 src/sz_decompress_cp_preserve_3d.cpp | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sz_cp_preserve_utils.hpp b/include/sz_cp_preserve_utils.hpp
index 094d65f..259274c 100644
--- a/include/sz_cp_preserve_utils.hpp
+++ b/include/sz_cp_preserve_utils.hpp
@@ -138,7 +138,7 @@ log_transform(const T * data, unsigned char * sign, size_t n, bool verbose=false
 		sign[i] = 0;
 		if(data[i] != 0){
 			sign[i] = (data[i] > 0);
-			log_data[i] = (data[i] > 0) ? log2f(data[i]) : log2f(-data[i]); 
+			log_data[i] = (data[i] > 0) ? std::log2(data[i]) : std::log2(-data[i]); 
 		}
 		else{
 			sign[i] = 0;
diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index 775ced3..976c523 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -210,8 +210,8 @@ sz_decompress_cp_preserve_2d_online_log(const unsigned char * compressed, size_t
 				unpred_data_indices.insert(i*r2 + j);
 				T data_U = *(unpred_data_pos ++);
 				T data_V = *(unpred_data_pos ++);
-				*U_pos = (data_U == 0) ? -100 : log2f(fabs(data_U));
-				*V_pos = (data_V == 0) ? -100 : log2f(fabs(data_V));
+				*U_pos = (data_U == 0) ? -100 : std::log2(fabs(data_U));
+				*V_pos = (data_V == 0) ? -100 : std::log2(fabs(data_V));
 				eb_quant_index_pos ++;
 			}
 			else{
diff --git a/src/sz_decompress_cp_preserve_3d.cpp b/src/sz_decompress_cp_preserve_3d.cpp
index 617b92f..3816718 100644
--- a/src/sz_decompress_cp_preserve_3d.cpp
+++ b/src/sz_decompress_cp_preserve_3d.cpp
@@ -58,7 +58,7 @@ sz_decompress_cp_preserve_3d_online_log(const unsigned char * compressed, size_t
 					unpred_data_indices.insert(index);
 					for(int p=0; p<3; p++){
 						T cur_data = *(eb_zero_data_pos ++);
-						*(data_pos[p]) = (cur_data == 0) ? -100 : log2f(fabs(cur_data));
+						*(data_pos[p]) = (cur_data == 0) ? -100 : std::log2(fabs(cur_data));
 					}
 					eb_quant_index_pos ++;
 				}
@@ -157,7 +157,7 @@ sz_decompress_cp_preserve_3d_unstructured(const unsigned char * compressed, int
 			unpred_data_indices.insert(i);
 			for(int p=0; p<3; p++){
 				T cur_data = *(eb_zero_data_pos ++);
-				data_pos[p] = (cur_data == 0) ? -100 : log2f(fabs(cur_data));
+				data_pos[p] = (cur_data == 0) ? -100 : std::log2(fabs(cur_data));
 			}
 			eb_quant_index_pos ++;
 		}
-- 
2.43.0


From 1a26dbf6f58aa26fb0096b9785736ce3015c31cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:51 +0000
Subject: [PATCH 06/14] fix: keep the recorded and the applied error bound
 consistent when the bound index is 0

---
 include/sz_cp_preserve_utils.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/sz_cp_preserve_utils.hpp b/include/sz_cp_preserve_utils.hpp
index 259274c..31e3bd2 100644
--- a/include/sz_cp_preserve_utils.hpp
+++ b/include/sz_cp_preserve_utils.hpp
@@ -12,12 +12,14 @@ template<typename T>
 using unpred_vec = std::vector<T>;
 
 inline int eb_exponential_quantize(double& eb, const int base, const double log_of_base, const double threshold=std::numeric_limits<float>::epsilon()){
-	if(eb <= threshold){
+	// written to reject NaN as well
+	if(!(eb > threshold)){
 		eb = 0;
 		return 0;
 	}
 	int id = log2(eb / threshold)/log_of_base;
-	eb = pow(base, id) * threshold;
+	// index 0 stands for an error bound of 0
+	eb = (id == 0) ? 0 : pow(base, id) * threshold;
 	return id;
 }
 
-- 
2.43.0


From 8764dea606577de8b4be1a3e0c3e94e153a7fc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:37 +0000
Subject: [PATCH 07/14] fix: check the reconstruction error in the FN-relaxed
 compressor

---
 src/sz_compress_cp_preserve_2d.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 71ed4f2..c507e2c 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -1450,6 +1450,11 @@ sz_compress_cp_preserve_2d_online_abs_relax_FN(const T * U, const T * V, size_t
 						int quant_index = (int)(quant_diff/2) + intv_radius;
 						data_quant_index_pos[k] = quant_index;
 						decompressed[k] = pred + 2 * (quant_index - intv_radius) * abs_eb; 
+						// check original data
+						if(std::abs(decompressed[k] - cur_data) > abs_eb){
+							unpred_flag = true;
+							break;
+						}
 					}
 					else{
 						unpred_flag = true;
-- 
2.43.0


From 77e994b9dd5422039fe140b6c71d5abc8a2d7b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:37 +0000
Subject: [PATCH 08/14] fix: avoid integer overflow of the quantization index
 in VariableEBLinearQuantizer

---
 include/sz3_utils.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/sz3_utils.hpp b/include/sz3_utils.hpp
index e06288a..604d00e 100644
--- a/include/sz3_utils.hpp
+++ b/include/sz3_utils.hpp
@@ -12,8 +12,10 @@ public:
     int quantize(T data, T pred, T_eb eb) {
         if(eb == 0) return 0;
         T diff = data - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
-        if (quant_index < this->radius * 2) {
+        // compare before the conversion, which may exceed the range of int
+        T quant_diff = fabs(diff) / eb;
+        if (quant_diff < this->radius * 2 - 1) {
+            int quant_index = (int) quant_diff + 1;
             quant_index >>= 1;
             int half_index = quant_index;
             quant_index <<= 1;
@@ -45,8 +47,10 @@ public:
         //     std::cout << data << " " << pred << " " << eb << std::endl;
         // }
         T diff = data - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
-        if (quant_index < this->radius * 2) {
+        // compare before the conversion, which may exceed the range of int
+        T quant_diff = fabs(diff) / eb;
+        if (quant_diff < this->radius * 2 - 1) {
+            int quant_index = (int) quant_diff + 1;
             quant_index >>= 1;
             int half_index = quant_index;
             quant_index <<= 1;
@@ -81,8 +85,10 @@ public:
             return 0;
         }
         T diff = ori - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
-        if (quant_index < this->radius * 2) {
+        // compare before the conversion, which may exceed the range of int
+        T quant_diff = fabs(diff) / eb;
+        if (quant_diff < this->radius * 2 - 1) {
+            int quant_index = (int) quant_diff + 1;
             quant_index >>= 1;
             int half_index = quant_index;
             quant_index <<= 1;
-- 
2.43.0


From 73643e999153fecf26f762e3ef6f536fbaa09cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:37 +0000
Subject: [PATCH 09/14] fix: do not reject compressed data of one or two points
 in the sz3 decompressor

---
 src/sz_decompress_cp_preserve_2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index 976c523..22e6fd8 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -333,7 +333,7 @@ sz3_decompress_cp_preserve_2d_online(const unsigned char * compressed, size_t r1
 	read_variable_from_src(compressed_pos, capacity);
 	int interpolation_level = (uint) ceil(log2(max(r1, r2)));
 	auto quantizer = VariableEBLinearQuantizer<T, T>(capacity>>1);
-	size_t remaining_length = num_elements*sizeof(T);//placeholder
+	size_t remaining_length = std::numeric_limits<size_t>::max();//placeholder, compressed length is unknown here
 	quantizer.load(compressed_pos, remaining_length);
 
 	int * eb_quant_index = Huffman_decode_tree_and_data(2*1024, num_elements, compressed_pos);
-- 
2.43.0


From 1306c1e2de66a0260746c285e854385c381d0f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:44 +0000
Subject: [PATCH 10/14] fix: separate zeros from nonzero values in the
 pointwise relative compressors

---
 src/sz_compress_pwr.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sz_compress_pwr.cpp b/src/sz_compress_pwr.cpp
index 4365e11..9a6d48c 100644
--- a/src/sz_compress_pwr.cpp
+++ b/src/sz_compress_pwr.cpp
@@ -21,7 +21,8 @@ sz_compress_2d_pwr(const T * data, size_t r1, size_t r2, double precision, size_
 		max_data = MAX(max_data, data[i]);
 	}
 	T max_abs_log_data = 0;
-    if(min_data == 0) max_abs_log_data = fabs(log2(fabs(max_data)));
+    if((min_data == 0) && (max_data == 0)) max_abs_log_data = 0;
+    else if(min_data == 0) max_abs_log_data = fabs(log2(fabs(max_data)));
     else if(max_data == 0) max_abs_log_data = fabs(log2(fabs(min_data)));
     else max_abs_log_data = fabs(log2(fabs(min_data))) > fabs(log2(fabs(max_data))) ? fabs(log2(fabs(min_data))) : fabs(log2(fabs(max_data)));
     T min_log_data = max_abs_log_data;
@@ -42,14 +43,15 @@ sz_compress_2d_pwr(const T * data, size_t r1, size_t r2, double precision, size_
 	double log_precision = log2(1.0 + precision) - max_abs_log_data * std::numeric_limits<T>::epsilon();
 	for(size_t i=0; i<num_elements; i++){
 		if(data[i] == 0){
-			log_data[i] = min_log_data - 2.0001*log_precision;
+			// zeros stay below the threshold and the others above it in spite of rounding
+			log_data[i] = min_log_data - 4*log_precision;
 		}
 	}
 	size_t log_compressed_size = 0;
 	unsigned char * log_compressed = sz_compress_2d(log_data, r1, r2, log_precision, log_compressed_size, BSIZE, block_independant);
     free(log_data);
 	size_t sign_size = (num_elements-1)/8 + 1;
-	T threshold = min_log_data - 1.0001*log_precision;
+	T threshold = min_log_data - 2.5*log_precision;
 	compressed_size = sizeof(T) + sign_size + log_compressed_size;
     unsigned char * final_compressed = (unsigned char *) malloc(compressed_size);
     unsigned char * final_compressed_pos = final_compressed;
@@ -97,6 +99,8 @@ sz_compress_2d_pwr_with_eb(const T * data, const double * ebs, double **final_lo
 			threshold = MIN(threshold, log_data[i] - 1.0001 * log_ebs[i]);
 		}
 	}
+	// must differ from every decompressed nonzero value
+	threshold -= 1;
 	for(size_t i=0; i<num_elements; i++){
 		if(data[i] == 0){
 			log_data[i] = threshold;
-- 
2.43.0


From e6b7b606050b15be1c92b8707efa48e2a5de78a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:36 +0000
Subject: [PATCH 11/14] fix: no indeterminate padding in the meanInfo written
 to the compressed data

---
 include/sz_def.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sz_def.hpp b/include/sz_def.hpp
index 9d28edf..a7584fd 100644
--- a/include/sz_def.hpp
+++ b/include/sz_def.hpp
@@ -137,8 +137,10 @@ struct DSize_3d{
 template<typename T>
 struct meanInfo{
 	bool use_mean;
+	// the struct is written to the compressed data as it is: no indeterminate padding
+	char reserved[sizeof(T) - sizeof(bool)];
 	T mean;
-	meanInfo(bool use = false, T mean_ = 0){
+	meanInfo(bool use = false, T mean_ = 0) : reserved(){
 		use_mean = use;
 		mean = mean_;
 	}
-- 
2.43.0


From 59840d9cd2d16226b6aefd50150de2262094cf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:27 +0000
Subject: [PATCH 12/14] fix: keep the heap order when removing from the Huffman
 priority queue

The last element was put at the bottom of the path of smaller children without
comparing it with its new parent, so the queue lost its order and the code its
optimality.
---
 src/sz_huffman.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sz_huffman.cpp b/src/sz_huffman.cpp
index b828687..333215c 100644
--- a/src/sz_huffman.cpp
+++ b/src/sz_huffman.cpp
@@ -137,6 +137,7 @@ node qremove(HuffmanTree* huffmanTree)
 	while ((l = (i<<1)) < huffmanTree->qend)  //l=(i*2)
 	{
 		if (l + 1 < huffmanTree->qend && huffmanTree->qq[l + 1]->freq < huffmanTree->qq[l]->freq) l++;
+		if (huffmanTree->qq[huffmanTree->qend]->freq <= huffmanTree->qq[l]->freq) break;
 		huffmanTree->qq[i] = huffmanTree->qq[l], i = l;
 	}
 	huffmanTree->qq[i] = huffmanTree->qq[huffmanTree->qend];
-- 
2.43.0


From 40819227aea1209692aca967b89d425ee19c11ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:55 +0000
Subject: [PATCH 13/14] fix: keep tiny magnitudes apart from zero in the
 log-domain CP compressors

Values below 2^-99 decoded as zero because the logarithm standing for zero was
-100; it now lies below the logarithm of every non-zero magnitude.
---
 include/sz_cp_preserve_utils.hpp     |  9 +++++++--
 src/sz_decompress_cp_preserve_2d.cpp | 13 +++++++------
 src/sz_decompress_cp_preserve_3d.cpp | 13 +++++++------
 3 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/include/sz_cp_preserve_utils.hpp b/include/sz_cp_preserve_utils.hpp
index 31e3bd2..51d1bbe 100644
--- a/include/sz_cp_preserve_utils.hpp
+++ b/include/sz_cp_preserve_utils.hpp
@@ -132,6 +132,11 @@ inline void accumulate(const T value, double& positive, double& negative){
 	else negative += - value;
 }
 
+// stands for the logarithm of zero: below that of every non-zero magnitude (2^-1074),
+// with room for the error of a recorded value
+#define LOG_OF_ZERO -1200
+#define LOG_OF_ZERO_THRESHOLD -1100
+
 template<typename T>
 T *
 log_transform(const T * data, unsigned char * sign, size_t n, bool verbose=false){
@@ -144,7 +149,7 @@ log_transform(const T * data, unsigned char * sign, size_t n, bool verbose=false
 		}
 		else{
 			sign[i] = 0;
-			log_data[i] = -100; //TODO???
+			log_data[i] = LOG_OF_ZERO;
 		}
 	}
 	return log_data;
@@ -163,7 +168,7 @@ log_transform(const T * data, unsigned char * sign, unsigned char * zero, size_t
 		}
 		else{
 			sign[i] = 0;
-			log_data[i] = -100; //TODO???
+			log_data[i] = LOG_OF_ZERO;
 			zero[i] = 1;
 		}
 	}
diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index 22e6fd8..c259753 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -1,6 +1,7 @@
 #include "sz_decompress_3d.hpp"
 #include "sz_decompress_cp_preserve_2d.hpp"
 #include "sz_decompress_block_processing.hpp"
+#include "sz_cp_preserve_utils.hpp"
 #include <limits>
 #include <unordered_set>
 #include "sz3_utils.hpp"
@@ -85,12 +86,12 @@ sz_decompress_cp_preserve_2d_offline_log(const unsigned char * compressed, size_
 	U = sz_decompress_2d_with_eb<T>(compressed_pos, eb, r1, r2);
 	compressed_pos += compressed_u_size;
 	for(int i=0; i<num_elements; i++){
-		if(U[i] < -99) U[i] = 0;
+		if(U[i] < LOG_OF_ZERO_THRESHOLD) U[i] = 0;
 		else U[i] = sign_map_u[i] ? exp2(U[i]) : -exp2(U[i]);
 	}
 	V = sz_decompress_2d_with_eb<T>(compressed_pos, eb, r1, r2);
 	for(int i=0; i<num_elements; i++){
-		if(V[i] < -99) V[i] = 0;
+		if(V[i] < LOG_OF_ZERO_THRESHOLD) V[i] = 0;
 		else V[i] = sign_map_v[i] ? exp2(V[i]) : -exp2(V[i]);
 	}
 	free(sign_map_u);
@@ -210,8 +211,8 @@ sz_decompress_cp_preserve_2d_online_log(const unsigned char * compressed, size_t
 				unpred_data_indices.insert(i*r2 + j);
 				T data_U = *(unpred_data_pos ++);
 				T data_V = *(unpred_data_pos ++);
-				*U_pos = (data_U == 0) ? -100 : std::log2(fabs(data_U));
-				*V_pos = (data_V == 0) ? -100 : std::log2(fabs(data_V));
+				*U_pos = (data_U == 0) ? LOG_OF_ZERO : std::log2(fabs(data_U));
+				*V_pos = (data_V == 0) ? LOG_OF_ZERO : std::log2(fabs(data_V));
 				eb_quant_index_pos ++;
 			}
 			else{
@@ -239,9 +240,9 @@ sz_decompress_cp_preserve_2d_online_log(const unsigned char * compressed, size_t
 			V[i] = *(unpred_data_pos++);
 		}
 		else{
-			if(U[i] < -99) U[i] = 0;
+			if(U[i] < LOG_OF_ZERO_THRESHOLD) U[i] = 0;
 			else U[i] = sign_map_u[i] ? exp2(U[i]) : -exp2(U[i]);
-			if(V[i] < -99) V[i] = 0;
+			if(V[i] < LOG_OF_ZERO_THRESHOLD) V[i] = 0;
 			else V[i] = sign_map_v[i] ? exp2(V[i]) : -exp2(V[i]);
 		}
 	}
diff --git a/src/sz_decompress_cp_preserve_3d.cpp b/src/sz_decompress_cp_preserve_3d.cpp
index 3816718..8d18deb 100644
--- a/src/sz_decompress_cp_preserve_3d.cpp
+++ b/src/sz_decompress_cp_preserve_3d.cpp
@@ -1,6 +1,7 @@
 #include "sz_decompress_3d.hpp"
 #include "sz_decompress_cp_preserve_2d.hpp"
 #include "sz_decompress_block_processing.hpp"
+#include "sz_cp_preserve_utils.hpp"
 #include <limits>
 #include <unordered_set>
 
@@ -58,7 +59,7 @@ sz_decompress_cp_preserve_3d_online_log(const unsigned char * compressed, size_t
 					unpred_data_indices.insert(index);
 					for(int p=0; p<3; p++){
 						T cur_data = *(eb_zero_data_pos ++);
-						*(data_pos[p]) = (cur_data == 0) ? -100 : std::log2(fabs(cur_data));
+						*(data_pos[p]) = (cur_data == 0) ? LOG_OF_ZERO : std::log2(fabs(cur_data));
 					}
 					eb_quant_index_pos ++;
 				}
@@ -94,11 +95,11 @@ sz_decompress_cp_preserve_3d_online_log(const unsigned char * compressed, size_t
 			W[i] = *(eb_zero_data_pos++);
 		}
 		else{
-			if(U[i] < -99) U[i] = 0;
+			if(U[i] < LOG_OF_ZERO_THRESHOLD) U[i] = 0;
 			else U[i] = sign_map_u[i] ? exp2(U[i]) : -exp2(U[i]);
-			if(V[i] < -99) V[i] = 0;
+			if(V[i] < LOG_OF_ZERO_THRESHOLD) V[i] = 0;
 			else V[i] = sign_map_v[i] ? exp2(V[i]) : -exp2(V[i]);
-			if(W[i] < -99) W[i] = 0;
+			if(W[i] < LOG_OF_ZERO_THRESHOLD) W[i] = 0;
 			else W[i] = sign_map_w[i] ? exp2(W[i]) : -exp2(W[i]);
 		}
 	}
@@ -157,7 +158,7 @@ sz_decompress_cp_preserve_3d_unstructured(const unsigned char * compressed, int
 			unpred_data_indices.insert(i);
 			for(int p=0; p<3; p++){
 				T cur_data = *(eb_zero_data_pos ++);
-				data_pos[p] = (cur_data == 0) ? -100 : std::log2(fabs(cur_data));
+				data_pos[p] = (cur_data == 0) ? LOG_OF_ZERO : std::log2(fabs(cur_data));
 			}
 			eb_quant_index_pos ++;
 		}
@@ -185,7 +186,7 @@ sz_decompress_cp_preserve_3d_unstructured(const unsigned char * compressed, int
 		}
 		else{
 			for(int p=0; p<3; p++){
-				if(data[3*i + p] < -99) data[3*i + p] = 0;
+				if(data[3*i + p] < LOG_OF_ZERO_THRESHOLD) data[3*i + p] = 0;
 				else data[3*i + p] = *(sign_pos ++) ? exp2(data[3*i + p]) : -exp2(data[3*i + p]);
 			}
 		}
-- 
2.43.0


From 14fdf94817611de46e3efab1c9b85196223eece6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:30 +0000
Subject: [PATCH 14/14] fix: no cancellation in the root that bounds the change
 of the discriminant

---
 src/sz_compress_cp_preserve_2d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index c507e2c..dcf42c3 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -457,7 +457,8 @@ inline double max_eb_to_keep_type_online(const T u0, const T u1, const T u2, con
 			// 	printf("impossible as a*c is always less than 0\n");
 			// 	exit(0);
 			// }
-			eb = MINF(eb, (-b + sqrt(b*b - 4*a*c))/(2*a));
+			// positive root, without the cancellation in -b + sqrt(b*b - 4*a*c)
+			eb = MINF(eb, -2*c/(b + sqrt(b*b - 4*a*c)));
 
 			// check four corners
 			// double e1[2] = {-1, 1};
-- 
2.43.0

