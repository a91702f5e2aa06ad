From 9aa371caad2187678f686b35a3de1a1948eb0970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:48 +0000
Subject: [PATCH 01/18] fix: size compressed-stream buffers from what is
 written to them

The output buffers were sized from the input (1.2x, 2x or 3x the data), with
no room for headers and Huffman trees, so short or incompressible fields
overflowed the heap.
---
 include/sz_compression_utils.hpp            | 11 +++++++++++
 src/sz_compress_3d.cpp                      | 20 ++++++++++++--------
 src/sz_compress_cp_preserve_2d.cpp          | 19 ++++++++++++-------
 src/sz_compress_cp_preserve_2d_bilinear.cpp |  3 ++-
 src/sz_compress_cp_preserve_3d.cpp          | 12 ++++++++----
 5 files changed, 45 insertions(+), 20 deletions(-)

diff --git a/include/sz_compression_utils.hpp b/include/sz_compression_utils.hpp
index a335c15..8beb4f1 100644
--- a/include/sz_compression_utils.hpp
+++ b/include/sz_compression_utils.hpp
@@ -113,6 +113,17 @@ round_up_power_of_2(unsigned int base);
 void 
 convertIntArray2ByteArray_fast_1b_to_result_sz(const unsigned char* intArray, size_t intArrayLength, unsigned char *& compressed_pos);
 
+// upper bound of the number of bytes Huffman_encode_tree_and_data may touch:
+// sizes, tree (at most 13 bytes per node), codes (at most ceil(log2(state_num)) bits per element), 8-byte stores
+inline size_t
+Huffman_encoded_size_bound(size_t state_num, size_t num_elements){
+	size_t num_symbols = (num_elements < state_num) ? num_elements : state_num;
+	return 64 + 26*num_symbols + 4*num_elements;
+}
+
+// upper bound of the fixed-size fields written before the arrays of a compressed stream
+const size_t compressed_header_size_bound = 128;
+
 // for test meta-compressor. sz implementation can remove this header.
 HuffmanTree *
 build_Huffman_tree(const int * type, size_t num_elements, size_t state_num);
diff --git a/src/sz_compress_3d.cpp b/src/sz_compress_3d.cpp
index 941ee10..ad1b57a 100644
--- a/src/sz_compress_3d.cpp
+++ b/src/sz_compress_3d.cpp
@@ -95,8 +95,9 @@ sz_compress_2d(const T * data, size_t r1, size_t r2, double precision, size_t& c
 	size_t reg_count = prediction_and_quantization_2d_with_border_prediction(data, size, mean_info, precision, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t est_size = compressed_header_size_bound + unpredictable_count*sizeof(T) + size.num_blocks
+		+ RegCoeffNum2d*size.num_blocks*sizeof(float) + Huffman_encoded_size_bound(2*RegCoeffCapacity, RegCoeffNum2d*size.num_blocks)
+		+ Huffman_encoded_size_bound(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -212,8 +213,9 @@ sz_compress_2d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	size_t reg_count = prediction_and_quantization_2d_with_border_prediction_with_eb(data, precisions, size, mean_info, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t est_size = compressed_header_size_bound + unpredictable_count*sizeof(T) + size.num_blocks
+		+ RegCoeffNum2d*size.num_blocks*sizeof(float) + Huffman_encoded_size_bound(2*RegCoeffCapacity, RegCoeffNum2d*size.num_blocks)
+		+ Huffman_encoded_size_bound(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -411,8 +413,9 @@ sz_compress_3d(const T * data, size_t r1, size_t r2, size_t r3, double precision
 			: prediction_and_quantization_3d_with_border_prediction(data, size, mean_info, precision, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t est_size = compressed_header_size_bound + unpredictable_count*sizeof(T) + size.num_blocks
+		+ RegCoeffNum3d*size.num_blocks*sizeof(float) + Huffman_encoded_size_bound(2*RegCoeffCapacity, RegCoeffNum3d*size.num_blocks)
+		+ Huffman_encoded_size_bound(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -542,8 +545,9 @@ sz_compress_3d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	size_t reg_count = prediction_and_quantization_3d_with_border_prediction_with_eb(data, precisions, size, mean_info, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t est_size = compressed_header_size_bound + unpredictable_count*sizeof(T) + size.num_blocks
+		+ RegCoeffNum3d*size.num_blocks*sizeof(float) + Huffman_encoded_size_bound(2*RegCoeffCapacity, RegCoeffNum3d*size.num_blocks)
+		+ Huffman_encoded_size_bound(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 94100d3..c5e13aa 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -232,7 +232,7 @@ sz_compress_cp_preserve_2d_offline(const T * U, const T * V, size_t r1, size_t r
 	}
 	free(eb);
 	printf("quantize eb done\n");
-	unsigned char * compressed_eb = (unsigned char *) malloc(2*num_elements*sizeof(int));
+	unsigned char * compressed_eb = (unsigned char *) malloc(Huffman_encoded_size_bound(2*1024, 2*num_elements));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, 2*num_elements, compressed_eb_pos);
 	size_t compressed_eb_size = compressed_eb_pos - compressed_eb;
@@ -334,7 +334,7 @@ sz_compress_cp_preserve_2d_offline_log(const T * U, const T * V, size_t r1, size
 		// *(eb_quant_index_pos ++) = eb_linear_quantize(eb[i], 5e-3);
 	}
 	// printf("quantize eb done\n");
-	unsigned char * compressed_eb = (unsigned char *) malloc(num_elements*sizeof(int));
+	unsigned char * compressed_eb = (unsigned char *) malloc(Huffman_encoded_size_bound(2*1024, num_elements));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, num_elements, compressed_eb_pos);
 	size_t compressed_eb_size = compressed_eb_pos - compressed_eb;
@@ -696,7 +696,8 @@ sz_compress_cp_preserve_2d_online(const T * U, const T * V, size_t r1, size_t r2
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(compressed_header_size_bound + unpred_data.size()*sizeof(T)
+		+ Huffman_encoded_size_bound(2*1024, 2*num_elements) + Huffman_encoded_size_bound(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -961,7 +962,8 @@ sz_compress_cp_preserve_2d_online_log(const T * U, const T * V, size_t r1, size_
 	free(decompressed_U);
 	free(decompressed_V);
 	// printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(compressed_header_size_bound + 2*sign_map_size + unpred_data.size()*sizeof(T)
+		+ Huffman_encoded_size_bound(2*1024, num_elements) + Huffman_encoded_size_bound(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -1224,7 +1226,8 @@ sz_compress_cp_preserve_2d_online_abs(const T * U, const T * V, size_t r1, size_
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(compressed_header_size_bound + unpred_data.size()*sizeof(T)
+		+ Huffman_encoded_size_bound(2*1024, 2*num_elements) + Huffman_encoded_size_bound(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -1512,7 +1515,8 @@ sz_compress_cp_preserve_2d_online_abs_relax_FN(const T * U, const T * V, size_t
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(compressed_header_size_bound + unpred_data.size()*sizeof(T)
+		+ Huffman_encoded_size_bound(2*1024, 2*num_elements) + Huffman_encoded_size_bound(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -1795,7 +1799,8 @@ sz3_compress_cp_preserve_2d_online_abs(const T * U, const T * V, size_t r1, size
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q: %ld %ld\n", eb_quant_index_pos - eb_quant_index, quant_index);
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(compressed_header_size_bound + 2*num_elements*sizeof(T)
+		+ Huffman_encoded_size_bound(2*1024, num_elements) + Huffman_encoded_size_bound(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
diff --git a/src/sz_compress_cp_preserve_2d_bilinear.cpp b/src/sz_compress_cp_preserve_2d_bilinear.cpp
index 370e3a7..c5eaf44 100644
--- a/src/sz_compress_cp_preserve_2d_bilinear.cpp
+++ b/src/sz_compress_cp_preserve_2d_bilinear.cpp
@@ -1052,7 +1052,8 @@ sz_compress_cp_preserve_2d_bilinear_online_log(const T * U, const T * V, size_t
 	free(decompressed_U);
 	free(decompressed_V);
 	// printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(compressed_header_size_bound + 2*sign_map_size + unpred_data.size()*sizeof(T)
+		+ Huffman_encoded_size_bound(2*1024, num_elements) + Huffman_encoded_size_bound(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
diff --git a/src/sz_compress_cp_preserve_3d.cpp b/src/sz_compress_cp_preserve_3d.cpp
index 58ce2dd..ae77262 100644
--- a/src/sz_compress_cp_preserve_3d.cpp
+++ b/src/sz_compress_cp_preserve_3d.cpp
@@ -546,7 +546,8 @@ sz_compress_cp_preserve_3d_offline_log(const T * U, const T * V, const T * W, si
 	free(decompressed_V);
 	free(decompressed_W);
 	// printf("offset eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, eb_zero_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(compressed_header_size_bound + 3*sign_map_size + eb_zero_data.size()*sizeof(T)
+		+ Huffman_encoded_size_bound(2*256, num_elements) + Huffman_encoded_size_bound(2*capacity, 3*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -933,7 +934,8 @@ sz_compress_cp_preserve_3d_online_log(const T * U, const T * V, const T * W, siz
 	free(decompressed_V);
 	free(decompressed_W);
 	printf("offset eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, eb_zero_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(compressed_header_size_bound + 3*sign_map_size + eb_zero_data.size()*sizeof(T)
+		+ Huffman_encoded_size_bound(2*256, num_elements) + Huffman_encoded_size_bound(2*capacity, 3*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -1115,7 +1117,8 @@ sz_compress_cp_preserve_3d_unstructured(int n, const T * points, const T * data,
 	free(dec_data);
 	free(log_data);
 	// printf("offset eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, eb_zero_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*n*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(compressed_header_size_bound + sign_map_size + eb_zero_data.size()*sizeof(T)
+		+ Huffman_encoded_size_bound(2*256, n) + Huffman_encoded_size_bound(2*capacity, 3*n));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -1452,7 +1455,8 @@ sz_compress_cp_preserve_3d_online_abs(const T * U, const T * V, const T * W, siz
 	free(decompressed_V);
 	free(decompressed_W);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(compressed_header_size_bound + unpred_data.size()*sizeof(T)
+		+ Huffman_encoded_size_bound(2*1024, num_elements) + Huffman_encoded_size_bound(2*capacity, 3*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
-- 
2.43.0


From 8a7eb0b49de6bea8bd7fac28a4e61641705afac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:48 +0000
Subject: [PATCH 02/18] fix: room for every element in the unpredictable-data
 buffers

sz_compress_2d, sz_compress_3d and sz_compress_3d_with_eb had room for 5% of
the elements and overflowed the heap on fields that predict badly.
---
 src/sz_compress_3d.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sz_compress_3d.cpp b/src/sz_compress_3d.cpp
index ad1b57a..ed7e7f8 100644
--- a/src/sz_compress_3d.cpp
+++ b/src/sz_compress_3d.cpp
@@ -86,7 +86,7 @@ sz_compress_2d(const T * data, size_t r1, size_t r2, double precision, size_t& c
 	meanInfo<T> mean_info;// = optimize_quant_invl_2d(data, r1, r2, precision, capacity);
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum2d * size.num_blocks * sizeof(int));
@@ -403,7 +403,7 @@ sz_compress_3d(const T * data, size_t r1, size_t r2, size_t r3, double precision
 	meanInfo<T> mean_info = optimize_quant_invl_3d(data, r1, r2, r3, precision, capacity);
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum3d * size.num_blocks * sizeof(int));
@@ -536,7 +536,7 @@ sz_compress_3d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	meanInfo<T> mean_info;
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum3d * size.num_blocks * sizeof(int));
-- 
2.43.0


From f0193d99ce364362fbb7670f600ce2ad6046d357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:03 +0000
Subject: [PATCH 03/18] fix: skip unpredictable data by element size when
 decompressing

sz_decompress_2d/3d skipped sizeof(float) per element whatever the element
type, so double streams with unpredictable data decoded to garbage.
---
 src/sz_decompress_3d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sz_decompress_3d.cpp b/src/sz_decompress_3d.cpp
index 6710b38..c9093f3 100644
--- a/src/sz_decompress_3d.cpp
+++ b/src/sz_decompress_3d.cpp
@@ -62,7 +62,7 @@ sz_decompress_2d(const unsigned char * compressed, size_t r1, size_t r2){
 	size_t unpredictable_count = 0;
 	read_variable_from_src(compressed_pos, unpredictable_count);
 	const T * unpredictable_data = (const T *) compressed_pos;
-	compressed_pos += unpredictable_count * sizeof(float);
+	compressed_pos += unpredictable_count * sizeof(T);
 	unsigned char * indicator = convertByteArray2IntArray_fast_1b_sz(size.num_blocks, compressed_pos, (size.num_blocks - 1)/8 + 1);
 	float * reg_params = NULL;
 	if(reg_count) reg_params = decode_regression_coefficients_2d(compressed_pos, reg_count, size.block_size, precision);
@@ -271,7 +271,7 @@ sz_decompress_3d(const unsigned char * compressed, size_t r1, size_t r2, size_t
 	size_t unpredictable_count = 0;
 	read_variable_from_src(compressed_pos, unpredictable_count);
 	const T * unpredictable_data = (const T *) compressed_pos;
-	compressed_pos += unpredictable_count * sizeof(float);
+	compressed_pos += unpredictable_count * sizeof(T);
 	unsigned char * indicator = convertByteArray2IntArray_fast_1b_sz(size.num_blocks, compressed_pos, (size.num_blocks - 1)/8 + 1);
 	float * reg_params = NULL;
 	if(reg_count) reg_params = decode_regression_coefficients(compressed_pos, reg_count, size.block_size, precision);
-- 
2.43.0


From bf59e013d01c88db4939354db16a750f7997cd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:03 +0000
Subject: [PATCH 04/18] fix: count the threshold in the size of offline streams

sz_compress_cp_preserve_2d_offline left it out: 8 bytes were written past the
buffer, and the reported size cut the stream short.
---
 src/sz_compress_cp_preserve_2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index c5e13aa..4585daf 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -243,7 +243,7 @@ sz_compress_cp_preserve_2d_offline(const T * U, const T * V, size_t r1, size_t r
 	printf("eb_size = %ld, u_size = %ld, v_size = %ld\n", compressed_eb_size, compressed_u_size, compressed_v_size);
 	free(eb_u);
 	free(eb_v);
-	compressed_size = sizeof(int) + sizeof(size_t) + compressed_eb_size + sizeof(size_t) + compressed_u_size + sizeof(size_t) + compressed_v_size;
+	compressed_size = sizeof(int) + sizeof(double) + 3*sizeof(size_t) + compressed_eb_size + compressed_u_size + compressed_v_size;
 	unsigned char * compressed = (unsigned char *) malloc(compressed_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
-- 
2.43.0


From 78f681a70334016f9f1c9327aab95d306b3eab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:22 +0000
Subject: [PATCH 05/18] fix: check the error of quantized data in
 online_abs_relax_FN

Rounding in T was not accounted for: floats whose spacing exceeds the bound
were reconstructed with errors above it.
---
 src/sz_compress_cp_preserve_2d.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 4585daf..8476a83 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -1450,6 +1450,11 @@ sz_compress_cp_preserve_2d_online_abs_relax_FN(const T * U, const T * V, size_t
 						int quant_index = (int)(quant_diff/2) + intv_radius;
 						data_quant_index_pos[k] = quant_index;
 						decompressed[k] = pred + 2 * (quant_index - intv_radius) * abs_eb; 
+						// check original data
+						if(fabs(decompressed[k] - cur_data) > abs_eb){
+							unpred_flag = true;
+							break;
+						}
 					}
 					else{
 						unpred_flag = true;
-- 
2.43.0


From b2ffec869784025d9f8c61ce5b448be72d8b8073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 06/18] fix: keep sz3 quantization errors strictly below the
 derived bound

The bound derived to keep the sign of a determinant is exclusive. With an
error equal to it (exact on fields of small integers) the determinant became
0 and a critical point appeared on the border of a triangle. The Lorenzo
variants already test with >=.
---
 include/sz3_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sz3_utils.hpp b/include/sz3_utils.hpp
index e06288a..112420a 100644
--- a/include/sz3_utils.hpp
+++ b/include/sz3_utils.hpp
@@ -61,7 +61,8 @@ public:
             // if(fabs(data + 14.3927) < 0.0001){
             //     std::cout << decompressed_data << ", err = " << decompressed_data - data << std::endl;
             // }
-            if (fabs(decompressed_data - data) > eb) {
+            // strictly less than eb: at eb itself the sign of a determinant can vanish
+            if (!(fabs(decompressed_data - data) < eb)) {
                 unpred.push_back(data);
                 return 0;
             } else {
-- 
2.43.0


From 9ae903f4bb152cf348225c98cec28872f67aaf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:30 +0000
Subject: [PATCH 07/18] fix: quantize error bounds of index 0 to 0

Bounds between threshold and base*threshold got index 0 but stayed non-zero,
while decompression takes index 0 as lossless: the offline and relax_FN
compressors then disagreed with their decompressors about what is stored.
---
 include/sz_cp_preserve_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sz_cp_preserve_utils.hpp b/include/sz_cp_preserve_utils.hpp
index 094d65f..4262584 100644
--- a/include/sz_cp_preserve_utils.hpp
+++ b/include/sz_cp_preserve_utils.hpp
@@ -17,7 +17,8 @@ inline int eb_exponential_quantize(double& eb, const int base, const double log_
 		return 0;
 	}
 	int id = log2(eb / threshold)/log_of_base;
-	eb = pow(base, id) * threshold;
+	// index 0 is read back as an error bound of 0
+	eb = (id == 0) ? 0 : pow(base, id) * threshold;
 	return id;
 }
 
-- 
2.43.0


From 2bdb2304e10e25e704b9cd81ffff7f658c3f4330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 08/18] fix: critical points on a triangle edge in the offline
 error bounds

---
 src/sz_compress_cp_preserve_2d.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 8476a83..79a2a98 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -132,9 +132,9 @@ inline double max_eb_to_keep_position_and_type(const T u0, const T u1, const T u
 	double det = u0v1 - u1v0 + u1v2 - u2v1 + u2v0 - u0v2;
 	double eb = 0;
 	if(det != 0){
-		bool f1 = (det / (u2v0 - u0v2) >= 1);
-		bool f2 = (det / (u1v2 - u2v1) >= 1); 
-		bool f3 = (det / (u0v1 - u1v0) >= 1); 
+		bool f1 = (u2v0 - u0v2 == 0) || (det / (u2v0 - u0v2) >= 1);
+		bool f2 = (u1v2 - u2v1 == 0) || (det / (u1v2 - u2v1) >= 1); 
+		bool f3 = (u0v1 - u1v0 == 0) || (det / (u0v1 - u1v0) >= 1); 
 		if(f1 && f2 && f3){
 			// critical point found
 			eb = 1;
-- 
2.43.0


From 973aee9dc2a00d01c4c8093e0720e18ffe2c76a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:07 +0000
Subject: [PATCH 09/18] fix: keep zeros apart from small values in
 sz_compress_2d_pwr

---
 src/sz_compress_pwr.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sz_compress_pwr.cpp b/src/sz_compress_pwr.cpp
index 4365e11..dfa7ffc 100644
--- a/src/sz_compress_pwr.cpp
+++ b/src/sz_compress_pwr.cpp
@@ -21,7 +21,8 @@ sz_compress_2d_pwr(const T * data, size_t r1, size_t r2, double precision, size_
 		max_data = MAX(max_data, data[i]);
 	}
 	T max_abs_log_data = 0;
-    if(min_data == 0) max_abs_log_data = fabs(log2(fabs(max_data)));
+    if(min_data == 0 && max_data == 0) max_abs_log_data = 0;
+    else if(min_data == 0) max_abs_log_data = fabs(log2(fabs(max_data)));
     else if(max_data == 0) max_abs_log_data = fabs(log2(fabs(min_data)));
     else max_abs_log_data = fabs(log2(fabs(min_data))) > fabs(log2(fabs(max_data))) ? fabs(log2(fabs(min_data))) : fabs(log2(fabs(max_data)));
     T min_log_data = max_abs_log_data;
@@ -42,14 +43,14 @@ sz_compress_2d_pwr(const T * data, size_t r1, size_t r2, double precision, size_
 	double log_precision = log2(1.0 + precision) - max_abs_log_data * std::numeric_limits<T>::epsilon();
 	for(size_t i=0; i<num_elements; i++){
 		if(data[i] == 0){
-			log_data[i] = min_log_data - 2.0001*log_precision;
+			log_data[i] = min_log_data - 4*log_precision;
 		}
 	}
 	size_t log_compressed_size = 0;
 	unsigned char * log_compressed = sz_compress_2d(log_data, r1, r2, log_precision, log_compressed_size, BSIZE, block_independant);
     free(log_data);
 	size_t sign_size = (num_elements-1)/8 + 1;
-	T threshold = min_log_data - 1.0001*log_precision;
+	T threshold = min_log_data - 2*log_precision;
 	compressed_size = sizeof(T) + sign_size + log_compressed_size;
     unsigned char * final_compressed = (unsigned char *) malloc(compressed_size);
     unsigned char * final_compressed_pos = final_compressed;
-- 
2.43.0


From bd2a2d87b191a08535207680d20d2d7988da4fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:07 +0000
Subject: [PATCH 10/18] fix: reserve the threshold for zeros in
 sz_compress_2d_pwr_with_eb

---
 src/sz_compress_pwr.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sz_compress_pwr.cpp b/src/sz_compress_pwr.cpp
index dfa7ffc..aecf6ec 100644
--- a/src/sz_compress_pwr.cpp
+++ b/src/sz_compress_pwr.cpp
@@ -83,7 +83,7 @@ sz_compress_2d_pwr_with_eb(const T * data, const double * ebs, double **final_lo
 	memset(signs, 0, num_elements);
 	// preprocess
     double * log_ebs = (double *) malloc(num_elements * sizeof(double));
-    T threshold = log2(fabs(data[0]));
+    T threshold = 0;
 	for(size_t i=0; i<num_elements; i++){
 		if(data[i] < 0){
 			signs[i] = 1;
@@ -93,9 +93,10 @@ sz_compress_2d_pwr_with_eb(const T * data, const double * ebs, double **final_lo
 			log_data[i] = data[i];
 		if(log_data[i] > 0){
 			log_data[i] = log2(log_data[i]);
-			log_ebs[i] = log2(1.0 + ebs[i]) - log_data[i] * std::numeric_limits<T>::epsilon();
+			log_ebs[i] = log2(1.0 + ebs[i]) - fabs(log_data[i]) * std::numeric_limits<T>::epsilon();
 			log_ebs[i] = MAX(log_ebs[i], 0);
-			threshold = MIN(threshold, log_data[i] - 1.0001 * log_ebs[i]);
+			// strictly below any decompressed value
+			threshold = MIN(threshold, log_data[i] - 1.0001 * log_ebs[i] - 1);
 		}
 	}
 	for(size_t i=0; i<num_elements; i++){
-- 
2.43.0


From 4f0142ae8b7bd7e6cd62aab7cf22d8c402ab9bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:11 +0000
Subject: [PATCH 11/18] fix: let sample_rough_mean_3d advance on tiny grids

---
 include/sz_optimize_quant_intervals.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sz_optimize_quant_intervals.hpp b/include/sz_optimize_quant_intervals.hpp
index 896ec65..aa14439 100644
--- a/include/sz_optimize_quant_intervals.hpp
+++ b/include/sz_optimize_quant_intervals.hpp
@@ -38,6 +38,8 @@ estimate_mean_freq_and_position(const std::vector<size_t>& freq_intervals, doubl
 template<typename T>
 float
 sample_rough_mean_3d(const T * data, size_t r1, size_t r2, size_t r3, size_t sample_distance){
+	// moved back by up to 2 below
+	if(sample_distance < 3) sample_distance = 3;
 	double mean = 0;
 	size_t len = r1 * r2 * r3;
 	const T * data_pos = data;
-- 
2.43.0


From eb02d9fa7509943fe558d32e6199042189180e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 12/18] fix: unstructured decoder keeps signs in step across
 zeros

---
 src/sz_decompress_cp_preserve_3d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sz_decompress_cp_preserve_3d.cpp b/src/sz_decompress_cp_preserve_3d.cpp
index 617b92f..428d017 100644
--- a/src/sz_decompress_cp_preserve_3d.cpp
+++ b/src/sz_decompress_cp_preserve_3d.cpp
@@ -186,7 +186,8 @@ sz_decompress_cp_preserve_3d_unstructured(const unsigned char * compressed, int
 		else{
 			for(int p=0; p<3; p++){
 				if(data[3*i + p] < -99) data[3*i + p] = 0;
-				else data[3*i + p] = *(sign_pos ++) ? exp2(data[3*i + p]) : -exp2(data[3*i + p]);
+				else data[3*i + p] = *sign_pos ? exp2(data[3*i + p]) : -exp2(data[3*i + p]);
+				sign_pos ++;
 			}
 		}
 	}
-- 
2.43.0


From cc1177ce89e6ca5b83b17bd2822f812bdbae6245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 13/18] fix: Huffman coding of an empty sequence

---
 src/sz_compression_utils.cpp   | 9 +++++++++
 src/sz_decompression_utils.cpp | 7 ++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/sz_compression_utils.cpp b/src/sz_compression_utils.cpp
index 2fd36e5..a7d9a3f 100644
--- a/src/sz_compression_utils.cpp
+++ b/src/sz_compression_utils.cpp
@@ -60,6 +60,15 @@ build_Huffman_tree(size_t state_num, const int * type, size_t num_elements){
 
 void
 Huffman_encode_tree_and_data(size_t state_num, const int * type, size_t num_elements, unsigned char*& compressed_pos){
+	if(num_elements == 0){
+		// no symbol, no tree
+		const size_t node_count = 0, type_array_size = 0;
+		const unsigned int tree_size = 0;
+		write_variable_to_dst(compressed_pos, node_count);
+		write_variable_to_dst(compressed_pos, tree_size);
+		write_variable_to_dst(compressed_pos, type_array_size);
+		return;
+	}
 	HuffmanTree * huffman = build_Huffman_tree(state_num, type, num_elements);
 	size_t node_count = 0;
 	size_t i = 0;
diff --git a/src/sz_decompression_utils.cpp b/src/sz_decompression_utils.cpp
index 5637828..c3c0ad0 100644
--- a/src/sz_decompression_utils.cpp
+++ b/src/sz_decompression_utils.cpp
@@ -91,11 +91,16 @@ convertByteArray2IntArray_fast_1b_sz(size_t intArrayLength, const unsigned char*
 // TODO: change compress_pos to const
 int *
 Huffman_decode_tree_and_data(size_t state_num, size_t num_elements, const unsigned char *& compressed_pos){
-	HuffmanTree* huffman = createHuffmanTree(state_num);
 	size_t node_count = 0;
 	read_variable_from_src(compressed_pos, node_count);
 	unsigned int tree_size = 0;
 	read_variable_from_src(compressed_pos, tree_size);
+	if(node_count == 0){
+		// no symbol was encoded
+		compressed_pos += sizeof(size_t);
+		return (int *) malloc(sizeof(int));
+	}
+	HuffmanTree* huffman = createHuffmanTree(state_num);
 	node root = reconstruct_HuffTree_from_bytes_anyStates(huffman, compressed_pos, node_count);
 	compressed_pos += tree_size;
 	size_t type_array_size = 0;
-- 
2.43.0


From 505dc8155eccc3ef79b8337f04ce1a975e603e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:06 +0000
Subject: [PATCH 14/18] fix: decompress sz3 fields of less than 14 bytes

The placeholder for the remaining length did not count the quantizer's
own header, so its assertion failed for 1x1 fields and the like.
---
 src/sz_decompress_cp_preserve_2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index 775ced3..8b3bf1c 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -333,7 +333,7 @@ sz3_decompress_cp_preserve_2d_online(const unsigned char * compressed, size_t r1
 	read_variable_from_src(compressed_pos, capacity);
 	int interpolation_level = (uint) ceil(log2(max(r1, r2)));
 	auto quantizer = VariableEBLinearQuantizer<T, T>(capacity>>1);
-	size_t remaining_length = num_elements*sizeof(T);//placeholder
+	size_t remaining_length = sizeof(uint8_t) + sizeof(int) + sizeof(size_t) + 2*num_elements*sizeof(T);//placeholder: header and all data unpredictable
 	quantizer.load(compressed_pos, remaining_length);
 
 	int * eb_quant_index = Huffman_decode_tree_and_data(2*1024, num_elements, compressed_pos);
-- 
2.43.0


From ccef42ecec643c56de668998efc5ec35dd6d7ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:29 +0000
Subject: [PATCH 15/18] fix: no undefined bytes of meanInfo in compressed
 streams

The padding between the members of meanInfo was written to the stream
uninitialised, so compressing the same data twice gave different bytes.
---
 include/sz_def.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sz_def.hpp b/include/sz_def.hpp
index 9d28edf..0a80fa6 100644
--- a/include/sz_def.hpp
+++ b/include/sz_def.hpp
@@ -137,8 +137,10 @@ struct DSize_3d{
 template<typename T>
 struct meanInfo{
 	bool use_mean;
+	// written to the stream together with the members, hence never left undefined
+	unsigned char padding[sizeof(T) - sizeof(bool)];
 	T mean;
-	meanInfo(bool use = false, T mean_ = 0){
+	meanInfo(bool use = false, T mean_ = 0) : padding(){
 		use_mean = use;
 		mean = mean_;
 	}
-- 
2.43.0


From 18858865a7c2080217175d3096d0a71284d5f693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 16/18] fix: keep the priority queue of the Huffman
 construction ordered

qremove moved the last node of the heap into the gap without comparing it
with its new parent, so that the codes were not always the shortest ones.
---
 src/sz_huffman.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sz_huffman.cpp b/src/sz_huffman.cpp
index b828687..0a76cae 100644
--- a/src/sz_huffman.cpp
+++ b/src/sz_huffman.cpp
@@ -137,6 +137,8 @@ node qremove(HuffmanTree* huffmanTree)
 	while ((l = (i<<1)) < huffmanTree->qend)  //l=(i*2)
 	{
 		if (l + 1 < huffmanTree->qend && huffmanTree->qq[l + 1]->freq < huffmanTree->qq[l]->freq) l++;
+		// the last node fills the gap: it must not end up below a node that is heavier
+		if (huffmanTree->qq[huffmanTree->qend]->freq <= huffmanTree->qq[l]->freq) break;
 		huffmanTree->qq[i] = huffmanTree->qq[l], i = l;
 	}
 	huffmanTree->qq[i] = huffmanTree->qq[huffmanTree->qend];
-- 
2.43.0


From 18e629bb68055e168ab0e96231219ccaa7dad976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:06 +0000
Subject: [PATCH 17/18] fix: compare a quantization quotient before converting
 it to int

With a bound more than 2^31 times smaller than a prediction error the
conversion overflowed, and an index outside the alphabet could be
accepted, which crashed the entropy coder.
---
 include/sz3_utils.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/sz3_utils.hpp b/include/sz3_utils.hpp
index 112420a..8f165ad 100644
--- a/include/sz3_utils.hpp
+++ b/include/sz3_utils.hpp
@@ -12,8 +12,10 @@ public:
     int quantize(T data, T pred, T_eb eb) {
         if(eb == 0) return 0;
         T diff = data - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
-        if (quant_index < this->radius * 2) {
+        T quant_diff = fabs(diff) / eb;
+        // compare before the conversion: a quotient beyond int has no quantization index
+        if (quant_diff < this->radius * 2 - 1) {
+            int quant_index = (int) quant_diff + 1;
             quant_index >>= 1;
             int half_index = quant_index;
             quant_index <<= 1;
@@ -45,8 +47,10 @@ public:
         //     std::cout << data << " " << pred << " " << eb << std::endl;
         // }
         T diff = data - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
-        if (quant_index < this->radius * 2) {
+        T quant_diff = fabs(diff) / eb;
+        // compare before the conversion: a quotient beyond int has no quantization index
+        if (quant_diff < this->radius * 2 - 1) {
+            int quant_index = (int) quant_diff + 1;
             quant_index >>= 1;
             int half_index = quant_index;
             quant_index <<= 1;
@@ -82,8 +86,10 @@ public:
             return 0;
         }
         T diff = ori - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
-        if (quant_index < this->radius * 2) {
+        T quant_diff = fabs(diff) / eb;
+        // compare before the conversion: a quotient beyond int has no quantization index
+        if (quant_diff < this->radius * 2 - 1) {
+            int quant_index = (int) quant_diff + 1;
             quant_index >>= 1;
             int half_index = quant_index;
             quant_index <<= 1;
-- 
2.43.0


From 3ea1ad1231f94ef7ca51fc88163e24601e54664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:06 +0000
Subject: [PATCH 18/18] fix: keep the bound of the logarithms above their
 rounding

For relative bounds near the rounding of the element type the bound of
the logarithms became negative, the threshold for zeros rose above the
smallest magnitudes, and nonzero elements were decompressed to zero.
---
 src/sz_compress_pwr.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sz_compress_pwr.cpp b/src/sz_compress_pwr.cpp
index aecf6ec..1cf7f70 100644
--- a/src/sz_compress_pwr.cpp
+++ b/src/sz_compress_pwr.cpp
@@ -41,6 +41,9 @@ sz_compress_2d_pwr(const T * data, size_t r1, size_t r2, double precision, size_
 	}
 	if(fabs(min_log_data) > max_abs_log_data) max_abs_log_data = fabs(min_log_data);
 	double log_precision = log2(1.0 + precision) - max_abs_log_data * std::numeric_limits<T>::epsilon();
+	// not below the rounding of a logarithm: zeros need room below the smallest magnitude
+	double min_log_precision = MAX(max_abs_log_data, (T) 1) * std::numeric_limits<T>::epsilon();
+	if(log_precision < min_log_precision) log_precision = min_log_precision;
 	for(size_t i=0; i<num_elements; i++){
 		if(data[i] == 0){
 			log_data[i] = min_log_data - 4*log_precision;
-- 
2.43.0

