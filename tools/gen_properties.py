"""writes /verif/properties.jsonl (kept as a script so that the wording lives in one place)"""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None)))
T = "The 324 tests compress a few generated float fields of six shapes with three bounds; "
C3, D3 = "src/sz_compress_3d.cpp", "src/sz_decompress_3d.cpp"
CB, DB = "include/sz_compress_block_processing.hpp", "include/sz_decompress_block_processing.hpp"
CU, DU = "include/sz_compression_utils.hpp", "include/sz_decompression_utils.hpp"
CP, CPB, DCP = "src/sz_compress_cp_preserve_2d.cpp", "src/sz_compress_cp_preserve_2d_bilinear.cpp", "src/sz_decompress_cp_preserve_2d.cpp"
UT, Q3 = "include/sz_cp_preserve_utils.hpp", "include/sz3_utils.hpp"
HF = "src/sz_huffman.cpp"
p("C01", "Block compressors keep every point within the absolute error bound",
  "Compressing any finite 2D or 3D array with the block-wise compressors (one bound for all points, or one non-negative bound per point) and decompressing the result reproduces every point with a difference, computed in the element type, of at most that point's bound. A point whose bound is zero is reproduced bit for bit.",
  ["inputs", "configurations"], "all finite float arrays (2D, 3D; double for 3D and the per-point variants), all shapes with at least one point, all block sizes >= 1, all bounds > 0 (>= 0 per point)",
  T + "none of them uses the 3D compressor, the double variants or arbitrary block sizes, and the error of a point depends on every previously reconstructed point.",
  [C3, D3, CB, DB, CU, DU, "include/sz_prediction.hpp"],
  [("the quantizer re-checks the reconstructed value against the bound and stores the value verbatim otherwise", "include/sz_compression_utils.hpp: quantize"),
   ("the decompressor evaluates the same prediction over the same reconstructed neighbours", "src/sz_decompress_3d.cpp, include/sz_decompress_block_processing.hpp: recover")],
  [("prediction buffer", "reconstructed neighbours, identical on both sides", C3)], ["output of sz_decompress_2d / sz_decompress_2d_with_eb / sz_decompress_3d"])
p("C02", "Pointwise-relative compressors keep the relative bound, signs and zeros",
  "For any finite field and any relative bound in [1e-4, 1], each value reproduced by the pointwise-relative compressors differs from the original by at most that fraction of its magnitude, up to the rounding of the logarithm and exponential. The sign of every value is preserved and zeros come back as exact zeros.",
  ["inputs", "configurations"], "all finite float fields with non-zero magnitudes >= 1e-37, all shapes, one relative bound for all points or one per point (0 meaning exact up to log/exp rounding)",
  T + "signs, zeros and the relative bound are only checked on a handful of smooth fields.",
  ["src/sz_compress_pwr.cpp", "src/sz_decompress_pwr.cpp", C3, D3],
  [("values are compressed as log2 of the magnitude with the bound log2(1+eb) reduced by the rounding of the logarithm", "src/sz_compress_pwr.cpp"),
   ("signs go into a bitmap and zeros into a value below a threshold no non-zero value can reach", "src/sz_compress_pwr.cpp, src/sz_decompress_pwr.cpp")],
  observe=["output of sz_decompress_2d_pwr / sz_decompress_2d_with_eb_pwr"])
p("C03", "Critical-point-preserving compressors respect the user's error bound",
  "Compressing and decompressing any 2D vector field with one of the critical-point-preserving compressors changes each component by at most the bound the user gave: that fraction of its own magnitude for the relative compressors, that absolute amount for the absolute ones. The relaxed and the interpolation-based variants obey the same bound.",
  ["inputs", "configurations"], "all finite fields (float, double) whose non-zero magnitudes are normal numbers and whose products do not overflow, all shapes >= 1x1, all bounds > 0",
  T + "only the interpolation-based compressor is exercised at all; the other six are never run.",
  [CP, CPB, DCP, UT, Q3],
  [("the reconstruction is compared with the original before it is accepted", CP), ("the recorded local bound never exceeds the user's bound", "include/sz_cp_preserve_utils.hpp: eb_exponential_quantize")],
  observe=["output of the sz_decompress_cp_preserve_2d_* functions"])
p("C04", "No critical point is created or destroyed",
  "For every cell of the mesh the decompressed field has a critical point in the cell exactly when the original field has one, for every critical-point-preserving compressor, the relaxed one included. Cells are the two triangles of each grid square with linear interpolation, and the square itself with bilinear interpolation for the bilinear compressor.",
  ["inputs", "configurations"], "all finite 2D vector fields whose products neither overflow nor underflow, cells whose barycentric test is well-defined (non-zero determinants, not within rounding of the cell border), all shapes, all bounds",
  T + "a lost or created critical point depends on the joint perturbation of three vertices in up to six cells, in the order in which they are visited.",
  [CP, CPB, UT], [("each vertex is quantized with a bound derived from all its mesh cells, with already reconstructed values for the visited vertices", CP)],
  observe=["critical-point test on the original and the decompressed field"])
p("C05", "Vertices of cells with a critical point and zero vectors are bit-exact",
  "With the compressors that bound the absolute error, all three vertices of each cell that contains a critical point, and every vertex of a cell whose value is the zero vector, are reproduced bit for bit, so the critical point's position and type are unchanged.",
  ["inputs", "configurations"], "all finite 2D fields whose products neither overflow nor underflow, shapes with at least one cell",
  T + "they compare numbers of critical points, not the stored vertices.",
  [CP, DCP], [("the local bound derived for such a cell is zero and a zero bound means verbatim storage", "src/sz_compress_cp_preserve_2d.cpp: derive_cp_eb_for_positions_online_abs, derive_eb_abs_online_2d")],
  observe=["decompressed vertices of such cells"])
p("C06", "The local tolerance derived from a cell never admits a changed outcome",
  "For any cell, any two fixed vertices and any admissible change of the third vertex strictly below the tolerance derived for that cell, the barycentric test of the cell gives the same answer as before. In particular a cell that contains a critical point gets tolerance zero in the absolute mode.",
  ["inputs"], "all real values of the six components of a cell and every perturbation of one vertex below the derived tolerance (real arithmetic: the rounding of the evaluation itself is excluded)",
  T + "the statement quantifies over a continuum of perturbations of every cell; random fields almost never approach the tolerance.",
  [CP, CPB, UT], [("closed-form tolerances that keep the sign of each barycentric numerator", "src/sz_compress_cp_preserve_2d.cpp: max_eb_to_keep_sign_*, derive_cp_*; include/sz_cp_preserve_utils.hpp")],
  observe=["derived tolerance of a cell"])
p("C07", "Recorded local tolerances never exceed the derived ones and decode identically",
  "Whenever a local tolerance is rounded to a recorded index, the tolerance the compressor goes on to use is at most the derived one and equals, bit for bit, what the decompressor reconstructs from the index. Index zero stands for verbatim storage on both sides.",
  ["inputs", "configurations"], "every derived tolerance in the range of the format (index below the alphabet size), all bases and thresholds the compressors use",
  T + "the interesting tolerances lie next to powers of the base and are hit by almost no generated field.",
  [UT, CP, CPB, DCP], [("truncating logarithm to an index and reconstruction by the same power", "include/sz_cp_preserve_utils.hpp: eb_exponential_quantize; src/sz_decompress_cp_preserve_2d.cpp")],
  observe=["recorded index and tolerance on both sides"])
p("C08", "Verbatim values are exact and never confused with quantization codes",
  "A value that cannot be predicted within its bound is stored verbatim and comes back bit for bit; every other value gets a code inside the alphabet that the decoder maps to exactly the value the encoder reconstructed. The code that announces a verbatim value is never produced for a predicted one, and every verbatim value is consumed by exactly the point that stored it.",
  ["inputs", "configurations"], "all finite values, predictions, bounds (including zero and tiny bounds) and radii used by the compressors",
  T + "overflowing quotients, values near the rounding of the bound and codes at the edge of the alphabet do not occur in them.",
  [CU, DU, Q3, CB, DB, CP, DCP], [("range test before the conversion to an integer, re-check of the reconstruction, reserved code", "include/sz_compression_utils.hpp: quantize; include/sz3_utils.hpp: quantize_and_overwrite; include/sz_decompression_utils.hpp: recover")],
  observe=["codes, verbatim values and reconstructed values of both sides"])
p("C09", "The entropy stage is lossless",
  "Every non-empty sequence of integers below the declared alphabet size is reproduced exactly by the entropy decoder, which stops at the end of the encoded stream. The reported length is the number of bytes written.",
  ["inputs"], "all sequences of symbols within the alphabet with code words up to 64 bits, all alphabet sizes up to 262144, all lengths",
  T + "they see the code tables of few, well-behaved symbol distributions.",
  [HF, "src/sz_compression_utils.cpp", "src/sz_decompression_utils.cpp", "include/sz_huffman.hpp"], [("code words are packed most significant bit first and followed bit by bit from the root", "src/sz_huffman.cpp: encode, decode, build_code")],
  observe=["Huffman_encode_tree_and_data / Huffman_decode_tree_and_data"])
p("C10", "The entropy coder's code is prefix-free and optimal",
  "For any symbol frequencies the code assigned is prefix-free, covers exactly the symbols that occur and has minimum total length. Its construction always merges two nodes of minimal frequency.",
  ["inputs"], "all frequency tables with at least one symbol and depth up to 64",
  T + "a sub-optimal or ambiguous code for rare frequency patterns still decodes the sampled ones.",
  [HF], [("binary min-heap of tree nodes", "src/sz_huffman.cpp: qinsert, qremove, init")], observe=["code table"])
p("C11", "Packed flag arrays round-trip",
  "Packing any array of 0/1 flags into bytes and unpacking it with the same length returns the same flags, advances both positions by the same number of bytes, namely one per eight flags rounded up, and touches nothing beyond.",
  ["inputs"], "all flag arrays of every length >= 0", T + "lengths not divisible by eight with flags in the last byte are not enumerated.",
  ["src/sz_compression_utils.cpp", "src/sz_decompression_utils.cpp"], [("eight flags per byte, most significant first", "convertIntArray2ByteArray_fast_1b_to_result_sz / convertByteArray2IntArray_fast_1b_sz")], observe=["flag arrays"])
p("C12", "The serialized code tree round-trips in all three widths",
  "Serializing a code tree of any size and reading it back yields a tree with the same shape, the same symbols at the leaves and the same code words. The width chosen for node indices is always large enough for the number of nodes.",
  ["inputs"], "all code trees: up to 256, up to 65536 and more nodes", T + "fields of that size use one or two of the three widths, never the borders between them.",
  [HF], [("width selected by the node count on both sides", "src/sz_huffman.cpp: convert_HuffTree_to_bytes_anyStates, reconstruct_HuffTree_from_bytes_anyStates")], observe=["tree after reading it back"])
p("C13", "A decoder consumes exactly the bytes its encoder reported",
  "For every compressor the reported compressed size is the number of bytes the decoder needs: it reads every field where the compressor wrote it, never reads at or beyond the reported size, and trailing bytes have no influence.",
  ["inputs", "configurations"], "all inputs of every compressor/decompressor pair, all element types, shapes and bounds",
  T + "they hand the decoder a larger allocation and cannot notice a few bytes read outside it.",
  [C3, D3, CP, CPB, DCP, "src/sz_compress_pwr.cpp", "src/sz_decompress_pwr.cpp", "src/sz_compression_utils.cpp", "src/sz_decompression_utils.cpp", Q3],
  [("writers and readers advance one position pointer through the same sequence of typed fields", "write_variable_to_dst / read_variable_from_src and the array versions")], observe=["reported size, bytes read"])
p("C14", "Compression and decompression stay inside their buffers",
  "No compressor or decompressor reads or writes outside the arrays it was given or allocated, for any content of the input, including data that cannot be compressed at all, and every call terminates.",
  ["inputs", "configurations"], "all finite inputs, shapes and bounds of every public function, decoders on streams their encoder produced",
  T + "they run without address checking and on compressible data.",
  [C3, D3, CP, CPB, DCP, HF, "src/sz_compression_utils.cpp", "src/sz_decompression_utils.cpp", "include/sz_optimize_quant_intervals.hpp", CB, DB],
  [("output buffers sized by an upper bound of every stage", "src/sz_compression_utils.cpp: Huffman_encoded_size_bound; src/sz_compress_3d.cpp: compressed_size_bound")], observe=["address sanitizer, obligations on offsets"])
p("C15", "Both sides use the same regression model for every block",
  "For every block that is predicted by a fitted plane the decompressor predicts with exactly the coefficients the compressor predicted with, and for every other block with the same neighbour predictor. The choice made per block survives the round trip.",
  ["inputs", "configurations"], "all 2D and 3D arrays, block sizes, bounds and element types",
  T + "few sampled blocks choose regression and a drift of a coefficient by one code may stay below the checked error.",
  ["src/sz_compression_utils.cpp", "src/sz_decompression_utils.cpp", C3, D3, CU, DU], [("the compressor overwrites each coefficient by its decoded value before predicting", "include/sz_compression_utils.hpp: compress_regression_coefficient_2d / _3d; src/sz_decompression_utils.cpp: decode_regression_coefficients*")],
  observe=["coefficients on both sides"])
p("C17", "Every point is coded exactly once and both sides agree on the order",
  "Whatever the shape and block size, the traversal of blocks and of points inside blocks visits each point of the array exactly once, and the decompressor assigns the n-th code to the same point the compressor took it from.",
  ["configurations", "inputs"], "all 2D and 3D shapes >= 1 and all block sizes >= 1, also larger than the array or not dividing it",
  T + "they use one block size.", [C3, D3, CB, DB, "include/sz_def.hpp"], [("block counts rounded up and border blocks cut", "include/sz_def.hpp: DSize_2d, DSize_3d; src/sz_compress_3d.cpp, src/sz_decompress_3d.cpp")], observe=["positions of codes"])
p("C18", "The interpolation traversal codes each vertex once, in one order on both sides",
  "For every grid shape the multi-level interpolation scheme codes each vertex exactly once, predicts it only from vertices coded before it, and does so in the same order with the same prediction when compressing and when decompressing.",
  ["configurations", "inputs"], "all grid shapes n1 x n2 >= 1", T + "six shapes, all of them even and nearly square.",
  [CP, DCP, Q3], [("levels from the coarsest stride down, alternating directions", "src/sz_compress_cp_preserve_2d.cpp: sz3_cp_preserve_2d_predict_r1 / _r2; src/sz_decompress_cp_preserve_2d.cpp")], observe=["visited positions"])
p("C19", "The estimated number of quantization codes is a power of two inside the alphabet",
  "For any 3D array and bound the automatically chosen number of codes is a power of two of at least 32 and at most 131072 (four times the sampled histogram), and the estimation terminates. Rounding up to a power of two returns the smallest power of two that is not below its argument.",
  ["inputs"], "all finite 3D arrays, shapes and bounds > 0; all 32-bit arguments up to 2^31 for the rounding",
  T + "none of them runs the 3D compressor.", ["include/sz_optimize_quant_intervals.hpp", "src/sz_compression_utils.cpp"], [("histogram of sampled prediction errors, capped", "include/sz_optimize_quant_intervals.hpp: optimize_quant_invl_3d; src/sz_compression_utils.cpp: round_up_power_of_2")], observe=["chosen capacity in the stream"])
p("C20", "Calls leave their inputs untouched and are deterministic",
  "No compressor changes its input arrays and no decompressor its compressed bytes, and the result of a call depends on its arguments only: repeating it, in any order with other calls, gives the same bytes.",
  ["histories", "inputs"], "all sequences of calls of the public functions in one process",
  T + "they make one call per process run and never compare two.", [C3, CP, CPB, "src/sz_compress_pwr.cpp", HF], [("working copies of the field, no state kept between calls", "src/sz_compress_cp_preserve_2d.cpp, src/sz_huffman.cpp")], observe=["input arrays after the call, outputs of repeated calls"])
p("C21", "The lossless back end is the identity",
  "Compressing any byte string with the lossless wrapper and decompressing it returns the same bytes and length, including the empty string and incompressible data.",
  ["inputs"], "all byte strings that fit in memory", T + "they pass a few compressed streams through it.", ["src/sz_lossless.cpp"], [("zstd with an output buffer for the worst case and the original length stored in front", "src/sz_lossless.cpp")], observe=["decompressed bytes"])
p("C22", "Relative-error compressors keep the kind of every critical point",
  "With the compressors that bound the relative error, each cell with a critical point keeps the kind of that critical point, as given by the field's Jacobian over the cell (saddle, attracting, repelling, rotating), as well as its existence.",
  ["inputs", "configurations"], "all finite 2D fields whose products neither overflow nor underflow, cells whose classification is not within rounding of another kind, all bounds",
  T + "no relative-error critical-point compressor is run by them.", [CP, CPB, UT], [("the tolerance of a cell with a critical point also keeps the signs of trace, determinant and discriminant", "src/sz_compress_cp_preserve_2d.cpp: max_eb_to_keep_type, derive_cp_eb_for_positions_online")], observe=["classification of each cell before and after"])
p("C23", "3D critical-point-preserving compression keeps the tetrahedral test",
  "For every tetrahedral cell of a 3D vector field the decompressed field has a critical point in the cell exactly when the original has one, and each component respects the user's bound.",
  ["inputs", "configurations"], "all finite 3D vector fields", "No test builds this compressor, which needs a library that is not present.",
  ["src/sz_compress_cp_preserve_3d.cpp", "src/sz_decompress_cp_preserve_3d.cpp"], [("per-tetrahedron tolerances", "src/sz_compress_cp_preserve_3d.cpp")], observe=["critical-point test of each tetrahedron"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
import re
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    assert x["statement"].count(". ") <= 2
