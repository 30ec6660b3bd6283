// includes /repo's entropy coder; the assertions state the field layout the contracts are written against
#include <cstddef>
#include "sz_huffman.cpp"
#define AT(s, f, o) static_assert(offsetof(s, f) == o, #f);
AT(node_t, left, 0) AT(node_t, right, 8) AT(node_t, freq, 16) AT(node_t, t, 24) AT(node_t, c, 28) static_assert(sizeof(node_t) == 32, "node");
AT(HuffmanTree, stateNum, 0) AT(HuffmanTree, allNodes, 4) AT(HuffmanTree, pool, 8) AT(HuffmanTree, qqq, 16) AT(HuffmanTree, qq, 24) AT(HuffmanTree, n_nodes, 32)
AT(HuffmanTree, qend, 36) AT(HuffmanTree, code, 40) AT(HuffmanTree, cout, 48) AT(HuffmanTree, n_inode, 56)
