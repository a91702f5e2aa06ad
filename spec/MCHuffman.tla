---- MODULE MCHuffman ----
EXTENDS Huffman
W == <<2, 4, 16>>
====
