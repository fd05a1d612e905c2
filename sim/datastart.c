/* First object of pe.so: marks the start of the PE's data segment, as __data_start does in an executable. */
char __data_start[64] __attribute__((aligned(64))) = { 1 };
