//@ if simd
//@ fn AVX2Operations::fdct@Operations
