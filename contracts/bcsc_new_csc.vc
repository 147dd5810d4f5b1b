@unit bcsc_new_csc
@src utils/BCSCMatrix.cpp
@ns sym_lib
@name BCSC
@cls BCSC
@kind ctor
@sig void (CSC *)
@props P25
@ensures
res.m == A.m, res.n == A.n,
