@unit cmp_cost
@src src/lbc_utils.cpp
@ns sym_lib
@name cmp_cost
@props P06
@note std::sort with cmp_cost is taken to return a permutation of its range because cmp_cost is a strict weak order (contract of cmp_cost; IEEE < on non-NaN values)
@ensures
res == flt_s(b.cost, a.cost),
