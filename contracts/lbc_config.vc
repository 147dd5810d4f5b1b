@unit lbc_config
@src src/lbc_csc_dag.cpp
@ns sym_lib
@name lbc_config
@props P24
@requires
nnz >= 0, n >= 0, num_threads >= 1,
@ensures
*final(lp) >= 1, *final(cp) >= 0, *final(ic) >= 0, (*final(cp) == 0) == (*final(ic) == 0),
!*final(b_pack), *final(cp) > 0 ==> n > 0 && n + *final(cp) <= i32::MAX,
@exit
proof { if n > 0 { assert(nnz == n * (nnz as int / n as int) + nnz as int % n as int) by (nonlinear_arith) requires n > 0; if ratio >= 10 { assert(n * (nnz as int / n as int) >= n * 10) by (nonlinear_arith) requires n > 0, nnz as int / n as int >= 10; } } }
