@unit find_min
@src src/lbc_utils.cpp
@ns sym_lib
@name find_min
@props P06
@requires
cost@.len() >= size,
@ensures
0 <= res, size > 0 ==> res < size, size <= 0 ==> res == 0,
@loop 1
invariant
    0 <= i, i <= size || size < 0, 0 <= minBin, size > 0 ==> minBin < size, size <= 0 ==> minBin == 0,
decreases size - i,
