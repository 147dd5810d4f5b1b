@unit add_size_t
@src utils/utils.cpp
@ns sym_lib
@name add_size_t
@props P21
@requires
old(ok)@.len() == 1,
@ensures
final(ok)@.len() == 1,
final(ok)@[0] != 0 <==> (old(ok)@[0] != 0 && a + b < M64()),
final(ok)@[0] != 0 ==> res == a + b,
final(ok)@[0] == 0 ==> res == 0,
