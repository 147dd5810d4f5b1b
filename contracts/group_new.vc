@unit group_new
@src src/group.cpp
@ns sym_lib
@name group
@cls group
@kind ctor
@sig void (int, int *, int *)
@props P10
@uses groups
@requires
n >= 0, gwf(p@, i@, n as int),
@ensures
res.ncol == n, res.mP@ == p@, res.mI@ == i@, group_ok(res), group_fresh(res),
