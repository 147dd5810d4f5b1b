@unit rc_init
@src utils/lfactor_creation.cpp
@ns sym_lib
@name initialize_node
@props P17
@uses ccend
@requires
0 <= k < Post@.len(), 0 <= Post@[k as int] < Parent@.len(), Post@[k as int] < old(PrevNbr)@.len(), Parent@[Post@[k as int] as int] != -1 ==> 0 <= Parent@[Post@[k as int] as int] < old(ColCount)@.len() && old(ColCount)@[Parent@[Post@[k as int] as int] as int] > i32::MIN,
@ensures
res == Post@[k as int], final(PrevNbr)@ == old(PrevNbr)@.update(res as int, k), final(ColCount)@ == (if Parent@[res as int] != -1 { less1(old(ColCount)@, Parent@[res as int] as int) } else { old(ColCount)@ }),
