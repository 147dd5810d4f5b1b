@unit rc_fin
@src utils/lfactor_creation.cpp
@ns sym_lib
@name finalize_node
@props P17
@requires
0 <= p < Parent@.len(), p < old(SetParent)@.len(),
@ensures
final(SetParent)@ == (if Parent@[p as int] != -1 { old(SetParent)@.update(p as int, Parent@[p as int]) } else { old(SetParent)@ }),
