@unit inspection_spicocsc_v1
@src src/group.cpp
@ns sym_lib
@name inspection_spicocsc_v1
@props P10
@uses groups
@requires
group_ok(*old(this)), old(groupPtr)@.len() > old(this).ncol, old(groupSet)@.len() >= old(this).ncol, old(groupInv)@.len() >= old(this).ncol,
@ensures
grouping(groupPtr@, groupSet@, groupInv@, *final(ngroup) as int, old(this).ncol as int),
@entry
let ghost n = this.ncol;
@loop 1
invariant 0 <= i <= n, this.ncol == n, gwf(this.mP@, this.mI@, n as int), this.status@.len() == n, this.visited@.len() == n, links(this.next@, n as int), links(this.pre@, n as int), this.child@.len() == n, forall|k: int| 0 <= k < i ==> -1 <= #[trigger] this.child@[k] < n,
decreases n - i,
@loop 2
invariant 0 <= i, i <= n || n == 0, this.ncol == n, gwf(this.mP@, this.mI@, n as int), this.status@.len() == n, this.visited@.len() == n, links(this.next@, n as int), links(this.pre@, n as int), kids_ok(this.child@, n as int),
decreases n - i,
@pre 3
proof { taken_init(groupSet@, this.visited@, n as int); gopen_init(groupPtr@, groupSet@, groupInv@); }
@loop 3
invariant
    0 <= i <= n, this.ncol == n, links(this.next@, n as int), groupPtr@.len() > n, groupSet@.len() >= n, groupInv@.len() >= n,
    taken(groupSet@, pos as int, this.visited@, n as int), gopen(groupPtr@, groupSet@, groupInv@, index as int, pos as int), 0 <= pos <= n, 0 <= index, this.visited@.len() == n,
    forall|k: int| 0 <= k < i ==> #[trigger] this.visited@[k],
decreases n - i,
@head 3
proof { if !this.visited@[i as int] {
    taken_room(groupSet@, pos as int, this.visited@, n as int, i as int); gopen_b(groupPtr@, groupSet@, groupInv@, index as int, pos as int);
    taken_step(groupSet@, pos as int, this.visited@, n as int, i);
    gopen_start(groupPtr@, groupSet@, groupInv@, index as int, pos as int, i, this.visited@, n as int);
} }
@loop 3.1
invariant
    0 <= i < n, this.ncol == n, links(this.next@, n as int), groupPtr@.len() > n, groupSet@.len() >= n, groupInv@.len() >= n, 0 <= ch < n, this.visited@.len() == n,
    taken(groupSet@, pos as int, this.visited@, n as int), gopen(groupPtr@, groupSet@, groupInv@, index + 1, pos as int), 0 <= pos <= n, 0 <= index < n,
    forall|k: int| 0 <= k <= i ==> #[trigger] this.visited@[k],
decreases n - pos,
@head 3.1
proof {
    taken_room(groupSet@, pos as int, this.visited@, n as int, ch as int);
    taken_step(groupSet@, pos as int, this.visited@, n as int, ch);
    gopen_join(groupPtr@, groupSet@, groupInv@, index + 1, pos as int, ch, this.visited@, n as int);
}
@post 3
proof { gopen_b(groupPtr@, groupSet@, groupInv@, index as int, pos as int); grouping_done(groupPtr@, groupSet@, groupInv@, index as int, pos as int, this.visited@, n as int); }
