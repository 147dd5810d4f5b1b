//@uses rowpat
//@uses sums
// ---- columns of the factor, and the columns read to compute a row
pub open spec fn colw(ct: Seq<i32>, x: int) -> int { ct[x + 1] - ct[x] }
pub open spec fn zw(ct: Seq<i32>, z: Seq<i32>, x: int) -> int { if zocc(z, x) { colw(ct, x) } else { 0 } }
pub open spec fn fw(g: Eg, ct: Seq<i32>, k: int, x: int) -> int { if fill(g, k, x) { colw(ct, x) } else { 0 } }
pub open spec fn row_cost(g: Eg, ct: Seq<i32>, k: int) -> int { sum(|x: int| fw(g, ct, k, x), k) + colw(ct, k) }
pub open spec fn zsum(ct: Seq<i32>, z: Seq<i32>, n: int) -> int { sum(|x: int| zw(ct, z, x), n) }
pub proof fn zs_step(ct: Seq<i32>, z: Seq<i32>, q: int, n: int)
    requires dist(z), 0 <= q < z.len(), 0 <= z[q] < n,
    ensures zsum(ct, z.subrange(0, q + 1), n) == zsum(ct, z.subrange(0, q), n) + colw(ct, z[q] as int),
{
    let a = z.subrange(0, q); let b = z.subrange(0, q + 1); let f = |x: int| zw(ct, a, x); let h = |x: int| zw(ct, b, x);
    assert forall|x: int| zocc(b, x) == (x == z[q] || zocc(a, x)) by { if zocc(b, x) { let y = choose|y: int| 0 <= y < b.len() && #[trigger] b[y] == x; if y < q { assert(a[y] == x); } } if zocc(a, x) { let y = choose|y: int| 0 <= y < a.len() && #[trigger] a[y] == x; assert(b[y] == x); } assert(b[q] == z[q]); }
    assert(!zocc(a, z[q] as int)) by { if zocc(a, z[q] as int) { let y = choose|y: int| 0 <= y < a.len() && #[trigger] a[y] == z[q]; assert(z[y] != z[q]); } }
    assert forall|x: int| 0 <= x < n && x != z[q] implies #[trigger] f(x) == h(x) by { }
    sum_point(f, h, n, z[q] as int);
}
pub proof fn zs_zero(ct: Seq<i32>, z: Seq<i32>, n: int)
    ensures zsum(ct, z.subrange(0, 0), n) == 0,
{ let a = z.subrange(0, 0); sum_zero(|x: int| zw(ct, a, x), n); }
pub proof fn zs_le(ct: Seq<i32>, z: Seq<i32>, n: int)
    requires 0 <= n < ct.len(), forall|x: int| 0 <= x < n ==> #[trigger] ct[x] <= ct[x + 1],
    ensures 0 <= zsum(ct, z, n) <= ct[n] - ct[0],
{
    let f = |x: int| zw(ct, z, x); let h = |k: int| (ct[k + 1] - ct[k]) as int;
    assert forall|x: int| 0 <= x < n implies 0 <= #[trigger] f(x) by { assert(ct[x] <= ct[x + 1]); }
    assert forall|x: int| 0 <= x < n implies #[trigger] f(x) <= h(x) by { assert(ct[x] <= ct[x + 1]); }
    sum_ge0(f, n); sum_le(f, h, n); sum_diff(ct, n);
}
pub proof fn zs_row(g: Eg, ct: Seq<i32>, z: Seq<i32>, k: int)
    requires row_of(g, k, z),
    ensures zsum(ct, z, k) == sum(|x: int| fw(g, ct, k, x), k),
{ let f = |x: int| zw(ct, z, x); let h = |x: int| fw(g, ct, k, x); assert forall|x: int| 0 <= x < k implies #[trigger] f(x) == h(x) by { if zocc(z, x) { let a = choose|a: int| 0 <= a < z.len() && #[trigger] z[a] == x; assert(0 <= z[a] < k); } } sum_eq(f, h, k); }
// ---- how many rows before s have a non-zero in column j
pub open spec fn fcnt(g: Eg, j: int, s: int) -> int
    decreases s - j
{ if s <= j + 1 { 0 } else { fcnt(g, j, s - 1) + (if fill(g, s - 1, j) { 1int } else { 0 }) } }
pub proof fn fc_mono(g: Eg, j: int, s: int, t: int)
    requires s <= t,
    ensures 0 <= fcnt(g, j, s) <= fcnt(g, j, t), fcnt(g, j, s) <= (if s > j + 1 { s - j - 1 } else { 0 }), s < t && s > j && fill(g, s, j) ==> fcnt(g, j, s) < fcnt(g, j, t),
    decreases t - s, t - j
{ if s < t { fc_mono(g, j, s, t - 1); if s < t - 1 { } } else { if s > j + 1 { fc_mono(g, j, s - 1, s - 1); } } }
pub open spec fn col_counts(g: Eg, n: int, cc: Seq<i32>) -> bool { cc.len() >= n && forall|j: int| 0 <= j < n ==> #[trigger] cc[j] == 1 + fcnt(g, j, n) }
// the column pointers
#[verifier::opaque]
pub open spec fn lp_upto(cc: Seq<i32>, lp: Seq<i32>, k: int) -> bool { lp.len() > k && lp[0] == 0 && forall|x: int| 0 <= x <= k ==> #[trigger] lp[x] == sum(|y: int| cc[y] as int, x) }
pub open spec fn cc_total(cc: Seq<i32>, n: int) -> int { sum(|y: int| cc[y] as int, n) }
pub proof fn lp_init(cc: Seq<i32>, lp: Seq<i32>)
    requires lp.len() > 0, lp[0] == 0,
    ensures lp_upto(cc, lp, 0),
{ reveal(lp_upto); }
pub proof fn lp_room(g: Eg, n: int, cc: Seq<i32>, lp: Seq<i32>, l: int)
    requires lp_upto(cc, lp, l - 1), col_counts(g, n, cc), 0 < l <= n, cc_total(cc, n) <= i32::MAX,
    ensures 0 <= lp[l - 1] + cc[l - 1] <= i32::MAX, l - 1 < lp.len(), l - 1 < cc.len(),
{ reveal(lp_upto); let f = |y: int| cc[y] as int; assert forall|k: int| 0 <= k < n implies 0 <= #[trigger] f(k) by { assert(cc[k] == 1 + fcnt(g, k, n)); fc_mono(g, k, n, n); } sum_mono(f, l, n); sum_ge0(f, l); assert(lp[l - 1] == sum(f, l - 1)); assert(sum(f, l) == sum(f, l - 1) + f(l - 1)); }
pub proof fn lp_step(g: Eg, n: int, cc: Seq<i32>, lp: Seq<i32>, l: int, v: i32)
    requires lp_upto(cc, lp, l - 1), 0 < l < lp.len(), v == lp[l - 1] + cc[l - 1],
    ensures lp_upto(cc, lp.update(l, v), l),
{ reveal(lp_upto); let f = |y: int| cc[y] as int; let lp2 = lp.update(l, v); assert(lp[l - 1] == sum(f, l - 1)); assert forall|x: int| 0 <= x <= l implies #[trigger] lp2[x] == sum(f, x) by { if x < l { assert(lp[x] == sum(f, x)); } } }
#[verifier::opaque]
pub open spec fn lptr(g: Eg, n: int, lp: Seq<i32>) -> bool { lp.len() > n && n >= 0 && lp[0] == 0 && (forall|j: int| 0 <= j < n ==> lp[j + 1] - #[trigger] lp[j] == 1 + fcnt(g, j, n)) && forall|a: int, b: int| 0 <= a <= b <= n ==> 0 <= #[trigger] lp[a] <= #[trigger] lp[b] }
pub proof fn lp_done(g: Eg, n: int, cc: Seq<i32>, lp: Seq<i32>)
    requires lp_upto(cc, lp, n), col_counts(g, n, cc), n >= 0,
    ensures lptr(g, n, lp), lp.len() > n, lp[n] == cc_total(cc, n), lp[n] >= 0,
{
    reveal(lp_upto); reveal(lptr); let f = |y: int| cc[y] as int;
    assert forall|k: int| 0 <= k < n implies 0 <= #[trigger] f(k) by { assert(cc[k] == 1 + fcnt(g, k, n)); fc_mono(g, k, n, n); }
    assert forall|j: int| 0 <= j < n implies lp[j + 1] - #[trigger] lp[j] == 1 + fcnt(g, j, n) by { assert(lp[j + 1] == sum(f, j + 1)); assert(cc[j] == 1 + fcnt(g, j, n)); }
    assert forall|a: int, b: int| 0 <= a <= b <= n implies 0 <= #[trigger] lp[a] <= #[trigger] lp[b] by { sum_mono(f, a, b); sum_ge0(f, a); }
}
// ---- rows before s are in place
pub open spec fn l_at(g: Eg, lp: Seq<i32>, li: Seq<i32>, j: int, k: int) -> bool { fill(g, k, j) ==> li[lp[j] + 1 + fcnt(g, j, k)] == k }
pub open spec fn fing(g: Eg, s: int, z: Seq<i32>, j: int) -> int { if j < s { 1 + fcnt(g, j, s) + (if zocc(z, j) { 1int } else { 0 }) } else if j == s { 1 } else { 0 } }
#[verifier::opaque]
pub open spec fn l_rows(g: Eg, n: int, s: int, lp: Seq<i32>, li: Seq<i32>) -> bool {
    &&& lptr(g, n, lp) && li.len() == lp[n]
    &&& forall|j: int| 0 <= j < s && j < n ==> li[#[trigger] lp[j] as int] == j
    &&& forall|j: int, k: int| 0 <= j < k < s && k < n ==> #[trigger] l_at(g, lp, li, j, k)
}
#[verifier::opaque]
pub open spec fn l_full(g: Eg, n: int, s: int, lp: Seq<i32>, li: Seq<i32>, fg: Seq<i32>) -> bool { 0 <= s <= n && l_rows(g, n, s, lp, li) && fg.len() == n && forall|j: int| 0 <= j < n ==> #[trigger] fg[j] == (if j < s { 1 + fcnt(g, j, s) } else { 0 }) }
// row s: its diagonal and the columns in z are in place
#[verifier::opaque]
pub open spec fn l_part(g: Eg, n: int, s: int, lp: Seq<i32>, li: Seq<i32>, fg: Seq<i32>, z: Seq<i32>) -> bool {
    &&& 0 <= s < n && l_rows(g, n, s, lp, li) && fg.len() == n && li[lp[s] as int] == s
    &&& forall|j: int| 0 <= j < n ==> #[trigger] fg[j] == fing(g, s, z, j)
    &&& forall|j: int| 0 <= j < s && zocc(z, j) ==> #[trigger] l_at(g, lp, li, j, s)
}
pub proof fn lf_init(g: Eg, n: int, lp: Seq<i32>, li: Seq<i32>, fg: Seq<i32>)
    requires lptr(g, n, lp), n >= 0, li.len() == lp[n], fg.len() == n, forall|j: int| 0 <= j < n ==> #[trigger] fg[j] == 0,
    ensures l_full(g, n, 0, lp, li, fg),
{ reveal(l_full); reveal(l_rows); }
// where an entry of column j lies
pub proof fn l_slot(g: Eg, n: int, lp: Seq<i32>, j: int, k: int)
    requires lptr(g, n, lp), 0 <= j < n, k == j || j < k < n && fill(g, k, j),
    ensures ({ let q = if k == j { lp[j] as int } else { lp[j] + 1 + fcnt(g, j, k) }; 0 <= lp[j] <= q < lp[j + 1] <= lp[n] && (k == j || lp[j] < q) }),
{ reveal(lptr); fc_mono(g, j, j, n); assert(lp[j + 1] - lp[j] == 1 + fcnt(g, j, n)); assert(lp[0] <= lp[j]); assert(lp[j + 1] <= lp[n]); if k > j { fc_mono(g, j, k, n); fc_mono(g, j, j, k); } }
pub open spec fn lslot(g: Eg, lp: Seq<i32>, j: int, k: int) -> int { if k == j { lp[j] as int } else { lp[j] + 1 + fcnt(g, j, k) } }
pub proof fn l_apart(g: Eg, n: int, lp: Seq<i32>, j: int, k: int, j2: int, k2: int)
    requires lptr(g, n, lp), 0 <= j < n, k == j || j < k < n && fill(g, k, j), 0 <= j2 < n, k2 == j2 || j2 < k2 < n && fill(g, k2, j2), j != j2 || k != k2,
    ensures lslot(g, lp, j, k) != lslot(g, lp, j2, k2),
{
    l_slot(g, n, lp, j, k); l_slot(g, n, lp, j2, k2);
    if j < j2 { assert(lp[j + 1] <= lp[j2]) by { reveal(lptr); } } else if j2 < j { assert(lp[j2 + 1] <= lp[j]) by { reveal(lptr); } }
    else if k != j && k2 != j { if k < k2 { fc_mono(g, j, k, k2); } else { fc_mono(g, j, k2, k); } }
}
// writing row s into column c leaves the other entries alone
proof fn l_write(g: Eg, n: int, s: int, lp: Seq<i32>, li: Seq<i32>, c: int, v: i32)
    requires l_rows(g, n, s, lp, li), 0 <= c <= s < n, c == s || fill(g, s, c), v == s,
    ensures l_rows(g, n, s, lp, li.update(lslot(g, lp, c, s), v)), 0 <= lslot(g, lp, c, s) < li.len(),
{
    assert(lptr(g, n, lp) && li.len() == lp[n]) by { reveal(l_rows); }
    l_slot(g, n, lp, c, s); let q = lslot(g, lp, c, s); let l2 = li.update(q, v);
    assert forall|j: int| 0 <= j < s && j < n implies l2[#[trigger] lp[j] as int] == j by { l_apart(g, n, lp, c, s, j, j); l_slot(g, n, lp, j, j); assert(li[lp[j] as int] == j) by { reveal(l_rows); } }
    assert forall|j: int, k: int| 0 <= j < k < s && k < n implies #[trigger] l_at(g, lp, l2, j, k) by { assert(l_at(g, lp, li, j, k)) by { reveal(l_rows); } if fill(g, k, j) { l_apart(g, n, lp, c, s, j, k); l_slot(g, n, lp, j, k); } }
    reveal(l_rows);
}
pub proof fn lf_open(g: Eg, n: int, s: int, lp: Seq<i32>, li: Seq<i32>, fg: Seq<i32>, z: Seq<i32>, sv: i32, one: i32)
    requires l_full(g, n, s, lp, li, fg), 0 <= s < n, sv == s, one == 1, z.len() == 0,
    ensures 0 <= lp[s] < li.len(), s < fg.len(), fg[s] == 0, l_part(g, n, s, lp, li.update(lp[s] as int, sv), fg.update(s, one), z),
{
    reveal(l_full); l_write(g, n, s, lp, li, s, sv); reveal(l_part); let f2 = fg.update(s, one);
    assert forall|j: int| 0 <= j < n implies #[trigger] f2[j] == fing(g, s, z, j) by { if j != s { assert(fg[j] == (if j < s { 1 + fcnt(g, j, s) } else { 0 })); } }
}
pub proof fn lf_add(g: Eg, n: int, s: int, lp: Seq<i32>, li: Seq<i32>, fg: Seq<i32>, z: Seq<i32>, c: i32, sv: i32, fv: i32)
    requires l_part(g, n, s, lp, li, fg, z), 0 <= c < s, fill(g, s, c as int), !zocc(z, c as int), sv == s, fv == (fg[c as int] + 1) as i32,
    ensures ({ let q = lp[c as int] + fg[c as int]; 0 <= q < li.len() && c < fg.len() && 0 <= fg[c as int] < n && 0 <= lp[c as int] && q <= i32::MAX && l_part(g, n, s, lp, li.update(q, sv), fg.update(c as int, fv), z.push(c)) }), lp.len() > n,
{
    reveal(l_part); l_write(g, n, s, lp, li, c as int, sv); let z2 = z.push(c); let f2 = fg.update(c as int, fv); let q = lslot(g, lp, c as int, s);
    assert(fg[c as int] == fing(g, s, z, c as int)); fc_mono(g, c as int, s, s);
    assert(lp.len() > n && li.len() == lp[n]) by { reveal(l_rows); reveal(lptr); }
    assert(lptr(g, n, lp)) by { reveal(l_rows); } l_slot(g, n, lp, c as int, s);
    let l2 = li.update(q, sv);
    assert forall|x: int| zocc(z2, x) == (x == c || zocc(z, x)) by { if zocc(z2, x) { let a = choose|a: int| 0 <= a < z2.len() && #[trigger] z2[a] == x; if a < z.len() { assert(z[a] == x); } } if zocc(z, x) { let a = choose|a: int| 0 <= a < z.len() && #[trigger] z[a] == x; assert(z2[a] == x); } assert(z2[z.len() as int] == c); }
    assert forall|j: int| 0 <= j < n implies #[trigger] f2[j] == fing(g, s, z2, j) by { if j != c { assert(fg[j] == fing(g, s, z, j)); } }
    l_slot(g, n, lp, s, s); l_apart(g, n, lp, c as int, s, s, s);
    assert forall|j: int| 0 <= j < s && zocc(z2, j) implies #[trigger] l_at(g, lp, l2, j, s) by { if j != c { assert(l_at(g, lp, li, j, s)); if fill(g, s, j) { l_apart(g, n, lp, c as int, s, j, s); l_slot(g, n, lp, j, s); } } }
}
pub proof fn lf_close(g: Eg, n: int, s: int, lp: Seq<i32>, li: Seq<i32>, fg: Seq<i32>, z: Seq<i32>)
    requires l_part(g, n, s, lp, li, fg, z), row_of(g, s, z),
    ensures l_full(g, n, s + 1, lp, li, fg),
{
    reveal(l_part); reveal(l_full);
    assert forall|x: int| 0 <= x < s implies zocc(z, x) == #[trigger] fill(g, s, x) by { if zocc(z, x) { let a = choose|a: int| 0 <= a < z.len() && #[trigger] z[a] == x; assert(0 <= z[a] < s); } }
    assert forall|j: int| 0 <= j < n implies #[trigger] fg[j] == (if j < s + 1 { 1 + fcnt(g, j, s + 1) } else { 0 }) by { assert(fg[j] == fing(g, s, z, j)); if j < s { assert(zocc(z, j) == fill(g, s, j)); } }
    assert(l_rows(g, n, s + 1, lp, li)) by { reveal(l_rows); assert forall|j: int, k: int| 0 <= j < k < s + 1 && k < n implies #[trigger] l_at(g, lp, li, j, k) by { if k == s { assert(zocc(z, j) == fill(g, s, j)); } else { assert(l_at(g, lp, li, j, k)); } } }
}
// the factor's pattern: column j is j, then the rows k whose row has a non-zero in column j, ascending
pub open spec fn is_factor(g: Eg, n: int, lp: Seq<i32>, li: Seq<i32>) -> bool {
    &&& lp.len() == n + 1 && lp[0] == 0 && li.len() == lp[n]
    &&& forall|j: int| 0 <= j < n ==> lp[j + 1] - #[trigger] lp[j] == 1 + fcnt(g, j, n)
    &&& forall|j: int| 0 <= j < n ==> li[#[trigger] lp[j] as int] == j
    &&& forall|j: int, k: int| 0 <= j < k < n ==> #[trigger] l_at(g, lp, li, j, k)
}
pub proof fn lf_done(g: Eg, n: int, lp: Seq<i32>, li: Seq<i32>, fg: Seq<i32>)
    requires l_full(g, n, n, lp, li, fg), lp.len() == n + 1,
    ensures is_factor(g, n, lp, li),
{ reveal(l_full); reveal(l_rows); reveal(lptr); }
