//@uses sums graph csc
// ---------------------------------------------------------------- block graph of several dependence graphs
// graph g occupies the columns g * n .. g * n + n; its column j holds the rows of column j shifted to block g, then the
// dependences of column j on block g + 1 (given by a second list of graphs, one fewer)
pub open spec fn vv(s: Seq<Vec<i32>>) -> Seq<Seq<i32>> { Seq::new(s.len(), |k: int| s[k]@) }
pub open spec fn idv(n: int) -> Seq<i32> { Seq::new((n + 1) as nat, |k: int| k as i32) }
pub open spec fn ids(m: int, n: int) -> Seq<Seq<i32>> { Seq::new(m as nat, |k: int| idv(n)) }
pub open spec fn part(i: Seq<i32>, a: int, b: int, o: int) -> Seq<int> { Seq::new((b - a) as nat, |k: int| i[a + k] + o) }
pub struct GS { pub p: Seq<Seq<i32>>, pub i: Seq<Seq<i32>>, pub dp: Seq<Seq<i32>>, pub di: Seq<Seq<i32>>, pub n: int, pub k: int }
pub open spec fn own(s: GS, g: int, j: int) -> Seq<int> { part(s.i[g], s.p[g][j] as int, s.p[g][j + 1] as int, g * s.n) }
pub open spec fn ext(s: GS, g: int, j: int) -> Seq<int> {
    if g < s.k - 1 { part(s.di[g], s.dp[g][j] as int, s.dp[g][j + 1] as int, (g + 1) * s.n) } else { Seq::empty() }
}
pub open spec fn colc(s: GS, g: int, j: int) -> Seq<int> { own(s, g, j) + ext(s, g, j) }
pub open spec fn flat(s: GS, g: int, j: int) -> Seq<int>
    decreases g, j
{ if j > 0 { flat(s, g, j - 1) + colc(s, g, j - 1) } else if g > 0 { flat(s, g - 1, s.n) } else { Seq::empty() } }
pub open spec fn tot(p: Seq<Seq<i32>>, n: int, g: int) -> int
    decreases g
{ if g <= 0 { 0 } else { tot(p, n, g - 1) + p[g - 1][n] } }
pub open spec fn gs_part(p: Seq<Seq<i32>>, i: Seq<Seq<i32>>, n: int, m: int) -> bool {
    p.len() >= m && i.len() >= m && forall|g: int| 0 <= g < m ==> gwf(#[trigger] p[g], i[g], n)
}
pub open spec fn gs_ok(s: GS) -> bool {
    s.k >= 1 && s.n >= 0 && gs_part(s.p, s.i, s.n, s.k) && gs_part(s.dp, s.di, s.n, s.k - 1)
    && s.k * s.n < i32::MAX && tot(s.p, s.n, s.k) + tot(s.dp, s.n, s.k - 1) <= i32::MAX
}
pub open spec fn col_at(n: int, g: int, j: int) -> int { g * n + j }
// column (g, j) of the result is laid out as colc(g, j)
pub open spec fn mcol(s: GS, np: Seq<i32>, ni: Seq<i32>, g: int, j: int) -> bool {
    let c = col_at(s.n, g, j);
    0 <= np[c] <= np[c + 1] && np[c + 1] - np[c] == colc(s, g, j).len()
    && forall|q: int| np[c] <= q < np[c + 1] ==> #[trigger] ni[q] == colc(s, g, j)[q - np[c]]
}
pub open spec fn merged(s: GS, np: Seq<i32>, ni: Seq<i32>) -> bool {
    np.len() == s.k * s.n + 1 && np[0] == 0 && np[s.k * s.n] == tot(s.p, s.n, s.k) + tot(s.dp, s.n, s.k - 1) && ni.len() == np[s.k * s.n]
    && forall|g: int, j: int| 0 <= g < s.k && 0 <= j < s.n ==> #[trigger] mcol(s, np, ni, g, j)
}
pub open spec fn minr(a: int, b: int) -> int { if a < b { a } else { b } }
pub proof fn tot_mono(p: Seq<Seq<i32>>, i: Seq<Seq<i32>>, n: int, m: int, a: int, b: int)
    requires gs_part(p, i, n, m), 0 <= a <= b <= m, n >= 0,
    ensures 0 <= tot(p, n, a) <= tot(p, n, b),
    decreases b
{
    if b > 0 {
        assert(gwf(p[b - 1], i[b - 1], n)); assert(p[b - 1][0] <= p[b - 1][n]);
        if a < b { tot_mono(p, i, n, m, a, b - 1); } else { tot_mono(p, i, n, m, a - 1, b - 1); }
    }
}
pub proof fn flat_len(s: GS, g: int, j: int)
    requires gs_ok(s), 0 <= g < s.k, 0 <= j <= s.n,
    ensures flat(s, g, j).len() == tot(s.p, s.n, g) + s.p[g][j] + tot(s.dp, s.n, g) + (if g < s.k - 1 { s.dp[g][j] as int } else { 0 }),
    decreases g, j
{
    assert(gwf(s.p[g], s.i[g], s.n));
    if g < s.k - 1 { assert(gwf(s.dp[g], s.di[g], s.n)); }
    if j > 0 {
        flat_len(s, g, j - 1);
        assert(s.p[g][j - 1] <= s.p[g][j]);
        if g < s.k - 1 { assert(s.dp[g][j - 1] <= s.dp[g][j]); }
    } else if g > 0 {
        flat_len(s, g - 1, s.n);
        assert(gwf(s.p[g - 1], s.i[g - 1], s.n));
    }
}
pub open spec fn lex(s: GS, a: int, b: int, g: int, j: int) -> bool { 0 <= a <= g && 0 <= b <= s.n && (a < g || b <= j) }
pub proof fn lex_le(s: GS, a: int, b: int, g: int, j: int)
    requires lex(s, a, b, g, j), 0 <= j, s.n >= 0,
    ensures 0 <= col_at(s.n, a, b) <= col_at(s.n, g, j),
{
    let n = s.n;
    assert(0 <= a * n) by (nonlinear_arith) requires 0 <= a, 0 <= n;
    if a < g { assert(a * n + n <= g * n) by (nonlinear_arith) requires a + 1 <= g, 0 <= n; }
}
pub proof fn lex_lt(s: GS, a: int, b: int, g: int, j: int)
    requires 0 <= a < g, 0 <= b <= s.n, 0 <= j, s.n >= 0,
    ensures 0 <= col_at(s.n, a, b) <= col_at(s.n, g, 0),
{ lex_le(s, a, b, g, 0); }
pub proof fn flat_prefix(s: GS, a: int, b: int, g: int, j: int)
    requires gs_ok(s), lex(s, a, b, g, j), g < s.k, 0 <= j <= s.n,
    ensures flat(s, a, b).len() <= flat(s, g, j).len(), forall|q: int| 0 <= q < flat(s, a, b).len() ==> #[trigger] flat(s, a, b)[q] == flat(s, g, j)[q],
    decreases g, j
{
    if a == g && b == j { }
    else if j > 0 { flat_prefix(s, a, b, g, j - 1); }
    else if g > 0 { flat_prefix(s, a, b, g - 1, s.n); }
}
// progress of the construction: everything before column (g, j) is in place
pub open spec fn mst(s: GS, np: Seq<i32>, ni: Seq<i32>, g: int, j: int) -> bool {
    np.len() == s.k * s.n + 1 && ni.len() == tot(s.p, s.n, s.k) + tot(s.dp, s.n, s.k - 1)
    && (forall|a: int, b: int| #[trigger] lex(s, a, b, g, j) ==> np[col_at(s.n, a, b)] == flat(s, a, b).len())
    && (forall|q: int| 0 <= q < flat(s, g, j).len() ==> #[trigger] ni[q] == flat(s, g, j)[q])
}
pub proof fn mst_init(s: GS, np: Seq<i32>, ni: Seq<i32>)
    requires gs_ok(s), np.len() == s.k * s.n + 1, ni.len() == tot(s.p, s.n, s.k) + tot(s.dp, s.n, s.k - 1), np[0] == 0,
    ensures mst(s, np, ni, 0, 0), flat(s, 0, 0).len() == 0,
{
    assert(0 <= s.k * s.n) by (nonlinear_arith) requires s.k >= 0, s.n >= 0;
    assert forall|a: int, b: int| #[trigger] lex(s, a, b, 0, 0) implies np[col_at(s.n, a, b)] == flat(s, a, b).len() by {
        assert(a == 0); if b > 0 { assert(a < 0); } assert(col_at(s.n, 0, 0) == 0);
    }
}
pub proof fn mst_row(s: GS, np: Seq<i32>, ni: Seq<i32>, g: int)
    requires gs_ok(s), mst(s, np, ni, g, s.n), 0 <= g,
    ensures mst(s, np, ni, g + 1, 0), flat(s, g + 1, 0) == flat(s, g, s.n), col_at(s.n, g + 1, 0) == col_at(s.n, g, s.n),
{
    assert((g + 1) * s.n == g * s.n + s.n) by (nonlinear_arith);
    assert(lex(s, g, s.n, g, s.n));
    assert forall|a: int, b: int| #[trigger] lex(s, a, b, g + 1, 0) implies np[col_at(s.n, a, b)] == flat(s, a, b).len() by {
        if a <= g { assert(lex(s, a, b, g, s.n)); }
    }
}
// where column (g, j) starts, and that it fits
pub proof fn mst_room(s: GS, np: Seq<i32>, ni: Seq<i32>, g: int, j: int)
    requires gs_ok(s), mst(s, np, ni, g, j), 0 <= g < s.k, 0 <= j < s.n,
    ensures
        np[col_at(s.n, g, j)] == flat(s, g, j).len(), 0 <= col_at(s.n, g, j), col_at(s.n, g, j) + 1 < np.len(), col_at(s.n, g, j) + 1 <= s.k * s.n < i32::MAX,
        flat(s, g, j).len() + colc(s, g, j).len() == flat(s, g, j + 1).len(), flat(s, g, j + 1).len() <= ni.len(), ni.len() <= i32::MAX,
        own(s, g, j).len() == s.p[g][j + 1] - s.p[g][j], 0 <= s.p[g][j] <= s.p[g][j + 1] <= s.p[g][s.n], s.i[g].len() >= s.p[g][s.n],
        g < s.k - 1 ==> 0 <= s.dp[g][j] <= s.dp[g][j + 1] <= s.dp[g][s.n] && ext(s, g, j).len() == s.dp[g][j + 1] - s.dp[g][j] && s.di[g].len() >= s.dp[g][s.n],
        g >= s.k - 1 ==> ext(s, g, j).len() == 0,
        forall|q: int| s.p[g][j] <= q < s.p[g][j + 1] ==> 0 <= #[trigger] s.i[g][q] < s.n,
        g < s.k - 1 ==> forall|q: int| s.dp[g][j] <= q < s.dp[g][j + 1] ==> 0 <= #[trigger] s.di[g][q] < s.n,
        0 <= g * s.n <= s.k * s.n - s.n, g < s.k - 1 ==> 0 <= (g + 1) * s.n <= s.k * s.n - s.n,
        s.p[g].len() > s.n, g < s.k - 1 ==> s.dp[g].len() > s.n,
{
    assert(lex(s, g, j, g, j));
    assert(gwf(s.p[g], s.i[g], s.n));
    assert(s.p[g][0] <= s.p[g][j]); assert(s.p[g][j] <= s.p[g][j + 1]); assert(s.p[g][j + 1] <= s.p[g][s.n]);
    if g < s.k - 1 { assert(gwf(s.dp[g], s.di[g], s.n)); assert(s.dp[g][0] <= s.dp[g][j]); assert(s.dp[g][j] <= s.dp[g][j + 1]); assert(s.dp[g][j + 1] <= s.dp[g][s.n]); }
    assert(0 <= g * s.n) by (nonlinear_arith) requires 0 <= g, 0 <= s.n;
    assert((g + 1) * s.n <= s.k * s.n) by (nonlinear_arith) requires g + 1 <= s.k, 0 <= s.n;
    assert((g + 1) * s.n == g * s.n + s.n) by (nonlinear_arith);
    if g < s.k - 1 { assert((g + 2) * s.n <= s.k * s.n) by (nonlinear_arith) requires g + 2 <= s.k, 0 <= s.n; assert((g + 2) * s.n == (g + 1) * s.n + s.n) by (nonlinear_arith); }
    let l = s.k - 1;
    flat_prefix(s, g, j + 1, l, s.n);
    flat_len(s, l, s.n);
    assert(gwf(s.p[l], s.i[l], s.n));
}
pub proof fn mst_step(s: GS, np: Seq<i32>, ni: Seq<i32>, np2: Seq<i32>, ni2: Seq<i32>, g: int, j: int)
    requires gs_ok(s), mst(s, np, ni, g, j), 0 <= g < s.k, 0 <= j < s.n,
        np2 == np.update(col_at(s.n, g, j) + 1, np2[col_at(s.n, g, j) + 1]), np2[col_at(s.n, g, j) + 1] == flat(s, g, j + 1).len(), ni2.len() == ni.len(),
        forall|q: int| 0 <= q < flat(s, g, j).len() ==> #[trigger] ni2[q] == ni[q],
        forall|q: int| flat(s, g, j).len() <= q < flat(s, g, j + 1).len() ==> #[trigger] ni2[q] == colc(s, g, j)[q - flat(s, g, j).len()],
    ensures mst(s, np2, ni2, g, j + 1), col_at(s.n, g, j + 1) == col_at(s.n, g, j) + 1,
{
    mst_room(s, np, ni, g, j);
    assert forall|a: int, b: int| #[trigger] lex(s, a, b, g, j + 1) implies np2[col_at(s.n, a, b)] == flat(s, a, b).len() by {
        if a == g && b == j + 1 { } else { assert(lex(s, a, b, g, j)); lex_le(s, a, b, g, j); }
    }
}
pub proof fn mst_done(s: GS, np: Seq<i32>, ni: Seq<i32>)
    requires gs_ok(s), mst(s, np, ni, s.k - 1, s.n),
    ensures merged(s, np, ni),
{
    let l = s.k - 1;
    assert(s.k * s.n == l * s.n + s.n) by (nonlinear_arith) requires l == s.k - 1;
    assert(0 <= l * s.n) by (nonlinear_arith) requires l >= 0, s.n >= 0;
    assert(lex(s, l, s.n, l, s.n)); flat_len(s, l, s.n);
    assert(gwf(s.p[l], s.i[l], s.n));
    assert(lex(s, 0, 0, l, s.n)); assert(col_at(s.n, 0, 0) == 0);
    assert forall|g: int, j: int| 0 <= g < s.k && 0 <= j < s.n implies #[trigger] mcol(s, np, ni, g, j) by {
        assert(lex(s, g, j, l, s.n)); assert(lex(s, g, j + 1, l, s.n));
        flat_prefix(s, g, j + 1, l, s.n);
        lex_le(s, g, j, l, s.n);
        assert(flat(s, g, j + 1) == flat(s, g, j) + colc(s, g, j));
        assert forall|q: int| flat(s, g, j).len() <= q < flat(s, g, j + 1).len() implies #[trigger] ni[q] == colc(s, g, j)[q - flat(s, g, j).len()] by {
            assert(flat(s, g, j + 1)[q] == flat(s, l, s.n)[q]);
        }
    }
}
// one dependence from node j of a graph on node j of the next one
pub proof fn ids_ok(m: int, n: int)
    requires m >= 0, 0 <= n < i32::MAX,
    ensures gs_part(ids(m, n), ids(m, n), n, m), tot(ids(m, n), n, m) == m * n, forall|g: int, j: int| 0 <= g < m && 0 <= j <= n ==> #[trigger] ids(m, n)[g][j] == j,
    decreases m
{
    let d = ids(m, n);
    assert forall|g: int| 0 <= g < m implies gwf(#[trigger] d[g], d[g], n) by { assert(d[g] == idv(n)); }
    ids_tot(m, n, m);
}
pub proof fn ids_tot(m: int, n: int, g: int)
    requires 0 <= g <= m, 0 <= n < i32::MAX,
    ensures tot(ids(m, n), n, g) == g * n,
    decreases g
{ if g > 0 { ids_tot(m, n, g - 1); assert(ids(m, n)[g - 1] == idv(n)); assert(g * n == (g - 1) * n + n) by (nonlinear_arith); } else { assert(0 * n == 0); } }
pub open spec fn chain_gs(p: Seq<Vec<i32>>, i: Seq<Vec<i32>>, k: int, n: int) -> GS { GS { p: vv(p), i: vv(i), dp: ids(k - 1, n), di: ids(k - 1, n), n: n, k: k } }
pub open spec fn dep_gs(p: Seq<Vec<i32>>, i: Seq<Vec<i32>>, dp: Seq<Vec<i32>>, di: Seq<Vec<i32>>, k: int, n: int) -> GS { GS { p: vv(p), i: vv(i), dp: vv(dp), di: vv(di), n: n, k: k } }
pub open spec fn ni_len(s: GS) -> int { tot(s.p, s.n, s.k) + tot(s.dp, s.n, s.k - 1) }
