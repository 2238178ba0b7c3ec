// FOR C20
// ---- the summary adds up

// how many entries of h are k
pub open spec fn tally(h: Seq<int>, k: int) -> int
    decreases h.len()
{
    if h.len() == 0 { 0 } else { tally(h.drop_last(), k) + (if h.last() == k { 1int } else { 0int }) }
}
// the registry of outcomes as it is handed from one register to the next under its lock, in the order h in which they get it
pub open spec fn registered(ms: Seq<Map<int, int>>, h: Seq<int>) -> bool {
    ms.len() == h.len() + 1 && ms[0] == Map::<int, int>::empty()
        && forall|i: int, k: int| 0 <= i < h.len() ==> #[trigger] icnt(ms[i + 1], k) == icnt(ms[i], k) + (if h[i] == k { 1int } else { 0int })
}
// the list of skips likewise; every append adds what one Skip call passes
pub open spec fn skips_kept(vs: Seq<Seq<Str>>, h: Seq<Str>) -> bool {
    vs.len() == h.len() + 1 && vs[0].len() == 0 && forall|i: int| 0 <= i < h.len() ==> #[trigger] vs[i + 1] =~= vs[i].push(h[i])
}
// the concurrent order h and any listing g of the calls of the process hold the same outcomes
pub open spec fn same_calls(h: Seq<int>, g: Seq<int>) -> bool { h.to_multiset() == g.to_multiset() }

pub proof fn tally_count(h: Seq<int>, k: int)
    ensures tally(h, k) == h.to_multiset().count(k)
    decreases h.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if h.len() > 0 {
        tally_count(h.drop_last(), k);
        assert(h =~= h.drop_last().push(h.last()));
        assert(h.to_multiset() =~= h.drop_last().to_multiset().insert(h.last()));
    } else { assert(h =~= Seq::<int>::empty()); assert(h.to_multiset().len() == 0); }
}
pub proof fn registered_count(ms: Seq<Map<int, int>>, h: Seq<int>, k: int)
    requires registered(ms, h)
    ensures icnt(ms[h.len() as int], k) == tally(h, k)
    decreases h.len()
{
    if h.len() > 0 {
        let n = h.len() as int;
        let p = ms.take(n); let q = h.drop_last();
        assert forall|i: int, j: int| 0 <= i < q.len() implies #[trigger] icnt(p[i + 1], j) == icnt(p[i], j) + (if q[i] == j { 1int } else { 0int }) by {
            assert(icnt(ms[i + 1], j) == icnt(ms[i], j) + (if h[i] == j { 1int } else { 0int }));
        }
        registered_count(p, q, k);
        assert(icnt(ms[(n - 1) + 1], k) == icnt(ms[n - 1], k) + (if h[n - 1] == k { 1int } else { 0int }));
    }
}
// THEOREM [C20] the totals of the outcomes are those of the calls made in the process, each counted once, in whatever order they got to the registry
pub proof fn thm_totals(ms: Seq<Map<int, int>>, h: Seq<int>, g: Seq<int>, k: int)
    requires registered(ms, h), same_calls(h, g)
    ensures icnt(ms[h.len() as int], k) == tally(g, k)
{
    registered_count(ms, h, k);
    tally_count(h, k);
    tally_count(g, k);
}
pub proof fn tally_sum(h: Seq<int>)
    requires forall|i: int| 0 <= i < h.len() ==> 0 <= #[trigger] h[i] <= 3
    ensures tally(h, 0) + tally(h, 1) + tally(h, 2) + tally(h, 3) == h.len(), forall|k: int| tally(h, k) >= 0
    decreases h.len()
{
    if h.len() > 0 { tally_sum(h.drop_last()); }
    assert forall|k: int| tally(h, k) >= 0 by { tally_pos(h, k); }
}
pub proof fn tally_pos(h: Seq<int>, k: int)
    ensures tally(h, k) >= 0
    decreases h.len()
{
    if h.len() > 0 { tally_pos(h.drop_last(), k); }
}
// THEOREM [C20] every call is in exactly one of the four totals: passed, failed, added and updated add up to the number of calls
pub proof fn thm_adds_up(ms: Seq<Map<int, int>>, h: Seq<int>, g: Seq<int>)
    requires registered(ms, h), same_calls(h, g), forall|i: int| 0 <= i < h.len() ==> 0 <= #[trigger] h[i] <= 3
    ensures
        icnt(ms[h.len() as int], 0) + icnt(ms[h.len() as int], 1) + icnt(ms[h.len() as int], 2) + icnt(ms[h.len() as int], 3) == g.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    registered_count(ms, h, 0);
    registered_count(ms, h, 1);
    registered_count(ms, h, 2);
    registered_count(ms, h, 3);
    tally_sum(h);
    assert(h.to_multiset().len() == h.len());
    assert(g.to_multiset().len() == g.len());
}
pub proof fn skips_counted(vs: Seq<Seq<Str>>, h: Seq<Str>)
    requires skips_kept(vs, h)
    ensures vs[h.len() as int] =~= h
    decreases h.len()
{
    if h.len() > 0 {
        let n = h.len() as int;
        let p = vs.take(n); let q = h.drop_last();
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] p[i + 1] =~= p[i].push(q[i]) by { assert(vs[i + 1] =~= vs[i].push(h[i])); }
        skips_counted(p, q);
        assert(vs[(n - 1) + 1] =~= vs[n - 1].push(h[n - 1]));
    }
}
// THEOREM [C20] the list of skips holds one element for each call of snaps.Skip, Skipf and SkipNow, whatever their order
pub proof fn thm_skips(vs: Seq<Seq<Str>>, h: Seq<Str>)
    requires skips_kept(vs, h)
    ensures vs[h.len() as int] =~= h
{ skips_counted(vs, h); }
// what the summary has to say: the totals of the calls g made in the process and of the skips, and the obsolete items
pub open spec fn true_summary(s: Style, g: Seq<int>, skips: int, files: Seq<Str>, tests: Seq<Str>, clean: bool) -> Str {
    lit!("\n") + paint(s.plain, s.white, lit!("Snapshot Summary")) + lit!("\n\n")
        + event_line(s.plain, s.green, s.ok, lit!("passed"), tally(g, 3))
        + event_line(s.plain, s.red, s.bad, lit!("failed"), tally(g, 0))
        + event_line(s.plain, s.green, s.upd, lit!("added"), tally(g, 1))
        + event_line(s.plain, s.green, s.upd, lit!("updated"), tally(g, 2))
        + event_line(s.plain, s.yellow, s.skip, lit!("skipped"), skips)
        + item_list(s, files, lit!("file"), clean)
        + item_list(s, tests, lit!("test"), clean)
        + (if !clean && files.len() + tests.len() > 0 { paint(s.plain, s.dim, if files.len() + tests.len() > 1 { lit!("\nTo remove them, re-run tests with `UPDATE_SNAPS=clean go test ./...`\n") } else { lit!("\nTo remove it, re-run tests with `UPDATE_SNAPS=clean go test ./...`\n") }) } else { lit!("") })
}
// THEOREM [C20] what Clean prints: nothing when no call and no skip was made and nothing is obsolete, else exactly the totals of the calls and skips made in the process, whatever their interleaving, and exactly the items it judged obsolete
pub proof fn thm_summary(c: Cl, ms: Seq<Map<int, int>>, h: Seq<int>, g: Seq<int>, vs: Seq<Seq<Str>>, sk: Seq<Str>, files: Seq<Str>, tests: Seq<Str>)
    requires registered(ms, h), same_calls(h, g), c.ev == ms[h.len() as int], skips_kept(vs, sk), c.skipped == vs[sk.len() as int],
    ensures
        summary_of(c, files, tests) =~= lit!("") || summary_of(c, files, tests) =~= true_summary(c.style, g, sk.len() as int, files, tests, c.upd),
        summary_of(c, files, tests).len() == 0 ==> files.len() == 0 && tests.len() == 0 && sk.len() == 0 && forall|k: int| tally(g, k) == 0,
{
    thm_totals(ms, h, g, 0);
    thm_totals(ms, h, g, 1);
    thm_totals(ms, h, g, 2);
    thm_totals(ms, h, g, 3);
    skips_counted(vs, sk);
    assert forall|k: int| c.ev.dom().len() == 0 implies tally(g, k) == 0 by {
        thm_totals(ms, h, g, k);
        if c.ev.dom().len() == 0 { assert(c.ev.dom() =~= Set::<int>::empty()); }
    }
    let t = summary_text(c.style, files, tests, c.skipped.len() as int, c.ev, c.upd);
    assert(t =~= true_summary(c.style, g, sk.len() as int, files, tests, c.upd));
    assert(lit!("\n").len() == 1);
    assert(t.len() >= 1);
}
