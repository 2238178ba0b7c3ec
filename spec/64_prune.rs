// ---- what Clean does to the entries of a file

pub open spec fn live(tests: Map<Str, int>, count: int, x: Str) -> bool {
    exists|t: Str, i: int| #[trigger] slot(tests, count, t, i) && x == entry_name(t, i)
}
pub struct Kept { pub tests: Seq<T_snaps_snapshotEntry>, pub ids: Seq<Str>, pub obs: Seq<Str> }
// how entries are judged
pub struct Judge { pub tests: Map<Str, int>, pub count: int, pub skipped: Seq<Str>, pub run: Str, pub upd: bool }
pub open spec fn dead(j: Judge, id: Str) -> bool { !live(j.tests, j.count, id) && !protected(id, j.skipped, j.run) }
pub open spec fn one_if(b: bool, s: Str) -> Seq<Str> { if b { Seq::<Str>::empty().push(s) } else { Seq::<Str>::empty() } }
pub open spec fn entry_of(id: Str, b: Str) -> T_snaps_snapshotEntry { T_snaps_snapshotEntry { id_: id, body_: b } }

#[verifier::opaque]
// the entries that are kept, all ids and the obsolete ids, in the order of the file
pub open spec fn examine(ls: Seq<Str>, j: Judge) -> Kept
    decreases ls.len() via examine_dec
{
    if ls.len() == 0 { Kept { tests: Seq::empty(), ids: Seq::empty(), obs: Seq::empty() } }
    else {
        match entry_id(ls[0]) {
            None => examine(ls.skip(1), j),
            Some(id) => {
                let r = examine(after_term(ls.skip(1)), j);
                if dead(j, id) && j.upd { Kept { tests: r.tests, ids: one_if(true, id) + r.ids, obs: one_if(true, id) + r.obs } }
                else {
                    match scan_body(lit!(""), ls.skip(1)) {
                        None => Kept { tests: Seq::empty(), ids: one_if(true, id), obs: one_if(dead(j, id), id) },
                        Some(b) => Kept { tests: Seq::<T_snaps_snapshotEntry>::empty().push(entry_of(id, b)) + r.tests, ids: one_if(true, id) + r.ids, obs: one_if(dead(j, id), id) + r.obs },
                    }
                }
            }
        }
    }
}
#[via_fn]
proof fn examine_dec(ls: Seq<Str>, j: Judge) {
    if ls.len() > 0 { after_term_len(ls.skip(1)); }
}
// what was found so far together with what the rest of the file holds
#[verifier::opaque]
pub open spec fn total(ls: Seq<Str>, j: Judge, t: Seq<T_snaps_snapshotEntry>, i: Seq<Str>, o: Seq<Str>) -> Kept {
    let r = examine(ls, j);
    Kept { tests: t + r.tests, ids: i + r.ids, obs: o + r.obs }
}
pub proof fn total_step(ls: Seq<Str>, j: Judge, t: Seq<T_snaps_snapshotEntry>, i: Seq<Str>, o: Seq<Str>)
    requires ls.len() > 0
    ensures ({
        let k = total(ls, j, t, i, o);
        match entry_id(ls[0]) {
            None => k == total(ls.skip(1), j, t, i, o),
            Some(id) => {
                let o2 = if dead(j, id) { o.push(id) } else { o };
                if dead(j, id) && j.upd { k == total(after_term(ls.skip(1)), j, t, i.push(id), o2) }
                else {
                    match scan_body(lit!(""), ls.skip(1)) {
                        None => k == total(Seq::empty(), j, t, i.push(id), o2) && after_term(ls.skip(1)) =~= Seq::empty(),
                        Some(b) => k == total(after_term(ls.skip(1)), j, t.push(entry_of(id, b)), i.push(id), o2),
                    }
                }
            }
        }
    })
{
    reveal_with_fuel(examine, 2);
    reveal(total);
    no_body(lit!(""), ls.skip(1));
    let k = total(ls, j, t, i, o);
    match entry_id(ls[0]) {
        None => {},
        Some(id) => {
            let o2 = if dead(j, id) { o.push(id) } else { o };
            let k2 = if dead(j, id) && j.upd { total(after_term(ls.skip(1)), j, t, i.push(id), o2) }
                else {
                    match scan_body(lit!(""), ls.skip(1)) {
                        None => total(Seq::empty(), j, t, i.push(id), o2),
                        Some(b) => total(after_term(ls.skip(1)), j, t.push(entry_of(id, b)), i.push(id), o2),
                    }
                };
            assert(k.tests =~= k2.tests);
            assert(k.ids =~= k2.ids);
            assert(k.obs =~= k2.obs);
        }
    }
}
pub proof fn total_end(j: Judge, t: Seq<T_snaps_snapshotEntry>, i: Seq<Str>, o: Seq<Str>)
    ensures total(Seq::empty(), j, t, i, o) == (Kept { tests: t, ids: i, obs: o })
{
    reveal(examine);
    reveal(total);
    let k = total(Seq::empty(), j, t, i, o);
    assert(k.tests =~= t && k.ids =~= i && k.obs =~= o);
}
pub proof fn total_start(ls: Seq<Str>, j: Judge, o: Seq<Str>)
    ensures ({ let r = examine(ls, j); total(ls, j, Seq::empty(), Seq::empty(), o) == (Kept { tests: r.tests, ids: r.ids, obs: o + r.obs }) })
{
    reveal(total);
    let k = total(ls, j, Seq::empty(), Seq::empty(), o);
    let r = examine(ls, j);
    assert(k.tests =~= r.tests && k.ids =~= r.ids);
}
// without a terminator the rest of the file is read
pub proof fn no_body(acc: Str, ls: Seq<Str>)
    ensures scan_body(acc, ls) is None ==> after_term(ls).len() == 0
    decreases ls.len()
{
    if ls.len() > 0 && !(ls[0] =~= lit!("---")) { no_body(acc + ls[0] + lit!("\n"), ls.skip(1)); }
}
pub open spec fn is_sorted_Str(s: Seq<Str>, f: spec_fn(Str, Str) -> int) -> bool {
    forall|i: int| 0 < i < s.len() ==> f(#[trigger] s[i], s[i - 1]) >= 0
}
pub uninterp spec fn stable_sorted_T_snaps_snapshotEntry(s: Seq<T_snaps_snapshotEntry>, f: spec_fn(T_snaps_snapshotEntry, T_snaps_snapshotEntry) -> int) -> Seq<T_snaps_snapshotEntry>;

pub open spec fn by_id(s: Seq<T_snaps_snapshotEntry>) -> Seq<T_snaps_snapshotEntry> {
    stable_sorted_T_snaps_snapshotEntry(s, |a: T_snaps_snapshotEntry, b: T_snaps_snapshotEntry| natural_order(a.id_, b.id_))
}
pub open spec fn in_order(ids: Seq<Str>) -> bool { forall|i: int| 0 < i < ids.len() ==> natural_order(#[trigger] ids[i], ids[i - 1]) >= 0 }

pub open spec fn render(ts: Seq<T_snaps_snapshotEntry>) -> Str
    decreases ts.len()
{
    if ts.len() == 0 { lit!("") }
    else { render(ts.drop_last()) + lit!("\n[") + ts.last().id_ + lit!("]\n") + ts.last().body_ + lit!("---\n") }
}
// the content Clean writes, None when it leaves the file alone
pub open spec fn cleaned(c: Str, j: Judge, sort: bool) -> Option<Str> {
    let k = examine(lines(c), j);
    let srt = sort && !in_order(k.ids);
    if (j.upd && k.obs.len() > 0) || srt { Some(render(if srt { by_id(k.tests) } else { k.tests })) } else { None }
}

// what examineSnaps works on
pub struct Px { pub fs: Map<Str, Str>, pub reg: Map<Str, Map<Str, int>>, pub count: int, pub skipped: Seq<Str>, pub run: Str, pub upd: bool, pub sort: bool, pub used: Seq<Str> }
pub open spec fn judge(x: Px, p: Str) -> Judge { Judge { tests: x.reg[p], count: x.count, skipped: x.skipped, run: x.run, upd: x.upd } }
// the files, the obsolete ids and whether anything was written after n files
#[verifier::opaque]
pub open spec fn pruned(x: Px, n: int) -> Map<Str, Str>
    decreases n
{
    if n <= 0 { x.fs } else {
        let f = pruned(x, n - 1);
        match cleaned(f[x.used[n - 1]], judge(x, x.used[n - 1]), x.sort) { None => f, Some(t) => f.insert(x.used[n - 1], t) }
    }
}
#[verifier::opaque]
pub open spec fn pruned_ids(x: Px, n: int) -> Seq<Str>
    decreases n
{
    if n <= 0 { Seq::empty() } else { pruned_ids(x, n - 1) + examine(lines(pruned(x, n - 1)[x.used[n - 1]]), judge(x, x.used[n - 1])).obs }
}
#[verifier::opaque]
pub open spec fn idle(x: Px, n: int) -> bool
    decreases n
{
    n <= 0 || (idle(x, n - 1) && cleaned(pruned(x, n - 1)[x.used[n - 1]], judge(x, x.used[n - 1]), x.sort) is None)
}
pub proof fn pruned_step(x: Px, n: int)
    requires 0 <= n < x.used.len()
    ensures ({
        let f = pruned(x, n);
        let p = x.used[n];
        let k = examine(lines(f[p]), judge(x, p));
        let c = cleaned(f[p], judge(x, p), x.sort);
        &&& pruned(x, n + 1) == (match c { None => f, Some(t) => f.insert(p, t) })
        &&& pruned_ids(x, n + 1) == pruned_ids(x, n) + k.obs
        &&& idle(x, n + 1) == (idle(x, n) && c is None)
    })
{
    reveal(pruned); reveal(pruned_ids); reveal(idle);
}
pub proof fn pruned_start(x: Px)
    ensures pruned(x, 0) == x.fs, pruned_ids(x, 0) == Seq::<Str>::empty(), idle(x, 0)
{
    reveal(pruned); reveal(pruned_ids); reveal(idle);
}
pub proof fn idle_down(x: Px, n: int)
    ensures n <= x.used.len() && idle(x, x.used.len() as int) ==> idle(x, n)
    decreases x.used.len() - n
{
    if n < x.used.len() { idle_down(x, n + 1); reveal(idle); }
}
pub open spec fn entry_str(t: T_snaps_snapshotEntry) -> Str { lit!("\n[") + t.id_ + lit!("]\n") + t.body_ + lit!("---\n") }
pub proof fn render_step(ts: Seq<T_snaps_snapshotEntry>, n: int)
    requires 0 <= n < ts.len()
    ensures ({ let a = render(ts.take(n)); let b = render(ts.take(n + 1)); b =~= a + entry_str(ts[n]) && b =~= write_at(a, a.len() as int, entry_str(ts[n])) && b.len() == a.len() + entry_str(ts[n]).len() })
{
    assert(ts.take(n + 1).drop_last() =~= ts.take(n));
    let a = render(ts.take(n));
    assert(render(ts.take(n + 1)) =~= a + entry_str(ts[n]));
    assert(write_at(a, a.len() as int, entry_str(ts[n])) =~= a + entry_str(ts[n]));
}
pub broadcast proof fn sorted_by_id(s: Seq<T_snaps_snapshotEntry>, f: spec_fn(T_snaps_snapshotEntry, T_snaps_snapshotEntry) -> int)
    requires forall|a: T_snaps_snapshotEntry, b: T_snaps_snapshotEntry| #[trigger] f(a, b) == natural_order(a.id_, b.id_)
    ensures (#[trigger] stable_sorted_T_snaps_snapshotEntry(s, f)) == by_id(s)
{
    let g = |a: T_snaps_snapshotEntry, b: T_snaps_snapshotEntry| natural_order(a.id_, b.id_);
    assert(f =~= g);
}
// the file system after some of the files were dealt with
pub open spec fn partly_pruned(x: Px, fs: Map<Str, Str>) -> bool { exists|k: int| 0 <= k <= x.used.len() && fs == #[trigger] pruned(x, k) }
// reporting without sorting leaves every file alone
pub proof fn idle_quiet(x: Px, n: int)
    requires n <= x.used.len()
    ensures !x.upd && !x.sort ==> idle(x, n)
    decreases n
{
    reveal(idle);
    if n > 0 { idle_quiet(x, n - 1); }
}
