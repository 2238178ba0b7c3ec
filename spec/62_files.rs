// ---- which files Clean finds obsolete

pub uninterp spec fn strings_Contains(s: Str, t: Str) -> bool;
pub uninterp spec fn is_clean(d: Str) -> bool;
pub uninterp spec fn is_name(n: Str) -> bool;
pub open spec fn join2(d: Str, n: Str) -> Str { filepath_Join(Seq::<Str>::empty().push(d).push(n)) }

// AXIOM filepath.Dir returns a cleaned path
#[verifier::external_body]
pub broadcast proof fn dir_clean(p: Str) ensures is_clean(#[trigger] filepath_Dir(p)) {}
// AXIOM os.ReadDir lists names without separators, each once
#[verifier::external_body]
pub broadcast proof fn entry_names(fs: Map<Str, Str>, d: Str, i: int)
    ensures 0 <= i < dir_entries(fs, d).len() ==> is_name((#[trigger] dir_entries(fs, d)[i]).name) {}
#[verifier::external_body]
pub proof fn entry_names_distinct(fs: Map<Str, Str>, d: Str, i: int, j: int)
    ensures 0 <= i < j < dir_entries(fs, d).len() ==> dir_entries(fs, d)[i].name != dir_entries(fs, d)[j].name {}
// AXIOM joining a cleaned directory and a name is injective
#[verifier::external_body]
pub proof fn join_injective(d: Str, n: Str, d2: Str, n2: Str)
    requires is_clean(d), is_clean(d2), is_name(n), is_name(n2), join2(d, n) == join2(d2, n2)
    ensures d == d2, n == n2 {}
// AXIOM removing a file of a directory leaves the listing of another as it was (no directory is visited under two names)
#[verifier::external_body]
pub proof fn listing_stable(fs: Map<Str, Str>, d: Str, n: Str, d2: Str)
    requires is_clean(d), is_clean(d2), is_name(n), d != d2
    ensures dir_entries(fs.remove(join2(d, n)), d2) == dir_entries(fs, d2) {}
// AXIOM a missing Go source does not parse
#[verifier::external_body]
pub proof fn missing_source()
    ensures !go_parses(None) {}

pub open spec fn snap_file(e: T_DirEnt) -> bool { !e.isdir && strings_Contains(e.name, lit!(".snap")) }

// what examineFiles works on: the files, the addressed paths, the skips and the visited directories
pub struct Fx { pub fs: Map<Str, Str>, pub reg: Set<Str>, pub st: Set<Str>, pub skipped: Seq<Str>, pub run: Str, pub order: Seq<Str> }

pub open spec fn ents(x: Fx, a: int) -> Seq<T_DirEnt> { dir_entries(x.fs, x.order[a]) }
pub open spec fn epath(x: Fx, a: int, b: int) -> Str { join2(x.order[a], ents(x, a)[b].name) }
pub open spec fn f_used(x: Fx, a: int, b: int) -> bool { snap_file(ents(x, a)[b]) && x.reg.contains(epath(x, a, b)) }
// not addressed and not of a test that did not run
pub open spec fn f_stale(x: Fx, a: int, b: int) -> bool {
    &&& snap_file(ents(x, a)[b])
    &&& !x.reg.contains(epath(x, a, b)) && !x.st.contains(epath(x, a, b))
    &&& !file_skipped(x.fs, x.order[a], ents(x, a)[b].name, x.skipped, x.run)
}
// positions before entry m of directory n
pub open spec fn pos(x: Fx, n: int, m: int, a: int, b: int) -> bool {
    0 <= b < ents(x, a).len() && 0 <= a < x.order.len() && (a < n || (a == n && b < m))
}
pub open spec fn is_pos(x: Fx, n: int, m: int, p: Str, stale: bool) -> bool {
    exists|a: int, b: int| #[trigger] pos(x, n, m, a, b) && p == epath(x, a, b) && (if stale { f_stale(x, a, b) } else { f_used(x, a, b) })
}
pub open spec fn smaller(f: Map<Str, Str>, g: Map<Str, Str>) -> bool {
    forall|p: Str| #[trigger] f.dom().contains(p) ==> g.dom().contains(p) && f[p] == g[p]
}
pub open spec fn order_ok(x: Fx) -> bool {
    x.order.no_duplicates() && forall|a: int| 0 <= a < x.order.len() ==> is_clean(#[trigger] x.order[a])
}
pub open spec fn files_ok(x: Fx, n: int, m: int, fs: Map<Str, Str>, upd: bool, obs: Seq<Str>, used: Seq<Str>, o0: Str, o1: Str) -> bool {
    &&& forall|k: int| 0 <= k < obs.len() ==> is_pos(x, n, m, #[trigger] obs[k], true)
    &&& forall|k: int| 0 <= k < used.len() ==> is_pos(x, n, m, #[trigger] used[k], false)
    &&& x.run.len() == 0 ==> forall|a: int, b: int| #[trigger] pos(x, n, m, a, b) && f_stale(x, a, b) ==> obs.contains(epath(x, a, b))
    &&& forall|a: int, b: int| #[trigger] pos(x, n, m, a, b) && f_used(x, a, b) ==> used.contains(epath(x, a, b))
    &&& obs.no_duplicates() && used.no_duplicates()
    &&& smaller(fs, x.fs)
    &&& forall|p: Str| #[trigger] x.fs.dom().contains(p) && !fs.dom().contains(p) ==> obs.contains(p)
    &&& !upd ==> fs == x.fs
    &&& o1.len() >= o0.len()
    &&& upd && o1 == o0 ==> forall|k: int| 0 <= k < obs.len() ==> !fs.dom().contains(#[trigger] obs[k])
    &&& !upd ==> o1 == o0
    &&& forall|a: int| (n < a || (n == a && m == 0)) && a < x.order.len() ==> dir_entries(fs, #[trigger] x.order[a]) == ents(x, a)
}

pub proof fn pos_distinct(x: Fx, n: int, m: int, a: int, b: int)
    requires order_ok(x), 0 <= n < x.order.len(), 0 <= m < ents(x, n).len(), pos(x, n, m, a, b)
    ensures epath(x, a, b) != epath(x, n, m)
{
    if epath(x, a, b) == epath(x, n, m) {
        entry_names(x.fs, x.order[a], b);
        entry_names(x.fs, x.order[n], m);
        join_injective(x.order[a], ents(x, a)[b].name, x.order[n], ents(x, n)[m].name);
        assert(a == n);
        entry_names_distinct(x.fs, x.order[n], b, m);
    }
}
pub proof fn pos_new(x: Fx, n: int, m: int, p: Str, stale: bool)
    requires order_ok(x), 0 <= n < x.order.len(), 0 <= m < ents(x, n).len(), is_pos(x, n, m, p, stale)
    ensures p != epath(x, n, m), is_pos(x, n, m + 1, p, stale)
{
    let (a, b) = choose|a: int, b: int| #[trigger] pos(x, n, m, a, b) && p == epath(x, a, b) && (if stale { f_stale(x, a, b) } else { f_used(x, a, b) });
    pos_distinct(x, n, m, a, b);
    assert(pos(x, n, m + 1, a, b));
}
// whether the entry is found skipped does not depend on what was removed before
pub proof fn skipped_now(x: Fx, n: int, m: int, fs: Map<Str, Str>, upd: bool, obs: Seq<Str>, used: Seq<Str>, o0: Str, o1: Str)
    requires order_ok(x), 0 <= n < x.order.len(), 0 <= m < ents(x, n).len(), files_ok(x, n, m, fs, upd, obs, used, o0, o1)
    ensures
        !file_skipped(fs, x.order[n], ents(x, n)[m].name, x.skipped, x.run) ==> !file_skipped(x.fs, x.order[n], ents(x, n)[m].name, x.skipped, x.run),
        x.run.len() == 0 ==> file_skipped(fs, x.order[n], ents(x, n)[m].name, x.skipped, x.run) == file_skipped(x.fs, x.order[n], ents(x, n)[m].name, x.skipped, x.run),
        !obs.contains(epath(x, n, m)), !used.contains(epath(x, n, m)),
{
    let p = epath(x, n, m);
    assert forall|k: int| 0 <= k < obs.len() implies #[trigger] obs[k] != p by { pos_new(x, n, m, obs[k], true); }
    assert forall|k: int| 0 <= k < used.len() implies #[trigger] used[k] != p by { pos_new(x, n, m, used[k], false); }
    assert(x.fs.dom().contains(p) == fs.dom().contains(p));
    assert(path_Join(Seq::<Str>::empty().push(x.order[n]).push(ents(x, n)[m].name)) == p);
    let s = source_of(x.order[n], ents(x, n)[m].name);
    if fs.dom().contains(s) { assert(sread(fs, s) == sread(x.fs, s)); }
    else { assert(sread(fs, s) is None); missing_source(); }
}
// entry m of directory n is left alone
pub proof fn files_skip(x: Fx, n: int, m: int, fs: Map<Str, Str>, upd: bool, obs: Seq<Str>, used: Seq<Str>, o0: Str, o1: Str)
    requires
        order_ok(x), 0 <= n < x.order.len(), 0 <= m < ents(x, n).len(), files_ok(x, n, m, fs, upd, obs, used, o0, o1),
        !f_used(x, n, m), !snap_file(ents(x, n)[m]) || x.st.contains(epath(x, n, m)) || file_skipped(fs, x.order[n], ents(x, n)[m].name, x.skipped, x.run),
    ensures files_ok(x, n, m + 1, fs, upd, obs, used, o0, o1)
{
    skipped_now(x, n, m, fs, upd, obs, used, o0, o1);
    assert forall|k: int| 0 <= k < obs.len() implies is_pos(x, n, m + 1, #[trigger] obs[k], true) by { pos_new(x, n, m, obs[k], true); }
    assert forall|k: int| 0 <= k < used.len() implies is_pos(x, n, m + 1, #[trigger] used[k], false) by { pos_new(x, n, m, used[k], false); }
    assert forall|a: int, b: int| #[trigger] pos(x, n, m + 1, a, b) implies (x.run.len() == 0 && f_stale(x, a, b) ==> obs.contains(epath(x, a, b))) && (f_used(x, a, b) ==> used.contains(epath(x, a, b))) by {
        assert(pos(x, n, m, a, b) || (a == n && b == m));
    }
}
// it was addressed
pub proof fn files_used(x: Fx, n: int, m: int, fs: Map<Str, Str>, upd: bool, obs: Seq<Str>, used: Seq<Str>, o0: Str, o1: Str)
    requires
        order_ok(x), 0 <= n < x.order.len(), 0 <= m < ents(x, n).len(), files_ok(x, n, m, fs, upd, obs, used, o0, o1),
        f_used(x, n, m),
    ensures files_ok(x, n, m + 1, fs, upd, obs, used.push(epath(x, n, m)), o0, o1)
{
    let u2 = used.push(epath(x, n, m));
    skipped_now(x, n, m, fs, upd, obs, used, o0, o1);
    assert(pos(x, n, m + 1, n, m));
    assert forall|k: int| 0 <= k < obs.len() implies is_pos(x, n, m + 1, #[trigger] obs[k], true) by { pos_new(x, n, m, obs[k], true); }
    assert forall|k: int| 0 <= k < u2.len() implies is_pos(x, n, m + 1, #[trigger] u2[k], false) by { if k < used.len() { pos_new(x, n, m, used[k], false); } }
    assert(u2.last() == epath(x, n, m));
    assert forall|p: Str| used.contains(p) implies #[trigger] u2.contains(p) by { let k = choose|k: int| 0 <= k < used.len() && used[k] == p; assert(u2[k] == p); }
    assert forall|a: int, b: int| #[trigger] pos(x, n, m + 1, a, b) implies (x.run.len() == 0 && f_stale(x, a, b) ==> obs.contains(epath(x, a, b))) && (f_used(x, a, b) ==> u2.contains(epath(x, a, b))) by {
        assert(pos(x, n, m, a, b) || (a == n && b == m));
        if a == n && b == m { assert(u2[used.len() as int] == epath(x, a, b)); }
    }
}
// it is obsolete
pub proof fn files_stale(x: Fx, n: int, m: int, fs: Map<Str, Str>, fs2: Map<Str, Str>, upd: bool, obs: Seq<Str>, used: Seq<Str>, o0: Str, o1: Str, o2: Str)
    requires
        order_ok(x), 0 <= n < x.order.len(), 0 <= m < ents(x, n).len(), files_ok(x, n, m, fs, upd, obs, used, o0, o1),
        snap_file(ents(x, n)[m]), !x.reg.contains(epath(x, n, m)), !x.st.contains(epath(x, n, m)), !file_skipped(fs, x.order[n], ents(x, n)[m].name, x.skipped, x.run),
        if upd { (fs2 == fs.remove(epath(x, n, m)) && o2 == o1) || (fs2 == fs && o2.len() > o1.len()) } else { fs2 == fs && o2 == o1 },
    ensures files_ok(x, n, m + 1, fs2, upd, obs.push(epath(x, n, m)), used, o0, o2)
{
    let b2 = obs.push(epath(x, n, m));
    skipped_now(x, n, m, fs, upd, obs, used, o0, o1);
    assert(pos(x, n, m + 1, n, m));
    assert forall|k: int| 0 <= k < b2.len() implies is_pos(x, n, m + 1, #[trigger] b2[k], true) by { if k < obs.len() { pos_new(x, n, m, obs[k], true); } }
    assert forall|k: int| 0 <= k < used.len() implies is_pos(x, n, m + 1, #[trigger] used[k], false) by { pos_new(x, n, m, used[k], false); }
    assert forall|p: Str| obs.contains(p) implies #[trigger] b2.contains(p) by { let k = choose|k: int| 0 <= k < obs.len() && obs[k] == p; assert(b2[k] == p); }
    assert(b2[obs.len() as int] == epath(x, n, m));
    assert forall|a: int, b: int| #[trigger] pos(x, n, m + 1, a, b) implies (x.run.len() == 0 && f_stale(x, a, b) ==> b2.contains(epath(x, a, b))) && (f_used(x, a, b) ==> used.contains(epath(x, a, b))) by {
        assert(pos(x, n, m, a, b) || (a == n && b == m));
    }
    assert forall|a: int| n < a && a < x.order.len() implies dir_entries(fs2, #[trigger] x.order[a]) == ents(x, a) by {
        assert(x.order[a] != x.order[n]);
        entry_names(x.fs, x.order[n], m);
        listing_stable(fs, x.order[n], ents(x, n)[m].name, x.order[a]);
    }
    if upd && o2 == o0 {
        assert(o1 == o0);
        assert forall|k: int| 0 <= k < b2.len() implies !fs2.dom().contains(#[trigger] b2[k]) by { if k < obs.len() { assert(!fs.dom().contains(obs[k])); } }
    }
}
pub proof fn files_dir(x: Fx, n: int, fs: Map<Str, Str>, upd: bool, obs: Seq<Str>, used: Seq<Str>, o0: Str, o1: Str)
    requires order_ok(x), 0 <= n < x.order.len(), files_ok(x, n, ents(x, n).len() as int, fs, upd, obs, used, o0, o1)
    ensures files_ok(x, n + 1, 0, fs, upd, obs, used, o0, o1)
{
    let m = ents(x, n).len() as int;
    assert forall|p: Str, st: bool| #[trigger] is_pos(x, n, m, p, st) implies is_pos(x, n + 1, 0, p, st) by {
        let (a, b) = choose|a: int, b: int| #[trigger] pos(x, n, m, a, b) && p == epath(x, a, b) && (if st { f_stale(x, a, b) } else { f_used(x, a, b) });
        assert(pos(x, n + 1, 0, a, b));
    }
    assert forall|a: int, b: int| #[trigger] pos(x, n + 1, 0, a, b) implies pos(x, n, m, a, b) by {}
}

// the directories of the addressed paths
pub open spec fn visited(reg: Set<Str>, st: Set<Str>, d: Str) -> bool {
    exists|p: Str| (reg.contains(p) || st.contains(p)) && #[trigger] filepath_Dir(p) == d
}
pub open spec fn files_found(fs0: Map<Str, Str>, reg: Set<Str>, st: Set<Str>, skipped: Seq<Str>, run: Str,
    fs: Map<Str, Str>, upd: bool, obs: Seq<Str>, used: Seq<Str>, o0: Str, o1: Str) -> bool
{
    exists|order: Seq<Str>| dirs_of(order, reg, st)
        && files_ok(#[trigger] fx(fs0, reg, st, skipped, run, order), order.len() as int, 0, fs, upd, obs, used, o0, o1)
}
pub open spec fn fx(fs0: Map<Str, Str>, reg: Set<Str>, st: Set<Str>, skipped: Seq<Str>, run: Str, order: Seq<Str>) -> Fx {
    Fx { fs: fs0, reg, st, skipped, run, order }
}
pub open spec fn dirs_of(order: Seq<Str>, reg: Set<Str>, st: Set<Str>) -> bool {
    order.no_duplicates() && forall|d: Str| #[trigger] order.contains(d) <==> visited(reg, st, d)
}
pub proof fn files_all(x: Fx, fs: Map<Str, Str>, upd: bool, obs: Seq<Str>, used: Seq<Str>, o0: Str, o1: Str)
    requires dirs_of(x.order, x.reg, x.st), files_ok(x, x.order.len() as int, 0, fs, upd, obs, used, o0, o1)
    ensures files_found(x.fs, x.reg, x.st, x.skipped, x.run, fs, upd, obs, used, o0, o1)
{
    assert(fx(x.fs, x.reg, x.st, x.skipped, x.run, x.order) == x);
}
