// FOR C07 C08 C09 C10
// ---- one run of Clean

// after k of the used files, each of them was dealt with once and nothing else was touched
pub proof fn pruned_at(x: Px, k: int, p: Str)
    requires 0 <= k <= x.used.len(), x.used.no_duplicates()
    ensures
        x.used.take(k).contains(p) ==> pruned(x, k)[p] == result(x.fs[p], judge(x, p), x.sort),
        !x.used.take(k).contains(p) ==> pruned(x, k)[p] == x.fs[p],
        x.fs.dom().contains(p) ==> pruned(x, k).dom().contains(p),
        !x.used.contains(p) ==> (pruned(x, k).dom().contains(p) == x.fs.dom().contains(p)),
    decreases k
{
    reveal(pruned);
    if k > 0 {
        let u = x.used[k - 1];
        pruned_at(x, k - 1, p);
        pruned_at(x, k - 1, u);
        let t = x.used.take(k);
        let t1 = x.used.take(k - 1);
        assert(t =~= t1.push(u));
        if t1.contains(u) { let m = choose|m: int| 0 <= m < t1.len() && t1[m] == u; assert(x.used[m] == u); }
        assert(t.contains(p) <==> t1.contains(p) || p == u) by {
            if t1.contains(p) { let m = choose|m: int| 0 <= m < t1.len() && t1[m] == p; assert(t[m] == p); }
            if p == u { assert(t[k - 1] == p); }
            if t.contains(p) { let m = choose|m: int| 0 <= m < t.len() && t[m] == p; if m < k - 1 { assert(t1[m] == p); } }
        }
        assert(x.used.contains(u));
    } else { assert(!x.used.take(0).contains(p)); }
}
// what an addressed file holds after some or all of it
pub proof fn pruned_result(x: Px, k: int, p: Str)
    requires 0 <= k <= x.used.len(), x.used.no_duplicates()
    ensures pruned(x, k)[p] == x.fs[p] || pruned(x, k)[p] == result(x.fs[p], judge(x, p), x.sort), !x.used.contains(p) ==> pruned(x, k)[p] == x.fs[p], k == x.used.len() && x.used.contains(p) ==> pruned(x, k)[p] == result(x.fs[p], judge(x, p), x.sort)
{
    pruned_at(x, k, p);
    assert(x.used.take(x.used.len() as int) =~= x.used);
    if !x.used.contains(p) && x.used.take(k).contains(p) { let m = choose|m: int| 0 <= m < x.used.take(k).len() && x.used.take(k)[m] == p; assert(x.used[m] == p); }
}
// the parts of a run
pub open spec fn phases(c: Cl, st: Set<Str>, obs: Seq<Str>, used: Seq<Str>, fs0: Map<Str, Str>, fs1: Map<Str, Str>, fs2: Map<Str, Str>, o0: Str, o1: Str, o2: Str) -> bool {
    files_found(fs0, c.reg.dom(), st, c.skipped, c.run, fs1, c.upd, obs, used, o0, o1)
        && standalone_files(st, c.st) && entries_done(c, px(c, fs1, used), obs, fs2, o1, o2)
}
pub proof fn entries_at(c: Cl, x: Px, obs: Seq<Str>, fs2: Map<Str, Str>, o1: Str, o2: Str, p: Str)
    requires entries_done(c, x, obs, fs2, o1, o2), x.used.no_duplicates()
    ensures
        fs2[p] == x.fs[p] || fs2[p] == result(x.fs[p], judge(x, p), x.sort),
        !x.used.contains(p) ==> fs2[p] == x.fs[p] && (fs2.dom().contains(p) == x.fs.dom().contains(p)),
        x.fs.dom().contains(p) ==> fs2.dom().contains(p),
{
    let k = if partly_pruned(x, fs2) { choose|k: int| 0 <= k <= x.used.len() && fs2 == #[trigger] pruned(x, k) } else { x.used.len() as int };
    pruned_result(x, k, p);
    pruned_at(x, k, p);
}
// facts about the files phase
pub proof fn found_facts(fs0: Map<Str, Str>, reg: Set<Str>, st: Set<Str>, skipped: Seq<Str>, run: Str, fs1: Map<Str, Str>, upd: bool, obs: Seq<Str>, used: Seq<Str>, o0: Str, o1: Str) -> (x: Fx)
    requires files_found(fs0, reg, st, skipped, run, fs1, upd, obs, used, o0, o1)
    ensures
        x == fx(fs0, reg, st, skipped, run, x.order), dirs_of(x.order, reg, st),
        files_ok(x, x.order.len() as int, 0, fs1, upd, obs, used, o0, o1), order_ok(x),
        used.no_duplicates(), obs.no_duplicates(),
        forall|p: Str| reg.contains(p) || st.contains(p) ==> !#[trigger] obs.contains(p),
        forall|p: Str| #[trigger] used.contains(p) ==> reg.contains(p),
        forall|p: Str| #[trigger] fs0.dom().contains(p) && !obs.contains(p) ==> fs1.dom().contains(p) && fs1[p] == fs0[p],
        forall|p: Str| #[trigger] fs1.dom().contains(p) ==> fs0.dom().contains(p) && fs1[p] == fs0[p],
{
    let order = choose|order: Seq<Str>| dirs_of(order, reg, st) && files_ok(#[trigger] fx(fs0, reg, st, skipped, run, order), order.len() as int, 0, fs1, upd, obs, used, o0, o1);
    let x = fx(fs0, reg, st, skipped, run, order);
    assert forall|a: int| 0 <= a < x.order.len() implies is_clean(#[trigger] x.order[a]) by {
        assert(order.contains(x.order[a]));
        let p = choose|p: Str| (reg.contains(p) || st.contains(p)) && #[trigger] filepath_Dir(p) == x.order[a];
        dir_clean(p);
    }
    assert forall|p: Str| reg.contains(p) || st.contains(p) implies !#[trigger] obs.contains(p) by {
        if obs.contains(p) {
            let k = choose|k: int| 0 <= k < obs.len() && obs[k] == p;
            assert(is_pos(x, x.order.len() as int, 0, obs[k], true));
        }
    }
    assert forall|p: Str| #[trigger] used.contains(p) implies reg.contains(p) by {
        let k = choose|k: int| 0 <= k < used.len() && used[k] == p;
        assert(is_pos(x, x.order.len() as int, 0, used[k], false));
    }
    x
}
// an entry that is not obsolete replays what it did, whatever Clean did to its file
pub proof fn survivor(c: Cl, st: Set<Str>, obs: Seq<Str>, used: Seq<Str>, fs0: Map<Str, Str>, fs1: Map<Str, Str>, fs2: Map<Str, Str>, o0: Str, o1: Str, o2: Str, p: Str, id: Str)
    requires phases(c, st, obs, used, fs0, fs1, fs2, o0, o1, o2), c.reg.dom().contains(p), fs0.dom().contains(p), good_content(fs0[p]), is_id(id), !dead(judge(px(c, fs1, used), p), id) || !c.upd
    ensures stored_text(fs2, p, bracket(id)) == stored_text(fs0, p, bracket(id)), good_content(fs2[p]), !obs.contains(p)
{
    let f = found_facts(fs0, c.reg.dom(), st, c.skipped, c.run, fs1, c.upd, obs, used, o0, o1);
    let x = px(c, fs1, used);
    assert(!obs.contains(p));
    assert(fs1[p] == fs0[p]);
    entries_at(c, x, obs, fs2, o1, o2, p);
    let j = judge(x, p);
    cleaned_entries(fs0[p], j, c.sort);
    let r = result(fs0[p], j, c.sort);
    find_first(lines(fs0[p]), id, 1);
    find_first(lines(r), id, 1);
    assert(with_id(all_of(lines(r)), id) == with_id(all_of(lines(fs0[p])), id));
}
// THEOREM [C07] whatever the mode: a slot that was addressed in this process replays after Clean exactly what it did before, its file is not removed, and its id is not among the obsolete ones of its file
pub proof fn thm_addressed_kept(c: Cl, fs0: Map<Str, Str>, fs2: Map<Str, Str>, o0: Str, o2: Str, p: Str, n: Str, k: int)
    requires clean_done(c, fs0, fs2, o0, o2), c.reg.dom().contains(p), 1 <= k <= cnt(c.reg, p, n), fs0.dom().contains(p), good_content(fs0[p]), is_id(entry_name(n, k))
    ensures
        stored_text(fs2, p, test_id(n, k)) == stored_text(fs0, p, test_id(n, k)),
        fs2.dom().contains(p),
        forall|x: Px| #![trigger judge(x, p)] x.reg == c.reg && x.count == 1 ==> !examine(lines(fs0[p]), judge(x, p)).obs.contains(entry_name(n, k)),
{
    let id = entry_name(n, k);
    assert(slot(c.reg[p], 1, n, k));
    assert(live(c.reg[p], 1, id));
    assert(bracket(id) =~= test_id(n, k));
    let (st, obs, used, fs1, o1) = choose|st: Set<Str>, obs: Seq<Str>, used: Seq<Str>, fs1: Map<Str, Str>, o1: Str|
        #[trigger] files_found(fs0, c.reg.dom(), st, c.skipped, c.run, fs1, c.upd, obs, used, o0, o1)
        && standalone_files(st, c.st) && entries_done(c, px(c, fs1, used), obs, fs2, o1, o2);
    assert(phases(c, st, obs, used, fs0, fs1, fs2, o0, o1, o2));
    survivor(c, st, obs, used, fs0, fs1, fs2, o0, o1, o2, p, id);
    let f = found_facts(fs0, c.reg.dom(), st, c.skipped, c.run, fs1, c.upd, obs, used, o0, o1);
    entries_at(c, px(c, fs1, used), obs, fs2, o1, o2, p);
    assert forall|x: Px| #![trigger judge(x, p)] x.reg == c.reg && x.count == 1 implies !examine(lines(fs0[p]), judge(x, p)).obs.contains(id) by {
        let j = judge(x, p);
        examine_all(lines(fs0[p]), j);
        let d = dead_ids(all_of(lines(fs0[p])), j);
        if d.contains(id) { let i = choose|i: int| 0 <= i < d.len() && d[i] == id; listed_dead(all_of(lines(fs0[p])), j, i); }
    }
}
// THEOREM [C07] a standalone file that was addressed in this process is neither removed nor altered, in any mode
pub proof fn thm_standalone_kept(c: Cl, fs0: Map<Str, Str>, fs2: Map<Str, Str>, o0: Str, o2: Str, g: Str, i: int)
    requires clean_done(c, fs0, fs2, o0, o2), 1 <= i <= cnt1(c.st, g), !c.reg.dom().contains(sprintf_d(g, i)), fs0.dom().contains(sprintf_d(g, i))
    ensures fs2.dom().contains(sprintf_d(g, i)), fs2[sprintf_d(g, i)] == fs0[sprintf_d(g, i)]
{
    let p = sprintf_d(g, i);
    assert(slot(c.st, 1, g, i));
    let (st, obs, used, fs1, o1) = choose|st: Set<Str>, obs: Seq<Str>, used: Seq<Str>, fs1: Map<Str, Str>, o1: Str|
        #[trigger] files_found(fs0, c.reg.dom(), st, c.skipped, c.run, fs1, c.upd, obs, used, o0, o1)
        && standalone_files(st, c.st) && entries_done(c, px(c, fs1, used), obs, fs2, o1, o2);
    assert(st.contains(p));
    let f = found_facts(fs0, c.reg.dom(), st, c.skipped, c.run, fs1, c.upd, obs, used, o0, o1);
    assert(!obs.contains(p));
    assert(!used.contains(p));
    entries_at(c, px(c, fs1, used), obs, fs2, o1, o2, p);
}
// THEOREM [C08] an entry of a test that did not run - it or an ancestor was skipped, or -run does not select it - replays after Clean what it did before, in any mode, and is not among the obsolete ones
pub proof fn thm_protected_kept(c: Cl, fs0: Map<Str, Str>, fs2: Map<Str, Str>, o0: Str, o2: Str, p: Str, id: Str)
    requires clean_done(c, fs0, fs2, o0, o2), c.reg.dom().contains(p), protected(id, c.skipped, c.run), fs0.dom().contains(p), good_content(fs0[p]), is_id(id)
    ensures
        stored_text(fs2, p, bracket(id)) == stored_text(fs0, p, bracket(id)),
        forall|x: Px| #![trigger judge(x, p)] x.skipped == c.skipped && x.run == c.run ==> !examine(lines(fs0[p]), judge(x, p)).obs.contains(id),
{
    let (st, obs, used, fs1, o1) = choose|st: Set<Str>, obs: Seq<Str>, used: Seq<Str>, fs1: Map<Str, Str>, o1: Str|
        #[trigger] files_found(fs0, c.reg.dom(), st, c.skipped, c.run, fs1, c.upd, obs, used, o0, o1)
        && standalone_files(st, c.st) && entries_done(c, px(c, fs1, used), obs, fs2, o1, o2);
    assert(phases(c, st, obs, used, fs0, fs1, fs2, o0, o1, o2));
    survivor(c, st, obs, used, fs0, fs1, fs2, o0, o1, o2, p, id);
    assert forall|x: Px| #![trigger judge(x, p)] x.skipped == c.skipped && x.run == c.run implies !examine(lines(fs0[p]), judge(x, p)).obs.contains(id) by {
        let j = judge(x, p);
        examine_all(lines(fs0[p]), j);
        let d = dead_ids(all_of(lines(fs0[p])), j);
        if d.contains(id) { let i = choose|i: int| 0 <= i < d.len() && d[i] == id; listed_dead(all_of(lines(fs0[p])), j, i); }
    }
}
// THEOREM [C08] a file that no test addressed and that is of a test that did not run (the standalone file of a skipped test, a file with a protected entry, a file whose tests -run does not select) is not removed
pub proof fn thm_skipped_file_kept(c: Cl, fs0: Map<Str, Str>, fs2: Map<Str, Str>, o0: Str, o2: Str, d: Str, n: Str)
    requires clean_done(c, fs0, fs2, o0, o2), is_clean(d), is_name(n), file_skipped(fs0, d, n, c.skipped, c.run), !c.reg.dom().contains(join2(d, n)), fs0.dom().contains(join2(d, n))
    ensures fs2.dom().contains(join2(d, n)), fs2[join2(d, n)] == fs0[join2(d, n)]
{
    let p = join2(d, n);
    let (st, obs, used, fs1, o1) = choose|st: Set<Str>, obs: Seq<Str>, used: Seq<Str>, fs1: Map<Str, Str>, o1: Str|
        #[trigger] files_found(fs0, c.reg.dom(), st, c.skipped, c.run, fs1, c.upd, obs, used, o0, o1)
        && standalone_files(st, c.st) && entries_done(c, px(c, fs1, used), obs, fs2, o1, o2);
    let f = found_facts(fs0, c.reg.dom(), st, c.skipped, c.run, fs1, c.upd, obs, used, o0, o1);
    if obs.contains(p) {
        let k = choose|k: int| 0 <= k < obs.len() && obs[k] == p;
        assert(is_pos(f, f.order.len() as int, 0, obs[k], true));
        let (a, b) = choose|a: int, b: int| #[trigger] pos(f, f.order.len() as int, 0, a, b) && p == epath(f, a, b) && f_stale(f, a, b);
        entry_names(f.fs, f.order[a], b);
        join_injective(d, n, f.order[a], ents(f, a)[b].name);
        assert(false);
    }
    assert(!used.contains(p));
    entries_at(c, px(c, fs1, used), obs, fs2, o1, o2, p);
}
// THEOREM [C08] a skip protects the test and its descendants and no sibling that merely shares a prefix of the name
pub proof fn thm_below(a: Str, x: Str)
    ensures below(a, a), below(a + lit!("/") + x, a), x.len() > 0 && x[0] != 47 ==> !below(a + x, a)
{
    let s = a + lit!("/");
    assert(lit!("/")[0] == 47 && lit!("/").len() == 1);
    assert((s + x).take(s.len() as int) =~= s);
    if x.len() > 0 && x[0] != 47 {
        assert((a + x).len() != a.len());
        if strings_HasPrefix(a + x, s) { assert((a + x).take(s.len() as int)[a.len() as int] == s[a.len() as int]); assert((a + x)[a.len() as int] == x[0]); }
    }
}
// THEOREM [C09] completeness: when all tests ran, every unaddressed file with .snap in its name directly inside a visited directory is reported unless it belongs to a skipped test, and what is reported is such a file
pub proof fn thm_files_complete(fs0: Map<Str, Str>, reg: Set<Str>, st: Set<Str>, skipped: Seq<Str>, run: Str, fs1: Map<Str, Str>, upd: bool, obs: Seq<Str>, used: Seq<Str>, o0: Str, o1: Str, d: Str, i: int)
    requires files_found(fs0, reg, st, skipped, run, fs1, upd, obs, used, o0, o1), visited(reg, st, d), 0 <= i < dir_entries(fs0, d).len()
    ensures ({
        let e = dir_entries(fs0, d)[i];
        let p = join2(d, e.name);
        let stale = snap_file(e) && !reg.contains(p) && !st.contains(p) && !file_skipped(fs0, d, e.name, skipped, run);
        &&& run.len() == 0 && stale ==> obs.contains(p)
        &&& obs.contains(p) ==> stale
        &&& snap_file(e) && reg.contains(p) ==> used.contains(p)
    })
{
    let x = found_facts(fs0, reg, st, skipped, run, fs1, upd, obs, used, o0, o1);
    let e = dir_entries(fs0, d)[i];
    let p = join2(d, e.name);
    let n = x.order.len() as int;
    assert(x.order.contains(d));
    let a = choose|a: int| 0 <= a < x.order.len() && x.order[a] == d;
    assert(pos(x, n, 0, a, i));
    assert(epath(x, a, i) == p);
    if obs.contains(p) {
        let k = choose|k: int| 0 <= k < obs.len() && obs[k] == p;
        assert(is_pos(x, n, 0, obs[k], true));
        let (a2, b2) = choose|a2: int, b2: int| #[trigger] pos(x, n, 0, a2, b2) && p == epath(x, a2, b2) && f_stale(x, a2, b2);
        entry_names(x.fs, x.order[a], i);
        entry_names(x.fs, x.order[a2], b2);
        join_injective(x.order[a], ents(x, a)[i].name, x.order[a2], ents(x, a2)[b2].name);
        assert(a == a2);
        if i < b2 { entry_names_distinct(x.fs, d, i, b2); }
        if b2 < i { entry_names_distinct(x.fs, d, b2, i); }
    }
}
// THEOREM [C09] exactness: of the files, at most the reported ones are removed and all of them unless an error was printed; outside of clean mode none; everything that is neither reported nor an addressed file - other names, sub-directories, other directories - is as before
pub proof fn thm_only_reported(c: Cl, st: Set<Str>, obs: Seq<Str>, used: Seq<Str>, fs0: Map<Str, Str>, fs1: Map<Str, Str>, fs2: Map<Str, Str>, o0: Str, o1: Str, o2: Str, p: Str)
    requires phases(c, st, obs, used, fs0, fs1, fs2, o0, o1, o2)
    ensures
        fs0.dom().contains(p) && (!c.upd || !obs.contains(p)) ==> fs2.dom().contains(p),
        c.upd && o1 == o0 && obs.contains(p) ==> !fs2.dom().contains(p),
        !obs.contains(p) && !used.contains(p) ==> (fs2.dom().contains(p) <==> fs0.dom().contains(p)) && (fs0.dom().contains(p) ==> fs2[p] == fs0[p]),
        obs.contains(p) ==> exists|d: Str, i: int| visited(c.reg.dom(), st, d) && 0 <= i < dir_entries(fs0, d).len() && p == join2(d, (#[trigger] dir_entries(fs0, d)[i]).name) && snap_file(dir_entries(fs0, d)[i]),
        used.contains(p) ==> c.reg.dom().contains(p),
{
    let x = found_facts(fs0, c.reg.dom(), st, c.skipped, c.run, fs1, c.upd, obs, used, o0, o1);
    entries_at(c, px(c, fs1, used), obs, fs2, o1, o2, p);
    if obs.contains(p) {
        let k = choose|k: int| 0 <= k < obs.len() && obs[k] == p;
        assert(is_pos(x, x.order.len() as int, 0, obs[k], true));
        let (a, b) = choose|a: int, b: int| #[trigger] pos(x, x.order.len() as int, 0, a, b) && p == epath(x, a, b) && f_stale(x, a, b);
        assert(x.order.contains(x.order[a]));
        assert(p == join2(x.order[a], dir_entries(fs0, x.order[a])[b].name));
        assert(!c.reg.dom().contains(p));
        assert(!used.contains(p));
        if c.upd && o1 == o0 { assert(!fs1.dom().contains(obs[k])); }
    }
}
// THEOREM [C09] the entries of an addressed file: reported are exactly those whose slot was not addressed and whose test is not protected; in clean mode exactly these go, otherwise none
pub proof fn thm_entries_complete(x: Px, p: Str, e: Ent)
    requires good_content(x.fs[p]), all_of(lines(x.fs[p])).contains(e)
    ensures ({
        let j = judge(x, p);
        let r = result(x.fs[p], j, x.sort);
        &&& (dead(j, e.id_) <==> examine(lines(x.fs[p]), j).obs.contains(e.id_))
        &&& (all_of(lines(r)).contains(e) <==> !(dead(j, e.id_) && x.upd))
    })
{
    let j = judge(x, p);
    let es = all_of(lines(x.fs[p]));
    let r = result(x.fs[p], j, x.sort);
    examine_all(lines(x.fs[p]), j);
    cleaned_entries(x.fs[p], j, x.sort);
    let i = choose|i: int| 0 <= i < es.len() && es[i] == e;
    dead_listed(es, j, i);
    let d = dead_ids(es, j);
    if d.contains(e.id_) { let m = choose|m: int| 0 <= m < d.len() && d[m] == e.id_; listed_dead(es, j, m); }
    in_with(es, e);
    let w = with_id(all_of(lines(r)), e.id_);
    if gone(j, e.id_) { if all_of(lines(r)).contains(e) { in_with(all_of(lines(r)), e); assert(w.len() == 0); } }
    else {
        assert(w == with_id(es, e.id_));
        let m = choose|m: int| 0 <= m < w.len() && w[m] == e;
        with_in(all_of(lines(r)), e.id_, m);
    }
}
// THEOREM [C10] rewriting a file keeps for every surviving id exactly its entries, in their order and with their bodies: it replays what it did, nothing is dropped or duplicated
pub proof fn thm_rewrite_keeps(c: Str, j: Judge, sort: bool, id: Str)
    requires good_content(c), is_id(id), !gone(j, id)
    ensures ({
        let r = result(c, j, sort);
        &&& with_id(all_of(lines(r)), id) == with_id(all_of(lines(c)), id)
        &&& text_of(find(lines(r), bracket(id), false, 1)) == text_of(find(lines(c), bracket(id), false, 1))
        &&& good_content(r)
    })
{
    cleaned_entries(c, j, sort);
    find_first(lines(c), id, 1);
    find_first(lines(result(c, j, sort)), id, 1);
    assert(with_id(all_of(lines(result(c, j, sort))), id) == with_id(all_of(lines(c)), id));
}
// THEOREM [C10] with sorting requested the entries end up in natural order of their ids
pub proof fn thm_sorted(c: Str, j: Judge)
    requires good_content(c), weak_order()
    ensures in_order(ids_of(all_of(lines(result(c, j, true)))))
{
    cleaned_entries(c, j, true);
    let es = all_of(lines(c));
    let k = keep(es, j);
    if in_order(ids_of(es)) { keep_ordered(es, j); } else { sort_sorts(k); }
}
pub proof fn order_tail(es: Seq<Ent>)
    requires in_order(ids_of(es)), es.len() > 0
    ensures in_order(ids_of(es.skip(1)))
{
    let a = ids_of(es);
    let b = ids_of(es.skip(1));
    assert forall|i: int| 0 < i < b.len() implies natural_order(#[trigger] b[i], b[i - 1]) >= 0 by { assert(b[i] == a[i + 1] && b[i - 1] == a[i]); assert(natural_order(a[i + 1], a[i + 1 - 1]) >= 0); }
}
// in an ordered list no element is less than an earlier one
pub proof fn order_head(es: Seq<Ent>, i: int)
    requires in_order(ids_of(es)), weak_order(), 0 <= i < es.len()
    ensures !less(es[i].id_, es[0].id_)
    decreases i
{
    let a = ids_of(es);
    if i > 0 {
        order_head(es, i - 1);
        assert(natural_order(a[i], a[i - 1]) >= 0);
        assert(!less(a[i], a[i - 1]));
        assert(!less(a[i - 1], a[0]));
    }
}
pub proof fn keep_ordered(es: Seq<Ent>, j: Judge)
    requires in_order(ids_of(es)), weak_order()
    ensures in_order(ids_of(keep(es, j)))
    decreases es.len()
{
    if es.len() > 0 {
        order_tail(es);
        keep_ordered(es.skip(1), j);
        let k = keep(es.skip(1), j);
        if !gone(j, es[0].id_) {
            let s = keep(es, j);
            assert(s =~= seq![es[0]] + k);
            let a = ids_of(s);
            let b = ids_of(k);
            assert forall|i: int| 0 < i < a.len() implies natural_order(#[trigger] a[i], a[i - 1]) >= 0 by {
                if i == 1 {
                    kept_in(es.skip(1), j, 0);
                    let m = choose|m: int| 0 <= m < es.skip(1).len() && es.skip(1)[m] == k[0];
                    order_head(es, m + 1);
                    assert(es[m + 1] == k[0]);
                    assert(a[1] == k[0].id_ && a[0] == es[0].id_);
                } else { assert(a[i] == b[i - 1] && a[i - 1] == b[i - 2]); assert(natural_order(b[i - 1], b[i - 1 - 1]) >= 0); }
            }
        } else { assert(keep(es, j) =~= k); }
    }
}
// THEOREM [C10] running Clean again with the same registry, skips and mode writes no file
pub proof fn thm_idempotent(c: Str, j: Judge, sort: bool)
    requires good_content(c), weak_order()
    ensures cleaned(result(c, j, sort), j, sort) is None, result(result(c, j, sort), j, sort) == result(c, j, sort)
{
    let r = result(c, j, sort);
    let es = all_of(lines(r));
    cleaned_entries(c, j, sort);
    examine_all(lines(r), j);
    if sort { thm_sorted(c, j); }
    let d = dead_ids(es, j);
    if j.upd && d.len() > 0 {
        listed_dead(es, j, 0);
        let m = choose|m: int| 0 <= m < ids_of(es).len() && ids_of(es)[m] == d[0];
        assert(es.contains(es[m]));
        in_with(es, es[m]);
        assert(with_id(es, d[0]).len() == 0);
    }
}
// THEOREM [C10] a file that holds nothing obsolete and whose entries are in order is not written
pub proof fn thm_left_alone(c: Str, j: Judge, sort: bool)
    requires good_content(c), !j.upd || dead_ids(all_of(lines(c)), j).len() == 0, !sort || in_order(ids_of(all_of(lines(c))))
    ensures cleaned(c, j, sort) is None
{
    examine_all(lines(c), j);
}
// ids in strictly increasing order
pub open spec fn strict(s: Seq<Str>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> less(#[trigger] s[i], #[trigger] s[j]) }
// THEOREM [C10] the order is independent of the initial one whenever it is total: two strictly ordered lists of the same ids are the same
pub proof fn thm_order_unique(a: Seq<Str>, b: Seq<Str>)
    requires weak_order(), strict(a), strict(b), forall|x: Str| #[trigger] a.contains(x) <==> b.contains(x)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 {
        if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); }
        assert(a =~= b);
    } else {
        assert(a.contains(a[0]));
        assert(b.contains(a[0]));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == a[0];
        assert(b.contains(b[0]));
        assert(a.contains(b[0]));
        let k = choose|k: int| 0 <= k < a.len() && a[k] == b[0];
        if i > 0 { assert(less(b[0], b[i])); if k > 0 { assert(less(a[0], a[k])); } }
        assert(a[0] == b[0]);
        let a2 = a.skip(1);
        let b2 = b.skip(1);
        assert forall|x: Str| #[trigger] a2.contains(x) <==> b2.contains(x) by { rest_same(a, b, x); rest_same(b, a, x); }
        assert forall|i: int, j: int| 0 <= i < j < a2.len() implies less(#[trigger] a2[i], #[trigger] a2[j]) by { assert(less(a[i + 1], a[j + 1])); }
        assert forall|i: int, j: int| 0 <= i < j < b2.len() implies less(#[trigger] b2[i], #[trigger] b2[j]) by { assert(less(b[i + 1], b[j + 1])); }
        thm_order_unique(a2, b2);
        assert(a =~= seq![a[0]] + a2);
        assert(b =~= seq![b[0]] + b2);
    }
}
pub proof fn rest_same(a: Seq<Str>, b: Seq<Str>, x: Str)
    requires weak_order(), strict(a), strict(b), a.len() > 0, b.len() > 0, a[0] == b[0], forall|x: Str| #[trigger] a.contains(x) <==> b.contains(x)
    ensures a.skip(1).contains(x) ==> b.skip(1).contains(x)
{
    if a.skip(1).contains(x) {
        let i = choose|i: int| 0 <= i < a.skip(1).len() && a.skip(1)[i] == x;
        assert(a[i + 1] == x);
        assert(less(a[0], a[i + 1]));
        assert(a.contains(x));
        assert(b.contains(x));
        let k = choose|k: int| 0 <= k < b.len() && b[k] == x;
        if k == 0 { assert(less(x, x)); assert(false); }
        assert(b.skip(1)[k - 1] == x);
    }
}
