// FOR C01 C02 C03 C04 C06 C18
// ---- histories: the operations of all tests on the files, in the order of the lock

// every operation saw the files the ones before it left
pub open spec fn valid(fs: Map<Str, Str>, h: Seq<SEv>) -> bool {
    forall|i: int| 0 <= i < h.len() ==> ev_ok(run(fs, h.take(i)), #[trigger] h[i])
}
// what a history makes of one slot; only operations on the slot itself count
pub open spec fn slot1(q: Option<Str>, e: SEv, p: Str, id: Str) -> Option<Str> {
    match e {
        SEv::Add(p1, id1, t, true) => if p1 == p && id1 == id && q is None { Some(t) } else { q },
        SEv::Upd(p1, id1, t, true) => if p1 == p && id1 == id && q is Some { Some(t) } else { q },
        _ => q,
    }
}
pub open spec fn holds(q: Option<Str>, h: Seq<SEv>, p: Str, id: Str) -> Option<Str>
    decreases h.len()
{
    if h.len() == 0 { q } else { slot1(holds(q, h.drop_last(), p, id), h.last(), p, id) }
}
// the texts fit in entries, and the file holds no standalone snapshot
pub open spec fn fits(e: SEv, p: Str) -> bool {
    match e {
        SEv::Add(p1, id1, t, ok) => p1 == p ==> ok_id(id1) && term_free(t) && no_cr(t),
        SEv::Upd(p1, id1, t, ok) => p1 == p ==> ok_id(id1) && term_free(t) && no_cr(t),
        SEv::SPut(p1, t, ok) => p1 != p,
        _ => true,
    }
}
pub open spec fn all_fit(h: Seq<SEv>, p: Str) -> bool { forall|i: int| 0 <= i < h.len() ==> fits(#[trigger] h[i], p) }
pub open spec fn good_file(fs: Map<Str, Str>, p: Str) -> bool { closed(content(fs, p)) }
pub open spec fn file_ids(fs: Map<Str, Str>, p: Str) -> Seq<Str> { heads(lines(content(fs, p)), false) }
pub open spec fn is_prefix(a: Seq<Str>, b: Seq<Str>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }

proof fn valid_prefix(fs: Map<Str, Str>, h: Seq<SEv>, i: int)
    requires valid(fs, h), 0 <= i <= h.len()
    ensures valid(fs, h.take(i))
{
    assert forall|j: int| 0 <= j < h.take(i).len() implies ev_ok(run(fs, h.take(i).take(j)), #[trigger] h.take(i)[j]) by {
        assert(h.take(i).take(j) =~= h.take(j));
        assert(h.take(i)[j] == h[j]);
    }
}
proof fn fit_prefix(h: Seq<SEv>, p: Str, i: int)
    requires all_fit(h, p), 0 <= i <= h.len()
    ensures all_fit(h.take(i), p)
{
    assert forall|j: int| 0 <= j < h.take(i).len() implies fits(#[trigger] h.take(i)[j], p) by { assert(h.take(i)[j] == h[j]); }
}
pub proof fn one_step(fs: Map<Str, Str>, e: SEv, p: Str, id: Str)
    requires good_file(fs, p), fits(e, p), ok_id(id), ev_ok(fs, e)
    ensures
        good_file(step(fs, e), p),
        stored_text(step(fs, e), p, id) == slot1(stored_text(fs, p, id), e, p, id),
        file_ids(step(fs, e), p) == (match e { SEv::Add(p1, id1, t, true) => if p1 == p { file_ids(fs, p).push(id1) } else { file_ids(fs, p) }, _ => file_ids(fs, p) }),
{
    let c = content(fs, p);
    assert(stored_text(fs, p, id) == text_of(find(lines(c), id, false, 1)));
    assert(stored_text(step(fs, e), p, id) == text_of(find(lines(content(step(fs, e), p)), id, false, 1)));
    match e {
        SEv::Add(p1, id1, t, true) => { if p1 == p { thm_add(c, id1, t, id); } },
        SEv::Upd(p1, id1, t, true) => { if p1 == p { thm_rewrite(c, id1, t, id); } },
        _ => {},
    }
}
// THEOREM [C01 C03 C04 C06] whatever tests interleave on a file, in any order and number of operations: the file stays well-formed, each slot holds what the operations on that slot alone put there (none is lost, torn or overwritten by a stale copy), and the entries that existed keep their order with new ones after them
pub proof fn thm_history(fs: Map<Str, Str>, h: Seq<SEv>, p: Str, id: Str)
    requires good_file(fs, p), all_fit(h, p), ok_id(id), valid(fs, h)
    ensures
        good_file(run(fs, h), p),
        stored_text(run(fs, h), p, id) == holds(stored_text(fs, p, id), h, p, id),
        is_prefix(file_ids(fs, p), file_ids(run(fs, h), p)),
    decreases h.len()
{
    if h.len() == 0 { assert(file_ids(fs, p).take(file_ids(fs, p).len() as int) =~= file_ids(fs, p)); }
    else {
        let g = h.drop_last();
        let n = h.len() as int - 1;
        assert(g =~= h.take(n));
        valid_prefix(fs, h, n);
        fit_prefix(h, p, n);
        thm_history(fs, g, p, id);
        assert(fits(h[n], p));
        assert(ev_ok(run(fs, h.take(n)), h[n]));
        one_step(run(fs, g), h.last(), p, id);
        let a = file_ids(fs, p);
        let b = file_ids(run(fs, g), p);
        let d = file_ids(run(fs, h), p);
        assert(d.take(a.len() as int) =~= b.take(a.len() as int));
    }
}
// THEOREM [C03 C04 C06] a lookup finds what the operations on its own slot left, whatever the other tests did in between
pub proof fn thm_lookup(fs: Map<Str, Str>, h: Seq<SEv>, i: int, p: Str, id: Str, r: Option<Str>)
    requires good_file(fs, p), all_fit(h, p), ok_id(id), valid(fs, h), 0 <= i < h.len(), h[i] == SEv::Read(p, id, r)
    ensures r == holds(stored_text(fs, p, id), h.take(i), p, id)
{
    valid_prefix(fs, h, i);
    fit_prefix(h, p, i);
    thm_history(fs, h.take(i), p, id);
    assert(ev_ok(run(fs, h.take(i)), h[i]));
}
// the operations on one slot
pub open spec fn on_slot(e: SEv, p: Str, id: Str) -> bool {
    match e {
        SEv::Add(p1, id1, t, ok) => p1 == p && id1 == id,
        SEv::Upd(p1, id1, t, ok) => p1 == p && id1 == id,
        _ => false,
    }
}
pub open spec fn only(h: Seq<SEv>, p: Str, id: Str) -> Seq<SEv>
    decreases h.len()
{
    if h.len() == 0 { h } else if on_slot(h.last(), p, id) { only(h.drop_last(), p, id).push(h.last()) } else { only(h.drop_last(), p, id) }
}
pub proof fn slot_only(q: Option<Str>, h: Seq<SEv>, p: Str, id: Str)
    ensures holds(q, h, p, id) == holds(q, only(h, p, id), p, id)
    decreases h.len()
{
    if h.len() > 0 {
        slot_only(q, h.drop_last(), p, id);
        let o = only(h.drop_last(), p, id);
        if on_slot(h.last(), p, id) { assert(o.push(h.last()).drop_last() =~= o); }
    }
}
// THEOREM [C03 C06] serialisability of a slot: two histories with the same operations on the slot, in particular a concurrent one and one that runs the tests one after the other, leave it with the same value
pub proof fn thm_serial(fs: Map<Str, Str>, h: Seq<SEv>, g: Seq<SEv>, p: Str, id: Str)
    requires good_file(fs, p), all_fit(h, p), all_fit(g, p), ok_id(id), valid(fs, h), valid(fs, g), only(h, p, id) == only(g, p, id)
    ensures stored_text(run(fs, h), p, id) == stored_text(run(fs, g), p, id)
{
    thm_history(fs, h, p, id);
    thm_history(fs, g, p, id);
    slot_only(stored_text(fs, p, id), h, p, id);
    slot_only(stored_text(fs, p, id), g, p, id);
}
// a test adds an entry only after it looked the slot up in vain, and nobody else writes its slot
pub open spec fn adds_absent(fs: Map<Str, Str>, h: Seq<SEv>, p: Str) -> bool {
    forall|i: int| 0 <= i < h.len() ==> (match #[trigger] h[i] {
        SEv::Add(p1, id1, t, ok) => p1 == p ==> holds(stored_text(fs, p, id1), h.take(i), p, id1) is None,
        _ => true,
    })
}
// THEOREM [C03 C06] when entries are added only to empty slots, a file without duplicate ids stays without: exactly one entry per slot
pub proof fn thm_no_duplicates(fs: Map<Str, Str>, h: Seq<SEv>, p: Str)
    requires good_file(fs, p), all_fit(h, p), valid(fs, h), adds_absent(fs, h, p), file_ids(fs, p).no_duplicates()
    ensures file_ids(run(fs, h), p).no_duplicates()
    decreases h.len()
{
    if h.len() > 0 {
        let n = h.len() as int - 1;
        let g = h.take(n);
        assert(h.drop_last() =~= g);
        valid_prefix(fs, h, n);
        fit_prefix(h, p, n);
        assert forall|i: int| 0 <= i < g.len() implies (match #[trigger] g[i] {
            SEv::Add(p1, id1, t, ok) => p1 == p ==> holds(stored_text(fs, p, id1), g.take(i), p, id1) is None,
            _ => true,
        }) by { assert(g[i] == h[i]); assert(g.take(i) =~= h.take(i)); }
        thm_no_duplicates(fs, g, p);
        assert(ev_ok(run(fs, h.take(n)), h[n]));
        assert(fits(h[n], p));
        match h[n] {
            SEv::Add(p1, id1, t, true) => {
                if p1 == p {
                    thm_history(fs, g, p, id1);
                    one_step(run(fs, g), h[n], p, id1);
                    find_heads(lines(content(run(fs, g), p)), id1, false, 1);
                    let a = file_ids(run(fs, g), p);
                    assert(!a.contains(id1));
                    assert(a.push(id1).no_duplicates()) by {
                        assert forall|x: int, y: int| 0 <= x < a.push(id1).len() && 0 <= y < a.push(id1).len() && x != y implies a.push(id1)[x] != a.push(id1)[y] by {
                            if x < a.len() { assert(a.contains(a[x])); }
                            if y < a.len() { assert(a.contains(a[y])); }
                        }
                    }
                }
            },
            SEv::Upd(p1, id1, t, true) => { if p1 == p { thm_history(fs, g, p, id1); one_step(run(fs, g), h[n], p, id1); } },
            _ => {},
        }
    }
}

// ---- one call

pub proof fn slot3(q: Option<Str>, a: SEv, b: SEv, c: SEv, p: Str, id: Str)
    ensures
        holds(q, Seq::<SEv>::empty().push(a).push(b), p, id) == slot1(slot1(q, a, p, id), b, p, id),
        holds(q, Seq::<SEv>::empty().push(a).push(b).push(c), p, id) == slot1(slot1(slot1(q, a, p, id), b, p, id), c, p, id),
{
    reveal_with_fuel(holds, 4);
    let e = Seq::<SEv>::empty();
    assert(e.push(a).drop_last() =~= e);
    assert(e.push(a).push(b).drop_last() =~= e.push(a));
    assert(e.push(a).push(b).push(c).drop_last() =~= e.push(a).push(b));
}
// THEOREM [C01 C03 C04 C06] a call that does not fail leaves, in the slot of its ordinal, an entry that matches the value it was given
pub proof fn thm_call_leaves(m: Mode, g: Msgs, path: Str, name: Str, text: Str, esc: bool, s0: Seq<SEv>, s1: Seq<SEv>, l0: Seq<TEv>, l1: Seq<TEv>, e0: Str, e1: Str)
    requires shared_call(m, g, path, name, text, esc, s0, s1, l0, l1, e0, e1), !failed_call(e0, e1)
    ensures ({
        let q = holds(found(s0, s1), call_evs(s0, s1), path, test_id(name, ordinal(s0, s1)));
        &&& q is Some
        &&& same_text(esc, q.unwrap(), text)
        &&& updates(m) ==> q == Some(text) || (found(s0, s1) == q)
    })
{
    let n = s0.len() as int;
    let a = s1[n];
    let b = s1[n + 1];
    let id = test_id(name, ordinal(s0, s1));
    let c = if s1.len() > n + 2 { s1[n + 2] } else { a };
    tail3(s0, a, b, c);
    slot3(found(s0, s1), a, b, c, path, id);
    assert(e0.push(0)[e0.len() as int] == 0);
    assert(e0.push(1)[e0.len() as int] == 1);
    assert(e0.push(2)[e0.len() as int] == 2);
    assert(e0.push(3)[e0.len() as int] == 3);
}
// THEOREM [C01 C04] a call whose slot holds an entry that matches its value passes in every mode: nothing is reported, nothing is written
pub proof fn thm_replay(m: Mode, g: Msgs, path: Str, name: Str, text: Str, esc: bool, s0: Seq<SEv>, s1: Seq<SEv>, l0: Seq<TEv>, l1: Seq<TEv>, e0: Str, e1: Str, fs: Map<Str, Str>, prev: Str)
    requires shared_call(m, g, path, name, text, esc, s0, s1, l0, l1, e0, e1), found(s0, s1) == Some(prev), same_text(esc, prev, text)
    ensures passes(l0, l1, e0, e1), no_writes(call_evs(s0, s1)), run(fs, call_evs(s0, s1)) == fs
{
    let n = s0.len() as int;
    tail3(s0, s1[n], s1[n + 1], s1[n]);
    no_writes_run(fs, call_evs(s0, s1));
}
// THEOREM [C01] record and replay: after a call that did not fail, whatever other slots went through since, a later call for the same slot with a value that formats identically passes and writes nothing; h is the history from the files fs, with the first call at i..j, the lookup of the second at k and no write of the slot in between
pub proof fn thm_record_replay(fs: Map<Str, Str>, h: Seq<SEv>, i: int, j: int, k: int, m: Mode, m2: Mode, g: Msgs, path: Str, name: Str, text: Str, esc: bool,
    s0: Seq<SEv>, s1: Seq<SEv>, l0: Seq<TEv>, l1: Seq<TEv>, e0: Str, e1: Str,
    u0: Seq<SEv>, u1: Seq<SEv>, v0: Seq<TEv>, v1: Seq<TEv>, w0: Str, w1: Str)
    requires
        good_file(fs, path), all_fit(h, path), valid(fs, h), ok_id(test_id(name, ordinal(s0, s1))),
        shared_call(m, g, path, name, text, esc, s0, s1, l0, l1, e0, e1), !failed_call(e0, e1),
        shared_call(m2, g, path, name, text, esc, u0, u1, v0, v1, w0, w1),
        ordinal(u0, u1) == ordinal(s0, s1),
        // the lookup of the first call is at i, what follows it on its slot up to j is the write of the call
        0 <= i < j <= k < h.len(), h[i] == s1[s0.len() as int + 1],
        only(h.subrange(i, j), path, test_id(name, ordinal(s0, s1))) == only(call_evs(s0, s1), path, test_id(name, ordinal(s0, s1))),
        only(h.subrange(j, k), path, test_id(name, ordinal(s0, s1))) == Seq::<SEv>::empty(),
        h[k] == u1[u0.len() as int + 1],
    ensures passes(v0, v1, w0, w1), no_writes(call_evs(u0, u1))
{
    let id = test_id(name, ordinal(s0, s1));
    let q0 = stored_text(fs, path, id);
    let r = found(s0, s1);
    thm_lookup(fs, h, i, path, id, r);
    thm_call_leaves(m, g, path, name, text, esc, s0, s1, l0, l1, e0, e1);
    slot_only(r, call_evs(s0, s1), path, id);
    slot_only(r, h.subrange(i, j), path, id);
    slot_cat(q0, h.take(i), h.subrange(i, j), path, id);
    assert(h.take(i) + h.subrange(i, j) =~= h.take(j));
    let q1 = holds(q0, h.take(j), path, id);
    slot_only(q1, h.subrange(j, k), path, id);
    slot_cat(q0, h.take(j), h.subrange(j, k), path, id);
    assert(h.take(j) + h.subrange(j, k) =~= h.take(k));
    thm_lookup(fs, h, k, path, id, found(u0, u1));
    thm_replay(m2, g, path, name, text, esc, u0, u1, v0, v1, w0, w1, fs, q1.unwrap());
}
pub proof fn slot_cat(q: Option<Str>, a: Seq<SEv>, b: Seq<SEv>, p: Str, id: Str)
    ensures holds(q, a + b, p, id) == holds(holds(q, a, p, id), b, p, id)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); slot_cat(q, a, b.drop_last(), p, id); }
}
// THEOREM [C02] an escaped value matches an escaped entry exactly when the values are the same, byte for byte
pub proof fn thm_same(v: Str, w: Str)
    ensures same_text(true, escape_text(v), escape_text(w)) <==> v == w, same_text(false, v, w) <==> v == w
{
    thm_unescape(v);
    thm_unescape(w);
}
// THEOREM [C02] a call whose value differs from the entry in its slot, without permission to update: exactly one error with a report, no write
pub proof fn thm_change_reported(m: Mode, g: Msgs, path: Str, name: Str, text: Str, esc: bool, s0: Seq<SEv>, s1: Seq<SEv>, l0: Seq<TEv>, l1: Seq<TEv>, e0: Str, e1: Str, fs: Map<Str, Str>, prev: Str)
    requires shared_call(m, g, path, name, text, esc, s0, s1, l0, l1, e0, e1), found(s0, s1) == Some(prev), !same_text(esc, prev, text), !updates(m)
    ensures one_text_error(l0, l1), failed_call(e0, e1), no_writes(call_evs(s0, s1)), run(fs, call_evs(s0, s1)) == fs
{
    let n = s0.len() as int;
    tail3(s0, s1[n], s1[n + 1], s1[n]);
    no_writes_run(fs, call_evs(s0, s1));
}
// THEOREM [C04] with permission to update: an entry that differs is rewritten to exactly the new text (or the one error reported is the failed write), one that matches is not written
pub proof fn thm_update(m: Mode, g: Msgs, path: Str, name: Str, text: Str, esc: bool, s0: Seq<SEv>, s1: Seq<SEv>, l0: Seq<TEv>, l1: Seq<TEv>, e0: Str, e1: Str, prev: Str)
    requires shared_call(m, g, path, name, text, esc, s0, s1, l0, l1, e0, e1), found(s0, s1) == Some(prev), updates(m)
    ensures
        same_text(esc, prev, text) ==> no_writes(call_evs(s0, s1)) && passes(l0, l1, e0, e1),
        !same_text(esc, prev, text) ==> failed_call(e0, e1) || (e1 == e0.push(2) && holds(Some(prev), call_evs(s0, s1), path, test_id(name, ordinal(s0, s1))) == Some(text)),
{
    let n = s0.len() as int;
    let c = if s1.len() > n + 2 { s1[n + 2] } else { s1[n] };
    tail3(s0, s1[n], s1[n + 1], c);
    slot3(found(s0, s1), s1[n], s1[n + 1], c, path, test_id(name, ordinal(s0, s1)));
}

