// FOR C01 C02 C03 C04 C06 C07 C08 C09 C10 C18
// ---- entries of a file

// ids as getTestID makes them
pub open spec fn ok_id(id: Str) -> bool { no_nl(id) && id.len() > 0 && !(id =~= lit!("---")) && strip_cr(id) == id }
pub open spec fn no_term(ls: Seq<Str>) -> bool { forall|i: int| 0 <= i < ls.len() ==> !(#[trigger] ls[i] =~= lit!("---")) }
// the file ends with a complete entry and no line ends in a carriage return
pub open spec fn closed(c: Str) -> bool { ends_nl(c) && !end_state(lines(c), false) && all_no_cr(lines(c)) }
pub open spec fn text_of(r: Option<(Str, int)>) -> Option<Str> { match r { Some(x) => Some(x.0), None => None } }
// the ids of a file, in order
pub open spec fn heads(ls: Seq<Str>, ine: bool) -> Seq<Str>
    decreases ls.len()
{
    if ls.len() == 0 { Seq::empty() }
    else if !ine && stays(false, ls[0]) { seq![ls[0]] + heads(ls.skip(1), true) }
    else { heads(ls.skip(1), stays(ine, ls[0])) }
}
// the file without what the entries of id hold
pub open spec fn others(ls: Seq<Str>, id: Str, ine: bool) -> Seq<Str>
    decreases ls.len() via others_dec
{
    if ls.len() == 0 { ls }
    else if !ine && ls[0] =~= id { seq![ls[0]] + others(after_term(ls.skip(1)), id, false) }
    else { seq![ls[0]] + others(ls.skip(1), id, stays(ine, ls[0])) }
}
#[via_fn]
proof fn others_dec(ls: Seq<Str>, id: Str, ine: bool) { if ls.len() > 0 { after_term_len(ls.skip(1)); } }

pub proof fn cat_skip(a: Seq<Str>, b: Seq<Str>)
    requires a.len() > 0
    ensures (a + b).skip(1) == a.skip(1) + b, (a + b)[0] == a[0]
{
    assert((a + b).skip(1) =~= a.skip(1) + b);
}
pub proof fn end_state_cat(a: Seq<Str>, b: Seq<Str>, ine: bool)
    ensures end_state(a + b, ine) == end_state(b, end_state(a, ine))
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else { cat_skip(a, b); end_state_cat(a.skip(1), b, stays(ine, a[0])); }
}
pub proof fn heads_cat(a: Seq<Str>, b: Seq<Str>, ine: bool)
    ensures heads(a + b, ine) == heads(a, ine) + heads(b, end_state(a, ine))
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(heads(a, ine) + heads(b, ine) =~= heads(b, ine)); }
    else {
        cat_skip(a, b);
        heads_cat(a.skip(1), b, stays(ine, a[0]));
        assert(heads(a + b, ine) =~= heads(a, ine) + heads(b, end_state(a, ine)));
    }
}
pub proof fn no_term_skip(ls: Seq<Str>)
    requires no_term(ls), ls.len() > 0
    ensures no_term(ls.skip(1)), !(ls[0] =~= lit!("---"))
{
    assert forall|i: int| 0 <= i < ls.skip(1).len() implies !(#[trigger] ls.skip(1)[i] =~= lit!("---")) by { assert(ls.skip(1)[i] == ls[i + 1]); }
    assert(!(ls[0] =~= lit!("---")));
}
// inside an entry until the terminator
pub proof fn body_state(ls: Seq<Str>)
    requires no_term(ls)
    ensures end_state(ls, true), heads(ls, true) =~= Seq::<Str>::empty()
    decreases ls.len()
{
    if ls.len() > 0 { no_term_skip(ls); body_state(ls.skip(1)); }
}
pub proof fn scan_body_at(acc: Str, ls: Seq<Str>, rest: Seq<Str>)
    requires no_term(ls)
    ensures
        scan_body(acc, ls + (seq![lit!("---")] + rest)) == Some(acc + unlines(ls)),
        after_term(ls + (seq![lit!("---")] + rest)) == rest,
    decreases ls.len()
{
    let t = seq![lit!("---")] + rest;
    if ls.len() == 0 {
        assert(ls + t =~= t);
        assert(t.skip(1) =~= rest);
        assert(acc + unlines(ls) =~= acc);
    } else {
        cat_skip(ls, t);
        no_term_skip(ls);
        scan_body_at(acc + ls[0] + lit!("\n"), ls.skip(1), rest);
        assert(acc + ls[0] + lit!("\n") + unlines(ls.skip(1)) =~= acc + unlines(ls));
    }
}
pub proof fn scan_body_cat(acc: Str, a: Seq<Str>, b: Seq<Str>)
    ensures
        scan_body(acc, a) is Some ==> scan_body(acc, a + b) == scan_body(acc, a),
        scan_body(acc, a) is None ==> end_state(a, true),
    decreases a.len()
{
    if a.len() > 0 {
        cat_skip(a, b);
        if !(a[0] =~= lit!("---")) { scan_body_cat(acc + a[0] + lit!("\n"), a.skip(1), b); }
    }
}
pub proof fn find_cat(a: Seq<Str>, b: Seq<Str>, id: Str, ine: bool, n: int)
    requires ok_id(id)
    ensures
        find(a, id, ine, n) is Some ==> find(a + b, id, ine, n) == find(a, id, ine, n),
        find(a, id, ine, n) is None && !end_state(a, ine) ==> find(a + b, id, ine, n) == find(b, id, false, n + a.len()),
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        cat_skip(a, b);
        if !ine && a[0] =~= id { scan_body_cat(lit!(""), a.skip(1), b); }
        else { find_cat(a.skip(1), b, id, stays(ine, a[0]), n + 1); }
    }
}
// inside an entry nothing is found
pub proof fn find_inside(ls: Seq<Str>, rest: Seq<Str>, id: Str, n: int)
    requires no_term(ls)
    ensures find(ls + (seq![lit!("---")] + rest), id, true, n) == find(rest, id, false, n + ls.len() + 1)
    decreases ls.len()
{
    let t = seq![lit!("---")] + rest;
    if ls.len() == 0 { assert(ls + t =~= t); assert(t.skip(1) =~= rest); }
    else { cat_skip(ls, t); no_term_skip(ls); find_inside(ls.skip(1), rest, id, n + 1); }
}
pub proof fn find_shift(ls: Seq<Str>, id: Str, ine: bool, n: int, m: int)
    ensures text_of(find(ls, id, ine, n)) == text_of(find(ls, id, ine, m))
    decreases ls.len()
{
    if ls.len() > 0 && !(!ine && ls[0] =~= id) { find_shift(ls.skip(1), id, stays(ine, ls[0]), n + 1, m + 1); }
}
// an id is found exactly when it is among the ids
pub proof fn find_heads(ls: Seq<Str>, id: Str, ine: bool, n: int)
    requires ok_id(id), !end_state(ls, ine)
    ensures find(ls, id, ine, n) is Some <==> heads(ls, ine).contains(id)
    decreases ls.len()
{
    if ls.len() > 0 {
        let h = heads(ls, ine);
        let t = heads(ls.skip(1), stays(ine, ls[0]));
        if !ine && ls[0] =~= id {
            scan_body_cat(lit!(""), ls.skip(1), Seq::empty());
            assert(h[0] == id);
        } else {
            find_heads(ls.skip(1), id, stays(ine, ls[0]), n + 1);
            if !ine && stays(false, ls[0]) {
                assert(h =~= seq![ls[0]] + t);
                if t.contains(id) { let k = choose|k: int| 0 <= k < t.len() && t[k] == id; assert(h[k + 1] == id); }
                if h.contains(id) { let k = choose|k: int| 0 <= k < h.len() && h[k] == id; assert(t[k - 1] == id); }
            }
        }
    }
}

// ---- one entry

pub open spec fn body_of(t: Str) -> Seq<Str> { split_nl(t) }
pub proof fn text_is_lines(t: Str)
    requires term_free(t), no_cr(t)
    ensures strip_all(split_nl(t)) == split_nl(t), no_term(split_nl(t)), all_no_nl(split_nl(t)), unlines(split_nl(t)) == t + lit!("\n"),
        strings_TrimSuffix(t + lit!("\n"), lit!("\n")) == t, split_nl(t).len() >= 1, all_no_cr(split_nl(t))
{
    split_join(t);
    text_unlines(t);
    let ls = split_nl(t);
    assert(strip_all(ls) =~= ls);
    assert(no_term(ls)) by { assert forall|i: int| 0 <= i < ls.len() implies !(#[trigger] ls[i] =~= lit!("---")) by { assert(strip_cr(ls[i]) == ls[i]); } }
    let s = t + lit!("\n");
    assert(s.skip(s.len() - 1) =~= lit!("\n"));
    assert(s.take(s.len() - 1) =~= t);
}
pub proof fn entry_lines(id: Str, t: Str)
    requires ok_id(id), term_free(t), no_cr(t)
    ensures lines(entry_text(id, t)) == seq![lit!(""), id] + (split_nl(t) + (seq![lit!("---")] + Seq::<Str>::empty())), ends_nl(entry_text(id, t))
{
    text_is_lines(t);
    let e = entry_text(id, t);
    let r2 = t + lit!("\n") + (lit!("---") + lit!("\n") + lit!(""));
    let r1 = id + lit!("\n") + r2;
    assert(lit!("\n---\n") =~= lit!("\n") + (lit!("---") + lit!("\n") + lit!("")));
    assert(e =~= lit!("") + lit!("\n") + r1);
    lines_line(lit!(""), r1);
    lines_line(id, r2);
    lines_text(t, lit!("---") + lit!("\n") + lit!(""));
    assert(no_nl(lit!("---")));
    lines_line(lit!("---"), lit!(""));
    assert(strip_cr(lit!("---")) =~= lit!("---"));
    assert(lines(lit!("")) =~= Seq::<Str>::empty());
    assert(lines(e) =~= seq![lit!(""), id] + (split_nl(t) + (seq![lit!("---")] + Seq::<Str>::empty())));
    assert(e.last() == NL());
}
pub proof fn entry_find(id: Str, t: Str, id2: Str, n: int)
    requires ok_id(id), ok_id(id2), term_free(t), no_cr(t)
    ensures
        text_of(find(lines(entry_text(id, t)), id2, false, n)) == (if id2 == id { Some(t) } else { None }),
        !end_state(lines(entry_text(id, t)), false),
        heads(lines(entry_text(id, t)), false) == seq![id],
        all_no_cr(lines(entry_text(id, t))),
{
    entry_lines(id, t);
    text_is_lines(t);
    let b = split_nl(t) + (seq![lit!("---")] + Seq::<Str>::empty());
    let ls = lines(entry_text(id, t));
    let l1 = seq![id] + b;
    assert(ls.skip(1) =~= l1);
    assert(l1.skip(1) =~= b);
    assert(ls[0] == lit!(""));
    assert(l1[0] == id);
    scan_body_at(lit!(""), split_nl(t), Seq::empty());
    assert(lit!("") + unlines(split_nl(t)) =~= t + lit!("\n"));
    find_inside(split_nl(t), Seq::empty(), id2, n + 2);
    assert(find(l1, id2, false, n + 1) == find(ls, id2, false, n));
    body_state(split_nl(t));
    end_state_cat(split_nl(t), seq![lit!("---")] + Seq::<Str>::empty(), true);
    heads_cat(split_nl(t), seq![lit!("---")] + Seq::<Str>::empty(), true);
    let e = seq![lit!("---")] + Seq::<Str>::empty();
    assert(e[0] == lit!("---"));
    assert(e.skip(1) =~= Seq::<Str>::empty());
    assert(e.len() == 1);
    assert(!end_state(e.skip(1), false));
    assert(heads(e.skip(1), false) =~= Seq::<Str>::empty());
    assert(!stays(true, e[0]));
    assert(!end_state(e, true));
    assert(heads(e, true) =~= Seq::<Str>::empty());
    assert(!end_state(b, true));
    assert(heads(b, true) =~= Seq::<Str>::empty());
    assert(end_state(l1, false) == end_state(b, true));
    assert(heads(l1, false) =~= seq![id]);
    assert(heads(ls, false) =~= seq![id]);
    assert forall|i: int| 0 <= i < ls.len() implies strip_cr(#[trigger] ls[i]) == ls[i] by {
        if i >= 2 && i - 2 < split_nl(t).len() { assert(ls[i] == split_nl(t)[i - 2]); assert(strip_all(split_nl(t))[i - 2] == strip_cr(split_nl(t)[i - 2])); }
        else if i >= 2 { assert(ls[i] == lit!("---")); }
        else if i == 1 { assert(ls[i] == id); } else { assert(ls[i] == lit!("")); }
    }
}
// THEOREM [C01 C03 C04 C06 C18] adding an entry to a well-formed file: the file stays well-formed, the new id (when it was absent) replays the text it was given, every other id replays what it did, and the ids keep their order with the new one last
pub proof fn thm_add(c: Str, id: Str, t: Str, id2: Str)
    requires closed(c), ok_id(id), ok_id(id2), term_free(t), no_cr(t)
    ensures ({
        let d = c + entry_text(id, t);
        let old = text_of(find(lines(c), id2, false, 1));
        &&& closed(d)
        &&& text_of(find(lines(d), id2, false, 1)) == (if id2 == id && old is None { Some(t) } else { old })
        &&& heads(lines(d), false) == heads(lines(c), false).push(id)
        &&& d.take(c.len() as int) == c
    })
{
    let e = entry_text(id, t);
    let d = c + e;
    lines_append(c, e);
    entry_lines(id, t);
    entry_find(id, t, id2, 1 + lines(c).len() as int);
    find_cat(lines(c), lines(e), id2, false, 1);
    end_state_cat(lines(c), lines(e), false);
    heads_cat(lines(c), lines(e), false);
    assert(heads(lines(d), false) =~= heads(lines(c), false).push(id));
    assert(e.len() > 0 && d.last() == e.last());
    assert(d.take(c.len() as int) =~= c);
    assert forall|i: int| 0 <= i < lines(d).len() implies strip_cr(#[trigger] lines(d)[i]) == lines(d)[i] by {
        if i < lines(c).len() { assert(lines(d)[i] == lines(c)[i]); } else { assert(lines(d)[i] == lines(e)[i - lines(c).len()]); }
    }
}

// ---- rewriting an entry

// rewrite, line by line
pub open spec fn rw(ls: Seq<Str>, id: Str, sl: Seq<Str>, ine: bool) -> Seq<Str>
    decreases ls.len() via rw_dec
{
    if ls.len() == 0 { ls }
    else if !ine && ls[0] =~= id { seq![id] + (sl + (seq![lit!("---")] + rw(after_term(ls.skip(1)), id, sl, false))) }
    else { seq![ls[0]] + rw(ls.skip(1), id, sl, stays(ine, ls[0])) }
}
#[via_fn]
proof fn rw_dec(ls: Seq<Str>, id: Str, sl: Seq<Str>, ine: bool) { if ls.len() > 0 { after_term_len(ls.skip(1)); } }

pub open spec fn tail_lines(ls: Seq<Str>) -> bool { all_no_nl(ls) && all_no_cr(ls) }
pub proof fn tail_skip(ls: Seq<Str>)
    requires tail_lines(ls), ls.len() > 0
    ensures tail_lines(ls.skip(1)), no_nl(ls[0]), strip_cr(ls[0]) == ls[0]
{
    all_no_nl_skip(ls, 1);
    assert forall|i: int| 0 <= i < ls.skip(1).len() implies strip_cr(#[trigger] ls.skip(1)[i]) == ls.skip(1)[i] by { assert(ls.skip(1)[i] == ls[i + 1]); }
}
pub proof fn tail_after(ls: Seq<Str>)
    requires tail_lines(ls)
    ensures tail_lines(after_term(ls))
    decreases ls.len()
{
    if ls.len() > 0 { tail_skip(ls); if !(ls[0] =~= lit!("---")) { tail_after(ls.skip(1)); } }
}
pub proof fn tail_cat(a: Seq<Str>, b: Seq<Str>)
    requires tail_lines(a), tail_lines(b)
    ensures tail_lines(a + b)
{
    assert forall|i: int| 0 <= i < (a + b).len() implies no_nl(#[trigger] (a + b)[i]) && strip_cr((a + b)[i]) == (a + b)[i] by {
        if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); }
    }
}
pub proof fn rw_text(ls: Seq<Str>, id: Str, t: Str, ine: bool)
    requires ok_id(id), term_free(t), no_cr(t), tail_lines(ls)
    ensures rewrite(ls, id, t, ine) == unlines(rw(ls, id, split_nl(t), ine)), tail_lines(rw(ls, id, split_nl(t), ine))
    decreases ls.len()
{
    let sl = split_nl(t);
    text_is_lines(t);
    if ls.len() > 0 {
        tail_skip(ls);
        if !ine && ls[0] =~= id {
            after_term_len(ls.skip(1));
            tail_after(ls.skip(1));
            let r = after_term(ls.skip(1));
            rw_text(r, id, t, false);
            let q = seq![lit!("---")] + rw(r, id, sl, false);
            unlines_cat(sl, q);
            assert(q.skip(1) =~= rw(r, id, sl, false));
            let w = seq![id] + (sl + q);
            assert(w.skip(1) =~= sl + q);
            assert(unlines(w) =~= id + lit!("\n") + (t + lit!("\n") + (lit!("---") + lit!("\n") + unlines(rw(r, id, sl, false)))));
            assert(lit!("\n---\n") =~= lit!("\n") + lit!("---") + lit!("\n"));
            assert(rewrite(ls, id, t, ine) =~= unlines(w));
            assert(tail_lines(seq![lit!("---")])) by { assert(no_nl(lit!("---"))); }
            tail_cat(seq![lit!("---")], rw(r, id, sl, false));
            tail_cat(sl, q);
            assert(tail_lines(seq![id]));
            tail_cat(seq![id], sl + q);
        } else {
            rw_text(ls.skip(1), id, t, stays(ine, ls[0]));
            let r = rw(ls.skip(1), id, sl, stays(ine, ls[0]));
            let w = seq![ls[0]] + r;
            assert(w.skip(1) =~= r);
            assert(tail_lines(seq![ls[0]]));
            tail_cat(seq![ls[0]], r);
        }
    }
}
// the body of another entry is copied
pub proof fn rw_body(acc: Str, ls: Seq<Str>, id: Str, sl: Seq<Str>)
    ensures scan_body(acc, rw(ls, id, sl, true)) == scan_body(acc, ls)
    decreases ls.len()
{
    if ls.len() > 0 {
        let r = rw(ls.skip(1), id, sl, stays(true, ls[0]));
        let w = seq![ls[0]] + r;
        assert(w.skip(1) =~= r);
        if !(ls[0] =~= lit!("---")) { rw_body(acc + ls[0] + lit!("\n"), ls.skip(1), id, sl); }
    }
}
pub proof fn after_state(ls: Seq<Str>, id: Str, n: int)
    ensures
        end_state(ls, true) == (if scan_body(lit!(""), ls) is None { true } else { end_state(after_term(ls), false) }),
        heads(ls, true) == heads(after_term(ls), false),
        text_of(find(ls, id, true, n)) == text_of(find(after_term(ls), id, false, n)),
    decreases ls.len()
{
    after_state2(lit!(""), ls, id, n);
}
pub proof fn after_state2(acc: Str, ls: Seq<Str>, id: Str, n: int)
    ensures
        end_state(ls, true) == (if scan_body(acc, ls) is None { true } else { end_state(after_term(ls), false) }),
        heads(ls, true) =~= heads(after_term(ls), false),
        text_of(find(ls, id, true, n)) == text_of(find(after_term(ls), id, false, n)),
    decreases ls.len()
{
    if ls.len() > 0 {
        if ls[0] =~= lit!("---") { find_shift(ls.skip(1), id, false, n + 1, n); }
        else {
            after_state2(acc + ls[0] + lit!("\n"), ls.skip(1), id, n + 1);
            find_shift(after_term(ls.skip(1)), id, false, n + 1, n);
        }
    }
}
pub proof fn rw_find(ls: Seq<Str>, id: Str, t: Str, ine: bool, id2: Str, n: int)
    requires ok_id(id), ok_id(id2), term_free(t), no_cr(t)
    ensures ({
        let w = rw(ls, id, split_nl(t), ine);
        let old = text_of(find(ls, id2, ine, n));
        &&& id2 != id ==> text_of(find(w, id2, ine, n)) == old
        &&& id2 == id && old is Some ==> text_of(find(w, id2, ine, n)) == Some(t)
        &&& id2 == id && !end_state(ls, ine) && old is None ==> text_of(find(w, id2, ine, n)) is None
        &&& !end_state(ls, ine) ==> !end_state(w, ine)
        &&& heads(w, ine) == heads(ls, ine)
    })
    decreases ls.len()
{
    let sl = split_nl(t);
    text_is_lines(t);
    if ls.len() > 0 {
        let w = rw(ls, id, sl, ine);
        if !ine && ls[0] =~= id {
            after_term_len(ls.skip(1));
            let a = after_term(ls.skip(1));
            let r = rw(a, id, sl, false);
            let q = seq![lit!("---")] + r;
            assert(w =~= seq![id] + (sl + q));
            assert(w.skip(1) =~= sl + q);
            rw_find(a, id, t, false, id2, n);
            // the new entry
            scan_body_at(lit!(""), sl, r);
            assert(lit!("") + unlines(sl) =~= t + lit!("\n"));
            find_inside(sl, r, id2, n + 1);
            find_shift(r, id2, false, n + 1 + sl.len() + 1, n);
            find_shift(r, id2, false, n, n);
            body_state(sl);
            end_state_cat(sl, q, true);
            heads_cat(sl, q, true);
            assert(q.skip(1) =~= r);
            assert(q[0] == lit!("---"));
            // the old one
            after_state(ls.skip(1), id2, n + 1);
            find_shift(a, id2, false, n + 1, n);
            assert(heads(w, ine) =~= seq![id] + heads(r, false));
            assert(heads(ls, ine) =~= seq![id] + heads(a, false));
            scan_body_cat(lit!(""), ls.skip(1), Seq::empty());
        } else {
            let r = rw(ls.skip(1), id, sl, stays(ine, ls[0]));
            assert(w =~= seq![ls[0]] + r);
            assert(w.skip(1) =~= r);
            rw_find(ls.skip(1), id, t, stays(ine, ls[0]), id2, n + 1);
            if !ine && ls[0] =~= id2 { rw_body(lit!(""), ls.skip(1), id, sl); }
        }
    }
}
pub proof fn rw_others(ls: Seq<Str>, id: Str, t: Str, ine: bool)
    requires ok_id(id), term_free(t), no_cr(t)
    ensures others(rw(ls, id, split_nl(t), ine), id, ine) == others(ls, id, ine)
    decreases ls.len()
{
    let sl = split_nl(t);
    text_is_lines(t);
    if ls.len() > 0 {
        let w = rw(ls, id, sl, ine);
        if !ine && ls[0] =~= id {
            after_term_len(ls.skip(1));
            let r = rw(after_term(ls.skip(1)), id, sl, false);
            let q = seq![lit!("---")] + r;
            assert(w =~= seq![id] + (sl + q));
            assert(w.skip(1) =~= sl + q);
            scan_body_at(lit!(""), sl, r);
            rw_others(after_term(ls.skip(1)), id, t, false);
            assert(w[0] == id);
        } else {
            let r = rw(ls.skip(1), id, sl, stays(ine, ls[0]));
            assert(w =~= seq![ls[0]] + r);
            assert(w.skip(1) =~= r);
            rw_others(ls.skip(1), id, t, stays(ine, ls[0]));
        }
    }
}
// THEOREM [C01 C03 C04 C06 C18] rewriting an entry of a well-formed file, whatever the lengths of the texts: the file stays well-formed, the id replays the new text, every other id replays what it did, the ids and their order stay, and no line outside the entries of that id changes
pub proof fn thm_rewrite(c: Str, id: Str, t: Str, id2: Str)
    requires closed(c), ok_id(id), ok_id(id2), term_free(t), no_cr(t)
    ensures ({
        let d = rewrite(lines(c), id, t, false);
        let old = text_of(find(lines(c), id2, false, 1));
        &&& closed(d)
        &&& text_of(find(lines(d), id2, false, 1)) == (if id2 == id && old is Some { Some(t) } else { old })
        &&& heads(lines(d), false) == heads(lines(c), false)
        &&& others(lines(d), id, false) == others(lines(c), id, false)
    })
{
    lines_no_nl(c);
    let ls = lines(c);
    let sl = split_nl(t);
    rw_text(ls, id, t, false);
    rw_find(ls, id, t, false, id2, 1);
    rw_others(ls, id, t, false);
    let w = rw(ls, id, sl, false);
    lines_unlines(w);
    assert(strip_all(w) =~= w);
}
