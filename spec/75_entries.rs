// FOR C07 C08 C09 C10
// ---- the entries of a file as Clean reads them

pub open spec fn bracket(id: Str) -> Str { lit!("[") + id + lit!("]") }
pub open spec fn is_id(id: Str) -> bool { entry_id(bracket(id)) == Some(id) && no_nl(id) }
pub type Ent = T_snaps_snapshotEntry;

pub proof fn id_line(l: Str)
    requires entry_id(l) is Some
    ensures l == bracket(entry_id(l).unwrap()), strip_cr(l) == l, !(l =~= lit!("---")), l.len() > 0, stays(false, l), no_nl(l) ==> no_nl(entry_id(l).unwrap())
{
    last_at_fits(l, lit!(" - "));
    let id = entry_id(l).unwrap();
    assert(lit!("[")[0] == 91 && lit!("]")[0] == 93 && lit!("[").len() == 1 && lit!("]").len() == 1);
    assert(l.len() >= 2);
    assert(l =~= bracket(id));
    assert(lit!("---")[0] == 45);
    assert forall|i: int| no_nl(l) && 0 <= i < id.len() implies id[i] != NL() by { assert(l[i + 1] == id[i]); }
}
pub proof fn bracket_inj(a: Str, b: Str)
    requires bracket(a) == bracket(b)
    ensures a == b
{
    assert(bracket(a).subrange(1, bracket(a).len() - 1) =~= a);
    assert(bracket(b).subrange(1, bracket(b).len() - 1) =~= b);
}
pub open spec fn all_of(ls: Seq<Str>) -> Seq<Ent>
    decreases ls.len() via all_of_dec
{
    if ls.len() == 0 { Seq::empty() }
    else {
        match entry_id(ls[0]) {
            None => all_of(ls.skip(1)),
            Some(id) => match scan_body(lit!(""), ls.skip(1)) {
                None => Seq::empty(),
                Some(b) => seq![entry_of(id, b)] + all_of(after_term(ls.skip(1))),
            },
        }
    }
}
#[via_fn]
proof fn all_of_dec(ls: Seq<Str>) { if ls.len() > 0 { after_term_len(ls.skip(1)); } }
// entries with ids, blank lines between them
pub open spec fn wf(ls: Seq<Str>) -> bool
    decreases ls.len() via wf_dec
{
    if ls.len() == 0 { true }
    else if !stays(false, ls[0]) { wf(ls.skip(1)) }
    else { entry_id(ls[0]) is Some && scan_body(lit!(""), ls.skip(1)) is Some && wf(after_term(ls.skip(1))) }
}
#[via_fn]
proof fn wf_dec(ls: Seq<Str>) { if ls.len() > 0 { after_term_len(ls.skip(1)); } }

// the files go-snaps writes are of this kind: complete entries under ids
pub proof fn wf_file(ls: Seq<Str>)
    requires !end_state(ls, false), forall|i: int| 0 <= i < heads(ls, false).len() ==> entry_id(#[trigger] heads(ls, false)[i]) is Some
    ensures wf(ls)
    decreases ls.len()
{
    if ls.len() > 0 {
        if !stays(false, ls[0]) { assert(heads(ls, false) == heads(ls.skip(1), false)); wf_file(ls.skip(1)); }
        else {
            let h = heads(ls, false);
            assert(h[0] == ls[0]);
            after_state(ls.skip(1), lit!(""), 0);
            after_term_len(ls.skip(1));
            let a = after_term(ls.skip(1));
            assert forall|i: int| 0 <= i < heads(a, false).len() implies entry_id(#[trigger] heads(a, false)[i]) is Some by { assert(h[i + 1] == heads(a, false)[i]); }
            wf_file(a);
        }
    }
}
pub proof fn none_line(l: Str)
    requires !stays(false, l)
    ensures entry_id(l) is None
{
    if entry_id(l) is Some { id_line(l); }
}

// the entries with an id
pub open spec fn with_id(es: Seq<Ent>, id: Str) -> Seq<Ent>
    decreases es.len()
{
    if es.len() == 0 { es } else { (if es[0].id_ == id { seq![es[0]] } else { Seq::empty() }) + with_id(es.skip(1), id) }
}
pub open spec fn first(es: Seq<Ent>, id: Str) -> Option<Str> {
    if with_id(es, id).len() == 0 { None } else { Some(strings_TrimSuffix(with_id(es, id)[0].body_, lit!("\n"))) }
}
pub proof fn find_first(ls: Seq<Str>, id: Str, n: int)
    requires wf(ls), is_id(id)
    ensures text_of(find(ls, bracket(id), false, n)) == first(all_of(ls), id)
    decreases ls.len()
{
    id_line(bracket(id));
    if ls.len() > 0 {
        if !stays(false, ls[0]) {
            none_line(ls[0]);
            find_first(ls.skip(1), id, n + 1);
        } else {
            id_line(ls[0]);
            let h = entry_id(ls[0]).unwrap();
            let b = scan_body(lit!(""), ls.skip(1)).unwrap();
            let r = all_of(after_term(ls.skip(1)));
            let e = seq![entry_of(h, b)] + r;
            assert(e.skip(1) =~= r);
            assert(e[0] == entry_of(h, b));
            if h == id { assert(with_id(e, id)[0] == entry_of(h, b)); }
            else {
                if ls[0] =~= bracket(id) { bracket_inj(h, id); }
                after_term_len(ls.skip(1));
                after_state(ls.skip(1), bracket(id), n + 1);
                find_first(after_term(ls.skip(1)), id, n + 1);
                assert(with_id(e, id) =~= with_id(r, id));
            }
        }
    }
}

// ---- what survives

pub open spec fn gone(j: Judge, id: Str) -> bool { dead(j, id) && j.upd }
pub open spec fn keep(es: Seq<Ent>, j: Judge) -> Seq<Ent>
    decreases es.len()
{
    if es.len() == 0 { es } else { (if gone(j, es[0].id_) { Seq::empty() } else { seq![es[0]] }) + keep(es.skip(1), j) }
}
pub open spec fn ids_of(es: Seq<Ent>) -> Seq<Str> { Seq::new(es.len(), |i: int| es[i].id_) }
pub open spec fn dead_ids(es: Seq<Ent>, j: Judge) -> Seq<Str>
    decreases es.len()
{
    if es.len() == 0 { Seq::empty() } else { one_if(dead(j, es[0].id_), es[0].id_) + dead_ids(es.skip(1), j) }
}
pub proof fn examine_all(ls: Seq<Str>, j: Judge)
    requires wf(ls)
    ensures ({
        let k = examine(ls, j);
        let es = all_of(ls);
        &&& k.tests == keep(es, j)
        &&& k.ids == ids_of(es)
        &&& k.obs == dead_ids(es, j)
    })
    decreases ls.len()
{
    reveal_with_fuel(examine, 2);
    if ls.len() == 0 {
        assert(examine(ls, j).ids =~= ids_of(all_of(ls)));
    } else if !stays(false, ls[0]) {
        none_line(ls[0]);
        examine_all(ls.skip(1), j);
    } else {
        let id = entry_id(ls[0]).unwrap();
        let b = scan_body(lit!(""), ls.skip(1)).unwrap();
        after_term_len(ls.skip(1));
        examine_all(after_term(ls.skip(1)), j);
        let r = all_of(after_term(ls.skip(1)));
        let es = seq![entry_of(id, b)] + r;
        assert(all_of(ls) == es);
        assert(es.skip(1) =~= r);
        assert(es[0] == entry_of(id, b));
        let k = examine(ls, j);
        let k2 = examine(after_term(ls.skip(1)), j);
        assert(ids_of(es) =~= seq![id] + ids_of(r));
        assert(k.ids =~= ids_of(es));
        assert(k.obs =~= dead_ids(es, j));
        assert(k.tests =~= keep(es, j));
    }
}
pub proof fn keep_with(es: Seq<Ent>, j: Judge, id: Str)
    ensures with_id(keep(es, j), id) == (if gone(j, id) { Seq::<Ent>::empty() } else { with_id(es, id) })
    decreases es.len()
{
    if es.len() == 0 { assert(with_id(keep(es, j), id) =~= Seq::<Ent>::empty()); }
    else {
        keep_with(es.skip(1), j, id);
        let k = keep(es.skip(1), j);
        if gone(j, es[0].id_) {
            assert(keep(es, j) =~= k);
            assert(with_id(keep(es, j), id) =~= (if gone(j, id) { Seq::<Ent>::empty() } else { with_id(es, id) }));
        } else {
            let s = seq![es[0]] + k;
            assert(keep(es, j) =~= s);
            assert(s.skip(1) =~= k);
            assert(with_id(s, id) =~= (if gone(j, id) { Seq::<Ent>::empty() } else { with_id(es, id) }));
        }
    }
}
pub proof fn keep_all(es: Seq<Ent>, j: Judge)
    requires !j.upd
    ensures keep(es, j) == es
    decreases es.len()
{
    if es.len() > 0 { keep_all(es.skip(1), j); assert(keep(es, j) =~= es); }
}
pub proof fn with_in(es: Seq<Ent>, id: Str, i: int)
    requires 0 <= i < with_id(es, id).len()
    ensures es.contains(with_id(es, id)[i]), with_id(es, id)[i].id_ == id
    decreases es.len()
{
    if es.len() > 0 {
        let w = with_id(es.skip(1), id);
        if es[0].id_ == id {
            assert(with_id(es, id) =~= seq![es[0]] + w);
            if i == 0 { assert(es[0] == with_id(es, id)[0]); }
            else { with_in(es.skip(1), id, i - 1); let k = choose|k: int| 0 <= k < es.skip(1).len() && es.skip(1)[k] == w[i - 1]; assert(es[k + 1] == w[i - 1]); }
        } else {
            assert(with_id(es, id) =~= w);
            with_in(es.skip(1), id, i);
            let k = choose|k: int| 0 <= k < es.skip(1).len() && es.skip(1)[k] == w[i];
            assert(es[k + 1] == w[i]);
        }
    }
}
pub proof fn in_with(es: Seq<Ent>, e: Ent)
    requires es.contains(e)
    ensures with_id(es, e.id_).contains(e)
    decreases es.len()
{
    let k = choose|k: int| 0 <= k < es.len() && es[k] == e;
    let w = with_id(es.skip(1), e.id_);
    let a = with_id(es, e.id_);
    if k == 0 { assert(a[0] == e); }
    else {
        assert(es.skip(1)[k - 1] == e);
        in_with(es.skip(1), e);
        let m = choose|m: int| 0 <= m < w.len() && w[m] == e;
        if es[0].id_ == e.id_ { assert(a[m + 1] == e); } else { assert(a =~= w); }
    }
}
// two lists with the same entries under every id hold the same entries
pub proof fn same_with(a: Seq<Ent>, b: Seq<Ent>, e: Ent)
    requires forall|id: Str| #[trigger] with_id(a, id) == with_id(b, id), a.contains(e)
    ensures b.contains(e)
{
    in_with(a, e);
    assert(with_id(a, e.id_) == with_id(b, e.id_));
    let m = choose|m: int| 0 <= m < with_id(b, e.id_).len() && with_id(b, e.id_)[m] == e;
    with_in(b, e.id_, m);
}

// ---- writing and reading back

pub open spec fn good_body(e: Ent, bl: Seq<Str>) -> bool { e.body_ == unlines(bl) && no_term(bl) && tail_lines(bl) }
pub open spec fn good_entry(e: Ent) -> bool { is_id(e.id_) && exists|bl: Seq<Str>| #[trigger] good_body(e, bl) }
pub open spec fn good_entries(es: Seq<Ent>) -> bool { forall|i: int| 0 <= i < es.len() ==> good_entry(#[trigger] es[i]) }
pub open spec fn body_part(ls: Seq<Str>) -> Seq<Str>
    decreases ls.len()
{
    if ls.len() == 0 || ls[0] =~= lit!("---") { Seq::empty() } else { seq![ls[0]] + body_part(ls.skip(1)) }
}
pub proof fn scan_part(acc: Str, ls: Seq<Str>)
    requires tail_lines(ls), scan_body(acc, ls) is Some
    ensures scan_body(acc, ls) == Some(acc + unlines(body_part(ls))), no_term(body_part(ls)), tail_lines(body_part(ls))
    decreases ls.len()
{
    let p = body_part(ls);
    if ls.len() > 0 {
        tail_skip(ls);
        if ls[0] =~= lit!("---") { assert(acc + unlines(p) =~= acc); }
        else {
            scan_part(acc + ls[0] + lit!("\n"), ls.skip(1));
            let q = body_part(ls.skip(1));
            assert(p.skip(1) =~= q);
            assert(p[0] == ls[0]);
            assert(acc + ls[0] + lit!("\n") + unlines(q) =~= acc + unlines(p));
            assert forall|i: int| 0 <= i < p.len() implies !(#[trigger] p[i] =~= lit!("---")) by { if i > 0 { assert(p[i] == q[i - 1]); } }
            assert(tail_lines(seq![ls[0]]));
            tail_cat(seq![ls[0]], q);
        }
    }
}
pub proof fn all_good(ls: Seq<Str>)
    requires tail_lines(ls), wf(ls)
    ensures good_entries(all_of(ls))
    decreases ls.len()
{
    if ls.len() > 0 {
        tail_skip(ls);
        if !stays(false, ls[0]) { none_line(ls[0]); all_good(ls.skip(1)); }
        else {
            id_line(ls[0]);
            let id = entry_id(ls[0]).unwrap();
            scan_part(lit!(""), ls.skip(1));
            tail_after(ls.skip(1));
            after_term_len(ls.skip(1));
            all_good(after_term(ls.skip(1)));
            let b = scan_body(lit!(""), ls.skip(1)).unwrap();
            assert(lit!("") + unlines(body_part(ls.skip(1))) =~= unlines(body_part(ls.skip(1))));
            let e = entry_of(id, b);
            assert(good_body(e, body_part(ls.skip(1))));
            assert(good_entry(e));
            let r = all_of(after_term(ls.skip(1)));
            assert(all_of(ls) == seq![e] + r);
            assert forall|i: int| 0 <= i < all_of(ls).len() implies good_entry(#[trigger] all_of(ls)[i]) by { if i > 0 { assert(all_of(ls)[i] == r[i - 1]); } }
        }
    }
}
pub proof fn all_cat(a: Seq<Str>, b: Seq<Str>)
    requires wf(a)
    ensures all_of(a + b) == all_of(a) + all_of(b), wf(b) ==> wf(a + b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(all_of(a) + all_of(b) =~= all_of(b)); }
    else {
        cat_skip(a, b);
        if !stays(false, a[0]) { none_line(a[0]); all_cat(a.skip(1), b); }
        else {
            scan_body_cat(lit!(""), a.skip(1), b);
            after_cat(lit!(""), a.skip(1), b);
            after_term_len(a.skip(1));
            all_cat(after_term(a.skip(1)), b);
            assert(all_of(a + b) =~= all_of(a) + all_of(b));
        }
    }
}
pub proof fn after_cat(acc: Str, a: Seq<Str>, b: Seq<Str>)
    requires scan_body(acc, a) is Some
    ensures after_term(a + b) == after_term(a) + b
    decreases a.len()
{
    if a.len() > 0 {
        cat_skip(a, b);
        if !(a[0] =~= lit!("---")) { after_cat(acc + a[0] + lit!("\n"), a.skip(1), b); }
    }
}
pub proof fn entry_str_lines(e: Ent)
    requires good_entry(e)
    ensures ({
        let ls = lines(entry_str(e));
        &&& ends_nl(entry_str(e)) && entry_str(e).len() > 0
        &&& wf(ls) && all_of(ls) == seq![e] && tail_lines(ls)
    })
{
    let bl = choose|bl: Seq<Str>| #[trigger] good_body(e, bl);
    let h = bracket(e.id_);
    id_line(h);
    let t = seq![lit!("---")] + Seq::<Str>::empty();
    let l1 = seq![h] + (bl + t);
    let l0 = seq![lit!("")] + l1;
    assert(l0.skip(1) =~= l1);
    assert(l1.skip(1) =~= bl + t);
    assert(t.skip(1) =~= Seq::<Str>::empty());
    assert(unlines(Seq::<Str>::empty()) =~= lit!(""));
    unlines_cat(bl, t);
    assert(unlines(t) =~= lit!("---") + lit!("\n") + lit!(""));
    assert(lit!("---\n") =~= lit!("---") + lit!("\n"));
    assert(lit!("\n[") =~= lit!("\n") + lit!("["));
    assert(lit!("]\n") =~= lit!("]") + lit!("\n"));
    assert(unlines(l1) =~= h + lit!("\n") + (unlines(bl) + (lit!("---") + lit!("\n"))));
    assert(unlines(l0) =~= lit!("") + lit!("\n") + unlines(l1));
    assert(entry_str(e) =~= unlines(l0));
    assert(no_nl(lit!("---")));
    assert(strip_cr(lit!("---")) =~= lit!("---"));
    assert(strip_cr(lit!("")) =~= lit!(""));
    assert(tail_lines(t)) by { assert forall|i: int| 0 <= i < t.len() implies no_nl(#[trigger] t[i]) && strip_cr(t[i]) == t[i] by { assert(t[i] == lit!("---")); } }
    assert(no_nl(h)) by { assert forall|i: int| 0 <= i < h.len() implies h[i] != NL() by { if 1 <= i && i < h.len() - 1 { assert(h[i] == e.id_[i - 1]); } } }
    assert(tail_lines(seq![h]));
    assert(tail_lines(seq![lit!("")]));
    tail_cat(bl, t);
    tail_cat(seq![h], bl + t);
    tail_cat(seq![lit!("")], l1);
    lines_unlines(l0);
    assert(strip_all(l0) =~= l0);
    scan_body_at(lit!(""), bl, Seq::empty());
    assert(lit!("") + unlines(bl) =~= unlines(bl));
    assert(l0[0] == lit!("") && l1[0] == h);
    none_line(lit!(""));
    let z = Seq::<Str>::empty();
    assert(all_of(z) =~= Seq::<Ent>::empty());
    assert(wf(z));
    assert(after_term(bl + t) == z);
    assert(all_of(l1) =~= seq![e]);
    assert(all_of(l0) == all_of(l1));
    assert(wf(l1));
    assert(wf(l0));
}
pub proof fn read_step(a: Str, e: Ent)
    requires ends_nl(a), wf(lines(a)), tail_lines(lines(a)), good_entry(e)
    ensures ({
        let c = a + entry_str(e);
        &&& ends_nl(c)
        &&& wf(lines(c)) && all_of(lines(c)) == all_of(lines(a)).push(e) && tail_lines(lines(c))
    })
{
    let c = a + entry_str(e);
    entry_str_lines(e);
    lines_append(a, entry_str(e));
    all_cat(lines(a), lines(entry_str(e)));
    tail_cat(lines(a), lines(entry_str(e)));
    assert(all_of(lines(a)) + seq![e] =~= all_of(lines(a)).push(e));
    assert(c.last() == entry_str(e).last());
}
pub proof fn render_unfold(ts: Seq<Ent>)
    requires ts.len() > 0
    ensures render(ts) == render(ts.drop_last()) + entry_str(ts.last())
{
    assert(render(ts) =~= render(ts.drop_last()) + entry_str(ts.last()));
}
pub proof fn render_read(ts: Seq<Ent>)
    requires good_entries(ts)
    ensures ({
        let c = render(ts);
        &&& ends_nl(c)
        &&& wf(lines(c)) && all_of(lines(c)) == ts && tail_lines(lines(c))
    })
    decreases ts.len()
{
    if ts.len() == 0 { assert(all_of(lines(render(ts))) =~= ts); }
    else {
        let p = ts.drop_last();
        assert(good_entries(p)) by { assert forall|i: int| 0 <= i < p.len() implies good_entry(#[trigger] p[i]) by { assert(p[i] == ts[i]); } }
        render_read(p);
        assert(good_entry(ts[ts.len() - 1]));
        read_step(render(p), ts.last());
        render_unfold(ts);
        assert(p.push(ts.last()) =~= ts);
    }
}

// ---- sorting

// AXIOM a stable sort permutes the entries and keeps the order of those with the same id
#[verifier::external_body]
pub proof fn sort_keeps(es: Seq<Ent>, id: Str)
    ensures with_id(by_id(es), id) == with_id(es, id), by_id(es).len() == es.len() {}
pub open spec fn less(a: Str, b: Str) -> bool { natural_order(a, b) < 0 }
// the natural order sorts: a strict weak order
pub open spec fn weak_order() -> bool {
    &&& forall|a: Str, b: Str| #[trigger] less(a, b) ==> !less(b, a)
    &&& forall|a: Str, b: Str, c: Str| !#[trigger] less(a, b) && !#[trigger] less(b, c) ==> !less(a, c)
}
// AXIOM sorting sorts, for a strict weak order
#[verifier::external_body]
pub proof fn sort_sorts(es: Seq<Ent>)
    requires weak_order()
    ensures in_order(ids_of(by_id(es))) {}

pub open spec fn result(c: Str, j: Judge, sort: bool) -> Str { match cleaned(c, j, sort) { Some(t) => t, None => c } }
pub open spec fn good_content(c: Str) -> bool { wf(lines(c)) && all_no_cr(lines(c)) && ends_nl(c) }

// what Clean leaves of a file
pub proof fn cleaned_entries(c: Str, j: Judge, sort: bool)
    requires good_content(c)
    ensures ({
        let es = all_of(lines(c));
        let k = keep(es, j);
        let srt = sort && !in_order(ids_of(es));
        let r = result(c, j, sort);
        &&& good_content(r)
        &&& all_of(lines(r)) == (if srt { by_id(k) } else { k })
        &&& cleaned(c, j, sort) is None ==> k == es
        &&& forall|id: Str| #[trigger] with_id(all_of(lines(r)), id) == (if gone(j, id) { Seq::<Ent>::empty() } else { with_id(es, id) })
    })
{
    let es = all_of(lines(c));
    let k = keep(es, j);
    let srt = sort && !in_order(ids_of(es));
    let r = result(c, j, sort);
    lines_no_nl(c);
    examine_all(lines(c), j);
    all_good(lines(c));
    assert forall|id: Str| with_id(k, id) == (if gone(j, id) { Seq::<Ent>::empty() } else { with_id(es, id) }) by { keep_with(es, j, id); }
    assert(good_entries(k)) by {
        assert forall|i: int| 0 <= i < k.len() implies good_entry(#[trigger] k[i]) by {
            kept_in(es, j, i);
            let m = choose|m: int| 0 <= m < es.len() && es[m] == k[i];
            assert(good_entry(es[m]));
        }
    }
    assert forall|id: Str| #[trigger] with_id(by_id(k), id) == with_id(k, id) by { sort_keeps(k, id); }
    let t = if srt { by_id(k) } else { k };
    assert(good_entries(t)) by {
        assert forall|i: int| 0 <= i < t.len() implies good_entry(#[trigger] t[i]) by {
            if srt {
                assert(t.contains(t[i]));
                same_with(t, k, t[i]);
                let m = choose|m: int| 0 <= m < k.len() && k[m] == t[i];
                assert(good_entry(k[m]));
            }
        }
    }
    render_read(t);
    if cleaned(c, j, sort) is None {
        none_dead(es, j);
        assert(k == es);
    }
    assert forall|id: Str| #[trigger] with_id(all_of(lines(r)), id) == (if gone(j, id) { Seq::<Ent>::empty() } else { with_id(es, id) }) by {
        assert(with_id(by_id(k), id) == with_id(k, id));
        keep_with(es, j, id);
    }
}
pub proof fn kept_in(es: Seq<Ent>, j: Judge, i: int)
    requires 0 <= i < keep(es, j).len()
    ensures es.contains(keep(es, j)[i]), !gone(j, keep(es, j)[i].id_)
    decreases es.len()
{
    if es.len() > 0 {
        let k = keep(es.skip(1), j);
        let d = if gone(j, es[0].id_) { 0int } else { 1 };
        if d == 1 && i == 0 { assert(es[0] == keep(es, j)[0]); }
        else {
            assert(keep(es, j)[i] == k[i - d]);
            kept_in(es.skip(1), j, i - d);
            let m = choose|m: int| 0 <= m < es.skip(1).len() && es.skip(1)[m] == k[i - d];
            assert(es[m + 1] == k[i - d]);
        }
    }
}
pub proof fn none_dead(es: Seq<Ent>, j: Judge)
    requires !(j.upd && dead_ids(es, j).len() > 0)
    ensures keep(es, j) == es
    decreases es.len()
{
    if es.len() > 0 {
        none_dead(es.skip(1), j);
        assert(keep(es, j) =~= es);
    }
}
// the obsolete ids are those of entries nobody claims
pub proof fn dead_listed(es: Seq<Ent>, j: Judge, i: int)
    requires 0 <= i < es.len()
    ensures dead(j, es[i].id_) ==> dead_ids(es, j).contains(es[i].id_)
    decreases es.len()
{
    let d = dead_ids(es.skip(1), j);
    let a = dead_ids(es, j);
    if i == 0 { if dead(j, es[0].id_) { assert(a[0] == es[0].id_); } }
    else {
        assert(es.skip(1)[i - 1] == es[i]);
        dead_listed(es.skip(1), j, i - 1);
        if dead(j, es[i].id_) {
            let m = choose|m: int| 0 <= m < d.len() && d[m] == es[i].id_;
            assert(a[m + (if dead(j, es[0].id_) { 1int } else { 0 })] == es[i].id_);
        }
    }
}
pub proof fn listed_dead(es: Seq<Ent>, j: Judge, i: int)
    requires 0 <= i < dead_ids(es, j).len()
    ensures dead(j, dead_ids(es, j)[i]), ids_of(es).contains(dead_ids(es, j)[i])
    decreases es.len()
{
    if es.len() > 0 {
        let d = dead_ids(es.skip(1), j);
        let a = dead_ids(es, j);
        let o = if dead(j, es[0].id_) { 1int } else { 0 };
        if o == 1 && i == 0 { assert(ids_of(es)[0] == a[0]); }
        else {
            assert(a[i] == d[i - o]);
            listed_dead(es.skip(1), j, i - o);
            let m = choose|m: int| 0 <= m < ids_of(es.skip(1)).len() && ids_of(es.skip(1))[m] == a[i];
            assert(ids_of(es)[m + 1] == a[i]);
        }
    }
}
