// FOR C15 C16 C17 C18
// ---- what is put at the end of paths, one after the other

// a path and what is put there, given what is there
pub struct Act { pub cs: Seq<Str>, pub x: spec_fn(Doc) -> Doc }
pub open spec fn aval(a: Act, d: Doc) -> Doc { (a.x)(sub_doc(d, locv(d, a.cs))) }
pub open spec fn astep(d: Doc, a: Act) -> Doc { if leads(d, a.cs) { dput(d, locv(d, a.cs), aval(a, d)) } else { d } }
pub open spec fn arun(d: Doc, ss: Seq<Act>) -> Doc
    decreases ss.len()
{
    if ss.len() == 0 { d } else { astep(arun(d, ss.drop_last()), ss.last()) }
}
// THEOREM [C15] a targeted value becomes what the matcher puts there
pub proof fn thm_mask_target(d: Doc, a: Act)
    requires leads(d, a.cs)
    ensures sub_doc(astep(d, a), locv(d, a.cs)) == aval(a, d)
{
    dput_at(d, locv(d, a.cs), aval(a, d), Seq::empty());
    assert(sub_doc(astep(d, a), locv(d, a.cs)) =~= aval(a, d));
}
// where the i-th path leads when its turn comes
pub open spec fn at(d: Doc, ss: Seq<Act>, i: int) -> Seq<Step> { locv(arun(d, ss.take(i)), ss[i].cs) }
pub open spec fn hit(d: Doc, ss: Seq<Act>, i: int) -> bool { leads(arun(d, ss.take(i)), ss[i].cs) }
pub open spec fn untouched(d: Doc, ss: Seq<Act>, m: Seq<Step>) -> bool { forall|i: int| 0 <= i < ss.len() && #[trigger] hit(d, ss, i) ==> !at(d, ss, i).is_prefix_of(m) }

// THEOREM [C15] exactly the targeted values change: a position that no path leads to or above keeps its node, with the members and elements it has and their order
pub proof fn thm_mask_frame(d: Doc, ss: Seq<Act>, m: Seq<Step>)
    requires untouched(d, ss, m)
    ensures arun(d, ss)(m) == d(m)
    decreases ss.len()
{
    if ss.len() > 0 {
        let t = ss.drop_last();
        let n = ss.len() - 1;
        assert forall|i: int| 0 <= i < t.len() && #[trigger] hit(d, t, i) implies !at(d, t, i).is_prefix_of(m) by {
            assert(t.take(i) =~= ss.take(i));
            assert(hit(d, ss, i));
        }
        thm_mask_frame(d, t, m);
        assert(ss.take(n) =~= t);
        if leads(arun(d, t), ss.last().cs) { assert(hit(d, ss, n)); }
    }
}
// the static positions of the paths
pub open spec fn at0(d: Doc, ss: Seq<Act>, i: int) -> Seq<Step> { locv(d, ss[i].cs) }
pub open spec fn apart(a: Seq<Step>, b: Seq<Step>) -> bool { !a.is_prefix_of(b) && !b.is_prefix_of(a) }
// every path leads somewhere, and no two of them into one another
pub open spec fn spread(d: Doc, ss: Seq<Act>) -> bool {
    &&& forall|i: int| 0 <= i < ss.len() ==> #[trigger] leads(d, ss[i].cs)
    &&& forall|i: int, j: int| 0 <= i < j < ss.len() ==> apart(#[trigger] at0(d, ss, i), #[trigger] at0(d, ss, j))
}
pub open spec fn under(d: Doc, ss: Seq<Act>, from: int, m: Seq<Step>) -> bool { exists|i: int| from <= i < ss.len() && (#[trigger] at0(d, ss, i)).is_prefix_of(m) }
// the documents say the same but for what is at or below the paths from the given one on
pub open spec fn same_but(d: Doc, e: Doc, o: Doc, ss: Seq<Act>, from: int) -> bool { forall|m: Seq<Step>| !under(o, ss, from, m) ==> #[trigger] d(m) == e(m) }
// the matchers put the same in both: Any and Type always do, Custom when its callback does
pub open spec fn puts_same(a: Act, d: Doc, e: Doc) -> bool { aval(a, d) == aval(a, e) }
pub open spec fn satisfied_alike(d: Doc, e: Doc, ss: Seq<Act>) -> bool {
    forall|i: int| 0 <= i < ss.len() ==> puts_same(#[trigger] ss[i], arun(d, ss.take(i)), arun(e, ss.take(i)))
}

pub proof fn prefix_trans(a: Seq<Step>, b: Seq<Step>, c: Seq<Step>)
    requires a.is_prefix_of(b), b.is_prefix_of(c)
    ensures a.is_prefix_of(c)
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == c[i] by { assert(a[i] == b[i]); }
    assert(a =~= c.subrange(0, a.len() as int));
}
pub proof fn prefix_total(a: Seq<Step>, b: Seq<Step>, c: Seq<Step>)
    requires a.is_prefix_of(c), b.is_prefix_of(c), a.len() <= b.len()
    ensures a.is_prefix_of(b)
{
    assert(a =~= b.subrange(0, a.len() as int));
}
// masking at spread paths: the i-th path leads where it led at first
pub proof fn still_there(d: Doc, o: Doc, ss: Seq<Act>, i: int)
    requires spread(o, ss), 0 <= i < ss.len(), forall|m: Seq<Step>| m.is_prefix_of(at0(o, ss, i)) ==> #[trigger] d(m) == o(m)
    ensures loc(d, ss[i].cs) == loc(o, ss[i].cs), leads(d, ss[i].cs)
{
    assert(leads(o, ss[i].cs));
    let l = at0(o, ss, i);
    assert forall|m: Seq<Step>| #[trigger] m.is_prefix_of(l) && m.len() < l.len() implies o(m) == d(m) by { assert(d(m) == o(m)); }
    loc_frame(o, d, ss[i].cs);
    assert(l.is_prefix_of(l));
    assert(d(l) == o(l));
}
pub open spec fn clear_above(d: Doc, o: Doc, ss: Seq<Act>, i: int) -> bool { forall|m: Seq<Step>| m.is_prefix_of(at0(o, ss, i)) ==> #[trigger] d(m) == o(m) }
// the first n masks leave the later paths alone
pub proof fn later_clear(o: Doc, ss: Seq<Act>, n: int, j: int)
    requires spread(o, ss), 0 <= n <= j < ss.len()
    ensures clear_above(arun(o, ss.take(n)), o, ss, j)
    decreases n
{
    if n > 0 {
        let d = arun(o, ss.take(n - 1));
        assert(ss.take(n).drop_last() =~= ss.take(n - 1));
        assert(ss.take(n).last() == ss[n - 1]);
        later_clear(o, ss, n - 1, n - 1);
        later_clear(o, ss, n - 1, j);
        still_there(d, o, ss, n - 1);
        let l = at0(o, ss, n - 1);
        let e = arun(o, ss.take(n));
        assert forall|m: Seq<Step>| m.is_prefix_of(at0(o, ss, j)) implies #[trigger] e(m) == o(m) by {
            if l.is_prefix_of(m) { prefix_trans(l, m, at0(o, ss, j)); assert(apart(at0(o, ss, n - 1), at0(o, ss, j))); }
            assert(d(m) == o(m));
        }
    }
}
pub proof fn under_next(o: Doc, ss: Seq<Act>, n: int, m: Seq<Step>)
    requires 0 <= n < ss.len(), under(o, ss, n, m), !at0(o, ss, n).is_prefix_of(m)
    ensures under(o, ss, n + 1, m)
{
    let i = choose|i: int| n <= i < ss.len() && (#[trigger] at0(o, ss, i)).is_prefix_of(m);
    assert(n + 1 <= i);
}
pub proof fn masks_converge(d: Doc, e: Doc, ss: Seq<Act>, n: int)
    requires spread(d, ss), spread(e, ss), forall|i: int| 0 <= i < ss.len() ==> #[trigger] at0(d, ss, i) == at0(e, ss, i),
        same_but(d, e, d, ss, 0), satisfied_alike(d, e, ss), 0 <= n <= ss.len()
    ensures same_but(arun(d, ss.take(n)), arun(e, ss.take(n)), d, ss, n)
    decreases n
{
    if n > 0 {
        masks_converge(d, e, ss, n - 1);
        let t = ss.take(n - 1);
        let (a, b) = (arun(d, t), arun(e, t));
        assert(ss.take(n).drop_last() =~= t);
        assert(ss.take(n).last() == ss[n - 1]);
        later_clear(d, ss, n - 1, n - 1);
        later_clear(e, ss, n - 1, n - 1);
        still_there(a, d, ss, n - 1);
        still_there(b, e, ss, n - 1);
        assert(puts_same(ss[n - 1], a, b));
        let l = at0(d, ss, n - 1);
        assert(at0(e, ss, n - 1) == l);
        let (a2, b2) = (arun(d, ss.take(n)), arun(e, ss.take(n)));
        assert forall|m: Seq<Step>| !under(d, ss, n, m) implies #[trigger] a2(m) == b2(m) by {
            if !l.is_prefix_of(m) {
                if under(d, ss, n - 1, m) { under_next(d, ss, n - 1, m); }
                assert(a(m) == b(m));
            }
        }
    } else {
        assert(ss.take(0).len() == 0);
    }
}
pub proof fn masks_same(d: Doc, e: Doc, ss: Seq<Act>)
    requires spread(d, ss), spread(e, ss), forall|i: int| 0 <= i < ss.len() ==> #[trigger] at0(d, ss, i) == at0(e, ss, i), same_but(d, e, d, ss, 0), satisfied_alike(d, e, ss)
    ensures arun(d, ss) == arun(e, ss)
{
    masks_converge(d, e, ss, ss.len() as int);
    assert(ss.take(ss.len() as int) =~= ss);
    let (a, b) = (arun(d, ss), arun(e, ss));
    assert forall|m: Seq<Step>| #[trigger] a(m) == b(m) by { assert(!under(d, ss, ss.len() as int, m)); }
    assert(a =~= b);
}

// ---- where the paths lead in both documents alike when their turn comes
pub open spec fn alike(d: Doc, e: Doc, ss: Seq<Act>) -> bool {
    forall|i: int| 0 <= i < ss.len() ==> #[trigger] hit(d, ss, i) == hit(e, ss, i) && (hit(d, ss, i) ==> at(d, ss, i) == at(e, ss, i) && puts_same(ss[i], arun(d, ss.take(i)), arun(e, ss.take(i))))
}
pub open spec fn led_below(d: Doc, ss: Seq<Act>, from: int, m: Seq<Step>) -> bool { exists|i: int| from <= i < ss.len() && #[trigger] hit(d, ss, i) && at(d, ss, i).is_prefix_of(m) }
// the same but for what is at or below where they lead
pub open spec fn same_beyond(d: Doc, e: Doc, o: Doc, ss: Seq<Act>, from: int) -> bool { forall|m: Seq<Step>| !led_below(o, ss, from, m) ==> #[trigger] d(m) == e(m) }
pub proof fn led_below_next(o: Doc, ss: Seq<Act>, n: int, m: Seq<Step>)
    requires 0 <= n < ss.len(), led_below(o, ss, n, m), !(hit(o, ss, n) && at(o, ss, n).is_prefix_of(m))
    ensures led_below(o, ss, n + 1, m)
{
    let i = choose|i: int| n <= i < ss.len() && #[trigger] hit(o, ss, i) && at(o, ss, i).is_prefix_of(m);
    assert(n + 1 <= i);
}
pub proof fn acts_converge(d: Doc, e: Doc, ss: Seq<Act>, n: int)
    requires alike(d, e, ss), same_beyond(d, e, d, ss, 0), 0 <= n <= ss.len()
    ensures same_beyond(arun(d, ss.take(n)), arun(e, ss.take(n)), d, ss, n)
    decreases n
{
    if n > 0 {
        acts_converge(d, e, ss, n - 1);
        let (a, b) = (arun(d, ss.take(n - 1)), arun(e, ss.take(n - 1)));
        assert(ss.take(n).drop_last() =~= ss.take(n - 1));
        assert(ss.take(n).last() == ss[n - 1]);
        assert(hit(d, ss, n - 1) == hit(e, ss, n - 1));
        let (a2, b2) = (arun(d, ss.take(n)), arun(e, ss.take(n)));
        assert forall|m: Seq<Step>| !led_below(d, ss, n, m) implies #[trigger] a2(m) == b2(m) by {
            if !(hit(d, ss, n - 1) && at(d, ss, n - 1).is_prefix_of(m)) {
                if led_below(d, ss, n - 1, m) { led_below_next(d, ss, n - 1, m); }
                assert(a(m) == b(m));
            }
        }
    } else {
        assert(ss.take(0).len() == 0);
    }
}
// THEOREM [C16] documents that say the same but at or below where the matchers' paths lead, in both alike, are the same once they are masked
pub proof fn thm_masked_same(d: Doc, e: Doc, ss: Seq<Act>)
    requires alike(d, e, ss), same_beyond(d, e, d, ss, 0)
    ensures arun(d, ss) == arun(e, ss)
{
    acts_converge(d, e, ss, ss.len() as int);
    assert(ss.take(ss.len() as int) =~= ss);
    let (a, b) = (arun(d, ss), arun(e, ss));
    assert forall|m: Seq<Step>| #[trigger] a(m) == b(m) by { assert(!led_below(d, ss, ss.len() as int, m)); }
    assert(a =~= b);
}
