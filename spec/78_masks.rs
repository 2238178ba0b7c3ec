// FOR C15 C16 C17 C18
// ---- the matchers of a call, path by path

pub struct Mask { pub k: Mk, pub p: Str }

// a path made of member names and indexes alone, and its components
pub uninterp spec fn plain(p: Str) -> bool;
pub uninterp spec fn parts(p: Str) -> Seq<Str>;
// what encodes a Go value, and what a part of a document decodes to
pub uninterp spec fn jval(v: Any) -> Doc;
pub uninterp spec fn jgo(d: Doc) -> Any;

// AXIOM gjson finds what is at the path
pub proof fn axiom_gjson(b: Str, p: Str)
    requires json_doc(b), plain(p)
    ensures jhas(b, p) == leads(jdoc(b), parts(p)),
        jhas(b, p) ==> gjson_Result_Value(gjson_GetBytes(b, p)) == jgo(sub_doc(jdoc(b), locv(jdoc(b), parts(p)))),
{ admit(); }
// AXIOM sjson replaces what is at the path and nothing else
pub proof fn axiom_sjson(b: Str, p: Str, v: Any)
    requires json_doc(b), plain(p), jhas(b, p), sjson_set_err(b, p, v) == Any::Nil
    ensures json_doc(sjson_set(b, p, v)), jdoc(sjson_set(b, p, v)) == dput(jdoc(b), locv(jdoc(b), parts(p)), jval(v))
{ admit(); }

// a matcher: what its method does, see the contracts of Any, Type and Custom
pub uninterp spec fn mk_of(m: T_Matcher) -> Mk;
pub uninterp spec fn paths_of(m: T_Matcher) -> Seq<Str>;
pub open spec fn jacts(m: T_Matcher) -> bool {
    forall|b: Str| errs_like(#[trigger] jm_errs(m, b), jmask_errs(mk_of(m), b, paths_of(m))) && (jm_errs(m, b).len() == 0 ==> jm_doc(m, b) == jmask(mk_of(m), b, paths_of(m)))
}

pub open spec fn masks(k: Mk, ps: Seq<Str>) -> Seq<Mask> { Seq::new(ps.len(), |i: int| Mask { k, p: ps[i] }) }
pub open spec fn plan(ms: Seq<T_Matcher>) -> Seq<Mask>
    decreases ms.len()
{
    if ms.len() == 0 { Seq::empty() } else { plan(ms.drop_last()) + masks(mk_of(ms.last()), paths_of(ms.last())) }
}
pub open spec fn jrun(b: Str, ss: Seq<Mask>) -> Str
    decreases ss.len()
{
    if ss.len() == 0 { b } else { jstep(ss.last().k, jrun(b, ss.drop_last()), ss.last().p) }
}
pub open spec fn jrun_ok(b: Str, ss: Seq<Mask>) -> bool
    decreases ss.len()
{
    if ss.len() == 0 { true } else { jrun_ok(b, ss.drop_last()) && jstep_err(ss.last().k, jrun(b, ss.drop_last()), ss.last().p) == Any::Nil }
}
pub proof fn jrun_cat(b: Str, s: Seq<Mask>, t: Seq<Mask>)
    ensures jrun(b, s + t) == jrun(jrun(b, s), t), jrun_ok(b, s + t) == (jrun_ok(b, s) && jrun_ok(jrun(b, s), t))
    decreases t.len()
{
    if t.len() == 0 { assert(s + t =~= s); }
    else {
        jrun_cat(b, s, t.drop_last());
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert((s + t).last() == t.last());
    }
}
pub proof fn jmask_run(k: Mk, b: Str, ps: Seq<Str>)
    ensures jmask(k, b, ps) == jrun(b, masks(k, ps)), (jmask_errs(k, b, ps).len() == 0) == jrun_ok(b, masks(k, ps))
    decreases ps.len()
{
    if ps.len() > 0 {
        jmask_run(k, b, ps.drop_last());
        assert(masks(k, ps).drop_last() =~= masks(k, ps.drop_last()));
        assert(masks(k, ps).last() == Mask { k, p: ps.last() });
    }
}
pub proof fn fold_run(b: Str, ms: Seq<T_Matcher>)
    requires forall|i: int| 0 <= i < ms.len() ==> jacts(#[trigger] ms[i])
    ensures (jm_errors(b, ms).len() == 0) == jrun_ok(b, plan(ms)), jm_errors(b, ms).len() == 0 ==> jm_fold(b, ms) == jrun(b, plan(ms))
    decreases ms.len()
{
    if ms.len() > 0 {
        let r = ms.drop_last();
        let m = ms.last();
        assert forall|i: int| 0 <= i < r.len() implies jacts(#[trigger] r[i]) by { assert(r[i] == ms[i]); }
        fold_run(b, r);
        assert(jacts(ms[ms.len() - 1]));
        let c = jm_fold(b, r);
        assert(errs_like(jm_errs(m, c), jmask_errs(mk_of(m), c, paths_of(m))));
        jmask_run(mk_of(m), c, paths_of(m));
        jrun_cat(b, plan(r), masks(mk_of(m), paths_of(m)));
    }
}

// the same on documents
pub open spec fn jact(s: Mask) -> Act { Act { cs: parts(s.p), x: |d: Doc| jval((s.k.f)(jgo(d)).0) } }
pub open spec fn jacts_of(ss: Seq<Mask>) -> Seq<Act> { Seq::new(ss.len(), |i: int| jact(ss[i])) }
pub open spec fn all_plain(ss: Seq<Mask>) -> bool { forall|i: int| 0 <= i < ss.len() ==> plain((#[trigger] ss[i]).p) }
pub open spec fn all_act(ms: Seq<T_Matcher>) -> bool { forall|i: int| 0 <= i < ms.len() ==> jacts(#[trigger] ms[i]) }

pub proof fn jrun_doc(b: Str, ss: Seq<Mask>)
    requires json_doc(b), all_plain(ss), jrun_ok(b, ss)
    ensures json_doc(jrun(b, ss)), jdoc(jrun(b, ss)) == arun(jdoc(b), jacts_of(ss))
    decreases ss.len()
{
    if ss.len() > 0 {
        let t = ss.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies plain((#[trigger] t[i]).p) by { assert(t[i] == ss[i]); }
        jrun_doc(b, t);
        assert(jacts_of(ss).drop_last() =~= jacts_of(t));
        assert(plain(ss[ss.len() - 1].p));
        let c = jrun(b, t);
        axiom_gjson(c, ss.last().p);
        if jhas(c, ss.last().p) {
            axiom_sjson(c, ss.last().p, jput(ss.last().k, c, ss.last().p).0);
        }
    }
}

// THEOREM [C15 C16] matchers that report no error leave a valid document: the input with, path by path from left to right, the value at the path replaced by what the matcher puts there
pub proof fn thm_json_masks(b: Str, ms: Seq<T_Matcher>)
    requires json_doc(b), all_act(ms), all_plain(plan(ms)), jm_errors(b, ms).len() == 0
    ensures json_doc(jm_fold(b, ms)), jdoc(jm_fold(b, ms)) == arun(jdoc(b), jacts_of(plan(ms)))
{
    fold_run(b, ms);
    jrun_doc(b, plan(ms));
}
