// FOR C15 C16 C17 C18
// ---- inputs that differ where the matchers look, and inputs that differ elsewhere

// THEOREM [C16] two documents that differ only at or below the paths the matchers cover, and satisfy them alike, are stored as the identical text
pub proof fn thm_masked_json(a: Str, b: Str, ms: Seq<T_Matcher>, j: Option<T_snaps_JSONConfig>, o: T_pretty_Options)
    requires json_doc(a), json_doc(b), all_act(ms), all_plain(plan(ms)), jm_errors(a, ms).len() == 0, jm_errors(b, ms).len() == 0,
        spread(jdoc(a), jacts_of(plan(ms))), spread(jdoc(b), jacts_of(plan(ms))),
        forall|i: int| 0 <= i < jacts_of(plan(ms)).len() ==> #[trigger] at0(jdoc(a), jacts_of(plan(ms)), i) == at0(jdoc(b), jacts_of(plan(ms)), i),
        same_but(jdoc(a), jdoc(b), jdoc(a), jacts_of(plan(ms)), 0), satisfied_alike(jdoc(a), jdoc(b), jacts_of(plan(ms))),
    ensures json_text(j, Some(o), jm_fold(a, ms)) == json_text(j, Some(o), jm_fold(b, ms))
{
    thm_json_masks(a, ms);
    thm_json_masks(b, ms);
    masks_same(jdoc(a), jdoc(b), jacts_of(plan(ms)));
    axiom_pretty_canonical(jm_fold(a, ms), jm_fold(b, ms), json_options(j, Some(o))->Some_0);
}
// THEOREM [C16] two documents that differ, beyond the order of members, at a position no path leads to or above are stored as different texts
pub proof fn thm_unmasked_json(a: Str, b: Str, ms: Seq<T_Matcher>, j: Option<T_snaps_JSONConfig>, o: T_pretty_Options, m: Seq<Step>)
    requires json_doc(a), json_doc(b), all_act(ms), all_plain(plan(ms)), jm_errors(a, ms).len() == 0, jm_errors(b, ms).len() == 0,
        untouched(jdoc(a), jacts_of(plan(ms)), m), untouched(jdoc(b), jacts_of(plan(ms)), m),
        canon_node(jdoc(a)(m)) != canon_node(jdoc(b)(m)),
    ensures json_text(j, Some(o), jm_fold(a, ms)) != json_text(j, Some(o), jm_fold(b, ms))
{
    thm_json_masks(a, ms);
    thm_json_masks(b, ms);
    thm_mask_frame(jdoc(a), jacts_of(plan(ms)), m);
    thm_mask_frame(jdoc(b), jacts_of(plan(ms)), m);
    thm_lossless(jm_fold(a, ms), j, o, m);
    thm_lossless(jm_fold(b, ms), j, o, m);
}
pub proof fn thm_lossless(b: Str, j: Option<T_snaps_JSONConfig>, o: T_pretty_Options, m: Seq<Step>)
    requires json_doc(b)
    ensures jdoc(json_text(j, Some(o), b))(m) == if json_options(j, Some(o))->Some_0.SortKeys_ { canon_node(jdoc(b)(m)) } else { jdoc(b)(m) }
{
    axiom_pretty_lossless(b, json_options(j, Some(o))->Some_0);
}
// THEOREM [C16] texts that are the same pass against each other's snapshot, texts that are not do not
pub proof fn thm_pass_iff_same(m: Mode, g: Msgs, path: Str, name: Str, text: Str, s0: Seq<SEv>, s1: Seq<SEv>, l0: Seq<TEv>, l1: Seq<TEv>, e0: Str, e1: Str, other: Str)
    requires shared_call(m, g, path, name, text, false, s0, s1, l0, l1, e0, e1),
        s1[s0.len() as int + 1] == SEv::Read(path, test_id(name, match s1[s0.len() as int] { SEv::Id(p, n, k) => k, _ => 0 }), Some(other)),
    ensures text == other ==> passes(l0, l1, e0, e1), text != other ==> !passes(l0, l1, e0, e1)
{
    assert(e0.push(0).last() == 0 && e0.push(2).last() == 2 && e0.push(3).last() == 3);
}

// THEOREM [C17] a call that is rejected (an input or a matcher that fails) writes nothing, consumes its ordinal and tells the test exactly one error
pub proof fn thm_rejected(standalone: bool, path: Str, name: Str, s0: Seq<SEv>, s1: Seq<SEv>, l0: Seq<TEv>, l1: Seq<TEv>, e0: Str, e1: Str)
    requires rejected(standalone, path, name, s0, s1, l0, l1, e0, e1)
    ensures
        s1.len() == s0.len() + 1, s1.take(s0.len() as int) == s0, one_error(l0, l1), e1 == e0.push(0),
        match s1.last() { SEv::Id(p, n, k) => p == path && n == name, SEv::SId(p, k) => p == path, _ => false },
{
    assert(s1.take(s0.len() as int) =~= s0);
}
// a matcher and a path of it that fail are named
pub open spec fn names(e: T_match_MatcherError, k: Mk, p: Str) -> bool { e.Matcher_ == k.name && e.Path_ == p }
pub proof fn step_named(k: Mk, b: Str, ps: Seq<Str>, i: int) -> (j: int)
    requires 0 <= i < ps.len(), jstep_err(k, jmask(k, b, ps.take(i)), ps[i]) != Any::Nil
    ensures 0 <= j < jmask_errs(k, b, ps).len(), names(jmask_errs(k, b, ps)[j], k, ps[i])
    decreases ps.len()
{
    let q = jmask_errs(k, b, ps.drop_last());
    if i == ps.len() - 1 {
        assert(ps.take(i) =~= ps.drop_last());
        q.len() as int
    } else {
        assert(ps.take(i) =~= ps.drop_last().take(i));
        step_named(k, b, ps.drop_last(), i)
    }
}
pub open spec fn holds_at(s: Str, t: Str, i: int) -> bool { 0 <= i && i + t.len() <= s.len() && s.subrange(i, i + t.len() as int) == t }
pub proof fn err_text_names(plain: bool, es: Seq<T_match_MatcherError>, j: int) -> (i: int)
    requires 0 <= j < es.len()
    ensures holds_at(err_text(plain, es), paint(plain, lit!("\x1b[31;1m"), err_line(es[j])), i)
    decreases es.len()
{
    let r = err_text(plain, es.drop_last());
    let x = paint(plain, lit!("\x1b[31;1m"), err_line(es.last()));
    if j == es.len() - 1 {
        assert((r + x).subrange(r.len() as int, (r.len() + x.len()) as int) =~= x);
        r.len() as int
    } else {
        let i = err_text_names(plain, es.drop_last(), j);
        let y = paint(plain, lit!("\x1b[31;1m"), err_line(es[j]));
        assert((r + x).subrange(i, i + y.len() as int) =~= r.subrange(i, i + y.len() as int));
        i
    }
}
pub proof fn fold_names(b: Str, ms: Seq<T_Matcher>, n: int, x: int) -> (j: int)
    requires 0 <= n < ms.len(), 0 <= x < jm_errs(ms[n], jm_fold(b, ms.take(n))).len()
    ensures 0 <= j < jm_errors(b, ms).len(), jm_errors(b, ms)[j] == jm_errs(ms[n], jm_fold(b, ms.take(n)))[x]
    decreases ms.len()
{
    if n == ms.len() - 1 {
        assert(ms.take(n) =~= ms.drop_last());
        jm_errors(b, ms.drop_last()).len() + x
    } else {
        assert(ms.take(n) =~= ms.drop_last().take(n));
        fold_names(b, ms.drop_last(), n, x)
    }
}
// THEOREM [C17] every path that fails, because nothing is there, because the value is of the wrong type, because the callback says so or because it can't be set, is named with its matcher in the one message
pub proof fn thm_named(b: Str, ms: Seq<T_Matcher>, n: int, i: int, plain_text: bool) -> (r: (int, int))
    requires 0 <= n < ms.len(), all_act(ms), 0 <= i < paths_of(ms[n]).len(),
        jstep_err(mk_of(ms[n]), jmask(mk_of(ms[n]), jm_fold(b, ms.take(n)), paths_of(ms[n]).take(i)), paths_of(ms[n])[i]) != Any::Nil
    ensures 0 <= r.0 < jm_errors(b, ms).len(), names(jm_errors(b, ms)[r.0], mk_of(ms[n]), paths_of(ms[n])[i]),
        holds_at(err_text(plain_text, jm_errors(b, ms)), paint(plain_text, lit!("\x1b[31;1m"), err_line(jm_errors(b, ms)[r.0])), r.1)
{
    let c = jm_fold(b, ms.take(n));
    let x = step_named(mk_of(ms[n]), c, paths_of(ms[n]), i);
    assert(jacts(ms[n]));
    assert(errs_like(jm_errs(ms[n], c), jmask_errs(mk_of(ms[n]), c, paths_of(ms[n]))));
    assert(jm_errs(ms[n], c)[x].Matcher_ == jmask_errs(mk_of(ms[n]), c, paths_of(ms[n]))[x].Matcher_);
    let j = fold_names(b, ms, n, x);
    (j, err_text_names(plain_text, jm_errors(b, ms), j))
}
// THEOREM [C17] a path that leads nowhere and need not exist is ignored: no error, and the document goes on to the next path as it is
pub proof fn thm_ignored(k: Mk, b: Str, p: Str)
    requires !k.miss, !jhas(b, p)
    ensures jstep_err(k, b, p) == Any::Nil, jstep(k, b, p) == b
{
}
