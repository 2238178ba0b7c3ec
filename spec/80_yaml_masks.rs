// FOR C15 C16 C17 C18
// ---- YAML: the documents of a file, each of them masked where the path leads

pub uninterp spec fn yaml_says(d: Opq) -> Doc;
// no anchors, aliases or tags, and scalars in styles that the printer reproduces
pub uninterp spec fn yaml_plain(d: Opq) -> bool;
pub uninterp spec fn yplain(p: Str) -> bool;
pub uninterp spec fn yparts(p: Str) -> Seq<Str>;
pub uninterp spec fn ygo(d: Doc) -> Any;
pub uninterp spec fn yval(v: Any) -> Doc;
pub uninterp spec fn lib_yq(q: Yq) -> bool;

pub open spec fn plain_file(f: T_YFile) -> bool { forall|i: int| 0 <= i < f.Docs_.len() ==> yaml_plain(#[trigger] f.Docs_[i]) }
pub open spec fn plain_text(b: Str) -> bool { yaml_file_err(b) == Any::Nil && plain_file(yaml_file(b)) }
pub open spec fn ysays(f: T_YFile) -> Seq<Doc> { Seq::new(f.Docs_.len(), |i: int| yaml_says(f.Docs_[i])) }

// AXIOM go-yaml parses a path of names and indexes
pub proof fn axiom_yaml_path(p: Str)
    requires yplain(p)
    ensures go_yaml_PathString_r1(p) == Any::Nil
{ admit(); }
// AXIOM go-yaml finds what is at the path of a document; otherwise it finds nothing or says that nothing is there
pub proof fn axiom_yaml_filter(q: Yq, p: Str, d: Opq)
    requires lib_yq(q), yplain(p), yaml_plain(d)
    ensures
        leads(yaml_says(d), yparts(p)) ==> go_yaml_Path_FilterNode_r1(ypath(p), opq_field_Body_Any(d)) == Any::Nil && go_yaml_Path_FilterNode_r0(ypath(p), opq_field_Body_Any(d)) != Any::Nil
            && yvalue(go_yaml_Path_FilterNode_r0(ypath(p), opq_field_Body_Any(d))) == ygo(sub_doc(yaml_says(d), locv(yaml_says(d), yparts(p)))),
        !leads(yaml_says(d), yparts(p)) ==> (go_yaml_Path_FilterNode_r1(ypath(p), opq_field_Body_Any(d)) == Any::Nil && go_yaml_Path_FilterNode_r0(ypath(p), opq_field_Body_Any(d)) == Any::Nil)
            || (go_yaml_Path_FilterNode_r1(ypath(p), opq_field_Body_Any(d)) != Any::Nil && nowhere(q, go_yaml_Path_FilterNode_r1(ypath(p), opq_field_Body_Any(d)), opq_field_Body_Any(d))),
{ admit(); }
// AXIOM go-yaml replaces what is at the path in the documents that have it and nothing else
pub proof fn axiom_yaml_replace(f: T_YFile, p: Str, v: Any)
    requires plain_file(f), yplain(p), yset_err(f, ypath(p), v) == Any::Nil
    ensures
        plain_file(yset(f, ypath(p), v)),
        yset(f, ypath(p), v).Docs_.len() == f.Docs_.len(),
        forall|i: int| 0 <= i < f.Docs_.len() ==> yaml_says(#[trigger] yset(f, ypath(p), v).Docs_[i]) ==
            (if leads(yaml_says(f.Docs_[i]), yparts(p)) { dput(yaml_says(f.Docs_[i]), locv(yaml_says(f.Docs_[i]), yparts(p)), yval(v)) } else { yaml_says(f.Docs_[i]) }),
{ admit(); }
// AXIOM what go-yaml prints of plain documents reads as the same documents
pub proof fn axiom_yaml_print(f: T_YFile, nl: bool)
    requires plain_file(f), f.Docs_.len() > 0
    ensures plain_text(yaml_text(f, nl)), ysays(yaml_file(yaml_text(f, nl))) == ysays(f), strings_HasSuffix(yaml_text(f, nl), lit!("\n")) == nl
{ admit(); }
// AXIOM go-yaml prints documents that say the same (comments and styles included) alike
pub proof fn axiom_yaml_print_same(f: T_YFile, g: T_YFile, nl: bool)
    requires plain_file(f), plain_file(g), ysays(f) == ysays(g)
    ensures yaml_text(f, nl) == yaml_text(g, nl)
{ admit(); }

// the first document that the path leads into
pub open spec fn yfirst(ds: Seq<Doc>, cs: Seq<Str>, i: int) -> int
    decreases ds.len() - i
{
    if i < 0 || i >= ds.len() { -1 } else if leads(ds[i], cs) { i } else { yfirst(ds, cs, i + 1) }
}
// the value put, decided by the first
pub open spec fn ydval(ds: Seq<Doc>, s: Mask) -> Doc {
    let i = yfirst(ds, yparts(s.p), 0);
    yval((s.k.f)(ygo(sub_doc(ds[i], locv(ds[i], yparts(s.p))))).0)
}
pub open spec fn yact(ds: Seq<Doc>, s: Mask) -> Act { Act { cs: yparts(s.p), x: |d: Doc| ydval(ds, s) } }
pub open spec fn ydstep(ds: Seq<Doc>, s: Mask) -> Seq<Doc> { Seq::new(ds.len(), |i: int| astep(ds[i], yact(ds, s))) }
pub open spec fn ydrun(ds: Seq<Doc>, ss: Seq<Mask>) -> Seq<Doc>
    decreases ss.len()
{
    if ss.len() == 0 { ds } else { ydstep(ydrun(ds, ss.drop_last()), ss.last()) }
}
// some path leads somewhere when its turn comes
pub open spec fn ydhits(ds: Seq<Doc>, ss: Seq<Mask>) -> bool
    decreases ss.len()
{
    if ss.len() == 0 { false } else { ydhits(ds, ss.drop_last()) || yfirst(ydrun(ds, ss.drop_last()), yparts(ss.last().p), 0) >= 0 }
}
pub open spec fn all_yplain(ss: Seq<Mask>) -> bool { forall|i: int| 0 <= i < ss.len() ==> yplain((#[trigger] ss[i]).p) }

pub proof fn yfirst_range(ds: Seq<Doc>, cs: Seq<Str>, i: int)
    requires 0 <= i
    ensures yfirst(ds, cs, i) == -1 || (i <= yfirst(ds, cs, i) < ds.len() && leads(ds[yfirst(ds, cs, i)], cs)),
        yfirst(ds, cs, i) == -1 ==> forall|j: int| i <= j < ds.len() ==> !leads(#[trigger] ds[j], cs),
    decreases ds.len() - i
{
    if i < ds.len() && !leads(ds[i], cs) { yfirst_range(ds, cs, i + 1); }
}
pub proof fn yscan_first(q: Yq, f: T_YFile, p: Str, i: int)
    requires lib_yq(q), plain_file(f), yplain(p), 0 <= i
    ensures
        yscan(q, ypath(p), f.Docs_, i).1 == Any::Nil,
        (yscan(q, ypath(p), f.Docs_, i).0 != Any::Nil) == (yfirst(ysays(f), yparts(p), i) >= 0),
        yfirst(ysays(f), yparts(p), i) >= 0 ==> yvalue(yscan(q, ypath(p), f.Docs_, i).0) ==
            ygo(sub_doc(ysays(f)[yfirst(ysays(f), yparts(p), i)], locv(ysays(f)[yfirst(ysays(f), yparts(p), i)], yparts(p)))),
    decreases f.Docs_.len() - i
{
    if i < f.Docs_.len() {
        assert(yaml_plain(f.Docs_[i]));
        assert(ysays(f)[i] == yaml_says(f.Docs_[i]));
        axiom_yaml_filter(q, p, f.Docs_[i]);
        yscan_first(q, f, p, i + 1);
    }
}
pub proof fn ystep_says(k: Mk, look: bool, q: Yq, f: T_YFile, p: Str)
    requires lib_yq(q), plain_file(f), yplain(p), ystep_err(k, look, q, f, p) == Any::Nil
    ensures plain_file(ystep(k, look, q, f, p)), ysays(ystep(k, look, q, f, p)) == ydstep(ysays(f), Mask { k, p }),
        yhas(q, f, p) == (yfirst(ysays(f), yparts(p), 0) >= 0),
{
    let s = Mask { k, p };
    axiom_yaml_path(p);
    yscan_first(q, f, p, 0);
    yfirst_range(ysays(f), yparts(p), 0);
    let g = ystep(k, look, q, f, p);
    if yhas(q, f, p) {
        axiom_yaml_replace(f, p, yput(k, q, f, p).0);
        assert forall|i: int| 0 <= i < f.Docs_.len() implies #[trigger] ysays(g)[i] == ydstep(ysays(f), s)[i] by {
            assert(yaml_says(g.Docs_[i]) == ysays(g)[i]);
            assert(ysays(f)[i] == yaml_says(f.Docs_[i]));
            assert(aval(yact(ysays(f), s), ysays(f)[i]) == ydval(ysays(f), s));
        }
    } else {
        assert forall|i: int| 0 <= i < f.Docs_.len() implies #[trigger] ysays(g)[i] == ydstep(ysays(f), s)[i] by { assert(!leads(ysays(f)[i], yparts(p))); }
    }
    assert(ysays(g) =~= ydstep(ysays(f), s));
}
pub proof fn ymask_says(k: Mk, look: bool, q: Yq, f: T_YFile, ps: Seq<Str>)
    requires lib_yq(q), plain_file(f), all_yplain(masks(k, ps)), ymask_errs(k, look, q, f, ps).len() == 0
    ensures plain_file(ymask(k, look, q, f, ps)), ysays(ymask(k, look, q, f, ps)) == ydrun(ysays(f), masks(k, ps)),
        ymasked(k, look, q, f, ps) == ydhits(ysays(f), masks(k, ps)),
    decreases ps.len()
{
    if ps.len() > 0 {
        let t = ps.drop_last();
        assert forall|i: int| 0 <= i < masks(k, t).len() implies yplain((#[trigger] masks(k, t)[i]).p) by { assert(masks(k, t)[i] == masks(k, ps)[i]); }
        ymask_says(k, look, q, f, t);
        assert(masks(k, ps).drop_last() =~= masks(k, t));
        assert(masks(k, ps).last() == Mask { k, p: ps.last() });
        assert(yplain(masks(k, ps)[ps.len() - 1].p));
        ystep_says(k, look, q, ymask(k, look, q, f, t), ps.last());
    }
}
// a matcher: what its method does, see the contracts of Any, Type and Custom
pub uninterp spec fn looks(m: T_Matcher) -> bool;
pub uninterp spec fn top_path(m: T_Matcher) -> Str;
pub open spec fn yacts(q: Yq, m: T_Matcher) -> bool {
    forall|b: Str| errs_like(#[trigger] ym_errs(m, b), ydoc_errs(mk_of(m), looks(m), q, b, paths_of(m), top_path(m)))
        && (ym_errs(m, b).len() == 0 ==> ym_doc(m, b) == ydoc(mk_of(m), looks(m), q, b, paths_of(m)))
}
pub open spec fn all_yact(q: Yq, ms: Seq<T_Matcher>) -> bool { forall|i: int| 0 <= i < ms.len() ==> yacts(q, #[trigger] ms[i]) }
pub open spec fn ends_line(b: Str) -> bool { strings_HasSuffix(b, lit!("\n")) }
pub open spec fn says(b: Str) -> Seq<Doc> { ysays(yaml_file(b)) }

pub proof fn ydrun_len(ds: Seq<Doc>, ss: Seq<Mask>)
    ensures ydrun(ds, ss).len() == ds.len()
    decreases ss.len()
{
    if ss.len() > 0 { ydrun_len(ds, ss.drop_last()); }
}
pub proof fn ydrun_cat(ds: Seq<Doc>, s: Seq<Mask>, t: Seq<Mask>)
    ensures ydrun(ds, s + t) == ydrun(ydrun(ds, s), t), ydhits(ds, s + t) == (ydhits(ds, s) || ydhits(ydrun(ds, s), t))
    decreases t.len()
{
    if t.len() == 0 { assert(s + t =~= s); }
    else {
        ydrun_cat(ds, s, t.drop_last());
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert((s + t).last() == t.last());
    }
}
pub proof fn no_hits(ds: Seq<Doc>, ss: Seq<Mask>)
    requires !ydhits(ds, ss)
    ensures ydrun(ds, ss) == ds
    decreases ss.len()
{
    if ss.len() > 0 {
        no_hits(ds, ss.drop_last());
        let d = ydrun(ds, ss.drop_last());
        yfirst_range(d, yparts(ss.last().p), 0);
        assert(ydrun(ds, ss) =~= ds);
    }
}
// one matcher
pub proof fn matcher_says(q: Yq, m: T_Matcher, b: Str)
    requires lib_yq(q), yacts(q, m), plain_text(b), says(b).len() > 0, all_yplain(masks(mk_of(m), paths_of(m))), ym_errs(m, b).len() == 0
    ensures plain_text(ym_doc(m, b)), says(ym_doc(m, b)) == ydrun(says(b), masks(mk_of(m), paths_of(m))), ends_line(ym_doc(m, b)) == ends_line(b),
        !ydhits(says(b), masks(mk_of(m), paths_of(m))) ==> ym_doc(m, b) == b,
        ydhits(says(b), masks(mk_of(m), paths_of(m))) ==> exists|f: T_YFile| plain_file(f) && ysays(f) == says(ym_doc(m, b)) && ym_doc(m, b) == #[trigger] yaml_text(f, ends_line(b)),
{
    let (k, ps, f) = (mk_of(m), paths_of(m), yaml_file(b));
    assert(errs_like(ym_errs(m, b), ydoc_errs(k, looks(m), q, b, ps, top_path(m))));
    ymask_says(k, looks(m), q, f, ps);
    let g = ymask(k, looks(m), q, f, ps);
    if ymasked(k, looks(m), q, f, ps) {
        ydrun_len(ysays(f), masks(k, ps));
        assert(g.Docs_.len() == ysays(g).len());
        axiom_yaml_print(g, ends_line(b));
        assert(ym_doc(m, b) == yaml_text(g, ends_line(b)));
    } else {
        no_hits(says(b), masks(k, ps));
    }
}
pub open spec fn yaml_printed(b: Str, t: Str) -> bool { exists|f: T_YFile| plain_file(f) && ysays(f) == says(t) && t == #[trigger] yaml_text(f, ends_line(b)) }

// THEOREM [C15 C16 C18] matchers that report no error leave valid documents: those of the input with, path by path from left to right, what is at the path replaced by what the matcher puts there; the final newline stays as it is, and a text in which no path leads anywhere is left as it is
pub proof fn thm_yaml_masks(q: Yq, b: Str, ms: Seq<T_Matcher>)
    requires lib_yq(q), all_yact(q, ms), plain_text(b), says(b).len() > 0, all_yplain(plan(ms)), ym_errors(b, ms).len() == 0
    ensures plain_text(ym_fold(b, ms)), says(ym_fold(b, ms)) == ydrun(says(b), plan(ms)), ends_line(ym_fold(b, ms)) == ends_line(b),
        !ydhits(says(b), plan(ms)) ==> ym_fold(b, ms) == b,
        ydhits(says(b), plan(ms)) ==> yaml_printed(b, ym_fold(b, ms)),
    decreases ms.len()
{
    if ms.len() > 0 {
        let r = ms.drop_last();
        let m = ms.last();
        let (s, t) = (plan(r), masks(mk_of(m), paths_of(m)));
        assert forall|i: int| 0 <= i < r.len() implies yacts(q, #[trigger] r[i]) by { assert(r[i] == ms[i]); }
        assert forall|i: int| 0 <= i < s.len() implies yplain((#[trigger] s[i]).p) by { assert(s[i] == plan(ms)[i]); }
        assert forall|i: int| 0 <= i < t.len() implies yplain((#[trigger] t[i]).p) by { assert(t[i] == plan(ms)[s.len() + i]); }
        assert(yacts(q, ms[ms.len() - 1]));
        thm_yaml_masks(q, b, r);
        ydrun_len(says(b), s);
        let c = ym_fold(b, r);
        matcher_says(q, m, c);
        ydrun_cat(says(b), s, t);
        if ydhits(says(c), t) { assert(yaml_printed(b, ym_fold(b, ms))); }
        else { no_hits(says(c), t); }
    }
}
// what each document goes through
pub open spec fn yvals(ds: Seq<Doc>, ss: Seq<Mask>) -> Seq<Act> { Seq::new(ss.len(), |i: int| yact(ydrun(ds, ss.take(i)), ss[i])) }
pub proof fn each_doc(ds: Seq<Doc>, ss: Seq<Mask>, i: int)
    requires 0 <= i < ds.len()
    ensures ydrun(ds, ss).len() == ds.len(), ydrun(ds, ss)[i] == arun(ds[i], yvals(ds, ss))
    decreases ss.len()
{
    ydrun_len(ds, ss);
    if ss.len() > 0 {
        let t = ss.drop_last();
        each_doc(ds, t, i);
        assert forall|j: int| 0 <= j < t.len() implies #[trigger] yvals(ds, t)[j] == yvals(ds, ss)[j] by { assert(t.take(j) =~= ss.take(j)); }
        assert(yvals(ds, ss).drop_last() =~= yvals(ds, t));
        assert(ss.take(ss.len() - 1) =~= t);
        assert(yvals(ds, ss).last() == yact(ydrun(ds, t), ss.last()));
    }
}
// THEOREM [C15] in every document exactly the targeted nodes change: a position that no path leads to or above keeps its node, with the members and elements it has and their order
pub proof fn thm_yaml_frame(ds: Seq<Doc>, ss: Seq<Mask>, i: int, m: Seq<Step>)
    requires 0 <= i < ds.len(), untouched(ds[i], yvals(ds, ss), m)
    ensures ydrun(ds, ss).len() == ds.len(), ydrun(ds, ss)[i](m) == ds[i](m)
{
    each_doc(ds, ss, i);
    thm_mask_frame(ds[i], yvals(ds, ss), m);
}
// THEOREM [C16] YAML texts whose documents differ only at or below where the paths lead, in both alike, and for which the matchers put the same, become the identical text
pub proof fn thm_masked_yaml(q: Yq, a: Str, b: Str, ms: Seq<T_Matcher>)
    requires lib_yq(q), all_yact(q, ms), plain_text(a), plain_text(b), says(a).len() > 0, says(a).len() == says(b).len(), ends_line(a) == ends_line(b),
        all_yplain(plan(ms)), ym_errors(a, ms).len() == 0, ym_errors(b, ms).len() == 0,
        ydhits(says(a), plan(ms)), ydhits(says(b), plan(ms)),
        yvals(says(a), plan(ms)) == yvals(says(b), plan(ms)),
        forall|i: int| 0 <= i < says(a).len() ==> alike(#[trigger] says(a)[i], says(b)[i], yvals(says(a), plan(ms))) && same_beyond(says(a)[i], says(b)[i], says(a)[i], yvals(says(a), plan(ms)), 0),
    ensures ym_fold(a, ms) == ym_fold(b, ms)
{
    thm_yaml_masks(q, a, ms);
    thm_yaml_masks(q, b, ms);
    let vs = yvals(says(a), plan(ms));
    ydrun_len(says(a), plan(ms));
    ydrun_len(says(b), plan(ms));
    assert forall|i: int| 0 <= i < says(a).len() implies #[trigger] ydrun(says(a), plan(ms))[i] == ydrun(says(b), plan(ms))[i] by {
        each_doc(says(a), plan(ms), i);
        each_doc(says(b), plan(ms), i);
        assert(alike(says(a)[i], says(b)[i], vs));
        thm_masked_same(says(a)[i], says(b)[i], vs);
    }
    assert(ydrun(says(a), plan(ms)) =~= ydrun(says(b), plan(ms)));
    let f = choose|f: T_YFile| plain_file(f) && ysays(f) == says(ym_fold(a, ms)) && ym_fold(a, ms) == #[trigger] yaml_text(f, ends_line(a));
    let g = choose|g: T_YFile| plain_file(g) && ysays(g) == says(ym_fold(b, ms)) && ym_fold(b, ms) == #[trigger] yaml_text(g, ends_line(b));
    axiom_yaml_print_same(f, g, ends_line(a));
}
// THEOREM [C16] YAML texts whose documents differ at a position no path leads to or above stay different
pub proof fn thm_unmasked_yaml(q: Yq, a: Str, b: Str, ms: Seq<T_Matcher>, i: int, m: Seq<Step>)
    requires lib_yq(q), all_yact(q, ms), plain_text(a), plain_text(b), says(a).len() > 0, says(b).len() > 0,
        all_yplain(plan(ms)), ym_errors(a, ms).len() == 0, ym_errors(b, ms).len() == 0,
        0 <= i < says(a).len(), i < says(b).len() ==> untouched(says(a)[i], yvals(says(a), plan(ms)), m) && untouched(says(b)[i], yvals(says(b), plan(ms)), m) && says(a)[i](m) != says(b)[i](m),
    ensures ym_fold(a, ms) != ym_fold(b, ms)
{
    thm_yaml_masks(q, a, ms);
    thm_yaml_masks(q, b, ms);
    ydrun_len(says(a), plan(ms));
    ydrun_len(says(b), plan(ms));
    if i < says(b).len() {
        thm_yaml_frame(says(a), plan(ms), i, m);
        thm_yaml_frame(says(b), plan(ms), i, m);
    }
}
// THEOREM [C17] a YAML path that leads nowhere and need not exist is ignored
pub proof fn thm_yaml_ignored(k: Mk, look: bool, q: Yq, f: T_YFile, p: Str)
    requires lib_yq(q), plain_file(f), yplain(p), !k.miss, yfirst(ysays(f), yparts(p), 0) == -1
    ensures ystep_err(k, look, q, f, p) == Any::Nil, ystep(k, look, q, f, p) == f
{
    axiom_yaml_path(p);
    yscan_first(q, f, p, 0);
}
// THEOREM [C17] a YAML path that leads nowhere and must exist is an error
pub proof fn thm_yaml_missing(k: Mk, look: bool, q: Yq, f: T_YFile, p: Str)
    requires lib_yq(q), plain_file(f), yplain(p), k.miss, yfirst(ysays(f), yparts(p), 0) == -1
    ensures ystep_err(k, look, q, f, p) == k.nf
{
    axiom_yaml_path(p);
    yscan_first(q, f, p, 0);
}
