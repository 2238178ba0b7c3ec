// ---- what a Match* call does: the events on the store, what the test is told, what is counted

pub open spec fn any1(a: Any) -> Seq<Any> { Seq::<Any>::empty().push(a) }
pub open spec fn one_error(l0: Seq<TEv>, l1: Seq<TEv>) -> bool {
    &&& l1.len() == l0.len() + 1
    &&& l1 == l0.push(l1.last())
    &&& match l1.last() { TEv::Error(a) => a.len() == 1 && a[0] != Any::Nil, _ => false }
}
pub open spec fn one_text_error(l0: Seq<TEv>, l1: Seq<TEv>) -> bool {
    &&& one_error(l0, l1)
    &&& match l1.last() { TEv::Error(a) => (match a[0] { Any::S(d) => d.len() > 0, _ => false }), _ => false }
}

// what the package's state decides about a call
pub struct Mode { pub ci: bool, pub upd: Option<bool>, pub env: Str }
pub open spec fn creates(m: Mode) -> bool { may_create(m.ci, m.upd) }
pub open spec fn updates(m: Mode) -> bool { may_update(m.ci, m.upd, m.env) }

pub struct Msgs { pub added: Str, pub updated: Str, pub nf: Any }

// the outcome of writing: success is logged and counted as kind, failure is one error
pub open spec fn written(ok: bool, msg: Str, kind: int, l0: Seq<TEv>, l1: Seq<TEv>, e0: Str, e1: Str) -> bool {
    if ok { l1 == l0.push(TEv::Log(any1(Any::S(msg)))) && e1 == e0.push(kind) }
    else { one_error(l0, l1) && e1 == e0.push(0) }
}
pub open spec fn refused(nf: Any, l0: Seq<TEv>, l1: Seq<TEv>, e0: Str, e1: Str) -> bool {
    l1 == l0.push(TEv::Error(any1(nf))) && e1 == e0.push(0)
}
pub open spec fn differs(l0: Seq<TEv>, l1: Seq<TEv>, e0: Str, e1: Str) -> bool {
    one_text_error(l0, l1) && e1 == e0.push(0)
}
pub open spec fn passes(l0: Seq<TEv>, l1: Seq<TEv>, e0: Str, e1: Str) -> bool { l1 == l0 && e1 == e0.push(3) }

pub open spec fn same_text(esc: bool, prev: Str, text: Str) -> bool {
    if esc { unescape_text(prev) == unescape_text(text) } else { prev == text }
}

// a call on a snapshot file: the ordinal, a lookup, at most one write
pub open spec fn shared_call(m: Mode, g: Msgs, path: Str, name: Str, text: Str, esc: bool,
    s0: Seq<SEv>, s1: Seq<SEv>, l0: Seq<TEv>, l1: Seq<TEv>, e0: Str, e1: Str) -> bool
{
    let n = s0.len() as int;
    &&& s1.len() >= n + 2
    &&& match (s1[n], s1[n + 1]) {
        (SEv::Id(p0, n0, k), SEv::Read(p1, id1, r)) => {
            let s = s0.push(s1[n]).push(s1[n + 1]);
            let id = test_id(name, k);
            &&& p0 == path && n0 == name
            &&& p1 == path && id1 == id
            &&& match r {
                None => if creates(m) {
                    s1 == s.push(s1[n + 2]) && match s1[n + 2] {
                        SEv::Add(p2, id2, t2, ok) => p2 == path && id2 == id && t2 == text && written(ok, g.added, 1, l0, l1, e0, e1),
                        _ => false,
                    }
                } else { s1 == s && refused(g.nf, l0, l1, e0, e1) },
                Some(prev) => if same_text(esc, prev, text) { s1 == s && passes(l0, l1, e0, e1) }
                    else if updates(m) {
                        s1 == s.push(s1[n + 2]) && match s1[n + 2] {
                            SEv::Upd(p2, id2, t2, ok) => p2 == path && id2 == id && t2 == text && written(ok, g.updated, 2, l0, l1, e0, e1),
                            _ => false,
                        }
                    } else { s1 == s && differs(l0, l1, e0, e1) },
            }
        },
        _ => false,
    }
}

// a call on a standalone snapshot
pub open spec fn standalone_call(m: Mode, g: Msgs, gpath: Str, text: Str,
    s0: Seq<SEv>, s1: Seq<SEv>, l0: Seq<TEv>, l1: Seq<TEv>, e0: Str, e1: Str) -> bool
{
    let n = s0.len() as int;
    &&& s1.len() >= n + 2
    &&& match (s1[n], s1[n + 1]) {
        (SEv::SId(p0, k), SEv::SRead(p1, r)) => {
            let s = s0.push(s1[n]).push(s1[n + 1]);
            let path = sprintf_d(gpath, k);
            &&& p0 == gpath
            &&& p1 == path
            &&& match r {
                None => if creates(m) {
                    s1 == s.push(s1[n + 2]) && match s1[n + 2] {
                        SEv::SPut(p2, t2, ok) => p2 == path && t2 == text && written(ok, g.added, 1, l0, l1, e0, e1),
                        _ => false,
                    }
                } else { s1 == s && refused(g.nf, l0, l1, e0, e1) },
                Some(prev) => if prev == text { s1 == s && passes(l0, l1, e0, e1) }
                    else if updates(m) {
                        s1 == s.push(s1[n + 2]) && match s1[n + 2] {
                            SEv::SPut(p2, t2, ok) => p2 == path && t2 == text && written(ok, g.updated, 2, l0, l1, e0, e1),
                            _ => false,
                        }
                    } else { s1 == s && differs(l0, l1, e0, e1) },
            }
        },
        _ => false,
    }
}

// a call that fails before it looks anything up: the ordinal is consumed
pub open spec fn rejected(standalone: bool, path: Str, name: Str,
    s0: Seq<SEv>, s1: Seq<SEv>, l0: Seq<TEv>, l1: Seq<TEv>, e0: Str, e1: Str) -> bool
{
    &&& s1.len() == s0.len() + 1
    &&& s1 == s0.push(s1.last())
    &&& match s1.last() {
        SEv::Id(p, n, k) => !standalone && p == path && n == name,
        SEv::SId(p, k) => standalone && p == path,
        _ => false,
    }
    &&& one_error(l0, l1)
    &&& e1 == e0.push(0)
}

pub open spec fn fmt_values(vs: Seq<Any>) -> Seq<Str> { Seq::new(vs.len(), |i: int| pretty_Sprint(any1(vs[i]))) }
pub uninterp spec fn pretty_Sprint(a: Seq<Any>) -> Str;
pub open spec fn shared_text(vs: Seq<Any>) -> Str { escape_text(strings_Join(fmt_values(vs), lit!("\n"))) }
pub open spec fn formatted(ss: Seq<Str>, vs: Seq<Any>, n: int) -> bool {
    forall|j: int| 0 <= j < n && j < vs.len() && j < ss.len() ==> #[trigger] ss[j] == pretty_Sprint(any1(vs[j]))
}

pub open spec fn resets(p: Str, n: Str) -> Seq<Reset> { Seq::<Reset>::empty().push(Reset::M(p, n)) }
pub open spec fn sresets(p: Str) -> Seq<Reset> { Seq::<Reset>::empty().push(Reset::S(p)) }
pub open spec fn json_ext(e: Str) -> Str { if e.len() == 0 { lit!(".json") } else { e } }

// ---- JSON

pub uninterp spec fn gjson_Valid(s: Str) -> bool;
// AXIOM gjson.ValidBytes and gjson.Valid accept the same documents
pub open spec fn gjson_ValidBytes(s: Str) -> bool { gjson_Valid(s) }
pub uninterp spec fn json_Marshal_r0(a: Any) -> Str;
pub uninterp spec fn json_Marshal_r1(a: Any) -> Any;

pub open spec fn json_bytes(a: Any) -> Str {
    match a { Any::S(j) => j, Any::B(j) => j, _ => json_Marshal_r0(a) }
}
pub open spec fn json_ok(a: Any, inv: Any) -> bool {
    match a { Any::S(j) => gjson_Valid(j), Any::B(j) => gjson_Valid(j), _ => json_Marshal_r1(a) == Any::Nil }
}

// a matcher of a document: the document it returns and its errors
pub uninterp spec fn jm_doc(m: T_Matcher, b: Str) -> Str;
pub uninterp spec fn jm_errs(m: T_Matcher, b: Str) -> Seq<T_match_MatcherError>;
pub open spec fn jm_fold(b: Str, ms: Seq<T_Matcher>) -> Str
    decreases ms.len()
{
    if ms.len() == 0 { b }
    else {
        let p = jm_fold(b, ms.drop_last());
        if jm_errs(ms.last(), p).len() > 0 { p } else { jm_doc(ms.last(), p) }
    }
}
pub open spec fn jm_errors(b: Str, ms: Seq<T_Matcher>) -> Seq<T_match_MatcherError>
    decreases ms.len()
{
    if ms.len() == 0 { Seq::empty() }
    else { jm_errors(b, ms.drop_last()) + jm_errs(ms.last(), jm_fold(b, ms.drop_last())) }
}
pub open spec fn json_accepted(a: Any, ms: Seq<T_Matcher>, inv: Any) -> bool {
    json_ok(a, inv) && jm_errors(json_bytes(a), ms).len() == 0
}
pub open spec fn err_line(e: T_match_MatcherError) -> Str {
    lit!("\n✕ match.") + e.Matcher_ + lit!("(\"") + e.Path_ + lit!("\") - ") + fmt_s(e.Reason_)
}
pub open spec fn err_text(plain: bool, es: Seq<T_match_MatcherError>) -> Str
    decreases es.len()
{
    if es.len() == 0 { lit!("") } else { err_text(plain, es.drop_last()) + paint(plain, lit!("\x1b[31;1m"), err_line(es.last())) }
}

pub uninterp spec fn pretty_PrettyOptions(b: Str, o: Option<T_pretty_Options>) -> Str;
pub open spec fn json_options(j: Option<T_snaps_JSONConfig>, d: Option<T_pretty_Options>) -> Option<T_pretty_Options> {
    match j { None => d, Some(c) => Some(T_pretty_Options { Width_: c.Width_, Prefix_: lit!(""), Indent_: c.Indent_, SortKeys_: c.SortKeys_ }) }
}
pub open spec fn json_text(j: Option<T_snaps_JSONConfig>, d: Option<T_pretty_Options>, b: Str) -> Str {
    strings_TrimSuffix(pretty_PrettyOptions(b, json_options(j, d)), lit!("\n"))
}

// ---- YAML

pub uninterp spec fn yaml_Unmarshal(b: Str) -> Any;
pub uninterp spec fn yaml_Marshal_r0(a: Any, o: Seq<Opq>) -> Str;
pub uninterp spec fn yaml_Marshal_r1(a: Any, o: Seq<Opq>) -> Any;
pub open spec fn yaml_bytes(a: Any, o: Seq<Opq>) -> Str {
    match a { Any::S(j) => j, Any::B(j) => j, _ => yaml_Marshal_r0(a, o) }
}
pub open spec fn yaml_ok(a: Any, o: Seq<Opq>) -> bool {
    match a { Any::S(j) => yaml_Unmarshal(j) == Any::Nil, Any::B(j) => yaml_Unmarshal(j) == Any::Nil, _ => yaml_Marshal_r1(a, o) == Any::Nil }
}
pub uninterp spec fn ym_doc(m: T_Matcher, b: Str) -> Str;
pub uninterp spec fn ym_errs(m: T_Matcher, b: Str) -> Seq<T_match_MatcherError>;
pub open spec fn ym_fold(b: Str, ms: Seq<T_Matcher>) -> Str
    decreases ms.len()
{
    if ms.len() == 0 { b }
    else {
        let p = ym_fold(b, ms.drop_last());
        if ym_errs(ms.last(), p).len() > 0 { p } else { ym_doc(ms.last(), p) }
    }
}
pub open spec fn ym_errors(b: Str, ms: Seq<T_Matcher>) -> Seq<T_match_MatcherError>
    decreases ms.len()
{
    if ms.len() == 0 { Seq::empty() }
    else { ym_errors(b, ms.drop_last()) + ym_errs(ms.last(), ym_fold(b, ms.drop_last())) }
}
pub open spec fn yaml_accepted(a: Any, o: Seq<Opq>, ms: Seq<T_Matcher>) -> bool {
    yaml_ok(a, o) && ym_errors(yaml_bytes(a, o), ms).len() == 0
}
