// FOR C15 C16 C17 C18
// ---- what a matcher does at a path: the value put there for the value found, or an error
pub struct Mk { pub name: Str, pub miss: bool, pub nf: Any, pub f: spec_fn(Any) -> (Any, Any) }

pub open spec fn merr(k: Mk, e: Any, p: Str) -> T_match_MatcherError { T_match_MatcherError { Reason_: e, Matcher_: k.name, Path_: p } }

// gjson and sjson
pub uninterp spec fn gjson_GetBytes(b: Str, p: Str) -> Opq;
pub uninterp spec fn gjson_Result_Exists(r: Opq) -> bool;
pub uninterp spec fn gjson_Result_Value(r: Opq) -> Any;
pub uninterp spec fn sjson_set(b: Str, p: Str, v: Any) -> Str;
pub uninterp spec fn sjson_set_err(b: Str, p: Str, v: Any) -> Any;

pub open spec fn jhas(b: Str, p: Str) -> bool { gjson_Result_Exists(gjson_GetBytes(b, p)) }
pub open spec fn jput(k: Mk, b: Str, p: Str) -> (Any, Any) { (k.f)(gjson_Result_Value(gjson_GetBytes(b, p))) }
// the error at one path
pub open spec fn jstep_err(k: Mk, b: Str, p: Str) -> Any {
    if !jhas(b, p) { if k.miss { k.nf } else { Any::Nil } }
    else if jput(k, b, p).1 != Any::Nil { jput(k, b, p).1 }
    else { sjson_set_err(b, p, jput(k, b, p).0) }
}
// the document after one path
pub open spec fn jstep(k: Mk, b: Str, p: Str) -> Str {
    if !jhas(b, p) || jstep_err(k, b, p) != Any::Nil { b } else { sjson_set(b, p, jput(k, b, p).0) }
}
pub open spec fn jmask(k: Mk, b: Str, ps: Seq<Str>) -> Str
    decreases ps.len()
{
    if ps.len() == 0 { b } else { jstep(k, jmask(k, b, ps.drop_last()), ps.last()) }
}
pub open spec fn jmask_errs(k: Mk, b: Str, ps: Seq<Str>) -> Seq<T_match_MatcherError>
    decreases ps.len()
{
    if ps.len() == 0 { Seq::empty() }
    else {
        let q = jmask_errs(k, b, ps.drop_last());
        let e = jstep_err(k, jmask(k, b, ps.drop_last()), ps.last());
        if e == Any::Nil { q } else { q.push(merr(k, e, ps.last())) }
    }
}

// the same failures, whatever their reasons are called
pub open spec fn errs_like(a: Seq<T_match_MatcherError>, b: Seq<T_match_MatcherError>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).Matcher_ == b[i].Matcher_ && a[i].Path_ == b[i].Path_ && a[i].Reason_ != Any::Nil
}

// the matchers
pub uninterp spec fn any_is_ExpectedType(v: Any) -> bool;
// the error says why in words of its own
pub open spec fn type_err() -> Any { Any::E(lit!("type")) }
pub uninterp spec fn type__ExpectedType() -> Any;
pub uninterp spec fn type_elem(a: Any) -> Any;
// of the expected type alone
pub open spec fn type_placeholder() -> Str { lit!("<Type:") + fmt_s(type_elem(type__ExpectedType())) + lit!(">") }
pub open spec fn type_put(v: Any) -> (Any, Any) { if any_is_ExpectedType(v) { (Any::S(type_placeholder()), Any::Nil) } else { (Any::Nil, type_err()) } }
pub open spec fn one_path(p: Str) -> Seq<Str> { Seq::<Str>::empty().push(p) }

// go-yaml: a file is what its documents are
pub open spec fn bytes_HasSuffix(s: Str, p: Str) -> bool { strings_HasSuffix(s, p) }
pub uninterp spec fn yaml_file(b: Str) -> T_YFile;
pub uninterp spec fn yaml_file_err(b: Str) -> Any;
pub uninterp spec fn go_yaml_PathString_r0(p: Str) -> Opq;
pub uninterp spec fn go_yaml_PathString_r1(p: Str) -> Any;
pub uninterp spec fn go_yaml_Path_FilterNode_r0(p: Opq, n: Any) -> Any;
pub uninterp spec fn go_yaml_Path_FilterNode_r1(p: Opq, n: Any) -> Any;
pub uninterp spec fn opq_field_Body_Any(d: Opq) -> Any;
pub uninterp spec fn ast_Filter(k: int, n: Any) -> Seq<Any>;
pub uninterp spec fn yaml_node_text(n: Any) -> Str;
pub uninterp spec fn yaml_node_err(n: Any) -> Any;
pub uninterp spec fn yaml_Unmarshal_value(b: Str) -> Any;
pub uninterp spec fn yaml_replace(p: Opq, f: T_YFile, t: Str) -> T_YFile;
pub uninterp spec fn yaml_replace_err(p: Opq, f: T_YFile, t: Str) -> Any;
pub uninterp spec fn go_yaml_Marshal_r0(a: Any) -> Str;
pub uninterp spec fn go_yaml_Marshal_r1(a: Any) -> Any;
pub uninterp spec fn ast_DocumentNode_String(d: Opq) -> Str;

pub open spec fn ypath(p: Str) -> Opq { go_yaml_PathString_r0(p) }
// the library's errors that say that there is nothing at the path
pub struct Yq { pub nf: Any, pub iq: Any, pub anchor: int, pub tag: int }
pub open spec fn nowhere(q: Yq, e: Any, n: Any) -> bool {
    if e == q.iq { ast_Filter(q.anchor, n).len() == 0 && ast_Filter(q.tag, n).len() == 0 } else { e == q.nf }
}
// the first document that has something at the path, or the first error
pub open spec fn yscan(q: Yq, p: Opq, ds: Seq<Opq>, i: int) -> (Any, Any)
    decreases ds.len() - i
{
    if i < 0 || i >= ds.len() { (Any::Nil, Any::Nil) }
    else {
        let n = go_yaml_Path_FilterNode_r0(p, opq_field_Body_Any(ds[i]));
        let e = go_yaml_Path_FilterNode_r1(p, opq_field_Body_Any(ds[i]));
        if e != Any::Nil && !nowhere(q, e, opq_field_Body_Any(ds[i])) { (Any::Nil, e) }
        else if e == Any::Nil && n != Any::Nil { (n, Any::Nil) }
        else { yscan(q, p, ds, i + 1) }
    }
}
pub open spec fn yfind(q: Yq, f: T_YFile, p: Str) -> Any { yscan(q, ypath(p), f.Docs_, 0).0 }
pub open spec fn yget_err(q: Yq, f: T_YFile, p: Str) -> Any {
    if go_yaml_PathString_r1(p) != Any::Nil { go_yaml_PathString_r1(p) } else { yscan(q, ypath(p), f.Docs_, 0).1 }
}
pub open spec fn yhas(q: Yq, f: T_YFile, p: Str) -> bool { yget_err(q, f, p) == Any::Nil && yfind(q, f, p) != Any::Nil }
pub open spec fn yvalue(n: Any) -> Any { yaml_Unmarshal_value(yaml_node_text(n)) }
pub open spec fn yvalue_err(n: Any) -> Any { if yaml_node_err(n) != Any::Nil { yaml_node_err(n) } else { yaml_Unmarshal(yaml_node_text(n)) } }
pub open spec fn yset(f: T_YFile, p: Opq, v: Any) -> T_YFile { if go_yaml_Marshal_r1(v) != Any::Nil { f } else { yaml_replace(p, f, go_yaml_Marshal_r0(v)) } }
pub open spec fn yset_err(f: T_YFile, p: Opq, v: Any) -> Any { if go_yaml_Marshal_r1(v) != Any::Nil { go_yaml_Marshal_r1(v) } else { yaml_replace_err(p, f, go_yaml_Marshal_r0(v)) } }

pub open spec fn yput(k: Mk, q: Yq, f: T_YFile, p: Str) -> (Any, Any) { (k.f)(yvalue(yfind(q, f, p))) }
// look: the matcher looks at the value it replaces
pub open spec fn ystep_err(k: Mk, look: bool, q: Yq, f: T_YFile, p: Str) -> Any {
    if yget_err(q, f, p) != Any::Nil { yget_err(q, f, p) }
    else if !yhas(q, f, p) { if k.miss { k.nf } else { Any::Nil } }
    else if look && yvalue_err(yfind(q, f, p)) != Any::Nil { yvalue_err(yfind(q, f, p)) }
    else if yput(k, q, f, p).1 != Any::Nil { yput(k, q, f, p).1 }
    else { yset_err(f, ypath(p), yput(k, q, f, p).0) }
}
// a path that fails to be set may have left something behind: the document is not used then
pub open spec fn ystep(k: Mk, look: bool, q: Yq, f: T_YFile, p: Str) -> T_YFile {
    if !yhas(q, f, p) || (look && yvalue_err(yfind(q, f, p)) != Any::Nil) || yput(k, q, f, p).1 != Any::Nil { f }
    else { yset(f, ypath(p), yput(k, q, f, p).0) }
}
pub open spec fn ymask(k: Mk, look: bool, q: Yq, f: T_YFile, ps: Seq<Str>) -> T_YFile
    decreases ps.len()
{
    if ps.len() == 0 { f } else { ystep(k, look, q, ymask(k, look, q, f, ps.drop_last()), ps.last()) }
}
// something was there to be masked
pub open spec fn ymasked(k: Mk, look: bool, q: Yq, f: T_YFile, ps: Seq<Str>) -> bool
    decreases ps.len()
{
    if ps.len() == 0 { false } else { ymasked(k, look, q, f, ps.drop_last()) || yhas(q, ymask(k, look, q, f, ps.drop_last()), ps.last()) }
}
pub open spec fn ymask_errs(k: Mk, look: bool, q: Yq, f: T_YFile, ps: Seq<Str>) -> Seq<T_match_MatcherError>
    decreases ps.len()
{
    if ps.len() == 0 { Seq::empty() }
    else {
        let es = ymask_errs(k, look, q, f, ps.drop_last());
        let e = ystep_err(k, look, q, ymask(k, look, q, f, ps.drop_last()), ps.last());
        if e == Any::Nil { es } else { es.push(merr(k, e, ps.last())) }
    }
}
pub open spec fn doc_texts(ds: Seq<Opq>) -> Seq<Str> { Seq::new(ds.len(), |i: int| ast_DocumentNode_String(ds[i])) }
pub open spec fn docs_upto(t: Seq<Str>, ds: Seq<Opq>, n: int) -> bool { forall|i: int| 0 <= i < n && i < ds.len() ==> #[trigger] t[i] == ast_DocumentNode_String(ds[i]) }
// the documents one after the other, with the newline at the end that the input had
pub open spec fn yaml_text(f: T_YFile, nl: bool) -> Str { strings_Join(if nl { doc_texts(f.Docs_).push(lit!("")) } else { doc_texts(f.Docs_) }, lit!("\n")) }
// as given when there was nothing to mask
pub open spec fn ydoc(k: Mk, look: bool, q: Yq, b: Str, ps: Seq<Str>) -> Str {
    if ymasked(k, look, q, yaml_file(b), ps) { yaml_text(ymask(k, look, q, yaml_file(b), ps), strings_HasSuffix(b, lit!("\n"))) } else { b }
}
pub open spec fn ydoc_errs(k: Mk, look: bool, q: Yq, b: Str, ps: Seq<Str>, at: Str) -> Seq<T_match_MatcherError> {
    if yaml_file_err(b) != Any::Nil { Seq::<T_match_MatcherError>::empty().push(merr(k, yaml_file_err(b), at)) } else { ymask_errs(k, look, q, yaml_file(b), ps) }
}
