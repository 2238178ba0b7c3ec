// FOR C14 C15 C16 C17 C18
// ---- documents: what stands at each position. A member of an object is found by its name, the order of the
// members is part of the object

pub enum Step { Key(Str), Idx(int) }
pub enum N { Absent, Leaf(Str), Obj(Seq<Str>), Arr(int) }
pub type Doc = spec_fn(Seq<Step>) -> N;

pub open spec fn sub_doc(d: Doc, l: Seq<Step>) -> Doc { |m: Seq<Step>| d(l + m) }
// d with x in the place of what is at l
pub open spec fn dput(d: Doc, l: Seq<Step>, x: Doc) -> Doc { |m: Seq<Step>| if l.is_prefix_of(m) { x(m.skip(l.len() as int)) } else { d(m) } }

// the child of a node that a component of a path names
pub uninterp spec fn kid(n: N, c: Str) -> Option<Step>;
// the position a path leads to
pub open spec fn loc(d: Doc, cs: Seq<Str>) -> Option<Seq<Step>>
    decreases cs.len()
{
    if cs.len() == 0 { Some(Seq::empty()) }
    else {
        match loc(d, cs.drop_last()) {
            None => None,
            Some(l) => match kid(d(l), cs.last()) { None => None, Some(s) => Some(l.push(s)) },
        }
    }
}
pub open spec fn leads(d: Doc, cs: Seq<Str>) -> bool { match loc(d, cs) { None => false, Some(l) => d(l) != N::Absent } }
pub open spec fn locv(d: Doc, cs: Seq<Str>) -> Seq<Step> { match loc(d, cs) { None => Seq::empty(), Some(l) => l } }

// the same up to the order of the members of its objects
pub uninterp spec fn sorted_names(ks: Seq<Str>) -> Seq<Str>;
pub open spec fn canon_node(n: N) -> N { match n { N::Obj(ks) => N::Obj(sorted_names(ks)), x => x } }
pub open spec fn canon(d: Doc) -> Doc { |m: Seq<Step>| canon_node(d(m)) }

pub proof fn dput_at(d: Doc, l: Seq<Step>, x: Doc, m: Seq<Step>)
    ensures dput(d, l, x)(l + m) == x(m), sub_doc(dput(d, l, x), l) =~= x
{
    assert forall|q: Seq<Step>| dput(d, l, x)(l + q) == x(q) by { assert((l + q).skip(l.len() as int) =~= q); assert(l.is_prefix_of(l + q)); }
    assert(sub_doc(dput(d, l, x), l) =~= x);
}
// what a path leads to is decided above its end
pub proof fn loc_frame(d: Doc, e: Doc, cs: Seq<Str>)
    requires loc(d, cs) is Some, forall|m: Seq<Step>| #[trigger] m.is_prefix_of(locv(d, cs)) && m.len() < locv(d, cs).len() ==> d(m) == e(m)
    ensures loc(e, cs) == loc(d, cs)
    decreases cs.len()
{
    if cs.len() > 0 {
        let c = cs.drop_last();
        let l = locv(d, cs);
        let k = locv(d, c);
        assert(l == k.push(l.last()));
        assert(k.is_prefix_of(l));
        assert forall|m: Seq<Step>| #[trigger] m.is_prefix_of(locv(d, c)) && m.len() < locv(d, c).len() implies d(m) == e(m) by { assert(m.is_prefix_of(l)); }
        loc_frame(d, e, c);
    }
}

// ---- JSON texts

// what a JSON text with distinct member names says
pub uninterp spec fn jdoc(b: Str) -> Doc;
pub uninterp spec fn distinct_names(b: Str) -> bool;
pub open spec fn json_doc(b: Str) -> bool { gjson_Valid(b) && distinct_names(b) }

pub open spec fn said(o: T_pretty_Options, b: Str) -> Doc { if o.SortKeys_ { canon(jdoc(b)) } else { jdoc(b) } }

// AXIOM tidwall/pretty lays a valid document out: it changes whitespace and, asked to, the order of the members
pub proof fn axiom_pretty_lossless(b: Str, o: T_pretty_Options)
    requires json_doc(b)
    ensures
        json_doc(strings_TrimSuffix(pretty_PrettyOptions(b, Some(o)), lit!("\n"))),
        jdoc(strings_TrimSuffix(pretty_PrettyOptions(b, Some(o)), lit!("\n"))) == said(o, b),
{ admit(); }
// AXIOM tidwall/pretty lays out equal documents equally, and unequal order as well when it sorts the members
pub proof fn axiom_pretty_canonical(a: Str, b: Str, o: T_pretty_Options)
    requires json_doc(a), json_doc(b), said(o, a) == said(o, b)
    ensures pretty_PrettyOptions(a, Some(o)) == pretty_PrettyOptions(b, Some(o))
{ admit(); }
// AXIOM encoding/json encodes to valid documents
pub proof fn axiom_marshal_valid(a: Any)
    requires json_Marshal_r1(a) == Any::Nil
    ensures gjson_Valid(json_Marshal_r0(a))
{ admit(); }
pub proof fn options_some(j: Option<T_snaps_JSONConfig>, d: T_pretty_Options)
    ensures json_options(j, Some(d)) is Some
{
}

// THEOREM [C14] a document given as string, as bytes or as a Go value that encodes to it is the same document, and is stored as the same text
pub proof fn thm_json_inputs(v: Any, t: Str, j: Option<T_snaps_JSONConfig>, d: T_pretty_Options, inv: Any)
    requires json_Marshal_r1(v) == Any::Nil, !(v is S), !(v is B)
    ensures
        json_bytes(Any::S(t)) == json_bytes(Any::B(t)), json_ok(Any::S(t), inv) == json_ok(Any::B(t), inv),
        json_ok(v, inv), json_ok(Any::S(json_Marshal_r0(v)), inv),
        json_text(j, Some(d), json_bytes(v)) == json_text(j, Some(d), json_bytes(Any::S(json_Marshal_r0(v)))),
{
    axiom_marshal_valid(v);
}
// THEOREM [C14] texts of the same document store identically; so do, when member names are sorted, texts that differ in the order of members
pub proof fn thm_json_canonical(a: Str, b: Str, j: Option<T_snaps_JSONConfig>, d: T_pretty_Options)
    requires json_doc(a), json_doc(b),
        jdoc(a) == jdoc(b) || (json_options(j, Some(d))->Some_0.SortKeys_ && canon(jdoc(a)) == canon(jdoc(b)))
    ensures json_text(j, Some(d), a) == json_text(j, Some(d), b)
{
    axiom_pretty_canonical(a, b, json_options(j, Some(d))->Some_0);
}
// THEOREM [C14] the stored text says what the input says: node by node, up to the order of members when they are sorted
pub proof fn thm_json_lossless(b: Str, j: Option<T_snaps_JSONConfig>, d: T_pretty_Options, m: Seq<Step>)
    requires json_doc(b)
    ensures
        json_doc(json_text(j, Some(d), b)),
        jdoc(json_text(j, Some(d), b))(m) == if json_options(j, Some(d))->Some_0.SortKeys_ { canon_node(jdoc(b)(m)) } else { jdoc(b)(m) },
{
    axiom_pretty_lossless(b, json_options(j, Some(d))->Some_0);
}
