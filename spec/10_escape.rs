// ---- escaping of the terminator

pub open spec fn all_slash(s: Str) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 47 }
pub open spec fn esc_term(l: Str) -> bool {
    strings_HasSuffix(l, lit!("/-/-/-/")) && all_slash(l.take(l.len() - 7))
}
pub open spec fn esc_line(l: Str) -> Str {
    if l =~= lit!("---") { lit!("/-/-/-/") } else if esc_term(l) { lit!("/") + l } else { l }
}
pub open spec fn unesc_line(l: Str) -> Str {
    if l =~= lit!("/-/-/-/") { lit!("---") } else if esc_term(l) { l.skip(1) } else { l }
}
pub open spec fn esc_lines(ls: Seq<Str>) -> Seq<Str> { Seq::new(ls.len(), |i: int| esc_line(ls[i])) }
pub open spec fn unesc_lines(ls: Seq<Str>) -> Seq<Str> { Seq::new(ls.len(), |i: int| unesc_line(ls[i])) }
pub open spec fn escape_text(s: Str) -> Str { strings_Join(esc_lines(split_nl(s)), lit!("\n")) }
pub open spec fn unescape_text(s: Str) -> Str { strings_Join(unesc_lines(split_nl(s)), lit!("\n")) }

// trimming slashes leaves nothing exactly when there is nothing else
pub open spec fn strings_Trim(s: Str, c: Str) -> Str
    decreases s.len()
{
    if s.len() == 0 { s }
    else if c.contains(s[0]) { strings_Trim(s.skip(1), c) }
    else if c.contains(s.last()) { strings_Trim(s.drop_last(), c) }
    else { s }
}
pub proof fn trim_empty(s: Str, c: Str)
    ensures strings_Trim(s, c).len() == 0 <==> all_in(s, c),
    decreases s.len()
{
    if s.len() == 0 {}
    else if c.contains(s[0]) {
        trim_empty(s.skip(1), c);
        assert(forall|i: int| 0 <= i < s.skip(1).len() ==> s.skip(1)[i] == s[i + 1]);
        if all_in(s.skip(1), c) { assert forall|i: int| 0 <= i < s.len() implies c.contains(#[trigger] s[i]) by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } } }
        if all_in(s, c) { assert forall|i: int| 0 <= i < s.skip(1).len() implies c.contains(#[trigger] s.skip(1)[i]) by { assert(c.contains(s[i + 1])); } }
    } else if c.contains(s.last()) {
        assert(!all_in(s, c));
        trim_nonempty(s.drop_last(), c);
    } else { assert(!all_in(s, c)); }
}
// a first character outside the cutset stays
pub proof fn trim_nonempty(s: Str, c: Str)
    requires s.len() > 0 ==> !c.contains(s[0])
    ensures s.len() > 0 ==> strings_Trim(s, c).len() > 0
    decreases s.len()
{
    if s.len() > 1 && c.contains(s.last()) { trim_nonempty(s.drop_last(), c); }
}
pub broadcast proof fn trim_slash(s: Str)
    ensures (#[trigger] strings_Trim(s, lit!("/")) =~= lit!("")) <==> all_slash(s)
{
    trim_empty(s, lit!("/"));
    assert(lit!("/").contains(47int)) by { assert(lit!("/")[0] == 47); }
    if all_slash(s) { assert forall|i: int| 0 <= i < s.len() implies lit!("/").contains(#[trigger] s[i]) by { assert(s[i] == 47); } }
}
