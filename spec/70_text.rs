// FOR C01 C02 C03 C04 C06 C07 C08 C09 C10 C18
// ---- splitting and joining

pub proof fn nl_at_prop(s: Str)
    ensures ({ let i = nl_at(s); &&& -1 <= i < s.len() && (i >= 0 ==> s[i] == NL() && no_nl(s.take(i))) && (i < 0 ==> no_nl(s)) }),
    decreases s.len()
{
    if s.len() == 0 {}
    else if s[0] == NL() {}
    else {
        nl_at_prop(s.skip(1));
        let r = nl_at(s.skip(1));
        if r >= 0 {
            assert forall|j: int| 0 <= j < s.take(r + 1).len() implies #[trigger] s.take(r + 1)[j] != NL() by {
                if j > 0 { assert(s.skip(1).take(r)[j - 1] == s[j]); }
            }
        } else {
            assert forall|j: int| 0 <= j < s.len() implies s[j] != NL() by { if j > 0 { assert(s.skip(1)[j - 1] == s[j]); } }
        }
    }
}
// the first newline of a line followed by a newline is that one
pub proof fn nl_at_line(a: Str, rest: Str)
    requires no_nl(a)
    ensures nl_at(a + lit!("\n") + rest) == a.len(), nl_at(a) == -1
    decreases a.len()
{
    let s = a + lit!("\n") + rest;
    if a.len() == 0 { assert(s[0] == NL()); }
    else {
        assert(s[0] == a[0]);
        assert(s.skip(1) =~= a.skip(1) + lit!("\n") + rest);
        assert(no_nl(a.skip(1))) by { assert forall|j: int| 0 <= j < a.skip(1).len() implies #[trigger] a.skip(1)[j] != NL() by { assert(a.skip(1)[j] == a[j + 1]); } }
        nl_at_line(a.skip(1), rest);
    }
}
pub open spec fn all_no_nl(ls: Seq<Str>) -> bool { forall|i: int| 0 <= i < ls.len() ==> no_nl(#[trigger] ls[i]) }
pub proof fn all_no_nl_skip(ls: Seq<Str>, n: int)
    requires all_no_nl(ls), 0 <= n <= ls.len()
    ensures all_no_nl(ls.skip(n))
{
    assert forall|i: int| 0 <= i < ls.skip(n).len() implies no_nl(#[trigger] ls.skip(n)[i]) by { assert(ls.skip(n)[i] == ls[i + n]); }
}
pub proof fn split_join(s: Str)
    ensures strings_Join(split_nl(s), lit!("\n")) == s, split_nl(s).len() >= 1, all_no_nl(split_nl(s))
    decreases s.len()
{
    nl_at_prop(s);
    let i = nl_at(s);
    if i >= 0 {
        let r = s.skip(i + 1);
        split_join(r);
        let ls = split_nl(s);
        assert(ls.skip(1) =~= split_nl(r));
        assert(ls[0] =~= s.take(i));
        assert(strings_Join(ls, lit!("\n")) =~= s.take(i) + lit!("\n") + r);
        assert(s =~= s.take(i) + lit!("\n") + r);
        assert forall|j: int| 0 <= j < ls.len() implies no_nl(#[trigger] ls[j]) by { if j > 0 { assert(ls[j] == split_nl(r)[j - 1]); } }
    } else {
        assert(split_nl(s)[0] == s);
    }
}
pub proof fn join_split(ls: Seq<Str>)
    requires ls.len() >= 1, all_no_nl(ls)
    ensures split_nl(strings_Join(ls, lit!("\n"))) == ls
    decreases ls.len()
{
    if ls.len() == 1 {
        nl_at_line(ls[0], lit!(""));
        assert(split_nl(ls[0]) =~= ls);
    } else {
        let t = strings_Join(ls.skip(1), lit!("\n"));
        let s = ls[0] + lit!("\n") + t;
        nl_at_line(ls[0], t);
        all_no_nl_skip(ls, 1);
        join_split(ls.skip(1));
        assert(s.take(ls[0].len() as int) =~= ls[0]);
        assert(s.skip(ls[0].len() as int + 1) =~= t);
        assert(split_nl(s) =~= seq![ls[0]] + ls.skip(1));
        assert(seq![ls[0]] + ls.skip(1) =~= ls);
    }
}

// ---- escaping

pub proof fn esc_unesc_line(l: Str)
    ensures unesc_line(esc_line(l)) == l
{
    let e = lit!("/-/-/-/");
    if l =~= lit!("---") {}
    else if esc_term(l) {
        let m = lit!("/") + l;
        assert(m.skip(m.len() - 7) =~= l.skip(l.len() - 7));
        assert forall|i: int| 0 <= i < m.take(m.len() - 7).len() implies #[trigger] m.take(m.len() - 7)[i] == 47 by {
            if i > 0 { assert(l.take(l.len() - 7)[i - 1] == 47); }
        }
        assert(esc_term(m));
        assert(m.len() > 7);
        assert(m.skip(1) =~= l);
    } else {
        if l =~= e {
            assert(l.skip(l.len() - 7) =~= e);
            assert(esc_term(l));
        }
    }
}
pub proof fn esc_line_ok(l: Str)
    requires no_nl(l)
    ensures no_nl(esc_line(l)), !(esc_line(l) =~= lit!("---")), l.len() > 0 ==> l.last() != CR() ==> esc_line(l).last() != CR(), l.len() == 0 ==> esc_line(l).len() == 0
{
    if l =~= lit!("---") {
        assert(lit!("/-/-/-/").len() == 7);
    } else if esc_term(l) {
        assert(l.len() >= 7);
        assert((lit!("/") + l).len() >= 8);
    }
}
// THEOREM [C01 C02 C18] what escaping puts into the file, unescaping gives back, for every text
pub proof fn thm_unescape(s: Str)
    ensures unescape_text(escape_text(s)) == s
{
    split_join(s);
    let ls = split_nl(s);
    let es = esc_lines(ls);
    assert(all_no_nl(es)) by {
        assert forall|i: int| 0 <= i < es.len() implies no_nl(#[trigger] es[i]) by { esc_line_ok(ls[i]); }
    }
    join_split(es);
    assert(unesc_lines(es) =~= ls) by {
        assert forall|i: int| 0 <= i < ls.len() implies unesc_lines(es)[i] == ls[i] by { esc_unesc_line(ls[i]); }
    }
}
// THEOREM [C02] no two texts are stored alike: escaping is injective
pub proof fn thm_escape_injective(a: Str, b: Str)
    requires escape_text(a) == escape_text(b)
    ensures a == b
{
    thm_unescape(a);
    thm_unescape(b);
}
// a text that can lie in an entry: no line reads as the terminator
pub open spec fn term_free(t: Str) -> bool { forall|i: int| 0 <= i < split_nl(t).len() ==> !(strip_cr(#[trigger] split_nl(t)[i]) =~= lit!("---")) }
// the documented limitation: no line ends in a carriage return
pub open spec fn no_cr(t: Str) -> bool { forall|i: int| 0 <= i < split_nl(t).len() ==> strip_cr(#[trigger] split_nl(t)[i]) == split_nl(t)[i] }
// THEOREM [C01 C03 C04 C18] an escaped text holds no line that reads as the terminator, and escaping adds no carriage return at a line end
pub proof fn thm_escaped_fits(s: Str)
    requires no_cr(s)
    ensures term_free(escape_text(s)), no_cr(escape_text(s))
{
    split_join(s);
    let ls = split_nl(s);
    let es = esc_lines(ls);
    assert(all_no_nl(es)) by {
        assert forall|i: int| 0 <= i < es.len() implies no_nl(#[trigger] es[i]) by { esc_line_ok(ls[i]); }
    }
    join_split(es);
    assert forall|i: int| 0 <= i < es.len() implies !(strip_cr(#[trigger] es[i]) =~= lit!("---")) && strip_cr(es[i]) == es[i] by {
        esc_line_ok(ls[i]);
        assert(strip_cr(ls[i]) == ls[i]);
        if ls[i].len() > 0 && ls[i].last() == CR() { assert(ls[i].drop_last().len() == ls[i].len() - 1); }
    }
}

// ---- lines of a file

pub open spec fn strip_all(ls: Seq<Str>) -> Seq<Str> { Seq::new(ls.len(), |i: int| strip_cr(ls[i])) }
pub proof fn lines_line(a: Str, rest: Str)
    requires no_nl(a)
    ensures lines(a + lit!("\n") + rest) == seq![strip_cr(a)] + lines(rest)
{
    let s = a + lit!("\n") + rest;
    nl_at_line(a, rest);
    assert(s.take(a.len() as int) =~= a);
    assert(s.skip(a.len() as int + 1) =~= rest);
    assert(lines(s) =~= seq![strip_cr(a)] + lines(rest));
}
pub proof fn lines_text(t: Str, rest: Str)
    ensures lines(t + lit!("\n") + rest) == strip_all(split_nl(t)) + lines(rest)
    decreases t.len()
{
    nl_at_prop(t);
    let i = nl_at(t);
    if i < 0 {
        lines_line(t, rest);
        assert(strip_all(split_nl(t)) =~= seq![strip_cr(t)]);
    } else {
        let a = t.take(i);
        let r = t.skip(i + 1);
        assert(t + lit!("\n") + rest =~= a + lit!("\n") + (r + lit!("\n") + rest));
        lines_line(a, r + lit!("\n") + rest);
        lines_text(r, rest);
        assert(strip_all(split_nl(t)) =~= seq![strip_cr(a)] + strip_all(split_nl(r)));
        assert(seq![strip_cr(a)] + (strip_all(split_nl(r)) + lines(rest)) =~= strip_all(split_nl(t)) + lines(rest));
    }
}
// a file whose last line is complete
pub open spec fn ends_nl(c: Str) -> bool { c.len() == 0 || c.last() == NL() }
pub proof fn lines_append(c: Str, d: Str)
    requires ends_nl(c)
    ensures lines(c + d) == lines(c) + lines(d)
    decreases c.len()
{
    if c.len() == 0 {
        assert(c + d =~= d);
        assert(lines(c) + lines(d) =~= lines(d));
    } else {
        nl_at_prop(c);
        let i = nl_at(c);
        assert(i >= 0) by { if i < 0 { assert(c[c.len() - 1] == NL()); } }
        let a = c.take(i);
        let r = c.skip(i + 1);
        assert(ends_nl(r)) by { if r.len() > 0 { assert(r.last() == c.last()); } }
        assert(c =~= a + lit!("\n") + r);
        assert(c + d =~= a + lit!("\n") + (r + d));
        lines_line(a, r);
        lines_line(a, r + d);
        lines_append(r, d);
        assert(seq![strip_cr(a)] + (lines(r) + lines(d)) =~= seq![strip_cr(a)] + lines(r) + lines(d));
    }
}
// lines as the scanner yields them hold no newline
pub proof fn lines_no_nl(c: Str)
    ensures all_no_nl(lines(c))
    decreases c.len()
{
    if c.len() > 0 {
        nl_at_prop(c);
        let i = nl_at(c);
        if i < 0 {
            assert forall|j: int| 0 <= j < lines(c).len() implies no_nl(#[trigger] lines(c)[j]) by {}
        } else {
            lines_no_nl(c.skip(i + 1));
            let l = lines(c);
            assert forall|j: int| 0 <= j < l.len() implies no_nl(#[trigger] l[j]) by {
                if j > 0 { assert(l[j] == lines(c.skip(i + 1))[j - 1]); } else { assert(l[0] == strip_cr(c.take(i))); }
            }
        }
    }
}
pub open spec fn all_no_cr(ls: Seq<Str>) -> bool { forall|i: int| 0 <= i < ls.len() ==> strip_cr(#[trigger] ls[i]) == ls[i] }
pub proof fn lines_unlines(ls: Seq<Str>)
    requires all_no_nl(ls)
    ensures lines(unlines(ls)) == strip_all(ls), ends_nl(unlines(ls))
    decreases ls.len()
{
    if ls.len() == 0 { assert(strip_all(ls) =~= Seq::<Str>::empty()); }
    else {
        all_no_nl_skip(ls, 1);
        lines_unlines(ls.skip(1));
        lines_line(ls[0], unlines(ls.skip(1)));
        assert(strip_all(ls) =~= seq![strip_cr(ls[0])] + strip_all(ls.skip(1)));
        let u = ls[0] + lit!("\n") + unlines(ls.skip(1));
        assert(ends_nl(u)) by { if unlines(ls.skip(1)).len() > 0 { assert(u.last() == unlines(ls.skip(1)).last()); } else { assert(u.last() == NL()); } }
    }
}
pub proof fn unlines_cat(a: Seq<Str>, b: Seq<Str>)
    ensures unlines(a + b) == unlines(a) + unlines(b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(unlines(a) + unlines(b) =~= unlines(b)); }
    else {
        unlines_cat(a.skip(1), b);
        assert((a + b).skip(1) =~= a.skip(1) + b);
        assert(unlines(a + b) =~= unlines(a) + unlines(b));
    }
}
// a text and a newline are its lines
pub proof fn text_unlines(t: Str)
    ensures t + lit!("\n") == unlines(split_nl(t))
    decreases t.len()
{
    nl_at_prop(t);
    let i = nl_at(t);
    if i < 0 {
        let l = split_nl(t);
        assert(l.skip(1) =~= Seq::<Str>::empty());
        assert(unlines(l.skip(1)) =~= lit!(""));
        assert(unlines(l) =~= t + lit!("\n"));
    } else {
        let r = t.skip(i + 1);
        text_unlines(r);
        let l = split_nl(t);
        assert(l.skip(1) =~= split_nl(r));
        assert(unlines(l) =~= t.take(i) + lit!("\n") + (r + lit!("\n")));
        assert(t =~= t.take(i) + lit!("\n") + r);
        assert(unlines(l) =~= t + lit!("\n"));
    }
}
