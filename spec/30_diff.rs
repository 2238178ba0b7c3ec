// FOR C02 C13
// ---- the line edit script

pub open spec fn same(a: Seq<Str>, i: int, b: Seq<Str>, j: int, n: int) -> bool {
    forall|x: int| i <= x < i + n ==> #[trigger] a[x] == b[x + (j - i)]
}
pub open spec fn b2j_ok(b: Seq<Str>, m: Map<Str, Seq<int>>) -> bool {
    forall|s: Str, x: int| m.dom().contains(s) && 0 <= x < m[s].len() ==> 0 <= #[trigger] m[s][x] < b.len() && b[m[s][x]] == s
}
pub open spec fn blk_in(k: T_difflib_match, alo: int, ahi: int, blo: int, bhi: int) -> bool {
    alo <= k.A_ && k.A_ + k.Size_ <= ahi && blo <= k.B_ && k.B_ + k.Size_ <= bhi
}
pub open spec fn blk_same(a: Seq<Str>, b: Seq<Str>, k: T_difflib_match) -> bool { same(a, k.A_, b, k.B_, k.Size_) }
pub open spec fn blk_lt(k: T_difflib_match, l: T_difflib_match) -> bool {
    k.A_ + k.Size_ <= l.A_ && k.B_ + k.Size_ <= l.B_
}
pub open spec fn chain(a: Seq<Str>, b: Seq<Str>, s: Seq<T_difflib_match>, n: int, alo: int, ahi: int, blo: int, bhi: int) -> bool {
    &&& forall|x: int| n <= x < s.len() ==> blk_in(#[trigger] s[x], alo, ahi, blo, bhi) && blk_same(a, b, s[x]) && s[x].Size_ > 0
    &&& forall|x: int, y: int| n <= x < y < s.len() ==> blk_lt(#[trigger] s[x], #[trigger] s[y])
}
pub open spec fn extends<A>(r: Seq<A>, s: Seq<A>) -> bool {
    &&& r.len() >= s.len()
    &&& forall|x: int| 0 <= x < s.len() ==> #[trigger] r[x] == s[x]
}
pub open spec fn mblocks_ok(a: Seq<Str>, b: Seq<Str>, s: Seq<T_difflib_match>) -> bool {
    &&& s.len() > 0
    &&& s.last() == T_difflib_match { A_: a.len() as int, B_: b.len() as int, Size_: 0 }
    &&& forall|x: int| 0 <= x < s.len() ==> blk_in(#[trigger] s[x], 0, a.len() as int, 0, b.len() as int) && blk_same(a, b, s[x]) && s[x].Size_ >= 0
    &&& forall|x: int, y: int| 0 <= x < y < s.len() ==> blk_lt(#[trigger] s[x], #[trigger] s[y])
}
pub open spec fn j2len_ok(a: Seq<Str>, b: Seq<Str>, m: Map<int, int>, i: int, alo: int, blo: int, bhi: int) -> bool {
    forall|j: int| #[trigger] m.dom().contains(j) ==> blo <= j < bhi && 1 <= m[j] <= i - alo && m[j] <= j + 1 - blo && same(a, i - m[j], b, j - m[j] + 1, m[j])
}

// tags: 0 equal, 1 insert, 2 delete, 3 replace
pub open spec fn op_ok(a: Seq<Str>, b: Seq<Str>, o: T_difflib_OpCode) -> bool {
    &&& 0 <= o.I1_ <= o.I2_ <= a.len()
    &&& 0 <= o.J1_ <= o.J2_ <= b.len()
    &&& 0 <= o.Tag_ <= 3
    &&& o.Tag_ == 0 ==> o.I2_ - o.I1_ == o.J2_ - o.J1_ && same(a, o.I1_, b, o.J1_, o.I2_ - o.I1_)
    &&& o.Tag_ == 1 ==> o.I1_ == o.I2_ && o.J1_ < o.J2_
    &&& o.Tag_ == 2 ==> o.I1_ < o.I2_ && o.J1_ == o.J2_
    &&& o.Tag_ == 3 ==> o.I1_ < o.I2_ && o.J1_ < o.J2_
}
pub open spec fn follows(o: T_difflib_OpCode, p: T_difflib_OpCode) -> bool { o.I2_ == p.I1_ && o.J2_ == p.J1_ }
pub open spec fn ops_ok(a: Seq<Str>, b: Seq<Str>, s: Seq<T_difflib_OpCode>) -> bool {
    &&& forall|x: int| 0 <= x < s.len() ==> op_ok(a, b, #[trigger] s[x])
    &&& forall|x: int, y: int| 0 <= x < s.len() - 1 && y == x + 1 ==> follows(#[trigger] s[x], #[trigger] s[y])
}
// the operations cover both texts up to (i, j)
pub open spec fn tiles_to(a: Seq<Str>, b: Seq<Str>, s: Seq<T_difflib_OpCode>, i: int, j: int) -> bool {
    &&& ops_ok(a, b, s)
    &&& s.len() == 0 ==> i == 0 && j == 0
    &&& s.len() > 0 ==> s[0].I1_ == 0 && s[0].J1_ == 0 && s.last().I2_ == i && s.last().J2_ == j
}
pub open spec fn tiles(a: Seq<Str>, b: Seq<Str>, s: Seq<T_difflib_OpCode>) -> bool { tiles_to(a, b, s, a.len() as int, b.len() as int) }

// a script whose first and last equal ranges may be cut to the context shown
pub open spec fn script_ok(a: Seq<Str>, b: Seq<Str>, s: Seq<T_difflib_OpCode>) -> bool {
    &&& ops_ok(a, b, s)
    &&& s.len() > 0
    &&& s[0].I1_ == s[0].J1_ && same(a, 0, b, 0, s[0].I1_)
    &&& a.len() - s.last().I2_ == b.len() - s.last().J2_ && same(a, s.last().I2_, b, s.last().J2_, a.len() - s.last().I2_)
}
pub open spec fn changes(s: Seq<T_difflib_OpCode>) -> Seq<T_difflib_OpCode>
    decreases s.len()
{
    if s.len() == 0 { s } else if s.last().Tag_ == 0 { changes(s.drop_last()) } else { changes(s.drop_last()).push(s.last()) }
}
pub open spec fn gchanges(g: Seq<Seq<T_difflib_OpCode>>) -> Seq<T_difflib_OpCode>
    decreases g.len()
{
    if g.len() == 0 { Seq::empty() } else { gchanges(g.drop_last()) + changes(g.last()) }
}
pub open spec fn groups_ok(a: Seq<Str>, b: Seq<Str>, g: Seq<Seq<T_difflib_OpCode>>) -> bool {
    forall|x: int| 0 <= x < g.len() ==> ops_ok(a, b, #[trigger] g[x]) && g[x].len() > 0
}
// equal ranges do not count
pub proof fn changes_push(s: Seq<T_difflib_OpCode>, o: T_difflib_OpCode)
    ensures changes(s.push(o)) == (if o.Tag_ == 0 { changes(s) } else { changes(s).push(o) })
{
    assert(s.push(o).drop_last() =~= s);
}
pub proof fn changes_upd(s: Seq<T_difflib_OpCode>, i: int, o: T_difflib_OpCode)
    requires 0 <= i < s.len(), s[i].Tag_ == 0, o.Tag_ == 0
    ensures changes(s.update(i, o)) == changes(s)
    decreases s.len()
{
    let u = s.update(i, o);
    if i == s.len() - 1 { assert(u.drop_last() =~= s.drop_last()); }
    else { assert(u.drop_last() =~= s.drop_last().update(i, o)); changes_upd(s.drop_last(), i, o); }
}
pub proof fn changes_take(s: Seq<T_difflib_OpCode>, i: int)
    requires 0 <= i < s.len()
    ensures changes(s.take(i + 1)) == (if s[i].Tag_ == 0 { changes(s.take(i)) } else { changes(s.take(i)).push(s[i]) })
{
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    changes_push(s.take(i), s[i]);
}
pub proof fn gchanges_push(g: Seq<Seq<T_difflib_OpCode>>, s: Seq<T_difflib_OpCode>)
    ensures gchanges(g.push(s)) == gchanges(g) + changes(s)
{
    assert(g.push(s).drop_last() =~= g);
}

// taking the changed lines out
pub open spec fn kept(a: Seq<Str>, c: Seq<T_difflib_OpCode>, from: int) -> Seq<Str>
    decreases c.len()
{
    if c.len() == 0 { a.skip(from) } else { a.subrange(from, c[0].I1_) + kept(a, c.skip(1), c[0].I2_) }
}
pub open spec fn keptb(b: Seq<Str>, c: Seq<T_difflib_OpCode>, from: int) -> Seq<Str>
    decreases c.len()
{
    if c.len() == 0 { b.skip(from) } else { b.subrange(from, c[0].J1_) + keptb(b, c.skip(1), c[0].J2_) }
}
// replaying the changes over the first text
pub open spec fn patch(a: Seq<Str>, b: Seq<Str>, c: Seq<T_difflib_OpCode>, from: int) -> Seq<Str>
    decreases c.len()
{
    if c.len() == 0 { a.skip(from) }
    else { a.subrange(from, c[0].I1_) + b.subrange(c[0].J1_, c[0].J2_) + patch(a, b, c.skip(1), c[0].I2_) }
}
// the script read from the front
pub open spec fn changes_f(s: Seq<T_difflib_OpCode>) -> Seq<T_difflib_OpCode>
    decreases s.len()
{
    if s.len() == 0 { s } else if s[0].Tag_ == 0 { changes_f(s.skip(1)) } else { seq![s[0]] + changes_f(s.skip(1)) }
}
pub proof fn changes_f_eq(s: Seq<T_difflib_OpCode>)
    ensures changes(s) == changes_f(s)
    decreases s.len()
{
    if s.len() == 0 {}
    else if s.len() == 1 { assert(s.drop_last() =~= Seq::<T_difflib_OpCode>::empty()); assert(s.skip(1) =~= Seq::<T_difflib_OpCode>::empty()); assert(s.last() == s[0]);
        assert(changes(s.drop_last()).len() == 0); assert(changes_f(s.skip(1)).len() == 0); assert(changes(s) =~= changes_f(s)); }
    else {
        let d = s.drop_last(); let t = s.skip(1);
        changes_f_eq(d); changes_f_eq(t); changes_f_eq(t.drop_last());
        assert(d.skip(1) =~= t.drop_last());
        assert(t.last() == s.last()); assert(d[0] == s[0]);
        assert(changes(s) =~= changes_f(s));
    }
}
// i, j: how far both texts are known to be covered, the rest of the script starting there after equal lines
pub proof fn script_replay(a: Seq<Str>, b: Seq<Str>, s: Seq<T_difflib_OpCode>, i: int, j: int)
    requires
        ops_ok(a, b, s), 0 <= i, 0 <= j,
        s.len() > 0 ==> i <= s[0].I1_ && s[0].I1_ - i == s[0].J1_ - j && same(a, i, b, j, s[0].I1_ - i)
            && a.len() - s.last().I2_ == b.len() - s.last().J2_ && same(a, s.last().I2_, b, s.last().J2_, a.len() - s.last().I2_),
        s.len() == 0 ==> i <= a.len() && a.len() - i == b.len() - j && same(a, i, b, j, a.len() - i),
    ensures
        patch(a, b, changes_f(s), i) =~= b.skip(j),
        kept(a, changes_f(s), i) =~= keptb(b, changes_f(s), j),
        forall|x: int| 0 <= x < changes_f(s).len() ==> i <= (#[trigger] changes_f(s)[x]).I1_,
        changes_f(s).len() > 0 ==> i <= changes_f(s)[0].I1_ && j <= changes_f(s)[0].J1_ && changes_f(s)[0].I1_ - i == changes_f(s)[0].J1_ - j,
    decreases s.len()
{
    if s.len() > 0 {
        let o = s[0]; let t = s.skip(1);
        assert forall|x: int| 0 <= x < t.len() implies op_ok(a, b, #[trigger] t[x]) by { assert(t[x] == s[x + 1]); }
        assert forall|x: int, y: int| 0 <= x < t.len() - 1 && y == x + 1 implies follows(#[trigger] t[x], #[trigger] t[y]) by { assert(t[x] == s[x + 1]); assert(t[y] == s[y + 1]); }
        if t.len() > 0 { assert(follows(s[0], s[1])); assert(t[0] == s[1]); assert(t.last() == s.last()); }
        assert(op_ok(a, b, s[0]));
        if o.Tag_ == 0 {
            assert(same(a, i, b, j, o.I2_ - i));
            if t.len() == 0 { assert(s.last() == o); }
            script_replay(a, b, t, i, j);
        } else {
            if t.len() == 0 { assert(s.last() == o); }
            script_replay(a, b, t, o.I2_, o.J2_);
            let c = changes_f(s);
            assert(c[0] == o); assert(c.skip(1) =~= changes_f(t));
            assert(a.subrange(i, o.I1_) =~= b.subrange(j, o.J1_)) by {
                assert forall|x: int| 0 <= x < o.I1_ - i implies a.subrange(i, o.I1_)[x] == b.subrange(j, o.J1_)[x] by { assert(a[i + x] == b[i + x + (j - i)]); }
            }
            assert(b.skip(j) =~= b.subrange(j, o.J1_) + b.subrange(o.J1_, o.J2_) + b.skip(o.J2_));
            assert forall|x: int| 0 <= x < c.len() implies i <= (#[trigger] c[x]).I1_ by { if x > 0 { assert(c[x] == changes_f(t)[x - 1]); } }
        }
    } else {
        assert(a.skip(i) =~= b.skip(j)) by {
            assert forall|x: int| 0 <= x < a.len() - i implies a.skip(i)[x] == b.skip(j)[x] by { assert(a[i + x] == b[i + x + (j - i)]); }
        }
    }
}
// THEOREM [C13] replaying the changed ranges of an edit script over the first text gives the second text, and both texts agree once the changed lines are taken out
pub proof fn thm_script(a: Seq<Str>, b: Seq<Str>, s: Seq<T_difflib_OpCode>)
    requires script_ok(a, b, s)
    ensures patch(a, b, changes(s), 0) =~= b, kept(a, changes(s), 0) =~= keptb(b, changes(s), 0)
{
    changes_f_eq(s);
    script_replay(a, b, s, 0, 0);
    assert(b.skip(0) =~= b);
}
// THEOREM [C02 C13] a script with no change joins identical texts
pub proof fn thm_no_change(a: Seq<Str>, b: Seq<Str>, s: Seq<T_difflib_OpCode>)
    requires script_ok(a, b, s), changes(s).len() == 0
    ensures a =~= b
{
    thm_script(a, b, s);
    assert(patch(a, b, changes(s), 0) =~= a.skip(0));
    assert(a.skip(0) =~= a);
}
pub open spec fn range_text(start: int, stop: int) -> Str {
    let n = stop - start;
    if n == 1 { itoa(start + 1) } else if n == 0 { itoa(start) + lit!(",") + itoa(0) } else { itoa(start + 1) + lit!(",") + itoa(n) }
}
// ---- the report

pub open spec fn split_after_nl(s: Str) -> Seq<Str>
    decreases s.len()
{
    let i = nl_at(s);
    if i < 0 || i >= s.len() { seq![s] } else { seq![s.take(i + 1)] + split_after_nl(s.skip(i + 1)) }
}
pub uninterp spec fn split_after_other(s: Str, sep: Str) -> Seq<Str>;
pub open spec fn strings_SplitAfter(s: Str, sep: Str) -> Seq<Str> {
    if sep =~= lit!("\n") { split_after_nl(s) } else { split_after_other(s, sep) }
}
pub open spec fn strings_Repeat(s: Str, n: int) -> Str
    decreases n
{
    if n <= 0 { lit!("") } else { s + strings_Repeat(s, n - 1) }
}
// the lines of a text, each with its newline
pub open spec fn text_lines(s: Str) -> Seq<Str> {
    let l = split_after_nl(s);
    l.update(l.len() - 1, l.last() + lit!("\n"))
}
pub open spec fn flat(l: Seq<Str>) -> Str
    decreases l.len()
{
    if l.len() == 0 { lit!("") } else { l[0] + flat(l.skip(1)) }
}
pub broadcast proof fn split_after_len(s: Str)
    ensures (#[trigger] split_after_nl(s)).len() > 0
{ }
pub proof fn flat_lines(s: Str)
    ensures flat(text_lines(s)) =~= s + lit!("\n")
    decreases s.len()
{
    let i = nl_at(s);
    let l = split_after_nl(s);
    split_after_len(s);
    if i < 0 || i >= s.len() {
        assert(text_lines(s) =~= seq![s + lit!("\n")]);
        assert(text_lines(s).skip(1) =~= Seq::<Str>::empty());
        assert(flat(text_lines(s).skip(1)) =~= lit!(""));
    } else {
        let r = s.skip(i + 1);
        flat_lines(r);
        split_after_len(r);
        assert(l.skip(1) =~= split_after_nl(r));
        assert(text_lines(s).skip(1) =~= text_lines(r));
        assert(text_lines(s)[0] == s.take(i + 1));
        assert(s =~= s.take(i + 1) + r);
    }
}
// THEOREM [C02 C13] different texts have different lines
pub proof fn thm_lines_differ(s: Str, t: Str)
    requires text_lines(s) =~= text_lines(t)
    ensures s =~= t
{
    flat_lines(s); flat_lines(t);
    assert(s =~= (s + lit!("\n")).drop_last());
    assert(t =~= (t + lit!("\n")).drop_last());
}
pub open spec fn ctx_line(l: Str) -> Str { if l =~= lit!("\n") { lit!("↵\n") } else { l } }
pub open spec fn render_ctx(ls: Seq<Str>) -> Str
    decreases ls.len()
{
    if ls.len() == 0 { lit!("") } else { render_ctx(ls.drop_last()) + lit!("  ") + ctx_line(ls.last()) }
}
pub open spec fn render_minus(ls: Seq<Str>) -> Str
    decreases ls.len()
{
    if ls.len() == 0 { lit!("") } else { render_minus(ls.drop_last()) + lit!("- ") + ls.last() }
}
pub open spec fn render_plus(ls: Seq<Str>) -> Str
    decreases ls.len()
{
    if ls.len() == 0 { lit!("") } else { render_plus(ls.drop_last()) + lit!("+ ") + ls.last() }
}
pub open spec fn render_op(a: Seq<Str>, b: Seq<Str>, o: T_difflib_OpCode) -> Str {
    if o.Tag_ == 0 { render_ctx(a.subrange(o.I1_, o.I2_)) }
    else { render_minus(a.subrange(o.I1_, o.I2_)) + render_plus(b.subrange(o.J1_, o.J2_)) }
}
pub open spec fn render_ops(a: Seq<Str>, b: Seq<Str>, s: Seq<T_difflib_OpCode>) -> Str
    decreases s.len()
{
    if s.len() == 0 { lit!("") } else { render_ops(a, b, s.drop_last()) + render_op(a, b, s.last()) }
}
pub open spec fn ops_minus(s: Seq<T_difflib_OpCode>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { ops_minus(s.drop_last()) + (if s.last().Tag_ == 0 { 0 } else { s.last().I2_ - s.last().I1_ }) }
}
pub open spec fn ops_plus(s: Seq<T_difflib_OpCode>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { ops_plus(s.drop_last()) + (if s.last().Tag_ == 0 { 0 } else { s.last().J2_ - s.last().J1_ }) }
}
pub open spec fn range_line(g: Seq<T_difflib_OpCode>) -> Str {
    lit!("@@ -") + range_text(g[0].I1_, g.last().I2_) + lit!(" +") + range_text(g[0].J1_, g.last().J2_) + lit!(" @@\n\n")
}
pub open spec fn render_groups(a: Seq<Str>, b: Seq<Str>, g: Seq<Seq<T_difflib_OpCode>>) -> Str
    decreases g.len()
{
    if g.len() == 0 { lit!("") }
    else { render_groups(a, b, g.drop_last()) + (if a.len() > 10 || b.len() > 10 { range_line(g.last()) } else { lit!("") }) + render_ops(a, b, g.last()) }
}
pub open spec fn groups_minus(g: Seq<Seq<T_difflib_OpCode>>) -> int
    decreases g.len()
{
    if g.len() == 0 { 0 } else { groups_minus(g.drop_last()) + ops_minus(g.last()) }
}
pub open spec fn groups_plus(g: Seq<Seq<T_difflib_OpCode>>) -> int
    decreases g.len()
{
    if g.len() == 0 { 0 } else { groups_plus(g.drop_last()) + ops_plus(g.last()) }
}
// the body of a report shows an edit script of the two texts, all of its changes and their number
pub open spec fn shows(a: Seq<Str>, b: Seq<Str>, g: Seq<Seq<T_difflib_OpCode>>, s: Seq<T_difflib_OpCode>) -> bool {
    groups_ok(a, b, g) && script_ok(a, b, s) && gchanges(g) == changes(s)
}
pub open spec fn true_report(a: Seq<Str>, b: Seq<Str>, out: Str, ins: int, del: int) -> bool {
    exists|g: Seq<Seq<T_difflib_OpCode>>, s: Seq<T_difflib_OpCode>| #[trigger] shows(a, b, g, s)
        && out =~= render_groups(a, b, g) && ins == groups_plus(g) && del == groups_minus(g)
}
pub open spec fn pad(x: int, y: int) -> Str { strings_Repeat(lit!(" "), y - x) }
pub open spec fn report_text(ins: int, del: int, diff: Str, name: Str, line: int) -> Str {
    let i = itoa(ins).len() as int; let d = itoa(del).len() as int;
    lit!("\n- Snapshot ") + (if d < i { pad(d, i) } else { lit!("") }) + lit!("- ") + itoa(del) + lit!("\n")
    + lit!("+ Received ") + (if i < d { pad(i, d) } else { lit!("") }) + lit!("+ ") + itoa(ins) + lit!("\n\n")
    + diff + lit!("\n")
    + (if name.len() == 0 { lit!("") } else { lit!("at ") + name + lit!(":") + itoa(line) + lit!("\n") })
}
