// FOR C01 C02 C03 C04 C06 C07 C11 C19
// ---- ids

pub open spec fn is_digits(s: Str) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> 48 <= #[trigger] s[i] <= 57 }
pub proof fn dec_digits(n: int)
    requires n >= 0
    ensures is_digits(dec(n)), n >= 1 ==> dec(n)[0] != 48
    decreases n
{
    if n >= 10 {
        dec_digits(n / 10);
        assert(dec(n / 10).push(48 + n % 10)[0] == dec(n / 10)[0]);
    }
}
pub proof fn dec_injective(a: int, b: int)
    requires a >= 0, b >= 0, dec(a) == dec(b)
    ensures a == b
    decreases a
{
    if a >= 10 && b >= 10 {
        assert(dec(a).drop_last() =~= dec(a / 10));
        assert(dec(b).drop_last() =~= dec(b / 10));
        assert(dec(a).last() == 48 + a % 10);
        assert(dec(b).last() == 48 + b % 10);
        dec_injective(a / 10, b / 10);
    } else if a >= 10 { dec_digits(a / 10); assert(dec(a).len() >= 2); }
    else if b >= 10 { dec_digits(b / 10); assert(dec(b).len() >= 2); }
    else { assert(dec(a)[0] == dec(b)[0]); assert(dec(a)[0] == 48 + a); assert(dec(b)[0] == 48 + b); }
}
pub proof fn itoa_injective(a: int, b: int)
    requires a >= 0, b >= 0, itoa(a) == itoa(b)
    ensures a == b
{
    reveal(itoa);
    dec_injective(a, b);
}
// what precedes a number after a character that is no digit
pub proof fn number_split(x: Str, y: Str, a: Str, b: Str, c: int)
    requires is_digits(a), is_digits(b), !(48 <= c <= 57), x.push(c) + a == y.push(c) + b
    ensures x == y, a == b
{
    let s = x.push(c) + a;
    let t = y.push(c) + b;
    assert(s.len() == t.len());
    assert(s[x.len() as int] == c);
    assert(t[y.len() as int] == c);
    assert(s.len() == x.len() + 1 + a.len());
    assert(t.len() == y.len() + 1 + b.len());
    if a.len() > b.len() { let i = y.len() - x.len() - 1; assert(0 <= i < a.len()); assert(48 <= a[i] <= 57); assert(s[x.len() + 1 + i] == a[i]); }
    if a.len() < b.len() { let i = x.len() - y.len() - 1; assert(0 <= i < b.len()); assert(48 <= b[i] <= 57); assert(t[y.len() + 1 + i] == b[i]); }
    assert(s.skip(x.len() as int + 1) =~= a);
    assert(t.skip(y.len() as int + 1) =~= b);
    assert(s.take(x.len() as int) =~= x);
    assert(t.take(y.len() as int) =~= y);
}
// THEOREM [C03 C06 C07] distinct slots have distinct ids: an id determines test name and ordinal
pub proof fn thm_ids(n: Str, k: int, m: Str, j: int)
    requires k >= 0, j >= 0, test_id(n, k) == test_id(m, j)
    ensures n == m, k == j
{
    reveal(itoa);
    dec_digits(k);
    dec_digits(j);
    let s = test_id(n, k);
    let t = test_id(m, j);
    let x = lit!("[") + n + lit!(" -");
    let y = lit!("[") + m + lit!(" -");
    assert(lit!(" - ") =~= lit!(" -").push(32));
    assert(s.drop_last() =~= x.push(32) + itoa(k));
    assert(t.drop_last() =~= y.push(32) + itoa(j));
    number_split(x, y, itoa(k), itoa(j), 32);
    itoa_injective(k, j);
    assert(x.len() == n.len() + 3);
    assert(y.len() == m.len() + 3);
    assert(x.subrange(1, x.len() - 2) =~= n);
    assert(y.subrange(1, y.len() - 2) =~= m);
}
// ids are lines of their own: neither empty nor the terminator, without a line feed or a carriage return at the end
pub proof fn id_fits(n: Str, k: int)
    requires k >= 0, no_nl(n)
    ensures ({ let id = test_id(n, k); id.len() > 0 && no_nl(id) && !(id =~= lit!("---")) && strip_cr(id) == id })
{
    reveal(itoa);
    dec_digits(k);
    let id = test_id(n, k);
    assert(id[0] == 91);
    assert(id.last() == 93);
    assert(lit!("---")[0] == 45);
    assert forall|i: int| 0 <= i < id.len() implies id[i] != NL() by {
        if 1 <= i < 1 + n.len() { assert(id[i] == n[i - 1]); }
        else if i < 4 + n.len() { }
        else if i < 4 + n.len() + itoa(k).len() { assert(id[i] == itoa(k)[i - 4 - n.len()]); }
    }
}

// ---- ordinals

// what happens to the ordinals of a file: an allocation or a reset, in the order of the lock
pub enum ROp { Get(Str, Str), Reset(Str, Str) }
// the counters before and after, as the contracts of getTestID and reset have it
pub open spec fn reg_step(a: Map<Str, Map<Str, int>>, b: Map<Str, Map<Str, int>>, o: ROp) -> bool {
    match o {
        ROp::Get(p, n) => cnt(b, p, n) == cnt(a, p, n) + 1 && forall|q: Str, m: Str| q != p || m != n ==> #[trigger] cnt(b, q, m) == cnt(a, q, m),
        ROp::Reset(p, n) => cnt(b, p, n) == 0 && forall|q: Str, m: Str| q != p || m != n ==> #[trigger] cnt(b, q, m) == cnt(a, q, m),
    }
}
pub open spec fn reg_trace(st: Seq<Map<Str, Map<Str, int>>>, h: Seq<ROp>) -> bool {
    st.len() == h.len() + 1 && forall|i: int| 0 <= i < h.len() ==> reg_step(st[i], st[i + 1], #[trigger] h[i])
}
// the calls of one test on one file since the test was last reset
pub open spec fn calls(q: int, h: Seq<ROp>, p: Str, n: Str) -> int
    decreases h.len()
{
    if h.len() == 0 { q }
    else {
        match h.last() {
            ROp::Get(p1, n1) => if p1 == p && n1 == n { calls(q, h.drop_last(), p, n) + 1 } else { calls(q, h.drop_last(), p, n) },
            ROp::Reset(p1, n1) => if p1 == p && n1 == n { 0 } else { calls(q, h.drop_last(), p, n) },
        }
    }
}
// THEOREM [C01 C03 C06 C07] whichever tests run before or at the same time: the ordinals of a test on a file count its own calls since it was last reset, so its k-th call gets ordinal k
pub proof fn thm_ordinals(st: Seq<Map<Str, Map<Str, int>>>, h: Seq<ROp>, p: Str, n: Str)
    requires reg_trace(st, h)
    ensures cnt(st.last(), p, n) == calls(cnt(st[0], p, n), h, p, n)
    decreases h.len()
{
    if h.len() > 0 {
        let k = h.len() as int - 1;
        let g = h.drop_last();
        let s = st.drop_last();
        assert forall|i: int| 0 <= i < g.len() implies reg_step(s[i], s[i + 1], #[trigger] g[i]) by { assert(g[i] == h[i]); }
        thm_ordinals(s, g, p, n);
        assert(reg_step(st[k], st[k + 1], h[k]));
    }
}
// THEOREM [C03] an execution of a test that starts reset and is not reset meanwhile: its k-th call gets ordinal k, also when the test ran before in the process
pub proof fn thm_kth(st: Seq<Map<Str, Map<Str, int>>>, h: Seq<ROp>, p: Str, n: Str)
    requires reg_trace(st, h), cnt(st[0], p, n) == 0, forall|i: int| 0 <= i < h.len() ==> #[trigger] h[i] != ROp::Reset(p, n)
    ensures cnt(st.last(), p, n) == own(h, p, n)
{
    thm_ordinals(st, h, p, n);
    own_calls(h, p, n);
}
pub open spec fn own(h: Seq<ROp>, p: Str, n: Str) -> int
    decreases h.len()
{
    if h.len() == 0 { 0 } else { own(h.drop_last(), p, n) + (if h.last() == ROp::Get(p, n) { 1int } else { 0int }) }
}
pub proof fn own_calls(h: Seq<ROp>, p: Str, n: Str)
    requires forall|i: int| 0 <= i < h.len() ==> #[trigger] h[i] != ROp::Reset(p, n)
    ensures calls(0, h, p, n) == own(h, p, n)
    decreases h.len()
{
    if h.len() > 0 {
        let g = h.drop_last();
        assert forall|i: int| 0 <= i < g.len() implies #[trigger] g[i] != ROp::Reset(p, n) by { assert(g[i] == h[i]); }
        own_calls(g, p, n);
        assert(h[h.len() - 1] != ROp::Reset(p, n));
    }
}
// the highest ordinal a test was given is remembered until the end of the process
pub open spec fn adr_step(ra: Map<Str, Map<Str, int>>, aa: Map<Str, Map<Str, int>>, ab: Map<Str, Map<Str, int>>, o: ROp) -> bool {
    match o {
        ROp::Get(p, n) => cnt(ab, p, n) == imax(cnt(aa, p, n), cnt(ra, p, n) + 1) && forall|q: Str, m: Str| q != p || m != n ==> #[trigger] cnt(ab, q, m) == cnt(aa, q, m),
        ROp::Reset(p, n) => ab == aa,
    }
}
// THEOREM [C07] an ordinal given at any time lies at the end within the addressed range of its test and file, whatever was reset or executed again (-count) in between
pub proof fn thm_addressed(st: Seq<Map<Str, Map<Str, int>>>, ad: Seq<Map<Str, Map<Str, int>>>, h: Seq<ROp>, i: int, p: Str, n: Str)
    requires
        reg_trace(st, h), ad.len() == st.len(),
        forall|j: int| 0 <= j < h.len() ==> adr_step(st[j], ad[j], ad[j + 1], #[trigger] h[j]),
        0 <= i < h.len(), h[i] == ROp::Get(p, n),
    ensures cnt(st[i], p, n) + 1 <= cnt(ad.last(), p, n)
{
    assert(adr_step(st[i], ad[i], ad[i + 1], h[i]));
    adr_grows(st, ad, h, i + 1, p, n);
}
pub proof fn adr_grows(st: Seq<Map<Str, Map<Str, int>>>, ad: Seq<Map<Str, Map<Str, int>>>, h: Seq<ROp>, i: int, p: Str, n: Str)
    requires
        ad.len() == st.len(), ad.len() == h.len() + 1, 0 <= i < ad.len(),
        forall|j: int| 0 <= j < h.len() ==> adr_step(st[j], ad[j], ad[j + 1], #[trigger] h[j]),
    ensures cnt(ad[i], p, n) <= cnt(ad.last(), p, n)
    decreases ad.len() - i
{
    if i < h.len() { assert(adr_step(st[i], ad[i], ad[i + 1], h[i])); adr_grows(st, ad, h, i + 1, p, n); }
}

// ---- locations

// the percent signs of directory, name and extension come through formatting unchanged
pub proof fn esc_push(s: Str)
    requires s.len() > 0
    ensures esc_fmt(s) == (if s[0] == 37 { lit!("%%") } else { seq![s[0]] }) + esc_fmt(s.skip(1))
{
    assert(lit!("%").len() == 1 && lit!("%")[0] == 37);
}
pub proof fn fmt_esc0(s: Str)
    ensures sprintf_0(esc_fmt(s)) == s
    decreases s.len()
{
    assert(lit!("%").len() == 1 && lit!("%")[0] == 37);
    if s.len() == 0 { }
    else {
        esc_push(s);
        fmt_esc0(s.skip(1));
        let e = esc_fmt(s);
        if s[0] == 37 {
            assert(e.skip(2) =~= esc_fmt(s.skip(1)));
            assert(lit!("%%")[0] == 37 && lit!("%%")[1] == 37);
            assert(e[0] == 37 && e[1] == 37);
            assert(lit!("%") + s.skip(1) =~= s);
        } else {
            assert(e.skip(1) =~= esc_fmt(s.skip(1)));
            assert(seq![s[0]] + s.skip(1) =~= s);
        }
    }
}
pub proof fn fmt_esc(s: Str, rest: Str, k: int)
    ensures sprintf_d(esc_fmt(s) + rest, k) == s + sprintf_d(rest, k)
    decreases s.len()
{
    assert(lit!("%").len() == 1 && lit!("%")[0] == 37);
    if s.len() == 0 { assert(esc_fmt(s) + rest =~= rest); assert(s + sprintf_d(rest, k) =~= sprintf_d(rest, k)); }
    else {
        esc_push(s);
        fmt_esc(s.skip(1), rest, k);
        let e = esc_fmt(s) + rest;
        if s[0] == 37 {
            assert(e.skip(2) =~= esc_fmt(s.skip(1)) + rest);
            assert(lit!("%%")[0] == 37 && lit!("%%")[1] == 37);
            assert(e[0] == 37 && e[1] == 37);
            assert(lit!("%") + (s.skip(1) + sprintf_d(rest, k)) =~= s + sprintf_d(rest, k));
        } else {
            assert(e.skip(1) =~= esc_fmt(s.skip(1)) + rest);
            assert(seq![s[0]] + (s.skip(1) + sprintf_d(rest, k)) =~= s + sprintf_d(rest, k));
        }
    }
}
// the name of a standalone snapshot's file
pub open spec fn stem(filename: Str, t: Str) -> Str { if filename.len() == 0 { strings_ReplaceAll(t, lit!("/"), lit!("_")) } else { filename } }
// THEOREM [C11 C19] the k-th standalone call of a test gets the file name <Filename, or the name of the test with / replaced by _>_<k>.snap<Ext>, percent signs included
pub proof fn thm_standalone_name(filename: Str, ext: Str, t: Str, k: int)
    ensures sprintf_d(standalone_name(filename, ext, t), k) == stem(filename, t) + (lit!("_") + itoa(k) + lit!(".snap") + ext)
{
    let s = stem(filename, t);
    let r = lit!("_%d") + (lit!(".snap") + esc_fmt(ext));
    assert(standalone_name(filename, ext, t) =~= esc_fmt(s) + r);
    fmt_esc(s, r, k);
    assert(lit!("_%d")[0] == 95 && lit!("_%d")[1] == 37 && lit!("_%d")[2] == 100 && lit!("_%d").len() == 3);
    assert(r[0] == 95 && r[1] == 37 && r[2] == 100);
    let x = r.skip(1);
    assert(x[0] == 37 && x[1] == 100);
    assert(x.skip(2) =~= lit!(".snap") + esc_fmt(ext));
    plain_fmt(lit!(".snap"), esc_fmt(ext));
    fmt_esc0(ext);
    assert(sprintf_0(x.skip(2)) == lit!(".snap") + ext);
    assert(sprintf_d(x, k) == itoa(k) + sprintf_0(x.skip(2)));
    assert(sprintf_d(r, k) == seq![r[0]] + sprintf_d(x, k));
    assert(sprintf_d(r, k) =~= lit!("_") + itoa(k) + lit!(".snap") + ext);
}
pub proof fn plain_fmt(a: Str, b: Str)
    requires forall|i: int| 0 <= i < a.len() ==> a[i] != 37
    ensures sprintf_0(a + b) == a + sprintf_0(b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(a + sprintf_0(b) =~= sprintf_0(b)); }
    else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        plain_fmt(a.skip(1), b);
        assert(seq![a[0]] + (a.skip(1) + sprintf_0(b)) =~= a + sprintf_0(b));
    }
}
// THEOREM [C11 C19] standalone snapshots with different ordinals lie in different files
pub proof fn thm_standalone_distinct(filename: Str, ext: Str, t: Str, k: int, j: int)
    requires k >= 0, j >= 0, sprintf_d(standalone_name(filename, ext, t), k) == sprintf_d(standalone_name(filename, ext, t), j)
    ensures k == j
{
    reveal(itoa);
    thm_standalone_name(filename, ext, t, k);
    thm_standalone_name(filename, ext, t, j);
    dec_digits(k);
    dec_digits(j);
    let s = stem(filename, t);
    let e = lit!(".snap") + ext;
    let x = s + (lit!("_") + itoa(k) + lit!(".snap") + ext);
    let y = s + (lit!("_") + itoa(j) + lit!(".snap") + ext);
    assert(x.take(x.len() - e.len()) =~= s.push(95) + itoa(k));
    assert(y.take(y.len() - e.len()) =~= s.push(95) + itoa(j));
    assert(x.len() == y.len());
    number_split(s, s, itoa(k), itoa(j), 95);
    itoa_injective(k, j);
}
// THEOREM [C11] the calling test file is the nearest caller in a test file: frames of helpers and other non-test sources in between, however many, change nothing
pub proof fn thm_test_file(a: Seq<T_Frame>, f: T_Frame, rest: Seq<T_Frame>, prev: Str)
    requires
        forall|i: int| 0 <= i < a.len() ==> lib_frame(#[trigger] a[i]),
        !(f.fun =~= lit!("testing.tRunner")), is_test_file(f.file),
    ensures test_file(a + (seq![f] + rest), prev) == f.file
    decreases a.len()
{
    let s = a + (seq![f] + rest);
    if a.len() == 0 { assert(s =~= seq![f] + rest); assert(s[0] == f); }
    else {
        assert(s.skip(1) =~= a.skip(1) + (seq![f] + rest));
        assert(s[0] == a[0]);
        assert(lib_frame(a[0]));
        assert forall|i: int| 0 <= i < a.skip(1).len() implies lib_frame(#[trigger] a.skip(1)[i]) by { assert(a.skip(1)[i] == a[i + 1]); }
        thm_test_file(a.skip(1), f, rest, a[0].file);
    }
}
