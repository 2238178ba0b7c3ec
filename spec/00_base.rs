pub type Str = Seq<int>;

pub struct T_Sink { pub out: Str }
pub struct T_Scanner { pub rest: Seq<Str>, pub cur: Str, pub max: int }
pub struct T_File { pub path: Str, pub pos: int, pub app: bool }
pub struct T_DirEnt { pub name: Str, pub isdir: bool }
pub struct T_T { pub name: Str }
pub struct T_Flag { pub Value_: Str }
pub struct T_Frame { pub file: Str, pub fun: Str }
pub struct T_Matcher { pub id: int }
pub struct T_GoDecl { pub isfunc: bool, pub Name_: Opq }
pub struct T_GoFile { pub Decls_: Seq<T_GoDecl> }
pub struct T_YFile { pub Docs_: Seq<Opq> }
pub struct Opq { pub id: int }

pub uninterp spec fn opq_nil() -> Opq;

// dynamic values: strings, byte slices, integers, booleans, errors made by the library, errors of the
// operating system, everything else
pub enum Any { Nil, S(Str), B(Str), I(int), Bo(bool), E(Str), OsErr(int), Other(int) }

pub open spec fn any_other(i: int) -> Any { Any::Other(i) }

// what is reported to the test
pub enum TEv { Error(Seq<Any>), Log(Seq<Any>), Skip(Seq<Any>) }
// a reset of a registry requested by a cleanup function
pub enum Reset { M(Str, Str), S(Str) }

// decimal notation
pub open spec fn dec(n: int) -> Str
    decreases n
{
    if n <= 0 { seq![48int] } else if n < 10 { seq![48 + n] } else { dec(n / 10).push(48 + n % 10) }
}
#[verifier::opaque]
pub open spec fn itoa(n: int) -> Str { if n < 0 { lit!("-") + dec(-n) } else { dec(n) } }
pub uninterp spec fn fmt_v(a: Any) -> Str;
pub uninterp spec fn fmt_s(a: Any) -> Str;
pub uninterp spec fn fmt_d(a: Any) -> Str;
pub uninterp spec fn fmt_q(a: Any) -> Str;
pub uninterp spec fn fmt_T(a: Any) -> Str;
pub uninterp spec fn fmt_x(a: Any) -> Str;
pub uninterp spec fn flag_value(name: Str) -> Str;
pub uninterp spec fn os_cwd() -> Str;
pub uninterp spec fn os_Getenv(n: Str) -> Str;
pub uninterp spec fn runtime_goroot() -> Str;
pub uninterp spec fn func_for_pc(i: int) -> Opq;
pub uninterp spec fn dir_entries(fs: Map<Str,Str>, dir: Str) -> Seq<T_DirEnt>;

pub open spec fn map_order<K, V>(m: Map<K, V>, o: Seq<K>) -> bool {
    &&& o.no_duplicates()
    &&& forall|k: K| o.contains(k) <==> m.dom().contains(k)
}
pub open spec fn map_len_ok<K, V>(m: Map<K, V>) -> bool {
    &&& m.dom().finite()
    &&& (m.len() == 0 <==> m =~= Map::<K, V>::empty())
}
pub open spec fn go_div(a: int, b: int) -> int {
    if b == 0 { 0 } else if (a >= 0) == (b > 0) { (if a >= 0 { a } else { -a }) / (if b > 0 { b } else { -b }) }
    else { -((if a >= 0 { a } else { -a }) / (if b > 0 { b } else { -b })) }
}
pub open spec fn go_rem(a: int, b: int) -> int { a - go_div(a, b) * b }

// ---- text

pub open spec fn NL() -> int { 10int }
pub open spec fn CR() -> int { 13int }

pub open spec fn nl_at(s: Str) -> int
    decreases s.len()
{
    if s.len() == 0 { -1 }
    else if s[0] == NL() { 0 }
    else { let r = nl_at(s.skip(1)); if r < 0 { -1 } else { r + 1 } }
}

pub open spec fn no_nl(s: Str) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != NL() }

pub open spec fn split_nl(s: Str) -> Seq<Str>
    decreases s.len()
{
    let i = nl_at(s);
    if i < 0 || i >= s.len() { seq![s] } else { seq![s.take(i)] + split_nl(s.skip(i + 1)) }
}

pub uninterp spec fn split_other(s: Str, sep: Str) -> Seq<Str>;
pub open spec fn strings_Split(s: Str, sep: Str) -> Seq<Str> {
    if sep =~= lit!("\n") { split_nl(s) } else { split_other(s, sep) }
}

pub open spec fn strings_Join(ss: Seq<Str>, sep: Str) -> Str
    decreases ss.len()
{
    if ss.len() == 0 { lit!("") } else if ss.len() == 1 { ss[0] } else { ss[0] + sep + strings_Join(ss.skip(1), sep) }
}

pub proof fn join_push(d: Seq<Str>, x: Str, sep: Str)
    ensures strings_Join(d.push(x), sep) =~= (if d.len() == 0 { x } else { strings_Join(d, sep) + sep + x })
    decreases d.len()
{
    reveal_with_fuel(strings_Join, 2);
    let e = d.push(x);
    if d.len() > 0 {
        assert(e.skip(1) =~= d.skip(1).push(x));
        join_push(d.skip(1), x, sep);
        assert(e[0] == d[0]);
        if d.len() > 1 {
            assert(strings_Join(d, sep) == d[0] + sep + strings_Join(d.skip(1), sep));
            assert(strings_Join(e, sep) == d[0] + sep + strings_Join(e.skip(1), sep));
        }
    }
}
pub open spec fn strings_HasPrefix(s: Str, p: Str) -> bool { s.len() >= p.len() && s.take(p.len() as int) =~= p }
pub open spec fn strings_HasSuffix(s: Str, p: Str) -> bool { s.len() >= p.len() && s.skip(s.len() - p.len()) =~= p }
pub open spec fn strings_CutPrefix_r0(s: Str, p: Str) -> Str { strings_TrimPrefix(s, p) }
pub open spec fn strings_CutPrefix_r1(s: Str, p: Str) -> bool { strings_HasPrefix(s, p) }
pub open spec fn strings_CutSuffix_r0(s: Str, p: Str) -> Str { strings_TrimSuffix(s, p) }
pub open spec fn strings_CutSuffix_r1(s: Str, p: Str) -> bool { strings_HasSuffix(s, p) }
pub open spec fn strings_Clone(s: Str) -> Str { s }
pub open spec fn slices_Contains<T>(s: Seq<T>, x: T) -> bool { s.contains(x) }
pub open spec fn strings_TrimSuffix(s: Str, p: Str) -> Str { if strings_HasSuffix(s, p) { s.take(s.len() - p.len()) } else { s } }
pub open spec fn strings_TrimPrefix(s: Str, p: Str) -> Str { if strings_HasPrefix(s, p) { s.skip(p.len() as int) } else { s } }

pub open spec fn all_in(s: Str, c: Str) -> bool { forall|i: int| 0 <= i < s.len() ==> c.contains(#[trigger] s[i]) }
// what a write of t at offset pos leaves in a file that held c
pub open spec fn write_at(c: Str, pos: int, t: Str) -> Str {
    c.take(pos) + t + (if pos + t.len() < c.len() { c.skip(pos + t.len()) } else { Seq::<int>::empty() })
}
