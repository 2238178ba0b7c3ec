// ---- what happens to the stored snapshots, one event per operation

// an operation on the store: allocation of an ordinal, lookup, addition, rewrite; the S events are
// those of standalone snapshots
pub enum SEv {
    Id(Str, Str, int),               // path, test name, ordinal
    Read(Str, Str, Option<Str>),     // path, id, stored text
    Add(Str, Str, Str, bool),        // path, id, text, ok
    Upd(Str, Str, Str, bool),
    SId(Str, int),                   // generic path, ordinal
    SRead(Str, Option<Str>),
    SPut(Str, Str, bool),
}

pub open spec fn stored_text(fs: Map<Str, Str>, path: Str, id: Str) -> Option<Str> {
    match stored(fs, path, id) { Some(r) => Some(r.0), None => None }
}
pub open spec fn sread(fs: Map<Str, Str>, path: Str) -> Option<Str> { if fs.dom().contains(path) { Some(fs[path]) } else { None } }

// the effect of an event on the files
pub open spec fn step(fs: Map<Str, Str>, e: SEv) -> Map<Str, Str> {
    match e {
        SEv::Add(p, id, t, true) => fs.insert(p, content(fs, p) + entry_text(id, t)),
        SEv::Upd(p, id, t, true) => fs.insert(p, rewrite(lines(fs[p]), id, t, false)),
        SEv::SPut(p, t, true) => fs.insert(p, t),
        _ => fs,
    }
}
// what an event says of the files it found
pub open spec fn ev_ok(fs: Map<Str, Str>, e: SEv) -> bool {
    match e {
        SEv::Read(p, id, r) => r == stored_text(fs, p, id),
        SEv::SRead(p, r) => r == sread(fs, p),
        SEv::Upd(p, id, t, true) => fs.dom().contains(p),
        _ => true,
    }
}

// ---- locations

pub uninterp spec fn filepath_Base(p: Str) -> Str;
pub uninterp spec fn filepath_Ext(p: Str) -> Str;
pub uninterp spec fn filepath_Dir(p: Str) -> Str;
pub uninterp spec fn filepath_IsAbs(p: Str) -> bool;
pub uninterp spec fn filepath_Join(p: Seq<Str>) -> Str;
pub uninterp spec fn filepath_Rel_r0(a: Str, b: Str) -> Str;
pub uninterp spec fn filepath_Rel_r1(a: Str, b: Str) -> Any;

// frames of the library itself
pub open spec fn lib_frame(f: T_Frame) -> bool {
    !(f.fun =~= lit!("testing.tRunner")) && !is_test_file(f.file)
}
pub open spec fn is_test_file(f: Str) -> bool { strings_HasSuffix(filepath_Base(f), lit!("_test.go")) }

pub broadcast proof fn skip_skip(s: Seq<T_Frame>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len(),
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b),
{
    assert(s.skip(a).skip(b) =~= s.skip(a + b));
}

// the test file among the callers: the nearest frame in a test file, else the outermost below the runner
pub open spec fn test_file(s: Seq<T_Frame>, prev: Str) -> Str
    decreases s.len()
{
    if s.len() == 0 { prev }
    else if s[0].fun =~= lit!("testing.tRunner") { prev }
    else if is_test_file(s[0].file) { s[0].file }
    else { test_file(s.skip(1), s[0].file) }
}

pub open spec fn replace_byte(s: Str, c: int, n: Str) -> Str
    decreases s.len()
{
    if s.len() == 0 { lit!("") } else { (if s[0] == c { n } else { seq![s[0]] }) + replace_byte(s.skip(1), c, n) }
}
pub uninterp spec fn replace_other(s: Str, o: Str, n: Str) -> Str;
pub open spec fn strings_ReplaceAll(s: Str, o: Str, n: Str) -> Str {
    if o.len() == 1 { replace_byte(s, o[0], n) } else { replace_other(s, o, n) }
}
pub open spec fn esc_fmt(s: Str) -> Str { strings_ReplaceAll(s, lit!("%"), lit!("%%")) }

pub open spec fn file_stem(caller: Str) -> Str {
    strings_TrimSuffix(filepath_Base(caller), filepath_Ext(filepath_Base(caller)))
}
pub open spec fn shared_name(filename: Str, ext: Str, caller: Str) -> Str {
    (if filename.len() == 0 { file_stem(caller) } else { filename }) + lit!(".snap") + ext
}
pub open spec fn standalone_name(filename: Str, ext: Str, t: Str) -> Str {
    esc_fmt(if filename.len() == 0 { strings_ReplaceAll(t, lit!("/"), lit!("_")) } else { filename }) + lit!("_%d") + lit!(".snap") + esc_fmt(ext)
}
pub open spec fn caller_dir(trim: bool, start: Str, caller: Str) -> Str { if trim { start } else { filepath_Dir(caller) } }
pub open spec fn snaps_dir(dir: Str, cdir: Str) -> Str { if filepath_IsAbs(dir) { dir } else { filepath_Join(Seq::<Str>::empty().push(cdir).push(dir)) } }

pub open spec fn shared_path(filename: Str, dir: Str, ext: Str, trim: bool, start: Str, caller: Str) -> Str {
    filepath_Join(Seq::<Str>::empty().push(snaps_dir(dir, caller_dir(trim, start, caller))).push(shared_name(filename, ext, caller)))
}
// a path with one verb for the ordinal
pub open spec fn standalone_path(filename: Str, dir: Str, ext: Str, trim: bool, start: Str, caller: Str, t: Str) -> Str {
    filepath_Join(Seq::<Str>::empty().push(esc_fmt(snaps_dir(dir, caller_dir(trim, start, caller)))).push(standalone_name(filename, ext, t)))
}

// Sprintf with the ordinal as the only argument: %% is a percent sign, %d the ordinal; other verbs,
// a missing and a second %d are left open
pub uninterp spec fn sprintf_bad(f: Str, k: int) -> Str;
pub open spec fn sprintf_d(f: Str, k: int) -> Str
    decreases f.len()
{
    if f.len() == 0 { sprintf_bad(f, k) }
    else if f[0] != 37 { seq![f[0]] + sprintf_d(f.skip(1), k) }
    else if f.len() > 1 && f[1] == 37 { lit!("%") + sprintf_d(f.skip(2), k) }
    else if f.len() > 1 && f[1] == 100 { itoa(k) + sprintf_0(f.skip(2)) }
    else { sprintf_bad(f, k) }
}
pub open spec fn sprintf_0(f: Str) -> Str
    decreases f.len()
{
    if f.len() == 0 { lit!("") }
    else if f[0] != 37 { seq![f[0]] + sprintf_0(f.skip(1)) }
    else if f.len() > 1 && f[1] == 37 { lit!("%") + sprintf_0(f.skip(2)) }
    else { sprintf_bad(f, 0) }
}

// ---- registries

pub open spec fn cnt(m: Map<Str, Map<Str, int>>, p: Str, n: Str) -> int {
    if m.dom().contains(p) && m[p].dom().contains(n) { m[p][n] } else { 0 }
}
pub broadcast proof fn cnt_insert(m: Map<Str, Map<Str, int>>, p: Str, mm: Map<Str, int>, q: Str, n: Str)
    ensures
        #[trigger] cnt(m.insert(p, mm), q, n) == (if q == p { cnt1(mm, n) } else { cnt(m, q, n) }),
        cnt(m, q, n) == (if m.dom().contains(q) { cnt1(m[q], n) } else { 0 }),
{
}
pub broadcast proof fn cnt1_insert(m: Map<Str, int>, p: Str, v: int, q: Str)
    ensures #[trigger] cnt1(m.insert(p, v), q) == (if q == p { v } else { cnt1(m, q) }),
{
}
pub open spec fn put(m: Map<Str, Map<Str, int>>, p: Str, n: Str, k: int) -> Map<Str, Map<Str, int>> {
    m.insert(p, (if m.dom().contains(p) { m[p] } else { Map::empty() }).insert(n, k))
}
pub open spec fn reg_inv(run: Map<Str, Map<Str, int>>, cl: Map<Str, Map<Str, int>>, adr: Map<Str, Map<Str, int>>) -> bool {
    &&& run.dom() =~= cl.dom()
    &&& run.dom() =~= adr.dom()
    &&& forall|p: Str, n: Str| 0 <= #[trigger] cnt(run, p, n) <= cnt(adr, p, n)
}
pub open spec fn cnt1(m: Map<Str, int>, p: Str) -> int { if m.dom().contains(p) { m[p] } else { 0 } }
pub open spec fn sreg_inv(run: Map<Str, int>, adr: Map<Str, int>) -> bool {
    forall|p: Str| 0 <= #[trigger] cnt1(run, p) <= cnt1(adr, p)
}
pub open spec fn test_id(n: Str, k: int) -> Str { lit!("[") + n + lit!(" - ") + itoa(k) + lit!("]") }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }

// ---- gates

pub open spec fn may_create(ci: bool, u: Option<bool>) -> bool { if ci { false } else { match u { Some(b) => b, None => true } } }
pub open spec fn may_update(ci: bool, u: Option<bool>, env: Str) -> bool { if ci { false } else { match u { Some(b) => b, None => env =~= lit!("true") } } }
pub open spec fn icnt(m: Map<int, int>, k: int) -> int { if m.dom().contains(k) { m[k] } else { 0 } }
pub open spec fn paint(plain: bool, color: Str, s: Str) -> Str { if plain { s } else { color + s + lit!("\x1b[0m") } }
