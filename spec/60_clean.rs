// ---- selection by -run and by skips

pub open spec fn last_at(s: Str, p: Str) -> int
    decreases s.len()
{
    if p.len() > s.len() { -1 }
    else if s.skip(s.len() - p.len()) =~= p { s.len() - p.len() }
    else if s.len() == 0 { -1 }
    else { last_at(s.drop_last(), p) }
}
pub open spec fn bytes_LastIndex(s: Str, p: Str) -> int { last_at(s, p) }
pub open spec fn strings_LastIndex(s: Str, p: Str) -> int { last_at(s, p) }
pub broadcast proof fn last_at_fits(s: Str, p: Str)
    ensures ({ let r = #[trigger] last_at(s, p); r == -1 || (0 <= r <= s.len() - p.len() && s.subrange(r, r + p.len()) =~= p) }),
    decreases s.len(),
{
    if p.len() > s.len() {}
    else if s.skip(s.len() - p.len()) =~= p { assert(s.subrange(s.len() - p.len(), s.len() as int) =~= p); }
    else if s.len() > 0 {
        last_at_fits(s.drop_last(), p);
        let r = last_at(s.drop_last(), p);
        if r != -1 { assert(s.subrange(r, r + p.len()) =~= s.drop_last().subrange(r, r + p.len())); }
    }
}

pub broadcast proof fn separator_fits(l: Str)
    ensures l.len() > 0 && l.last() == 93 ==> (#[trigger] last_at(l, lit!(" - ")) == -1 || last_at(l, lit!(" - ")) + 4 <= l.len()),
{
    last_at_fits(l, lit!(" - "));
    let r = last_at(l, lit!(" - "));
    if l.len() > 0 && l.last() == 93 && r != -1 && r + 3 == l.len() {
        assert(lit!(" - ")[2] == 32);
        assert(l.subrange(r, r + 3) =~= lit!(" - "));
        assert(l.subrange(r, r + 3)[2] == 32);
        assert(l[r + 2] == l.subrange(r, r + 3)[2]);
    }
}

pub open spec fn digits(s: Str) -> bool { forall|i: int| 0 <= i < s.len() ==> 48 <= #[trigger] s[i] <= 57 }
// the id of an entry: a line of the form [name - number]
pub open spec fn entry_id(l: Str) -> Option<Str> {
    if l.len() == 0 || l[0] != 91 || l.last() != 93 || last_at(l, lit!(" - ")) == -1 { None }
    else if !digits(l.subrange(last_at(l, lit!(" - ")) + 3, l.len() - 1)) { None }
    else { Some(l.subrange(1, l.len() - 1)) }
}
pub open spec fn test_of(id: Str) -> Str { if last_at(id, lit!(" - ")) == -1 { id } else { id.take(last_at(id, lit!(" - "))) } }

pub uninterp spec fn regexp_MatchString_r0(p: Str, s: Str) -> bool;
pub uninterp spec fn regexp_MatchString_r1(p: Str, s: Str) -> Any;
pub uninterp spec fn regexp_QuoteMeta(s: Str) -> Str;

// pieces of a pattern at the separators that are neither escaped nor inside brackets
pub open spec fn pieces(p: Str, sep: int, i: int, start: int, br: int, pa: int) -> Seq<Str>
    decreases (if p.len() > i { p.len() - i } else { 0 })
{
    if i >= p.len() || i < 0 { Seq::<Str>::empty().push(p.skip(start)) }
    else if p[i] == 91 { pieces(p, sep, i + 1, start, br + 1, pa) }
    else if p[i] == 93 { pieces(p, sep, i + 1, start, imax(br - 1, 0), pa) }
    else if p[i] == 40 { pieces(p, sep, i + 1, start, br, if br == 0 { pa + 1 } else { pa }) }
    else if p[i] == 41 { pieces(p, sep, i + 1, start, br, if br == 0 { pa - 1 } else { pa }) }
    else if p[i] == 92 { pieces(p, sep, i + 2, start, br, pa) }
    else if p[i] == sep && br == 0 && pa == 0 { Seq::<Str>::empty().push(p.subrange(start, i)) + pieces(p, sep, i + 1, i + 1, br, pa) }
    else { pieces(p, sep, i + 1, start, br, pa) }
}
pub open spec fn split_pattern(p: Str, sep: int) -> Seq<Str> { pieces(p, sep, 0, 0, 0, 0) }

pub open spec fn level_ok(levels: Seq<Str>, pats: Seq<Str>, i: int) -> bool {
    0 <= i < levels.len() && i < pats.len() ==> regexp_MatchString_r0(pats[i], levels[i])
}
pub open spec fn levels_match(levels: Seq<Str>, pats: Seq<Str>) -> bool {
    forall|i: int| #[trigger] level_ok(levels, pats, i)
}
pub open spec fn alt_ok(levels: Seq<Str>, alt: Str) -> bool { levels_match(levels, split_pattern(alt, 47)) }
pub open spec fn any_alt(levels: Seq<Str>, alts: Seq<Str>) -> bool {
    exists|i: int| 0 <= i < alts.len() && #[trigger] alt_ok(levels, alts[i])
}
// does -run select the test
pub open spec fn selected(name: Str, run: Str) -> bool {
    any_alt(strings_Split(name, lit!("/")), split_pattern(strings_ReplaceAll(run, lit!(" "), lit!("_")), 124))
}
// the test or one of its ancestors
pub open spec fn below(name: Str, anc: Str) -> bool { name =~= anc || strings_HasPrefix(name, anc + lit!("/")) }
pub open spec fn any_above(name: Str, skipped: Seq<Str>) -> bool {
    exists|i: int| 0 <= i < skipped.len() && #[trigger] below(name, skipped[i])
}
// an entry of a test that did not run
pub open spec fn protected(id: Str, skipped: Seq<Str>, run: Str) -> bool {
    any_above(test_of(id), skipped) || !selected(test_of(id), run)
}

// ---- occurrences

// a slot of the registry: the ordinals addressed in one run
pub open spec fn slot(tests: Map<Str, int>, count: int, t: Str, i: int) -> bool {
    tests.dom().contains(t) && (i == go_div(tests[t], count) || 1 <= i <= go_div(tests[t], count))
}
// f names the slots
pub open spec fn names_slots(r: Set<Str>, tests: Map<Str, int>, count: int, f: spec_fn(Str, int) -> Str) -> bool {
    &&& forall|t: Str, i: int| #[trigger] slot(tests, count, t, i) ==> r.contains(f(t, i))
    &&& forall|x: Str| #[trigger] r.contains(x) ==> exists|t: Str, i: int| #[trigger] slot(tests, count, t, i) && x == f(t, i)
}
pub open spec fn entry_name(t: Str, i: int) -> Str { t + lit!(" - ") + itoa(i) }

// ---- skips

pub open spec fn skip_pattern(name: Str) -> Str {
    lit!("^") + regexp_QuoteMeta(strings_ReplaceAll(name, lit!("/"), lit!("_")) + lit!("_")) + lit!("(.*_)?[0-9]+") + regexp_QuoteMeta(lit!(".snap"))
}
pub open spec fn standalone_of(name: Str, file: Str) -> bool { regexp_MatchString_r0(skip_pattern(name), file) }
pub open spec fn any_standalone(skipped: Seq<Str>, file: Str) -> bool {
    exists|i: int| 0 <= i < skipped.len() && #[trigger] standalone_of(skipped[i], file)
}
// AXIOM path.Join and filepath.Join agree (the separator is a slash)
pub open spec fn path_Join(p: Seq<Str>) -> Str { filepath_Join(p) }
pub open spec fn entry_protected(ls: Seq<Str>, skipped: Seq<Str>, run: Str) -> bool
    decreases ls.len() via entry_protected_dec
{
    if ls.len() == 0 { false }
    else {
        match entry_id(ls[0]) {
            None => entry_protected(ls.skip(1), skipped, run),
            Some(id) => protected(id, skipped, run) || entry_protected(after_term(ls.skip(1)), skipped, run),
        }
    }
}
#[via_fn]
proof fn entry_protected_dec(ls: Seq<Str>, skipped: Seq<Str>, run: Str) {
    if ls.len() > 0 { after_term_len(ls.skip(1)); }
}
pub open spec fn holds_protected(fs: Map<Str, Str>, dir: Str, file: Str, skipped: Seq<Str>, run: Str) -> bool {
    let p = path_Join(Seq::<Str>::empty().push(dir).push(file));
    any_standalone(skipped, file) || (fs.dom().contains(p) && entry_protected(lines(fs[p]), skipped, run))
}

pub uninterp spec fn natural_Less(a: Str, b: Str) -> bool;
pub open spec fn natural_order(a: Str, b: Str) -> int { if a =~= b { 0 } else if natural_Less(a, b) { -1 } else { 1 } }

// the functions a Go source declares, None when it is missing or does not parse
pub uninterp spec fn go_parses(src: Option<Str>) -> bool;
pub uninterp spec fn go_file(src: Option<Str>) -> T_GoFile;
pub uninterp spec fn ident_name(i: Opq) -> Str;
pub open spec fn decl_selected(d: T_GoDecl, run: Str) -> bool { d.isfunc && regexp_MatchString_r0(run, ident_name(d.Name_)) }
pub open spec fn none_selected(src: Option<Str>, run: Str) -> bool {
    !go_parses(src) || (forall|i: int| 0 <= i < go_file(src).Decls_.len() ==> !#[trigger] decl_selected(go_file(src).Decls_[i], run))
}
pub open spec fn source_of(dir: Str, file: Str) -> Str {
    path_Join(Seq::<Str>::empty().push(dir).push(lit!("..")).push(strings_TrimSuffix(file, lit!(".snap")) + lit!(".go")))
}
// a file of a test that did not run
pub open spec fn file_skipped(fs: Map<Str, Str>, dir: Str, file: Str, skipped: Seq<Str>, run: Str) -> bool {
    holds_protected(fs, dir, file, skipped, run) || (run.len() > 0 && none_selected(sread(fs, source_of(dir, file)), run))
}

// ---- the summary

pub open spec fn event_line(plain: bool, color: Str, symbol: Str, verb: Str, n: int) -> Str {
    if n == 0 { lit!("") }
    else { paint(plain, color, symbol + itoa(n) + lit!(" ") + (if n > 1 { lit!("snapshots") } else { lit!("snapshot") }) + lit!(" ") + verb + lit!("\n")) }
}

// the words and colours of the summary, read off the code
pub struct Style { pub plain: bool, pub white: Str, pub green: Str, pub red: Str, pub yellow: Str, pub dim: Str, pub arrow: Str, pub enter: Str, pub bullet: Str, pub ok: Str, pub bad: Str, pub upd: Str, pub skip: Str }
// one line for each of the items
pub open spec fn item_line(s: Style, item: Str) -> Str { paint(s.plain, s.dim, lit!("  ") + s.enter + lit!(" ") + s.bullet + item + lit!("\n")) }
pub open spec fn item_lines(s: Style, items: Seq<Str>) -> Str
    decreases items.len()
{
    if items.len() == 0 { lit!("") } else { item_lines(s, items.drop_last()) + item_line(s, items.last()) }
}
pub open spec fn item_head(s: Style, n: int, name: Str, clean: bool) -> Str {
    paint(s.plain, if clean { s.green } else { s.yellow }, lit!("\n") + s.arrow + itoa(n) + lit!(" snapshot ") + (if n > 1 { name + lit!("s") } else { name }) + lit!(" ") + (if clean { lit!("removed") } else { lit!("obsolete") }) + lit!("\n"))
}
pub open spec fn item_list(s: Style, items: Seq<Str>, name: Str, clean: bool) -> Str {
    if items.len() == 0 { lit!("") } else { item_head(s, items.len() as int, name, clean) + item_lines(s, items) }
}
pub open spec fn summary_text(s: Style, files: Seq<Str>, tests: Seq<Str>, skips: int, ev: Map<int, int>, clean: bool) -> Str {
    lit!("\n") + paint(s.plain, s.white, lit!("Snapshot Summary")) + lit!("\n\n")
        + event_line(s.plain, s.green, s.ok, lit!("passed"), icnt(ev, 3))
        + event_line(s.plain, s.red, s.bad, lit!("failed"), icnt(ev, 0))
        + event_line(s.plain, s.green, s.upd, lit!("added"), icnt(ev, 1))
        + event_line(s.plain, s.green, s.upd, lit!("updated"), icnt(ev, 2))
        + event_line(s.plain, s.yellow, s.skip, lit!("skipped"), skips)
        + item_list(s, files, lit!("file"), clean)
        + item_list(s, tests, lit!("test"), clean)
        + (if !clean && files.len() + tests.len() > 0 { paint(s.plain, s.dim, if files.len() + tests.len() > 1 { lit!("\nTo remove them, re-run tests with `UPDATE_SNAPS=clean go test ./...`\n") } else { lit!("\nTo remove it, re-run tests with `UPDATE_SNAPS=clean go test ./...`\n") }) } else { lit!("") })
}
