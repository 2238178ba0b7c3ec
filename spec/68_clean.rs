// what Clean works on
pub struct Cl { pub reg: Map<Str, Map<Str, int>>, pub st: Map<Str, int>, pub skipped: Seq<Str>, pub run: Str, pub upd: bool, pub sort: bool, pub ev: Map<int, int>, pub style: Style }
pub open spec fn standalone_files(st: Set<Str>, addressed: Map<Str, int>) -> bool {
    forall|x: Str| #[trigger] st.contains(x) <==> exists|t: Str, i: int| #[trigger] slot(addressed, 1, t, i) && x == sprintf_d(t, i)
}
pub open spec fn px(c: Cl, fs: Map<Str, Str>, used: Seq<Str>) -> Px { Px { fs, reg: c.reg, count: 1, skipped: c.skipped, run: c.run, upd: c.upd, sort: c.sort, used } }
pub open spec fn printed(s: Str) -> Str { if s.len() == 0 { s } else { s + lit!("\n") } }
pub open spec fn summary_of(c: Cl, files: Seq<Str>, tests: Seq<Str>) -> Str {
    if files.len() == 0 && tests.len() == 0 && c.ev.dom().len() == 0 && c.skipped.len() == 0 { lit!("") }
    else { summary_text(c.style, files, tests, c.skipped.len() as int, c.ev, c.upd) }
}
// what follows when the obsolete files obs are gone, used are the addressed files that are there
pub open spec fn entries_done(c: Cl, x: Px, obs: Seq<Str>, fs2: Map<Str, Str>, o1: Str, o2: Str) -> bool {
    ||| fs2 == pruned(x, x.used.len() as int) && o2 =~= o1 + printed(summary_of(c, obs, pruned_ids(x, x.used.len() as int)))
    ||| partly_pruned(x, fs2)
}
// one run of Clean from the files fs0 to fs2; st are the standalone files addressed
pub open spec fn clean_done(c: Cl, fs0: Map<Str, Str>, fs2: Map<Str, Str>, o0: Str, o2: Str) -> bool {
    exists|st: Set<Str>, obs: Seq<Str>, used: Seq<Str>, fs1: Map<Str, Str>, o1: Str|
        #[trigger] files_found(fs0, c.reg.dom(), st, c.skipped, c.run, fs1, c.upd, obs, used, o0, o1)
        && standalone_files(st, c.st) && entries_done(c, px(c, fs1, used), obs, fs2, o1, o2)
}
