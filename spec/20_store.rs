// ---- the snapshot file as a sequence of lines

pub open spec fn strip_cr(l: Str) -> Str { if l.len() > 0 && l.last() == CR() { l.drop_last() } else { l } }

// what bufio.ScanLines yields
pub open spec fn lines(s: Str) -> Seq<Str>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else {
        let i = nl_at(s);
        if i < 0 || i >= s.len() { seq![strip_cr(s)] } else { seq![strip_cr(s.take(i))] + lines(s.skip(i + 1)) }
    }
}

pub open spec fn unlines(ls: Seq<Str>) -> Str
    decreases ls.len()
{
    if ls.len() == 0 { lit!("") } else { ls[0] + lit!("\n") + unlines(ls.skip(1)) }
}

pub open spec fn TERM() -> Str { lit!("---") }

pub open spec fn stays(ine: bool, l: Str) -> bool { (ine || l.len() > 0) && !(l =~= lit!("---")) }

// state after reading ls
pub open spec fn end_state(ls: Seq<Str>, ine: bool) -> bool
    decreases ls.len()
{
    if ls.len() == 0 { ine } else { end_state(ls.skip(1), stays(ine, ls[0])) }
}

pub open spec fn scan_body(acc: Str, ls: Seq<Str>) -> Option<Str>
    decreases ls.len()
{
    if ls.len() == 0 { None }
    else if ls[0] =~= lit!("---") { Some(acc) }
    else { scan_body(acc + ls[0] + lit!("\n"), ls.skip(1)) }
}

// first entry with the id: its body and the line number of its header
pub open spec fn find(ls: Seq<Str>, id: Str, ine: bool, n: int) -> Option<(Str, int)>
    decreases ls.len()
{
    if ls.len() == 0 { None }
    else if !ine && ls[0] =~= id {
        match scan_body(lit!(""), ls.skip(1)) {
            Some(b) => Some((strings_TrimSuffix(b, lit!("\n")), n)),
            None => None,
        }
    } else { find(ls.skip(1), id, stays(ine, ls[0]), n + 1) }
}

pub open spec fn after_term(ls: Seq<Str>) -> Seq<Str>
    decreases ls.len()
{
    if ls.len() == 0 { ls } else if ls[0] =~= lit!("---") { ls.skip(1) } else { after_term(ls.skip(1)) }
}
pub proof fn after_term_len(ls: Seq<Str>)
    ensures after_term(ls).len() <= ls.len()
    decreases ls.len()
{
    if ls.len() == 0 || ls[0] =~= lit!("---") {} else { after_term_len(ls.skip(1)); }
}

pub open spec fn rewrite(ls: Seq<Str>, id: Str, snap: Str, ine: bool) -> Str
    decreases ls.len() via rewrite_dec
{
    if ls.len() == 0 { lit!("") }
    else if !ine && ls[0] =~= id {
        ls[0] + lit!("\n") + snap + lit!("\n---\n") + rewrite(after_term(ls.skip(1)), id, snap, false)
    } else {
        ls[0] + lit!("\n") + rewrite(ls.skip(1), id, snap, stays(ine, ls[0]))
    }
}
#[via_fn]
proof fn rewrite_dec(ls: Seq<Str>, id: Str, snap: Str, ine: bool)
{
    if ls.len() > 0 { after_term_len(ls.skip(1)); }
}

pub open spec fn entry_text(id: Str, snap: Str) -> Str { lit!("\n") + id + lit!("\n") + snap + lit!("\n---\n") }

pub open spec fn content(fs: Map<Str, Str>, path: Str) -> Str { if fs.dom().contains(path) { fs[path] } else { lit!("") } }

// the snapshot stored under id in a file
pub open spec fn stored(fs: Map<Str, Str>, path: Str, id: Str) -> Option<(Str, int)> {
    if fs.dom().contains(path) { find(lines(fs[path]), id, false, 1) } else { None }
}
