// FOR C01 C02 C03 C04 C05 C06 C18 C19 C20
// ---- one call

pub open spec fn run(fs: Map<Str, Str>, h: Seq<SEv>) -> Map<Str, Str>
    decreases h.len()
{
    if h.len() == 0 { fs } else { step(run(fs, h.drop_last()), h.last()) }
}
pub open spec fn failed_call(e0: Str, e1: Str) -> bool { e1 == e0.push(0) }
pub open spec fn writes(e: SEv) -> bool { match e { SEv::Add(p, i, t, ok) => ok, SEv::Upd(p, i, t, ok) => ok, SEv::SPut(p, t, ok) => ok, _ => false } }
pub open spec fn no_writes(h: Seq<SEv>) -> bool { forall|i: int| 0 <= i < h.len() ==> !writes(#[trigger] h[i]) }
pub open spec fn call_evs(s0: Seq<SEv>, s1: Seq<SEv>) -> Seq<SEv> { s1.skip(s0.len() as int) }
// what the lookup of the call found
pub open spec fn found(s0: Seq<SEv>, s1: Seq<SEv>) -> Option<Str> { match s1[s0.len() as int + 1] { SEv::Read(p, id, r) => r, SEv::SRead(p, r) => r, _ => None } }
pub open spec fn ordinal(s0: Seq<SEv>, s1: Seq<SEv>) -> int { match s1[s0.len() as int] { SEv::Id(p, n, k) => k, SEv::SId(p, k) => k, _ => 0 } }

pub proof fn no_writes_run(fs: Map<Str, Str>, h: Seq<SEv>)
    requires no_writes(h)
    ensures run(fs, h) == fs
    decreases h.len()
{
    if h.len() > 0 {
        let g = h.drop_last();
        assert forall|i: int| 0 <= i < g.len() implies !writes(#[trigger] g[i]) by { assert(g[i] == h[i]); }
        no_writes_run(fs, g);
        assert(!writes(h[h.len() - 1]));
    }
}
pub proof fn tail3(s0: Seq<SEv>, a: SEv, b: SEv, c: SEv)
    ensures
        s0.push(a).push(b).skip(s0.len() as int) =~= Seq::<SEv>::empty().push(a).push(b),
        s0.push(a).push(b).push(c).skip(s0.len() as int) =~= Seq::<SEv>::empty().push(a).push(b).push(c),
{
}
// ---- permissions

// THEOREM [C05] the mode table: on CI nothing is written and a missing snapshot is one error; Update(false) forbids creation and rewriting; without the option only UPDATE_SNAPS=true allows rewriting
pub proof fn thm_modes(m: Mode, g: Msgs, path: Str, name: Str, text: Str, esc: bool, s0: Seq<SEv>, s1: Seq<SEv>, l0: Seq<TEv>, l1: Seq<TEv>, e0: Str, e1: Str, fs: Map<Str, Str>)
    requires shared_call(m, g, path, name, text, esc, s0, s1, l0, l1, e0, e1)
    ensures
        m.ci || m.upd == Some(false) ==> no_writes(call_evs(s0, s1)) && run(fs, call_evs(s0, s1)) == fs,
        (m.ci || m.upd == Some(false)) && found(s0, s1) is None ==> refused(g.nf, l0, l1, e0, e1),
        !m.ci && m.upd is None && found(s0, s1) is Some && m.env != lit!("true") ==> no_writes(call_evs(s0, s1)),
        !m.ci && (m.upd == Some(true) || m.upd is None) && found(s0, s1) is None ==> s1.len() == s0.len() + 3 && (s1.last() is Add),
        !m.ci && (m.upd == Some(true) || (m.upd is None && m.env == lit!("true"))) && found(s0, s1) is Some && !same_text(esc, found(s0, s1).unwrap(), text) ==> s1.len() == s0.len() + 3 && (s1.last() is Upd),
{
    let n = s0.len() as int;
    let c = if s1.len() > n + 2 { s1[n + 2] } else { s1[n] };
    tail3(s0, s1[n], s1[n + 1], c);
    if no_writes(call_evs(s0, s1)) { no_writes_run(fs, call_evs(s0, s1)); }
}
// THEOREM [C05] the mode table for standalone snapshots
pub proof fn thm_standalone_modes(m: Mode, g: Msgs, path: Str, text: Str, s0: Seq<SEv>, s1: Seq<SEv>, l0: Seq<TEv>, l1: Seq<TEv>, e0: Str, e1: Str, fs: Map<Str, Str>)
    requires standalone_call(m, g, path, text, s0, s1, l0, l1, e0, e1)
    ensures
        m.ci || m.upd == Some(false) ==> no_writes(call_evs(s0, s1)) && run(fs, call_evs(s0, s1)) == fs,
        (m.ci || m.upd == Some(false)) && found(s0, s1) is None ==> refused(g.nf, l0, l1, e0, e1),
        !m.ci && m.upd is None && found(s0, s1) is Some && m.env != lit!("true") ==> no_writes(call_evs(s0, s1)),
        !m.ci && (m.upd == Some(true) || m.upd is None) && found(s0, s1) is None ==> s1.len() == s0.len() + 3 && (s1.last() is SPut),
        !m.ci && (m.upd == Some(true) || (m.upd is None && m.env == lit!("true"))) && found(s0, s1) is Some && found(s0, s1) != Some(text) ==> s1.len() == s0.len() + 3 && (s1.last() is SPut),
{
    let n = s0.len() as int;
    let c = if s1.len() > n + 2 { s1[n + 2] } else { s1[n] };
    tail3(s0, s1[n], s1[n + 1], c);
    if no_writes(call_evs(s0, s1)) { no_writes_run(fs, call_evs(s0, s1)); }
}

// ---- outcomes

// exactly one outcome, signalled as it should be: 0 failed, 1 added, 2 updated, 3 passed
pub open spec fn outcome(g: Msgs, kind: int, l0: Seq<TEv>, l1: Seq<TEv>, e0: Str, e1: Str) -> bool {
    &&& e1 == e0.push(kind)
    &&& 0 <= kind <= 3
    &&& kind == 0 ==> one_error(l0, l1)
    &&& kind == 1 ==> l1 == l0.push(TEv::Log(any1(Any::S(g.added))))
    &&& kind == 2 ==> l1 == l0.push(TEv::Log(any1(Any::S(g.updated))))
    &&& kind == 3 ==> l1 == l0
}
pub proof fn outcome_unique(g: Msgs, a: int, b: int, l0: Seq<TEv>, l1: Seq<TEv>, e0: Str, e1: Str)
    requires outcome(g, a, l0, l1, e0, e1), outcome(g, b, l0, l1, e0, e1)
    ensures a == b
{
    assert(e0.push(a)[e0.len() as int] == a);
    assert(e0.push(b)[e0.len() as int] == b);
}
// THEOREM [C20] a call ends in exactly one of failed, added, updated and passed, and tells the test exactly that
pub proof fn thm_one_outcome(m: Mode, g: Msgs, path: Str, name: Str, text: Str, esc: bool, s0: Seq<SEv>, s1: Seq<SEv>, l0: Seq<TEv>, l1: Seq<TEv>, e0: Str, e1: Str)
    requires shared_call(m, g, path, name, text, esc, s0, s1, l0, l1, e0, e1), g.nf != Any::Nil
    ensures exists|k: int| 0 <= k <= 3 && #[trigger] outcome(g, k, l0, l1, e0, e1) && forall|j: int| #[trigger] outcome(g, j, l0, l1, e0, e1) ==> j == k
{
    let n = s0.len() as int;
    let k = if outcome(g, 0, l0, l1, e0, e1) { 0int } else if outcome(g, 1, l0, l1, e0, e1) { 1 } else if outcome(g, 2, l0, l1, e0, e1) { 2 } else { 3 };
    if refused(g.nf, l0, l1, e0, e1) { assert(l1.last() == TEv::Error(any1(g.nf))); assert(outcome(g, 0, l0, l1, e0, e1)); }
    assert(outcome(g, k, l0, l1, e0, e1));
    assert forall|j: int| #[trigger] outcome(g, j, l0, l1, e0, e1) implies j == k by { outcome_unique(g, j, k, l0, l1, e0, e1); }
}
// THEOREM [C20] so does a call for a standalone snapshot
pub proof fn thm_one_outcome_standalone(m: Mode, g: Msgs, path: Str, text: Str, s0: Seq<SEv>, s1: Seq<SEv>, l0: Seq<TEv>, l1: Seq<TEv>, e0: Str, e1: Str)
    requires standalone_call(m, g, path, text, s0, s1, l0, l1, e0, e1), g.nf != Any::Nil
    ensures exists|k: int| 0 <= k <= 3 && #[trigger] outcome(g, k, l0, l1, e0, e1) && forall|j: int| #[trigger] outcome(g, j, l0, l1, e0, e1) ==> j == k
{
    let k = if outcome(g, 0, l0, l1, e0, e1) { 0int } else if outcome(g, 1, l0, l1, e0, e1) { 1 } else if outcome(g, 2, l0, l1, e0, e1) { 2 } else { 3 };
    if refused(g.nf, l0, l1, e0, e1) { assert(l1.last() == TEv::Error(any1(g.nf))); assert(outcome(g, 0, l0, l1, e0, e1)); }
    assert(outcome(g, k, l0, l1, e0, e1));
    assert forall|j: int| #[trigger] outcome(g, j, l0, l1, e0, e1) implies j == k by { outcome_unique(g, j, k, l0, l1, e0, e1); }
}

// ---- standalone snapshots

// THEOREM [C01 C19] a standalone snapshot file holds the text it was given and nothing else, whatever the text; a call with that text passes and writes nothing, one with another text does not pass
pub proof fn thm_standalone(m: Mode, g: Msgs, path: Str, text: Str, s0: Seq<SEv>, s1: Seq<SEv>, l0: Seq<TEv>, l1: Seq<TEv>, e0: Str, e1: Str, fs: Map<Str, Str>, prev: Str)
    requires standalone_call(m, g, path, text, s0, s1, l0, l1, e0, e1), found(s0, s1) == sread(fs, sprintf_d(path, ordinal(s0, s1)))
    ensures
        !failed_call(e0, e1) ==> run(fs, call_evs(s0, s1)) == fs.insert(sprintf_d(path, ordinal(s0, s1)), text),
        failed_call(e0, e1) ==> run(fs, call_evs(s0, s1)) == fs,
        found(s0, s1) == Some(text) ==> passes(l0, l1, e0, e1) && no_writes(call_evs(s0, s1)),
        passes(l0, l1, e0, e1) ==> found(s0, s1) == Some(text),
{
    let n = s0.len() as int;
    let c = if s1.len() > n + 2 { s1[n + 2] } else { s1[n] };
    let e = Seq::<SEv>::empty();
    tail3(s0, s1[n], s1[n + 1], c);
    reveal_with_fuel(run, 4);
    assert(e.push(s1[n]).drop_last() =~= e);
    assert(e.push(s1[n]).push(s1[n + 1]).drop_last() =~= e.push(s1[n]));
    assert(e.push(s1[n]).push(s1[n + 1]).push(c).drop_last() =~= e.push(s1[n]).push(s1[n + 1]));
    assert(e0.push(0)[e0.len() as int] == 0);
    assert(e0.push(1)[e0.len() as int] == 1);
    assert(e0.push(2)[e0.len() as int] == 2);
    assert(e0.push(3)[e0.len() as int] == 3);
    let p = sprintf_d(path, ordinal(s0, s1));
    if fs.dom().contains(p) && fs[p] == text { assert(fs.insert(p, text) =~= fs); }
}
