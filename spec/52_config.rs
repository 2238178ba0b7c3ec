// FOR C12 C19
pub open spec fn default_config() -> T_snaps_Config {
    T_snaps_Config { filename_: Seq::<int>::empty(), snapsDir_: lit!("__snapshots__"), extension_: Seq::<int>::empty(), update_: None, json_: None }
}
pub open spec fn opt_update(u: bool) -> spec_fn(T_snaps_Config) -> T_snaps_Config { |c: T_snaps_Config| T_snaps_Config { update_: Some(u), ..c } }
pub open spec fn opt_filename(n: Str) -> spec_fn(T_snaps_Config) -> T_snaps_Config { |c: T_snaps_Config| T_snaps_Config { filename_: n, ..c } }
pub open spec fn opt_dir(d: Str) -> spec_fn(T_snaps_Config) -> T_snaps_Config { |c: T_snaps_Config| T_snaps_Config { snapsDir_: d, ..c } }
pub open spec fn opt_ext(x: Str) -> spec_fn(T_snaps_Config) -> T_snaps_Config { |c: T_snaps_Config| T_snaps_Config { extension_: x, ..c } }
pub open spec fn opt_json(j: T_snaps_JSONConfig) -> spec_fn(T_snaps_Config) -> T_snaps_Config { |c: T_snaps_Config| T_snaps_Config { json_: Some(j), ..c } }
// what the options, applied in order, make of a config
pub open spec fn built(c: T_snaps_Config, opts: Seq<spec_fn(T_snaps_Config) -> T_snaps_Config>) -> T_snaps_Config
    decreases opts.len()
{
    if opts.len() == 0 { c } else { (opts.last())(built(c, opts.drop_last())) }
}
pub proof fn built_next(c: T_snaps_Config, opts: Seq<spec_fn(T_snaps_Config) -> T_snaps_Config>, n: int)
    ensures 0 <= n < opts.len() ==> built(c, opts.take(n + 1)) == (opts[n])(built(c, opts.take(n)))
{
    if 0 <= n < opts.len() {
        assert(opts.take(n + 1).drop_last() =~= opts.take(n));
    }
}

// ---- options, by the field they set
pub enum Opt { U(bool), F(Str), D(Str), X(Str), J(T_snaps_JSONConfig) }
pub open spec fn change(o: Opt) -> spec_fn(T_snaps_Config) -> T_snaps_Config {
    match o { Opt::U(u) => opt_update(u), Opt::F(n) => opt_filename(n), Opt::D(d) => opt_dir(d), Opt::X(x) => opt_ext(x), Opt::J(j) => opt_json(j) }
}
pub open spec fn opt_changes(os: Seq<Opt>) -> Seq<spec_fn(T_snaps_Config) -> T_snaps_Config> { Seq::new(os.len(), |i: int| change(os[i])) }
// of each field, the last option that sets it, else the default
pub open spec fn last_update(os: Seq<Opt>) -> Option<bool> decreases os.len() { if os.len() == 0 { None } else if os.last() is U { Some(os.last()->U_0) } else { last_update(os.drop_last()) } }
pub open spec fn last_filename(os: Seq<Opt>) -> Str decreases os.len() { if os.len() == 0 { Seq::<int>::empty() } else if os.last() is F { os.last()->F_0 } else { last_filename(os.drop_last()) } }
pub open spec fn last_dir(os: Seq<Opt>) -> Str decreases os.len() { if os.len() == 0 { lit!("__snapshots__") } else if os.last() is D { os.last()->D_0 } else { last_dir(os.drop_last()) } }
pub open spec fn last_ext(os: Seq<Opt>) -> Str decreases os.len() { if os.len() == 0 { Seq::<int>::empty() } else if os.last() is X { os.last()->X_0 } else { last_ext(os.drop_last()) } }
pub open spec fn last_json(os: Seq<Opt>) -> Option<T_snaps_JSONConfig> decreases os.len() { if os.len() == 0 { None } else if os.last() is J { Some(os.last()->J_0) } else { last_json(os.drop_last()) } }

// THEOREM [C12] a config says what its options say: of each field the last option that sets it, else the default; nothing else enters into it
pub proof fn thm_config(os: Seq<Opt>)
    ensures built(default_config(), opt_changes(os)) == (T_snaps_Config { filename_: last_filename(os), snapsDir_: last_dir(os), extension_: last_ext(os), update_: last_update(os), json_: last_json(os) })
    decreases os.len()
{
    if os.len() > 0 {
        thm_config(os.drop_last());
        assert(opt_changes(os).drop_last() =~= opt_changes(os.drop_last()));
        assert(opt_changes(os).last() == change(os.last()));
    }
}
