macro upd(X): ($snaps_shouldClean && !$snaps_isCI)
macro cl(X): Cl { reg: $snaps_testsRegistry.addressed_, st: $snaps_standaloneTestsRegistry.addressed_, skipped: $snaps_skippedTests.values_, run: flag_value("test.run"), upd: @upd(x), sort: $opts.len() > 0 && $opts[0].Sort_ && !$snaps_isCI, ev: $snaps_testEvents.items_, style: @style(x) }

func snaps.Clean(m, opts) -> ()
  props: C05 C07 C08 C09 C10 C20
  single
  modifies: fs, wcount, stdout
  hint:
    let c = @cl(x);
    idle_quiet(px(c, $after_examineFiles.fs, $after_examineFiles.used), $after_examineFiles.used.len() as int);
    assert(px(c, $after_examineFiles.fs, $after_examineFiles.used) == Px { fs: $after_examineFiles.fs, reg: $snaps_testsRegistry.addressed_, count: 1, skipped: $snaps_skippedTests.values_, run: flag_value("test.run"), upd: @upd(x), sort: $opts.len() > 0 && $opts[0].Sort_ && !$snaps_isCI, used: $after_examineFiles.used });
  ensures cleaned: clean_done(@cl(x), $old.fs, $fs, $old.stdout, $stdout)
  ensures [C05 C09 C10] quiet: !@upd(x) && !($opts.len() > 0 && $opts[0].Sort_ && !$snaps_isCI) ==> $wcount == $old.wcount && $fs == $old.fs
  ensures [C05] ci: $snaps_isCI ==> $wcount == $old.wcount && $fs == $old.fs
