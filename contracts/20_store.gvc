lock g_snaps__m
  guards: fs

func snaps.staysInEntry(inEntry, l) -> (r)
  props: C01 C03 C04
  returns: stays($inEntry, $l)

func snaps.removeSnapshot(s)
  props: C04 C10
  modifies: s
  ensures rest: $s.rest == after_term($old.s.rest)
  ensures max: $s.max == $old.s.max
  requires max: $s.max == 9223372036854775807
  loop 0:
    inv cont: after_term($s.rest) == after_term($pre.s.rest)
    inv max: $s.max == $pre.s.max

func snaps.getPrevSnapshot(testID, snapPath) -> (prev, line, err)
  props: C01 C02 C03 C04 C05 C06
  needlock: fs g_snaps__m
  acquires: g_snaps__m
  modifies: fs, slog
  ghost: slog = $old.slog.push(SEv::Read($snapPath, $testID, stored_text($acq.fs, $snapPath, $testID)))
  ensures unchanged: $fs == $acq.fs
  ensures logged: $slog == $old.slog.push(SEv::Read($snapPath, $testID, stored_text($acq.fs, $snapPath, $testID)))
  ensures read: stored_text($acq.fs, $snapPath, $testID) == (if $err == Any::Nil { Some($prev) } else { None })
  ensures found: $err == Any::Nil ==> stored($acq.fs, $snapPath, $testID) == Some(($prev, $line))
  ensures missing: $err != Any::Nil ==> $err == $snaps_errSnapNotFound && stored($acq.fs, $snapPath, $testID) is None
  loop 0:
    inv cont: find($s.rest, $testID, $inEntry, $lineNumber) == find($pre.s.rest, $testID, false, 1)
    inv max: $s.max == 9223372036854775807
  loop 1:
    inv cont: scan_body($snapshot.out, $s.rest) == scan_body(lit_empty(), $pre.s.rest)
    inv max: $s.max == 9223372036854775807

func snaps.addNewSnapshot(testID, snapshot, snapPath) -> (err)
  props: C01 C02 C03 C04 C05 C06
  needlock: fs g_snaps__m
  acquires: g_snaps__m
  modifies: fs, slog
  ghost: wcount = $old.wcount
  ghost: slog = $old.slog.push(SEv::Add($snapPath, $testID, $snapshot, $err == Any::Nil))
  ensures logged: $slog == $old.slog.push(SEv::Add($snapPath, $testID, $snapshot, $err == Any::Nil))
  ensures event: ev_ok($acq.fs, $slog.last()) && $fs =~= step($acq.fs, $slog.last())
  hint: assert($err == Any::Nil ==> $fs[$snapPath] =~= content($acq.fs, $snapPath) + entry_text($testID, $snapshot));
  ensures ok: $err == Any::Nil ==> $fs =~= $acq.fs.insert($snapPath, content($acq.fs, $snapPath) + entry_text($testID, $snapshot))
  ensures failed: $err != Any::Nil ==> $fs == $acq.fs && $err is OsErr

func snaps.updateSnapshot(testID, snapshot, snapPath) -> (err)
  props: C01 C02 C03 C04 C05 C06
  needlock: fs g_snaps__m
  acquires: g_snaps__m
  modifies: fs, slog
  ghost: wcount = $old.wcount
  ghost: slog = $old.slog.push(SEv::Upd($snapPath, $testID, $snapshot, $err == Any::Nil))
  ensures logged: $slog == $old.slog.push(SEv::Upd($snapPath, $testID, $snapshot, $err == Any::Nil))
  ensures event: ev_ok($acq.fs, $slog.last()) && $fs =~= step($acq.fs, $slog.last())
  ensures ok: $err == Any::Nil ==> $fs =~= $acq.fs.insert($snapPath, rewrite(lines($acq.fs[$snapPath]), $testID, $snapshot, false)) && $acq.fs.dom().contains($snapPath)
  ensures failed: $err != Any::Nil ==> $fs == $acq.fs && $err is OsErr
  loop 0:
    inv cont: $updatedSnapFile.out + rewrite($s.rest, $testID, $snapshot, $inEntry) =~= rewrite($pre.s.rest, $testID, $snapshot, false)
    inv max: $s.max == 9223372036854775807

global snaps_endSequenceByteSlice [* C01 C02 C03 C04]: $v =~= "---"
global snaps_errSnapNotFound [* C01 C02 C03 C04 C05]: $v is E

func snaps.getPrevStandaloneSnapshot(snapPath) -> (prev, err)
  props: C01 C02 C05 C19
  modifies: slog
  ghost: slog = $old.slog.push(SEv::SRead($snapPath, sread($old.fs, $snapPath)))
  ensures logged: $slog == $old.slog.push(SEv::SRead($snapPath, sread($old.fs, $snapPath)))
  ensures read: sread($old.fs, $snapPath) == (if $err == Any::Nil { Some($prev) } else { None })
  ensures missing: $err != Any::Nil ==> $err == $snaps_errSnapNotFound

func snaps.upsertStandaloneSnapshot(snapshot, snapPath) -> (err)
  props: C01 C02 C05 C19
  modifies: fs, slog
  ghost: wcount = $old.wcount
  ghost: slog = $old.slog.push(SEv::SPut($snapPath, $snapshot, $err == Any::Nil))
  ensures logged: $slog == $old.slog.push(SEv::SPut($snapPath, $snapshot, $err == Any::Nil))
  ensures event: $fs =~= step($old.fs, $slog.last())
  ensures failed: $err != Any::Nil ==> $err is OsErr
