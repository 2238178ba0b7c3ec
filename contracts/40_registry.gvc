lock T_snaps_syncRegistry
  guards: running, cleanup, addressed
  inv counts: reg_inv($o.running_, $o.cleanup_, $o.addressed_)

lock T_snaps_syncStandaloneRegistry
  guards: running, cleanup, addressed
  inv counts: sreg_inv($o.running_, $o.addressed_)

lock T_snaps_events
  guards: items

lock T_snaps_syncSlice
  guards: values

func snaps.(syncRegistry).getTestID(s, snapPath, testName) -> (id)
  props: C01 C03 C06 C07
  shared
  acquires: T_snaps_syncRegistry
  modifies: s.running_, s.cleanup_, s.addressed_, slog
  ghost: slog = $old.slog.push(SEv::Id($snapPath, $testName, cnt($acq.s.running_, $snapPath, $testName) + 1))
  ensures id: $id == test_id($testName, cnt($acq.s.running_, $snapPath, $testName) + 1)
  ensures running: cnt($s.running_, $snapPath, $testName) == cnt($acq.s.running_, $snapPath, $testName) + 1
  ensures addressed: cnt($s.addressed_, $snapPath, $testName) == imax(cnt($acq.s.addressed_, $snapPath, $testName), cnt($acq.s.running_, $snapPath, $testName) + 1)
  ensures others: forall|p: Str, n: Str| p != $snapPath || n != $testName ==> #[trigger] cnt($s.running_, p, n) == cnt($acq.s.running_, p, n) && cnt($s.addressed_, p, n) == cnt($acq.s.addressed_, p, n)
  ensures dom: $s.running_.dom() =~= $acq.s.running_.dom().insert($snapPath)
  ensures known: $s.addressed_.dom() =~= $acq.s.addressed_.dom().insert($snapPath)

func snaps.(syncRegistry).reset(s, snapPath, testName) -> ()
  props: C01 C03 C06 C07
  shared
  acquires: T_snaps_syncRegistry
  requires known: $s.running_.dom().contains($snapPath)
  rely grows: forall|p: Str| $bef.s.running_.dom().contains(p) ==> #[trigger] $s.running_.dom().contains(p)
  modifies: s.running_, s.cleanup_, s.addressed_, rlog
  ghost: rlog = $old.rlog.push(Reset::M($snapPath, $testName))
  ensures reset: cnt($s.running_, $snapPath, $testName) == 0
  ensures others: forall|p: Str, n: Str| p != $snapPath || n != $testName ==> #[trigger] cnt($s.running_, p, n) == cnt($acq.s.running_, p, n)
  ensures dom: $s.running_.dom() =~= $acq.s.running_.dom()
  ensures kept: $s.addressed_ == $acq.s.addressed_ && $s.cleanup_ == $acq.s.cleanup_

func snaps.(syncStandaloneRegistry).getTestID(s, snapPath, snapPathRel) -> (path, rel)
  props: C01 C06 C07 C11 C19
  shared
  acquires: T_snaps_syncStandaloneRegistry
  modifies: s.running_, s.cleanup_, s.addressed_, slog
  ghost: slog = $old.slog.push(SEv::SId($snapPath, cnt1($acq.s.running_, $snapPath) + 1))
  ensures path: $path == sprintf_d($snapPath, cnt1($acq.s.running_, $snapPath) + 1)
  ensures rel: $rel == sprintf_d($snapPathRel, cnt1($acq.s.running_, $snapPath) + 1)
  ensures running: cnt1($s.running_, $snapPath) == cnt1($acq.s.running_, $snapPath) + 1
  ensures addressed: cnt1($s.addressed_, $snapPath) == imax(cnt1($acq.s.addressed_, $snapPath), cnt1($acq.s.running_, $snapPath) + 1)
  ensures others: forall|p: Str| p != $snapPath ==> #[trigger] cnt1($s.running_, p) == cnt1($acq.s.running_, p) && cnt1($s.addressed_, p) == cnt1($acq.s.addressed_, p)
  ensures known: $s.addressed_.dom() =~= $acq.s.addressed_.dom() || $s.addressed_.dom() =~= $acq.s.addressed_.dom().insert($snapPath)

func snaps.(syncStandaloneRegistry).reset(s, snapPath) -> ()
  props: C01 C06 C07 C11 C19
  shared
  acquires: T_snaps_syncStandaloneRegistry
  modifies: s.running_, s.cleanup_, s.addressed_, rlog
  ghost: rlog = $old.rlog.push(Reset::S($snapPath))
  ensures reset: cnt1($s.running_, $snapPath) == 0
  ensures others: forall|p: Str| p != $snapPath ==> #[trigger] cnt1($s.running_, p) == cnt1($acq.s.running_, p)
  ensures kept: $s.addressed_ == $acq.s.addressed_ && $s.cleanup_ == $acq.s.cleanup_

func snaps.(events).register(e, event) -> ()
  props: C06 C20
  shared
  acquires: T_snaps_events
  modifies: e.items_, elog
  ghost: elog = $old.elog.push($event)
  ensures counted: forall|k: int| #[trigger] icnt($e.items_, k) == icnt($acq.e.items_, k) + (if k == $event { 1int } else { 0int })

func snaps.(syncSlice).append(s, elems) -> ()
  props: C06 C08 C20
  shared
  acquires: T_snaps_syncSlice
  modifies: s.values_, klog
  ghost: klog = $old.klog + $elems
  ensures added: $s.values_ =~= $acq.s.values_ + $elems

func snaps.shouldUpdate(u) -> (r)
  props: C02 C04 C05
  nullable: u
  returns: may_update($snaps_isCI, $u, $snaps_updateVAR)

func snaps.shouldCreate(u) -> (r)
  props: C02 C04 C05
  nullable: u
  returns: may_create($snaps_isCI, $u)

func snaps.escapeFormat(s) -> (r)
  props: C11 C19
  returns: esc_fmt($s)

func snaps.constructFilename(c, callerFilename, tName, isStandalone) -> (r)
  props: C11
  returns: if $isStandalone { standalone_name($c.filename_, $c.extension_, $tName) } else { shared_name($c.filename_, $c.extension_, $callerFilename) }

func snaps.baseCaller(skip) -> (r)
  props: C11
  requires skip: $skip >= 0 && $skip + 1 <= $stack.len()
  ensures nearest: $r == test_file($stack.skip($skip + 1), "")
  loop 0:
    inv range: $skip + 1 <= $i <= $stack.len()
    body: if $i < $stack.len() { assert($stack.skip($i).skip(1) == $stack.skip($i + 1)); }
    inv from: test_file($stack.skip($i), $file) == test_file($stack.skip($skip + 1), "")
  loop 0~2:
    inv range: $skip + 1 <= $i <= $stack.len()
    body: if $i < $stack.len() { assert($stack.skip($i).skip(1) == $stack.skip($i + 1)); }
    inv from: test_file($stack.skip($i), $prevFile) == test_file($stack.skip($skip + 1), "")

func snaps.snapshotPath(c, tName, isStandalone) -> (path, rel)
  props: C11
  requires called: $stack.len() >= 3
  ensures path: $path == (if $isStandalone { standalone_path($c.filename_, $c.snapsDir_, $c.extension_, $snaps_isTrimBathBuild, $snaps_startDir, test_file($stack.skip(3), ""), $tName) } else { shared_path($c.filename_, $c.snapsDir_, $c.extension_, $snaps_isTrimBathBuild, $snaps_startDir, test_file($stack.skip(3), "")) })
