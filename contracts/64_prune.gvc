macro px(F): Px { fs: F, reg: $registry, count: $count, skipped: $snaps_skippedTests.values_, run: $runOnly, upd: $update, sort: $sort, used: $used }
macro jd(F): judge(@px($old.fs), $snapPath)

func snaps.examineSnaps(registry, used, runOnly, count, update, sort) -> (r, err)
  props: C05 C07 C08 C09 C10
  single
  modifies: fs, wcount
  requires count: $count >= 1
  requires known: forall|k: int| 0 <= k < $used.len() ==> $registry.dom().contains(#[trigger] $used[k])
  ensures done: $err == Any::Nil ==> $fs == pruned(@px($old.fs), $used.len() as int) && $r == pruned_ids(@px($old.fs), $used.len() as int)
  ensures failed: $err != Any::Nil ==> $r.len() == 0 && partly_pruned(@px($old.fs), $fs)
  ensures idle: idle(@px($old.fs), $used.len() as int) ==> $wcount == $old.wcount && $fs == $old.fs
  loop 0:
    init: pruned_start(@px($old.fs));
    inv files: $fs == pruned(@px($old.fs), $rangeindex + 1)
    inv ids: $obsoleteTests == pruned_ids(@px($old.fs), $rangeindex + 1)
    inv tests: $tests.len() == 0
    inv ids0: $testIDs.len() == 0
    inv clear: $data.out.len() == 0
    inv idle: idle(@px($old.fs), $rangeindex + 1) ==> $wcount == $old.wcount && $fs == $old.fs
    body: idle_down(@px($old.fs), $rangeindex + 1);
    hint: pruned_step(@px($old.fs), $rangeindex);
  loop 1:
    init:
      assert forall|x: Str| #[trigger] $registeredTests.dom().contains(x) == live($registry[$snapPath], $count, x) by {}
      assert($tests =~= Seq::<T_snaps_snapshotEntry>::empty() && $testIDs =~= Seq::<Str>::empty());
      total_start($s.rest, @jd(x), $obsoleteTests);
    inv max: $s.max == 9223372036854775807
    inv total: total($s.rest, @jd(x), $tests, $testIDs, $obsoleteTests) == total($pre.s.rest, @jd(x), $pre.tests, $pre.testIDs, $pre.obsoleteTests)
    inv diffs: $hasDiffs == ($obsoleteTests.len() > $pre.obsoleteTests.len()) && $obsoleteTests.len() >= $pre.obsoleteTests.len()
    inv clear: $s.rest.len() > 0 ==> $data.out.len() == 0
    hint: total_step($head.s.rest, @jd(x), $head.tests, $head.testIDs, $head.obsoleteTests);
    exit:
      assert($s.rest =~= Seq::<Str>::empty());
      total_end(@jd(x), $tests, $testIDs, $obsoleteTests);
  loop 2:
    init: assert($data.out =~= "");
    inv max: $s.max == 9223372036854775807
    inv body: scan_body($data.out, $s.rest) == scan_body($pre.data.out, $pre.s.rest)
    inv rest: after_term($s.rest) == after_term($pre.s.rest)
    inv tests: $tests == $pre.tests
    inv keep: $obsoleteTests == $pre.obsoleteTests && $hasDiffs == $pre.hasDiffs && $testIDs == $pre.testIDs
  loop 3:
    init:
      assert($tests.take(0) =~= Seq::<T_snaps_snapshotEntry>::empty());
      assert($fs[$snapPath] =~= "");
    inv at: $f.pos == render($ranged.take($rangeindex + 1)).len() && !$f.app
    inv text: $fs =~= $pre.fs.insert($snapPath, render($ranged.take($rangeindex + 1)))
    hint:
      render_step($ranged, $rangeindex);
    exit: assert($ranged.take($ranged.len() as int) =~= $ranged);
