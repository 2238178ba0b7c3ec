func snaps.isNumber(b) -> (r)
  props: C07 C09 C10
  returns: digits($b)
  loop 0:
    inv i: 0 <= $i <= $b.len()
    inv done: forall|j: int| 0 <= j < $i ==> 48 <= #[trigger] $b[j] <= 57

func snaps.getTestID(b) -> (id, ok)
  props: C07 C08 C09 C10
  ensures id: entry_id($b) == (if $ok { Some($id) } else { None })

func snaps.splitPattern(pattern, separator) -> (r)
  props: C08
  requires sep: $separator == 124 || $separator == 47
  returns: split_pattern($pattern, $separator)
  loop 0:
    inv range: 0 <= $start <= $pattern.len() && 0 <= $i && $start <= $i
    inv cont: $parts + pieces($pattern, $separator, $i, $start, $brackets, $parens) =~= split_pattern($pattern, $separator)

func snaps.matchesLevels(levels, patterns) -> (r)
  props: C08
  returns: levels_match($levels, $patterns)
  loop 0:
    inv done: forall|i: int| i <= $rangeindex ==> #[trigger] level_ok($levels, $patterns, i)
    body: assert(level_ok($levels, $patterns, $rangeindex + 1) == (0 <= $rangeindex + 1 < $levels.len() && $rangeindex + 1 < $patterns.len() ==> regexp_MatchString_r0($patterns[$rangeindex + 1], $levels[$rangeindex + 1])));

func snaps.isSelected(testName, runOnly) -> (r)
  props: C08
  returns: selected($testName, $runOnly)
  loop 0:
    inv none: forall|j: int| 0 <= j <= $rangeindex ==> !(#[trigger] alt_ok($levels, $ranged[j]))
    body: assert(alt_ok($levels, $ranged[$rangeindex + 1]) == levels_match($levels, split_pattern($ranged[$rangeindex + 1], 47)));

func snaps.testSkipped(testID, runOnly) -> (r)
  props: C08
  single
  returns: protected($testID, $snaps_skippedTests.values_, $runOnly)
  loop 0:
    inv none: forall|j: int| 0 <= j <= $rangeindex ==> !(#[trigger] below($testName, $ranged[j]))
    body: assert(below($testName, $ranged[$rangeindex + 1]) == ($testName =~= $ranged[$rangeindex + 1] || strings_HasPrefix($testName, $ranged[$rangeindex + 1] + "/")));

func snaps.standaloneOccurrenceFMT(s, i) -> (r)
  props: C07 C09
  returns: sprintf_d($s, $i)

func snaps.snapshotOccurrenceFMT(s, i) -> (r)
  props: C07 C09
  returns: entry_name($s, $i)

func snaps.occurrences(tests, count, formatter) -> (r)
  props: C07 C09
  requires count: $count >= 1
  ensures slots: names_slots($r.dom(), $tests, $count, $formatter)
  loop 0:
    inv sound: forall|x: Str| #[trigger] $result.dom().contains(x) ==> exists|t: Str, i: int| #[trigger] slot($tests, $count, t, i) && x == $formatter(t, i)
    inv done: forall|j: int, i: int| 0 <= j < $iter.i && #[trigger] slot($tests, $count, $iter.order[j], i) ==> $result.dom().contains($formatter($iter.order[j], i))
    hint:
      let t = $iter.order[$iter.i - 1];
      assert(slot($tests, $count, t, go_div($tests[t], $count)));
      assert($result.dom().contains($formatter(t, go_div($tests[t], $count))));
      assert forall|j: int, i: int| 0 <= j < $iter.i && #[trigger] slot($tests, $count, $iter.order[j], i) implies $result.dom().contains($formatter($iter.order[j], i)) by {
        if j < $iter.i - 1 { assert($head.result.dom().contains($formatter($iter.order[j], i))); }
        else {
          assert($iter.order[j] == t);
          assert($result.dom().contains($formatter(t, i)));
        }
      }
    exit:
      assert forall|t: Str, i: int| #[trigger] slot($tests, $count, t, i) implies $result.dom().contains($formatter(t, i)) by {
        assert($iter.order.contains(t));
        let j = choose|j: int| 0 <= j < $iter.order.len() && $iter.order[j] == t;
        assert(slot($tests, $count, $iter.order[j], i));
      }
  loop 1:
    inv i: 1 <= $i && ($i == 1 || $i <= go_div($tests[$testID], $count) + 1)
    inv sound: forall|x: Str| #[trigger] $result.dom().contains(x) ==> exists|t: Str, i: int| #[trigger] slot($tests, $count, t, i) && x == $formatter(t, i)
    inv part: forall|k: int| 1 <= k < $i ==> $result.dom().contains(#[trigger] $formatter($testID, k))
    inv kept: forall|x: Str| #![trigger $pre.result.dom().contains(x)] #![trigger $result.dom().contains(x)] $pre.result.dom().contains(x) ==> $result.dom().contains(x)
    inv named: forall|k: int| $pre.result.dom().contains($formatter($testID, k)) ==> $result.dom().contains(#[trigger] $formatter($testID, k))
    init: assert($result.dom().contains($formatter($testID, go_div($tests[$testID], $count))) || slot($tests, $count, $testID, go_div($tests[$testID], $count)));
    body: assert($i <= go_div($tests[$testID], $count) ==> slot($tests, $count, $testID, $i));

func snaps.naturalSort(a, b) -> (r)
  props: C10
  returns: natural_order($a, $b)

func snaps.isStandaloneOf(testName, filename) -> (r)
  props: C08
  returns: standalone_of($testName, $filename)

func snaps.hasSkippedSnapshots(dir, filename, runOnly) -> (r)
  props: C08
  single
  returns: holds_protected($fs, $dir, $filename, $snaps_skippedTests.values_, $runOnly)
  loop 0:
    inv none: forall|j: int| 0 <= j <= $rangeindex ==> !(#[trigger] standalone_of($ranged[j], $filename))
    body: assert(standalone_of($ranged[$rangeindex + 1], $filename) == regexp_MatchString_r0(skip_pattern($ranged[$rangeindex + 1]), $filename));
  loop 1:
    inv cont: entry_protected($s.rest, $snaps_skippedTests.values_, $runOnly) == entry_protected($pre.s.rest, $snaps_skippedTests.values_, $runOnly)
    inv max: $s.max == 9223372036854775807

func snaps.trackSkip(t) -> ()
  props: C08 C20
  modifies: tlog, klog, snaps_skippedTests
  ensures logged: $tlog == $old.tlog.push(TEv::Log(any1(Any::S($snaps_skippedMsg))))
  ensures recorded: $klog =~= $old.klog.push($t.name)

func snaps.Skip(t, args) -> ()
  props: C08 C20
  modifies: tlog, klog, snaps_skippedTests
  ensures logged: $tlog == $old.tlog.push(TEv::Log(any1(Any::S($snaps_skippedMsg)))).push(TEv::Skip($args))
  ensures recorded: $klog =~= $old.klog.push($t.name)

func snaps.Skipf(t, format, args) -> ()
  props: C08 C20
  modifies: tlog, klog, snaps_skippedTests
  ensures logged: $tlog == $old.tlog.push(TEv::Log(any1(Any::S($snaps_skippedMsg)))).push(TEv::Skip($args))
  ensures recorded: $klog =~= $old.klog.push($t.name)

func snaps.SkipNow(t) -> ()
  props: C08 C20
  modifies: tlog, klog, snaps_skippedTests
  ensures logged: $tlog == $old.tlog.push(TEv::Log(any1(Any::S($snaps_skippedMsg)))).push(TEv::Skip(Seq::<Any>::empty()))
  ensures recorded: $klog =~= $old.klog.push($t.name)

func snaps.isFileSkipped(dir, filename, runOnly) -> (r)
  props: C08
  single
  returns: file_skipped($fs, $dir, $filename, $snaps_skippedTests.values_, $runOnly)
  loop 0:
    inv none: forall|j: int| 0 <= j <= $rangeindex ==> !(#[trigger] decl_selected($ranged[j], $runOnly))
    body: assert(decl_selected($ranged[$rangeindex + 1], $runOnly) == ($ranged[$rangeindex + 1].isfunc && regexp_MatchString_r0($runOnly, ident_name($ranged[$rangeindex + 1].Name_))));

func snaps.printEvent(w, color, symbol, verb, events) -> ()
  props: C05 C07 C08 C09 C10 C20
  modifies: w
  ensures line: $w.out =~= $old.w.out + event_line($colors_NOCOLOR, $color, $symbol, $verb, $events)

macro fx(F): Fx { fs: F, reg: $registry.dom(), st: $registeredStandaloneTests.dom(), skipped: $snaps_skippedTests.values_, run: $runOnly, order: $iter.order }

func snaps.examineFiles(registry, registeredStandaloneTests, runOnly, shouldUpdate) -> (obsolete, used)
  props: C05 C07 C08 C09
  single
  modifies: fs, wcount, stdout
  ensures files: files_found($old.fs, $registry.dom(), $registeredStandaloneTests.dom(), $snaps_skippedTests.values_, $runOnly, $fs, $shouldUpdate, $obsolete, $used, $old.stdout, $stdout)
  ensures known: forall|k: int| 0 <= k < $used.len() ==> $registry.dom().contains(#[trigger] $used[k])
  ensures [C05 C09 C10] quiet: !$shouldUpdate ==> $wcount == $old.wcount && $fs == $old.fs
  loop 0:
    inv sound: forall|d: Str| #[trigger] $uniqueDirs.dom().contains(d) ==> visited($registry.dom(), $registeredStandaloneTests.dom(), d)
    inv done: forall|j: int| 0 <= j < $iter.i ==> $uniqueDirs.dom().contains(filepath_Dir(#[trigger] $iter.order[j]))
    exit: assert forall|p: Str| $registry.dom().contains(p) implies $uniqueDirs.dom().contains(#[trigger] filepath_Dir(p)) by { assert($iter.order.contains(p)); }
  loop 1:
    inv sound: forall|d: Str| #[trigger] $uniqueDirs.dom().contains(d) ==> visited($registry.dom(), $registeredStandaloneTests.dom(), d)
    inv kept: forall|p: Str| $registry.dom().contains(p) ==> $uniqueDirs.dom().contains(#[trigger] filepath_Dir(p))
    inv done: forall|j: int| 0 <= j < $iter.i ==> $uniqueDirs.dom().contains(filepath_Dir(#[trigger] $iter.order[j]))
    exit: assert forall|p: Str| $registeredStandaloneTests.dom().contains(p) implies $uniqueDirs.dom().contains(#[trigger] filepath_Dir(p)) by { assert($iter.order.contains(p)); }
  loop 2:
    init: assert forall|a: int| 0 <= a < $iter.order.len() implies is_clean(#[trigger] $iter.order[a]) by { assert($iter.order.contains($iter.order[a])); assert($itermap.dom().contains($iter.order[a])); }
    inv order: order_ok(@fx($old.fs))
    inv [C05 C09 C10] quiet: !$shouldUpdate ==> $wcount == $old.wcount && $fs == $old.fs
    inv found: files_ok(@fx($old.fs), $iter.i, 0, $fs, $shouldUpdate, $obsolete, $used, $old.stdout, $stdout)
    hint: files_dir(@fx($old.fs), $iter.i - 1, $fs, $shouldUpdate, $obsolete, $used, $old.stdout, $stdout);
    exit: files_all(@fx($old.fs), $fs, $shouldUpdate, $obsolete, $used, $old.stdout, $stdout);
  loop 3:
    inv ents: $ranged == ents(@fx($old.fs), $iter.i - 1)
    inv [C05 C09 C10] quiet: !$shouldUpdate ==> $wcount == $old.wcount && $fs == $old.fs
    inv found: files_ok(@fx($old.fs), $iter.i - 1, $rangeindex + 1, $fs, $shouldUpdate, $obsolete, $used, $old.stdout, $stdout)
    hint:
      if $used.len() > $head.used.len() { files_used(@fx($old.fs), $iter.i - 1, $rangeindex, $head.fs, $shouldUpdate, $head.obsolete, $head.used, $old.stdout, $head.stdout); }
      else if $obsolete.len() > $head.obsolete.len() { files_stale(@fx($old.fs), $iter.i - 1, $rangeindex, $head.fs, $fs, $shouldUpdate, $head.obsolete, $head.used, $old.stdout, $head.stdout, $stdout); }
      else { files_skip(@fx($old.fs), $iter.i - 1, $rangeindex, $head.fs, $shouldUpdate, $head.obsolete, $head.used, $old.stdout, $head.stdout); }
