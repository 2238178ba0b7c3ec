macro style(X): Style { plain: $colors_NOCOLOR, white: $colors_BoldWhite, green: $colors_Green, red: $colors_Red, yellow: $colors_Yellow, dim: $colors_Dim, arrow: $snaps_arrowSymbol, enter: $snaps_enterSymbol, bullet: $snaps_bulletSymbol, ok: $snaps_successSymbol, bad: $snaps_errorSymbol, upd: $snaps_updateSymbol, skip: $snaps_skipSymbol }

func snaps.summary(obsoleteFiles, obsoleteTests, NOskippedTests, testEvents, shouldUpdate) -> (r)
  props: C05 C07 C08 C09 C10 C20
  single
  ensures text: if $obsoleteFiles.len() == 0 && $obsoleteTests.len() == 0 && $testEvents.dom().len() == 0 && $NOskippedTests == 0 { $r == "" } else { $r =~= summary_text(@style(x), $obsoleteFiles, $obsoleteTests, $NOskippedTests, $testEvents, $shouldUpdate) }

func snaps.summary$1(objects, name) -> ()
  props: C05 C07 C08 C09 C10 C20
  local
  modifies: s
  requires some: $objects.len() > 0
  ensures list: $s.out =~= $old.s.out + item_list(@style(x), $objects, $name, $shouldUpdate)
  loop 0:
    init: assert($ranged.take(0) =~= Seq::<Str>::empty());
    inv lines: $s.out =~= $pre.s.out + item_lines(@style(x), $ranged.take($rangeindex + 1))
    hint: assert($ranged.take($rangeindex + 1).drop_last() =~= $ranged.take($rangeindex));
    exit: assert($ranged.take($ranged.len() as int) =~= $ranged);
