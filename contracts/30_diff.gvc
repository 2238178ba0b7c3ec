func difflib.min(a, b) -> (r)
  props: C02 C13
  local
  returns: if $a < $b { $a } else { $b }

func difflib.max(a, b) -> (r)
  props: C02 C13
  local
  returns: if $a > $b { $a } else { $b }

func difflib.FormatRangeUnified(start, stop) -> (r)
  props: C02 C13
  local
  returns: range_text($start, $stop)

func difflib.NewMatcher(a, b) -> (m)
  props: C02 C13
  local
  requires nonempty: $a.len() > 0 && $b.len() > 0
  ensures seqs: $m.a_ == $a && $m.b_ == $b
  ensures index: b2j_ok($b, $m.b2j_)
  ensures caches: $m.matchingBlocks_.len() == 0 && $m.opCodes_.len() == 0

func difflib.(sequenceMatcher).chainB(m)
  props: C02 C13
  local
  modifies: m.b2j_, m.bJunk_, m.bPopular_
  ensures index: b2j_ok($m.b_, $m.b2j_)
  loop 0:
    inv index: forall|s: Str, x: int| $b2j.dom().contains(s) && 0 <= x < $b2j[s].len() ==> 0 <= #[trigger] $b2j[s][x] <= $rangeindex && $m.b_[$b2j[s][x]] == s
  loop 2:
    inv index: b2j_ok($m.b_, $b2j)
  loop 4:
    inv index: b2j_ok($m.b_, $b2j)

func difflib.(sequenceMatcher).findLongestMatch(m, alo, ahi, blo, bhi) -> (r)
  props: C02 C13
  local
  requires range: 0 <= $alo <= $ahi <= $m.a_.len() && 0 <= $blo <= $bhi <= $m.b_.len()
  requires index: b2j_ok($m.b_, $m.b2j_)
  ensures in: blk_in($r, $alo, $ahi, $blo, $bhi) && $r.Size_ >= 0
  ensures same: blk_same($m.a_, $m.b_, $r)
  loop 0:
    inv i: $alo <= $i <= $ahi
    inv best: $alo <= $besti && $besti + $bestsize <= $ahi && $blo <= $bestj && $bestj + $bestsize <= $bhi && $bestsize >= 0
    inv same: same($m.a_, $besti, $m.b_, $bestj, $bestsize)
    inv j2len: j2len_ok($m.a_, $m.b_, $j2len, $i, $alo, $blo, $bhi)
  loop 1:
    inv best: $alo <= $besti && $besti + $bestsize <= $ahi && $blo <= $bestj && $bestj + $bestsize <= $bhi && $bestsize >= 0
    inv same: same($m.a_, $besti, $m.b_, $bestj, $bestsize)
    inv newj2len: j2len_ok($m.a_, $m.b_, $newj2len, $i + 1, $alo, $blo, $bhi)
  loop 2:
    inv best: $alo <= $besti && $besti + $bestsize <= $ahi && $blo <= $bestj && $bestj + $bestsize <= $bhi && $bestsize >= 0
    inv same: same($m.a_, $besti, $m.b_, $bestj, $bestsize)
  loop 3:
    inv best: $alo <= $besti && $besti + $bestsize <= $ahi && $blo <= $bestj && $bestj + $bestsize <= $bhi && $bestsize >= 0
    inv same: same($m.a_, $besti, $m.b_, $bestj, $bestsize)
  loop 4:
    inv best: $alo <= $besti && $besti + $bestsize <= $ahi && $blo <= $bestj && $bestj + $bestsize <= $bhi && $bestsize >= 0
    inv same: same($m.a_, $besti, $m.b_, $bestj, $bestsize)
  loop 5:
    inv best: $alo <= $besti && $besti + $bestsize <= $ahi && $blo <= $bestj && $bestj + $bestsize <= $bhi && $bestsize >= 0
    inv same: same($m.a_, $besti, $m.b_, $bestj, $bestsize)

func difflib.getMatchingBlocks$1(alo, ahi, blo, bhi, matched) -> (r)
  props: C02 C13
  local
  writes: matched
  requires range: 0 <= $alo <= $ahi <= $m.a_.len() && 0 <= $blo <= $bhi <= $m.b_.len()
  requires index: b2j_ok($m.b_, $m.b2j_)
  ensures prefix: extends($r, $matched)
  ensures chain: chain($m.a_, $m.b_, $r, $matched.len() as int, $alo, $ahi, $blo, $bhi)

func difflib.(sequenceMatcher).getMatchingBlocks(m) -> (r)
  props: C02 C13
  local
  modifies: m.matchingBlocks_
  aliases: r = m.matchingBlocks_
  requires index: b2j_ok($m.b_, $m.b2j_)
  requires cache: $m.matchingBlocks_.len() == 0 || mblocks_ok($m.a_, $m.b_, $m.matchingBlocks_)
  ensures blocks: mblocks_ok($m.a_, $m.b_, $r) && $r == $m.matchingBlocks_
  loop 0:
    inv cur: 0 <= $i1 && $i1 + $k1 <= $m.a_.len() && 0 <= $j1 && $j1 + $k1 <= $m.b_.len() && 0 <= $k1 && same($m.a_, $i1, $m.b_, $j1, $k1)
    inv next: forall|x: int| $rangeindex < x < $matched.len() ==> $i1 + $k1 <= (#[trigger] $matched[x]).A_ && $j1 + $k1 <= $matched[x].B_
    inv chain: chain($m.a_, $m.b_, $nonAdjacent, 0, 0, $i1, 0, $j1)

func difflib.(sequenceMatcher).getOpCodes(m) -> (r)
  props: C02 C13
  local
  modifies: m.matchingBlocks_, m.opCodes_
  aliases: r = m.opCodes_
  requires index: b2j_ok($m.b_, $m.b2j_)
  requires cache: $m.matchingBlocks_.len() == 0 || mblocks_ok($m.a_, $m.b_, $m.matchingBlocks_)
  requires cache2: $m.opCodes_.len() == 0 || tiles($m.a_, $m.b_, $m.opCodes_)
  ensures tiles: tiles($m.a_, $m.b_, $r)
  loop 0:
    inv tiles: tiles_to($m.a_, $m.b_, $opCodes, $i, $j)
    inv next: forall|x: int| $rangeindex < x < $matching.len() ==> $i <= (#[trigger] $matching[x]).A_ && $j <= $matching[x].B_
    inv bound: 0 <= $i <= $m.a_.len() && 0 <= $j <= $m.b_.len()
    inv end: $rangeindex == $matching.len() - 1 ==> $i == $m.a_.len() && $j == $m.b_.len()

func difflib.(sequenceMatcher).GetGroupedOpCodes(m, n) -> (r)
  props: C02 C13
  local
  modifies: m.matchingBlocks_, m.opCodes_
  requires nonempty: $m.a_.len() > 0 && $m.b_.len() > 0
  requires index: b2j_ok($m.b_, $m.b2j_)
  requires cache: $m.matchingBlocks_.len() == 0 && $m.opCodes_.len() == 0
  ensures groups: groups_ok($m.a_, $m.b_, $r)
  hint:
    assert(gchanges($r) =~= changes($codes));
    assert(script_ok($m.a_, $m.b_, $codes) && gchanges($r) == changes($codes));
  ensures all: exists|s: Seq<T_difflib_OpCode>| script_ok($m.a_, $m.b_, s) && gchanges($r) == changes(s)
  loop 0:
    inv seqs: $m.a_ == $old.m.a_ && $m.b_ == $old.m.b_
    inv script: script_ok($m.a_, $m.b_, $codes)
    inv groups: groups_ok($m.a_, $m.b_, $groups)
    inv group: ops_ok($m.a_, $m.b_, $group)
    inv last: $rangeindex >= 0 ==> $group.len() > 0 && $group.last().I2_ == $codes[$rangeindex].I2_ && $group.last().J2_ == $codes[$rangeindex].J2_
    inv first: $rangeindex == -1 ==> $group.len() == 0
    inv changes: gchanges($groups) + changes($group) =~= changes($codes.take($rangeindex + 1))
    hint:
      changes_take($codes, $rangeindex);
      assert(op_ok($m.a_, $m.b_, $codes[$rangeindex]));
      if $rangeindex > 0 { assert(follows($codes[$rangeindex - 1], $codes[$rangeindex])); }
      if $groups.len() == $head.groups.len() {
        changes_push($head.group, $group.last());
        assert($group =~= $head.group.push($group.last()));
        assert(op_ok($m.a_, $m.b_, $group.last()));
        if $rangeindex > 0 { assert(follows($head.group.last(), $group.last())); }
        assert(ops_ok($m.a_, $m.b_, $group));
      } else {
        let g = $groups.last();
        gchanges_push($head.groups, g);
        changes_push($head.group, g.last());
        changes_push(Seq::empty(), $group.last());
        assert(g =~= $head.group.push(g.last()));
        assert($group =~= Seq::<T_difflib_OpCode>::empty().push($group.last()));
        assert(op_ok($m.a_, $m.b_, g.last()));
        assert(ops_ok($m.a_, $m.b_, g));
        assert(op_ok($m.a_, $m.b_, $group.last()));
        assert(ops_ok($m.a_, $m.b_, $group));
        assert($groups =~= $head.groups.push(g));
        assert(gchanges($groups) + changes($group) =~= gchanges($head.groups) + changes($head.group) + changes(seq![$group.last()]));
      }
    exit:
      assert($codes.take($codes.len() as int) =~= $codes);
      gchanges_push($groups, $group);
      if $group.len() > 0 {
        changes_push(Seq::empty(), $group[0]);
        if $group.len() == 1 { assert($group =~= Seq::<T_difflib_OpCode>::empty().push($group[0])); }
      }

func colors.FprintEqual(w, s)
  props: C02 C13
  local
  modifies: w
  ensures plain: $colors_NOCOLOR ==> $w.out =~= $old.w.out + "  " + $s
  ensures [* C02 C13] grows: $w.out.len() > $old.w.out.len()

func colors.FprintDelete(w, s)
  props: C02 C13
  local
  modifies: w
  ensures plain: $colors_NOCOLOR ==> $w.out =~= $old.w.out + "- " + $s
  ensures [* C02 C13] grows: $w.out.len() > $old.w.out.len()

func colors.FprintInsert(w, s)
  props: C02 C13
  local
  modifies: w
  ensures plain: $colors_NOCOLOR ==> $w.out =~= $old.w.out + "+ " + $s
  ensures [* C02 C13] grows: $w.out.len() > $old.w.out.len()

func colors.FprintRange(w, r1, r2)
  props: C02 C13
  local
  modifies: w
  ensures plain: $colors_NOCOLOR ==> $w.out =~= $old.w.out + "@@ -" + $r1 + " +" + $r2 + " @@\n\n"
  ensures [* C02 C13] grows: $w.out.len() > $old.w.out.len()

func colors.FprintDeleteBold(w, s)
  props: C02 C13
  local
  modifies: w
  ensures plain: $colors_NOCOLOR ==> $w.out =~= $old.w.out + $s
  ensures [* C02 C13] grows: $w.out.len() >= $old.w.out.len()

func colors.FprintInsertBold(w, s)
  props: C02 C13
  local
  modifies: w
  ensures plain: $colors_NOCOLOR ==> $w.out =~= $old.w.out + $s
  ensures [* C02 C13] grows: $w.out.len() >= $old.w.out.len()

func colors.FprintBg(w, bgColor, color, s)
  props: C02 C13
  local
  modifies: w
  ensures plain: $colors_NOCOLOR ==> $w.out =~= $old.w.out + $s
  ensures [* C02 C13] grows: $w.out.len() >= $old.w.out.len()

func colors.Fprint(w, color, s)
  props: C02 C13 C17 C20
  local
  modifies: w
  ensures [C05 C07 C08 C09 C10 C17 C20] painted: $w.out =~= $old.w.out + paint($colors_NOCOLOR, $color, $s)
  ensures plain: $colors_NOCOLOR ==> $w.out =~= $old.w.out + $s
  ensures [* C02 C13] grows: $w.out.len() >= $old.w.out.len() + $s.len()

func colors.Sprint(color, s) -> (r)
  props: C05 C07 C08 C09 C10 C20
  local
  returns: paint($colors_NOCOLOR, $color, $s)

func snaps.splitNewlines(s) -> (r)
  props: C02 C13
  local
  returns: text_lines($s)

opaque snaps.singlelineDiff(expected, received) -> (diff, inserted, deleted)
  props: C02 C13
  reason: the inline diff of diffmatchpatch; nothing is assumed about its result

func snaps.printRange(w, opcodes)
  props: C02 C13
  local
  modifies: w
  requires nonempty: $opcodes.len() > 0
  ensures plain: $colors_NOCOLOR ==> $w.out =~= $old.w.out + range_line($opcodes)
  ensures [* C02 C13] grows: $w.out.len() > $old.w.out.len()

func snaps.getUnifiedDiff(a, b) -> (out, ins, del)
  props: C02 C13
  claim
  local
  ensures [* C02 C13] shown: $a != $b ==> $out.len() > 0
  ensures plain: $colors_NOCOLOR ==> true_report(text_lines($a), text_lines($b), $out, $ins, $del)
  loop 0:
    inv plain: $colors_NOCOLOR ==> $s.out =~= render_groups($aLines, $bLines, $ranged.take($rangeindex + 1)) && $inserted == groups_plus($ranged.take($rangeindex + 1)) && $deleted == groups_minus($ranged.take($rangeindex + 1))
    inv shown: gchanges($ranged.take($rangeindex + 1)).len() > 0 ==> $s.out.len() > 0
    hint:
      assert($ranged.take($rangeindex + 1).drop_last() =~= $ranged.take($rangeindex));
      assert($g.take($g.len() as int) =~= $g);
    exit:
      assert($ranged.take($ranged.len() as int) =~= $ranged);
      let sc = choose|s: Seq<T_difflib_OpCode>| script_ok($aLines, $bLines, s) && gchanges($ranged) == changes(s);
      assert(shows($aLines, $bLines, $ranged, sc));
      if changes(sc).len() == 0 { thm_no_change($aLines, $bLines, sc); thm_lines_differ($a, $b); }
  loop 1:
    inv plain: $colors_NOCOLOR ==> $s.out =~= $pre.s.out + render_ops($aLines, $bLines, $g.take($rangeindex + 1)) && $inserted == $pre.inserted + ops_plus($g.take($rangeindex + 1)) && $deleted == $pre.deleted + ops_minus($g.take($rangeindex + 1))
    inv shown: $s.out.len() >= $pre.s.out.len() && (changes($g.take($rangeindex + 1)).len() > 0 ==> $s.out.len() > 0)
    hint:
      assert($g.take($rangeindex + 1).drop_last() =~= $g.take($rangeindex));
      assert(op_ok($aLines, $bLines, $g[$rangeindex]));
  loop 2:
    inv plain: $colors_NOCOLOR ==> $s.out =~= $pre.s.out + render_ctx($ranged.take($rangeindex + 1))
    inv grows: $s.out.len() >= $pre.s.out.len()
    hint: assert($ranged.take($rangeindex + 1).drop_last() =~= $ranged.take($rangeindex));
    exit: assert($ranged.take($ranged.len() as int) =~= $ranged);
  loop 3:
    inv plain: $colors_NOCOLOR ==> $s.out =~= $pre.s.out + render_minus($ranged.take($rangeindex + 1))
    inv count: $deleted == $pre.deleted + $rangeindex + 1
    inv grows: $s.out.len() >= $pre.s.out.len() && ($rangeindex >= 0 ==> $s.out.len() > 0)
    hint: assert($ranged.take($rangeindex + 1).drop_last() =~= $ranged.take($rangeindex));
    exit: assert($ranged.take($ranged.len() as int) =~= $ranged);
  loop 4:
    inv plain: $colors_NOCOLOR ==> $s.out =~= $pre.s.out + render_plus($ranged.take($rangeindex + 1))
    inv count: $inserted == $pre.inserted + $rangeindex + 1
    inv grows: $s.out.len() >= $pre.s.out.len() && ($rangeindex >= 0 ==> $s.out.len() > 0)
    hint: assert($ranged.take($rangeindex + 1).drop_last() =~= $ranged.take($rangeindex));
    exit: assert($ranged.take($ranged.len() as int) =~= $ranged);

func snaps.buildDiffReport(inserted, deleted, diff, name, line) -> (r)
  props: C02 C13
  claim
  ensures empty: $r.len() == 0 <==> $diff.len() == 0
  ensures [C02 C13] plain: $colors_NOCOLOR && $diff.len() > 0 ==> $r =~= report_text($inserted, $deleted, $diff, $name, $line)

func snaps.prettyDiff(expected, received, name, line) -> (r)
  props: C02 C13
  claim
  ensures iff: $r.len() == 0 <==> $expected == $received
  ensures [C02 C13] plain: $colors_NOCOLOR && $expected != $received ==> exists|d: Str, i: int, n: int| #[trigger] true_report(text_lines($expected), text_lines($received), d, i, n) && $r =~= report_text(i, n, d, $name, $line)
