global snaps_updateVAR [* C02 C04 C05]: $v == os_Getenv("UPDATE_SNAPS")
global snaps_errInvalidJSON [* C14 C17]: $v is E
global snaps_defaultPrettyJSONOptions [C14 C16]: $v.SortKeys_ && $v.Prefix_.len() == 0
global snaps_shouldClean [* C05 C07 C09]: $v == (os_Getenv("UPDATE_SNAPS") == "true" || os_Getenv("UPDATE_SNAPS") == "clean")

func snaps.takeSnapshot(objects) -> (r)
  props: C01 C02
  returns: shared_text($objects)
  loop 0:
    inv len: $snapshots.len() == (if $pre.snapshots.len() == 0 { $rangeindex + 1 } else { $objects.len() as int })
    inv done: formatted($snapshots, $objects, $rangeindex + 1)
    exit: assert($snapshots =~= fmt_values($objects));
  loop 0~2:
    roles: text = T_Sink
    inv text: $text.out =~= strings_Join(fmt_values($objects.take($rangeindex + 1)), "\n")
    hint: assert(fmt_values($objects.take($rangeindex + 1)) =~= fmt_values($objects.take($rangeindex)).push(fmt_values($objects)[$rangeindex])); join_push(fmt_values($objects.take($rangeindex)), fmt_values($objects)[$rangeindex], "\n");
    exit: assert($objects.take($objects.len() as int) =~= $objects);


macro path(C): shared_path(C.filename_, C.snapsDir_, C.extension_, $snaps_isTrimBathBuild, $snaps_startDir, test_file($stack.skip(1), ""))
macro spath(C): standalone_path(C.filename_, C.snapsDir_, C.extension_, $snaps_isTrimBathBuild, $snaps_startDir, test_file($stack.skip(1), ""), $t.name)
macro jpath(C): standalone_path(C.filename_, C.snapsDir_, json_ext(C.extension_), $snaps_isTrimBathBuild, $snaps_startDir, test_file($stack.skip(1), ""), $t.name)
macro mode(C): Mode { ci: $snaps_isCI, upd: C.update_, env: $snaps_updateVAR }, Msgs { added: $snaps_addedMsg, updated: $snaps_updatedMsg, nf: $snaps_errSnapNotFound }
macro logs(X): $old.slog, $slog, $old.tlog, $tlog, $old.elog, $elog
macro once(P): $clog == $old.clog.push(Seq::<Reset>::empty().push(Reset::M(P, $t.name)))
macro sonce(P): $clog == $old.clog.push(Seq::<Reset>::empty().push(Reset::S(P)))

func snaps.(Config).MatchSnapshot(c, t, values) -> ()
  props: C01 C02 C03 C04 C05 C06 C11 C12 C20
  requires called: $stack.len() >= 1
  modifies: fs, tlog, clog, elog, slog, snaps_testsRegistry, snaps_testEvents
  ensures outcome: $values.len() > 0 ==> shared_call(@mode($c), @path($c), $t.name, shared_text($values), true, @logs(x))
  ensures cleanup: $values.len() > 0 ==> $clog == $old.clog.push(resets(@path($c), $t.name))

func snaps.MatchSnapshot(t, values) -> ()
  props: C01 C02 C03 C04 C05 C06 C11 C12 C20
  requires called: $stack.len() >= 1
  modifies: fs, tlog, clog, elog, slog, snaps_testsRegistry, snaps_testEvents
  ensures outcome: $values.len() > 0 ==> shared_call(@mode($snaps_defaultConfig), @path($snaps_defaultConfig), $t.name, shared_text($values), true, @logs(x))
  ensures cleanup: $values.len() > 0 ==> $clog == $old.clog.push(resets(@path($snaps_defaultConfig), $t.name))

func snaps.(Config).MatchStandaloneSnapshot(c, t, input) -> ()
  props: C01 C02 C03 C04 C05 C06 C11 C12 C19 C20
  requires called: $stack.len() >= 1
  modifies: fs, tlog, clog, elog, slog, snaps_standaloneTestsRegistry, snaps_testEvents
  ensures outcome: standalone_call(@mode($c), @spath($c), pretty_Sprint(any1($input)), @logs(x))
  ensures cleanup: $clog == $old.clog.push(sresets(@spath($c)))

func snaps.MatchStandaloneSnapshot(t, input) -> ()
  props: C01 C02 C03 C04 C05 C06 C11 C12 C19 C20
  requires called: $stack.len() >= 1
  modifies: fs, tlog, clog, elog, slog, snaps_standaloneTestsRegistry, snaps_testEvents
  ensures outcome: standalone_call(@mode($snaps_defaultConfig), @spath($snaps_defaultConfig), pretty_Sprint(any1($input)), @logs(x))
  ensures cleanup: $clog == $old.clog.push(sresets(@spath($snaps_defaultConfig)))

func snaps.validateJSON(input) -> (b, err)
  props: C14 C15 C16
  ensures ok: $err == Any::Nil <==> json_ok($input, $snaps_errInvalidJSON)
  ensures bytes: $err == Any::Nil ==> $b == json_bytes($input)

extern invoke.match.JSONMatcher.JSON(m, b) -> (r, errs)
  reason: a matcher's result is a function of the document, see the contracts of the matchers
  ensures doc: $r == jm_doc($m, $b)
  ensures errs: $errs == jm_errs($m, $b)

func snaps.applyJSONMatchers(b, matchers) -> (r, errs)
  props: C15 C16 C17
  ensures doc: $r == jm_fold($b, $matchers)
  ensures errs: $errs == jm_errors($b, $matchers)
  loop 0:
    inv doc: $cur.b == jm_fold($pre.b, $matchers.take($rangeindex + 1))
    inv errs: $errors == jm_errors($pre.b, $matchers.take($rangeindex + 1))
    hint: assert($matchers.take($rangeindex + 1).drop_last() =~= $matchers.take($rangeindex));
    exit: assert($matchers.take($matchers.len() as int) =~= $matchers);

func snaps.takeJSONSnapshot(c, b) -> (r)
  props: C14 C16 C19
  returns: json_text($c.json_, Some($snaps_defaultPrettyJSONOptions), $b)

macro jok(C): json_accepted($input, $matchers, $snaps_errInvalidJSON)
macro jtext(C): json_text(C.json_, Some($snaps_defaultPrettyJSONOptions), jm_fold(json_bytes($input), $matchers))
macro jnamed(C): json_ok($input, $snaps_errInvalidJSON) && jm_errors(json_bytes($input), $matchers).len() > 0 ==> $tlog == $old.tlog.push(TEv::Error(any1(Any::S(err_text($colors_NOCOLOR, jm_errors(json_bytes($input), $matchers))))))

func snaps.(Config).MatchJSON(c, t, input, matchers) -> ()
  props: C01 C02 C03 C04 C05 C06 C11 C12 C14 C15 C16 C17 C20
  requires called: $stack.len() >= 1
  modifies: fs, tlog, clog, elog, slog, snaps_testsRegistry, snaps_testEvents
  ensures outcome: if @jok(x) { shared_call(@mode($c), @path($c), $t.name, @jtext($c), false, @logs(x)) } else { rejected(false, @path($c), $t.name, @logs(x)) }
  ensures [C17] named: @jnamed(x)
  ensures cleanup: $clog == $old.clog.push(resets(@path($c), $t.name))
  loop matchJSON.0:
    inv [C17] text: $s.out =~= err_text($colors_NOCOLOR, $ranged.take($rangeindex + 1))
    hint: assert($ranged.take($rangeindex + 1).drop_last() =~= $ranged.take($rangeindex));
    hint: assert($ranged.take($rangeindex + 1).last() == $ranged[$rangeindex]);
    exit: assert($ranged.take($ranged.len() as int) =~= $ranged);

func snaps.(Config).MatchStandaloneJSON(c, t, input, matchers) -> ()
  props: C01 C02 C03 C04 C05 C06 C11 C12 C14 C15 C16 C17 C20 C19
  requires called: $stack.len() >= 1
  modifies: fs, tlog, clog, elog, slog, snaps_standaloneTestsRegistry, snaps_testEvents
  ensures outcome: if @jok(x) { standalone_call(@mode($c), @jpath($c), @jtext($c), @logs(x)) } else { rejected(true, @jpath($c), $t.name, @logs(x)) }
  ensures [C17] named: @jnamed(x)
  ensures cleanup: $clog == $old.clog.push(sresets(@jpath($c)))
  loop matchStandaloneJSON.0:
    inv [C17] text: $s.out =~= err_text($colors_NOCOLOR, $ranged.take($rangeindex + 1))
    hint: assert($ranged.take($rangeindex + 1).drop_last() =~= $ranged.take($rangeindex));
    hint: assert($ranged.take($rangeindex + 1).last() == $ranged[$rangeindex]);
    exit: assert($ranged.take($ranged.len() as int) =~= $ranged);

func snaps.MatchJSON(t, input, matchers) -> ()
  props: C01 C02 C03 C04 C05 C06 C11 C12 C14 C15 C16 C17 C20
  requires called: $stack.len() >= 1
  modifies: fs, tlog, clog, elog, slog, snaps_testsRegistry, snaps_testEvents
  ensures outcome: if @jok(x) { shared_call(@mode($snaps_defaultConfig), @path($snaps_defaultConfig), $t.name, @jtext($snaps_defaultConfig), false, @logs(x)) } else { rejected(false, @path($snaps_defaultConfig), $t.name, @logs(x)) }
  ensures [C17] named: @jnamed(x)
  ensures cleanup: $clog == $old.clog.push(resets(@path($snaps_defaultConfig), $t.name))
  loop matchJSON.0:
    inv [C17] text: $s.out =~= err_text($colors_NOCOLOR, $ranged.take($rangeindex + 1))
    hint: assert($ranged.take($rangeindex + 1).drop_last() =~= $ranged.take($rangeindex));
    hint: assert($ranged.take($rangeindex + 1).last() == $ranged[$rangeindex]);
    exit: assert($ranged.take($ranged.len() as int) =~= $ranged);

func snaps.MatchStandaloneJSON(t, input, matchers) -> ()
  props: C01 C02 C03 C04 C05 C06 C11 C12 C14 C15 C16 C17 C20 C19
  requires called: $stack.len() >= 1
  modifies: fs, tlog, clog, elog, slog, snaps_standaloneTestsRegistry, snaps_testEvents
  ensures outcome: if @jok(x) { standalone_call(@mode($snaps_defaultConfig), @jpath($snaps_defaultConfig), @jtext($snaps_defaultConfig), @logs(x)) } else { rejected(true, @jpath($snaps_defaultConfig), $t.name, @logs(x)) }
  ensures [C17] named: @jnamed(x)
  ensures cleanup: $clog == $old.clog.push(sresets(@jpath($snaps_defaultConfig)))
  loop matchStandaloneJSON.0:
    inv [C17] text: $s.out =~= err_text($colors_NOCOLOR, $ranged.take($rangeindex + 1))
    hint: assert($ranged.take($rangeindex + 1).drop_last() =~= $ranged.take($rangeindex));
    hint: assert($ranged.take($rangeindex + 1).last() == $ranged[$rangeindex]);
    exit: assert($ranged.take($ranged.len() as int) =~= $ranged);

func snaps.validateYAML(input) -> (b, err)
  props: C15 C16 C18
  ensures ok: $err == Any::Nil <==> yaml_ok($input, $snaps_yamlEncodeOptions)
  ensures bytes: $err == Any::Nil ==> $b == yaml_bytes($input, $snaps_yamlEncodeOptions)

extern invoke.match.YAMLMatcher.YAML(m, b) -> (r, errs)
  reason: a matcher's result is a function of the document, see the contracts of the matchers
  ensures doc: $r == ym_doc($m, $b)
  ensures errs: $errs == ym_errs($m, $b)

func snaps.applyYAMLMatchers(b, matchers) -> (r, errs)
  props: C15 C16 C17 C18
  ensures doc: $r == ym_fold($b, $matchers)
  ensures errs: $errs == ym_errors($b, $matchers)
  loop 0:
    inv doc: $cur.b == ym_fold($pre.b, $matchers.take($rangeindex + 1))
    inv errs: $errors == ym_errors($pre.b, $matchers.take($rangeindex + 1))
    hint: assert($matchers.take($rangeindex + 1).drop_last() =~= $matchers.take($rangeindex));
    exit: assert($matchers.take($matchers.len() as int) =~= $matchers);

func snaps.takeYAMLSnapshot(b) -> (r)
  props: C16 C18
  returns: escape_text($b)

macro yok(C): yaml_accepted($input, $snaps_yamlEncodeOptions, $matchers)
macro ytext(C): escape_text(ym_fold(yaml_bytes($input, $snaps_yamlEncodeOptions), $matchers))
macro ynamed(C): yaml_ok($input, $snaps_yamlEncodeOptions) && ym_errors(yaml_bytes($input, $snaps_yamlEncodeOptions), $matchers).len() > 0 ==> $tlog == $old.tlog.push(TEv::Error(any1(Any::S(err_text($colors_NOCOLOR, ym_errors(yaml_bytes($input, $snaps_yamlEncodeOptions), $matchers))))))

func snaps.(Config).MatchYAML(c, t, input, matchers) -> ()
  props: C01 C02 C03 C04 C05 C06 C11 C12 C15 C16 C17 C18 C20
  requires called: $stack.len() >= 1
  modifies: fs, tlog, clog, elog, slog, snaps_testsRegistry, snaps_testEvents
  ensures outcome: if @yok(x) { shared_call(@mode($c), @path($c), $t.name, @ytext($c), true, @logs(x)) } else { rejected(false, @path($c), $t.name, @logs(x)) }
  ensures [C17] named: @ynamed(x)
  ensures cleanup: $clog == $old.clog.push(resets(@path($c), $t.name))
  loop matchYAML.0:
    inv [C17] text: $s.out =~= err_text($colors_NOCOLOR, $ranged.take($rangeindex + 1))
    hint: assert($ranged.take($rangeindex + 1).drop_last() =~= $ranged.take($rangeindex));
    hint: assert($ranged.take($rangeindex + 1).last() == $ranged[$rangeindex]);
    exit: assert($ranged.take($ranged.len() as int) =~= $ranged);

func snaps.MatchYAML(t, input, matchers) -> ()
  props: C01 C02 C03 C04 C05 C06 C11 C12 C15 C16 C17 C18 C20
  requires called: $stack.len() >= 1
  modifies: fs, tlog, clog, elog, slog, snaps_testsRegistry, snaps_testEvents
  ensures outcome: if @yok(x) { shared_call(@mode($snaps_defaultConfig), @path($snaps_defaultConfig), $t.name, @ytext($snaps_defaultConfig), true, @logs(x)) } else { rejected(false, @path($snaps_defaultConfig), $t.name, @logs(x)) }
  ensures [C17] named: @ynamed(x)
  ensures cleanup: $clog == $old.clog.push(resets(@path($snaps_defaultConfig), $t.name))
  loop matchYAML.0:
    inv [C17] text: $s.out =~= err_text($colors_NOCOLOR, $ranged.take($rangeindex + 1))
    hint: assert($ranged.take($rangeindex + 1).drop_last() =~= $ranged.take($rangeindex));
    hint: assert($ranged.take($rangeindex + 1).last() == $ranged[$rangeindex]);
    exit: assert($ranged.take($ranged.len() as int) =~= $ranged);
