# Matchers: each path in turn, from what the earlier ones left

global match_errPathNotFound [C15 C16 C17 C18]: $v is E
macro yq(X): Yq { nf: $go_yaml_ErrNotFoundNode, iq: $go_yaml_ErrInvalidQuery, anchor: $ast_AnchorType, tag: $ast_TagType }

macro any_mk(M): Mk { name: M.name_, miss: M.errOnMissingPath_, nf: $match_errPathNotFound, f: |v: Any| (M.placeholder_, Any::Nil) }
macro custom_mk(M): Mk { name: M.name_, miss: M.errOnMissingPath_, nf: $match_errPathNotFound, f: M.callback_ }
macro type_mk(M): Mk { name: M.name_, miss: M.errOnMissingPath_, nf: $match_errPathNotFound, f: |v: Any| type_put(v) }

global match_setJSONOptions [C15]: !$v.ReplaceInPlace_

func match.Any(paths) -> (m)
  props: C15 C16 C17
  ensures made: $m == T_match_anyMatcher { paths_: $paths, placeholder_: Any::S("<Any value>"), errOnMissingPath_: true, name_: "Any" }

func match.(anyMatcher).Placeholder(a, p) -> (m)
  props: C15 C16 C17
  modifies: a.placeholder_
  ensures set: $m == T_match_anyMatcher { placeholder_: $p, ..$old.a }

func match.(anyMatcher).ErrOnMissingPath(a, e) -> (m)
  props: C15 C16 C17
  modifies: a.errOnMissingPath_
  ensures set: $m == T_match_anyMatcher { errOnMissingPath_: $e, ..$old.a }

func match.(anyMatcher).JSON(a, b) -> (r, errs)
  props: C15 C16 C17
  ensures errs: errs_like($errs, jmask_errs(@any_mk($a), $b, $a.paths_))
  ensures doc: $errs.len() == 0 ==> $r == jmask(@any_mk($a), $b, $a.paths_)
  loop 0:
    inv doc: $json == jmask(@any_mk($a), $b, $a.paths_.take($rangeindex + 1))
    inv errs: errs_like($errs, jmask_errs(@any_mk($a), $b, $a.paths_.take($rangeindex + 1)))
    hint: assert($a.paths_.take($rangeindex + 1).drop_last() =~= $a.paths_.take($rangeindex));
    exit: assert($a.paths_.take($a.paths_.len() as int) =~= $a.paths_);

func match.Custom(path, callback) -> (m)
  props: C15 C16 C17
  ensures made: $m == T_match_customMatcher { callback_: $callback, errOnMissingPath_: true, name_: "Custom", path_: $path }

func match.(customMatcher).ErrOnMissingPath(c, e) -> (m)
  props: C15 C16 C17
  modifies: c.errOnMissingPath_
  ensures set: $m == T_match_customMatcher { errOnMissingPath_: $e, ..$old.c }

func match.(customMatcher).JSON(c, b) -> (r, errs)
  props: C15 C16 C17
  hint: reveal_with_fuel(jmask, 3); reveal_with_fuel(jmask_errs, 3);
  hint: assert(one_path($c.path_).drop_last() =~= Seq::<Str>::empty());
  ensures errs: errs_like($errs, jmask_errs(@custom_mk($c), $b, one_path($c.path_)))
  ensures doc: $errs.len() == 0 ==> $r == jmask(@custom_mk($c), $b, one_path($c.path_))

func match.Type(paths) -> (m)
  props: C15 C16 C17
  ensures made: $m.paths_ == $paths && $m.errOnMissingPath_ && $m.name_ == "Type"

func match.(typeMatcher).ErrOnMissingPath(t, e) -> (m)
  props: C15 C16 C17
  modifies: t.errOnMissingPath_
  ensures set: $m == T_match_typeMatcher_inst { errOnMissingPath_: $e, ..$old.t }

func match.typePlaceholder() -> (s)
  props: C15 C16 C17
  returns: type_placeholder()

func match.(typeMatcher).JSON(t, b) -> (r, errs)
  props: C15 C16 C17
  ensures errs: errs_like($errs, jmask_errs(@type_mk($t), $b, $t.paths_))
  ensures doc: $errs.len() == 0 ==> $r == jmask(@type_mk($t), $b, $t.paths_)
  loop 0:
    inv doc: $json == jmask(@type_mk($t), $b, $t.paths_.take($rangeindex + 1))
    inv errs: errs_like($errs, jmask_errs(@type_mk($t), $b, $t.paths_.take($rangeindex + 1)))
    hint: assert($t.paths_.take($rangeindex + 1).drop_last() =~= $t.paths_.take($rangeindex));
    exit: assert($t.paths_.take($t.paths_.len() as int) =~= $t.paths_);

extern invoke.ast.Node.MarshalYAML(n) -> (b, err)
  reason: the text of a node is a function of the node
  ensures text: $b == yaml_node_text($n)
  ensures err: $err == yaml_node_err($n)

func yaml.GetValue(node) -> (v, err)
  props: C15 C16 C17 C18
  ensures err: $err == yvalue_err($node)
  ensures value: $err == Any::Nil ==> $v == yvalue($node)

func yaml.Get(f, p) -> (path, node, exists, err)
  props: C15 C16 C17 C18
  ensures err: $err == yget_err(@yq(x), $f, $p)
  ensures exists: $err == Any::Nil ==> $exists == yhas(@yq(x), $f, $p)
  ensures found: $err == Any::Nil && $exists ==> $path == ypath($p) && $node == yfind(@yq(x), $f, $p)
  loop 0:
    inv scan: yscan(@yq(x), ypath($p), $f.Docs_, 0) == yscan(@yq(x), ypath($p), $f.Docs_, $rangeindex + 1)

func yaml.Update(f, path, value) -> (err)
  props: C15 C16 C17 C18
  modifies: f
  ensures err: $err == yset_err($old.f, $path, $value)
  ensures set: $f == yset($old.f, $path, $value)

func yaml.MarshalFile(f, addNewLine) -> (r)
  props: C15 C16 C17 C18
  hint: join_push(doc_texts($f.Docs_), "", "\n");
  ensures text: $r =~= yaml_text($f, $addNewLine)
  loop 0:
    inv len: $docs.len() == (if $pre.docs.len() == 0 { $rangeindex + 1 } else { $f.Docs_.len() as int })
    inv docs: docs_upto($docs, $f.Docs_, $rangeindex + 1)
    exit: assert($docs =~= doc_texts($f.Docs_));

func match.(anyMatcher).YAML(a, b) -> (r, errs)
  props: C15 C16 C17 C18
  ensures errs: errs_like($errs, ydoc_errs(@any_mk($a), false, @yq(x), $b, $a.paths_, "*"))
  ensures doc: $errs.len() == 0 ==> $r == ydoc(@any_mk($a), false, @yq(x), $b, $a.paths_)
  loop 0:
    inv doc: $f == ymask(@any_mk($a), false, @yq(x), yaml_file($b), $a.paths_.take($rangeindex + 1))
    inv masked: $errs.len() == 0 ==> $masked == ymasked(@any_mk($a), false, @yq(x), yaml_file($b), $a.paths_.take($rangeindex + 1))
    inv errs: errs_like($errs, ymask_errs(@any_mk($a), false, @yq(x), yaml_file($b), $a.paths_.take($rangeindex + 1)))
    hint: assert($a.paths_.take($rangeindex + 1).drop_last() =~= $a.paths_.take($rangeindex));
    exit: assert($a.paths_.take($a.paths_.len() as int) =~= $a.paths_);

func match.(typeMatcher).YAML(t, b) -> (r, errs)
  props: C15 C16 C17 C18
  ensures errs: errs_like($errs, ydoc_errs(@type_mk($t), true, @yq(x), $b, $t.paths_, "*"))
  ensures doc: $errs.len() == 0 ==> $r == ydoc(@type_mk($t), true, @yq(x), $b, $t.paths_)
  loop 0:
    inv doc: $f == ymask(@type_mk($t), true, @yq(x), yaml_file($b), $t.paths_.take($rangeindex + 1))
    inv masked: $errs.len() == 0 ==> $masked == ymasked(@type_mk($t), true, @yq(x), yaml_file($b), $t.paths_.take($rangeindex + 1))
    inv errs: errs_like($errs, ymask_errs(@type_mk($t), true, @yq(x), yaml_file($b), $t.paths_.take($rangeindex + 1)))
    hint: assert($t.paths_.take($rangeindex + 1).drop_last() =~= $t.paths_.take($rangeindex));
    exit: assert($t.paths_.take($t.paths_.len() as int) =~= $t.paths_);

func match.(customMatcher).YAML(c, b) -> (r, errs)
  props: C15 C16 C17 C18
  hint: reveal_with_fuel(ymask, 3); reveal_with_fuel(ymasked, 3); reveal_with_fuel(ymask_errs, 3);
  hint: assert(one_path($c.path_).drop_last() =~= Seq::<Str>::empty());
  ensures errs: errs_like($errs, ydoc_errs(@custom_mk($c), true, @yq(x), $b, one_path($c.path_), $c.path_))
  ensures doc: $errs.len() == 0 ==> $r == ydoc(@custom_mk($c), true, @yq(x), $b, one_path($c.path_))
