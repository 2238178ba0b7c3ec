func snaps.isEscapedEndSequence(s) -> (r)
  props: C01 C02
  returns: esc_term($s)

func snaps.escapeEndChars(s) -> (r)
  props: C01 C02
  returns: escape_text($s)
  loop 0:
    inv len: $ss.len() == $pre.ss.len()
    inv done: forall|j: int| 0 <= j <= $rangeindex && j < $ss.len() ==> #[trigger] $ss[j] == esc_line($pre.ss[j])
    inv todo: forall|j: int| $rangeindex < j < $ss.len() ==> #[trigger] $ss[j] == $pre.ss[j]
    exit: assert($ss =~= esc_lines($pre.ss));

func snaps.unescapeEndChars(s) -> (r)
  props: C01 C02
  returns: unescape_text($s)
  loop 0:
    inv len: $ss.len() == $pre.ss.len()
    inv done: forall|j: int| 0 <= j <= $rangeindex && j < $ss.len() ==> #[trigger] $ss[j] == unesc_line($pre.ss[j])
    inv todo: forall|j: int| $rangeindex < j < $ss.len() ==> #[trigger] $ss[j] == $pre.ss[j]
    exit: assert($ss =~= unesc_lines($pre.ss));
