# Configs: what the options make of the defaults, and nothing else

global snaps_defaultConfig [C12 C19]: $v == default_config()

func snaps.Update(u) -> (o)
  props: C12
  ensures change: $o =~= opt_update($u)

func snaps.Filename(name) -> (o)
  props: C12 C19
  ensures change: $o =~= opt_filename($name)

func snaps.Dir(dir) -> (o)
  props: C12 C19
  ensures change: $o =~= opt_dir($dir)

func snaps.Ext(ext) -> (o)
  props: C12 C19
  ensures change: $o =~= opt_ext($ext)

func snaps.JSON(json) -> (o)
  props: C12
  ensures change: $o =~= opt_json($json)

func snaps.WithConfig(args) -> (c)
  props: C12 C19
  ensures built: $c == built(default_config(), $args)
  loop 0:
    inv so_far: $s == built(default_config(), $args.take($rangeindex + 1))
    body: built_next(default_config(), $args, $rangeindex + 1);
    exit: assert($args.take($rangeindex + 1) =~= $args);
