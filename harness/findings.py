"""The known findings, demonstrated on the real code on every run. Each returns what fails, or None when it does not."""
from engine import *


def run1(b, steps, files=(), args=(), **kw):
    box = b.box()
    for f, t in files:
        box.put(f, t)
    r = box.run(steps, args=list(args), **kw)
    out = box.files()
    box.done()
    return r, out


def cleanup_before_first_match(b):
    sn = {'Op': 'snap', 'Vals': ['one']}
    _, f = run1(b, {'Tests': [{'Name': 'TestC', 'Steps': [{'Op': 'cleanup', 'Steps': [{'Op': 'snap', 'Vals': ['two']}]}, sn]}]})
    ids = [i for i, _ in parse(f.get('dyn_test.snap', '')) or []]
    return 'slots %s after two calls' % ids if ids == ['TestC - 1'] else None


def shared_standalone_filename(b):
    g = {'Filename': 'same'}
    s = lambda v: {'Op': 'ssnap', 'Vals': [v], 'Cfg': g}
    # the first call of the sub-test, while its parent lives, lands in file 2
    _, f = run1(b, {'Tests': [{'Name': 'TestP', 'Steps': [s('parent'), {'Op': 'sub', 'Name': 's', 'Steps': [s('child')]}]}]})
    return 'the first call of TestP/s is stored in same_2.snap' if f.get('same_2.snap') == 'child' else None


def skipped_custom_standalone(b):
    g = {'Filename': 'mine'}
    t = [{'Name': 'TestK', 'Steps': [{'Op': 'ssnap', 'Vals': ['x']}]},
         {'Name': 'TestS', 'Steps': [{'Op': 'skip'}, {'Op': 'ssnap', 'Vals': ['v'], 'Cfg': g}]}]
    _, f = run1(b, {'Tests': t, 'Clean': {'Sort': False, 'N': 1}}, files=[('mine_1.snap', 'v')], upd='clean')
    return 'mine_1.snap of the skipped TestS was removed' if 'mine_1.snap' not in f else None


def yaml_print(b, text, loss):
    _, f = run1(b, {'Tests': [{'Name': 'TestK', 'Steps': [{'Op': 'yaml', 'In': 'str', 'Text': text, 'M': [{'K': 'any', 'Paths': ['$.m']}]}]}]})
    e = parse(f.get('dyn_test.snap', '')) or []
    return '%r with $.m masked is stored as %r' % (text, e[0][1]) if e and e[0][1] == loss else None


def yaml_keep(b):
    return yaml_print(b, 'm: 1\nk: |+\n  x\n\n', 'm: <Any value>\nk: |+\n  x\n')


def yaml_quoted(b):
    return yaml_print(b, "m: 1\nk: 'a\n\n  b'\n", "m: <Any value>\nk: 'a\nb'\n")


FINDINGS = {
    'yaml-keep-trailing-newlines': yaml_keep,
    'yaml-quoted-blank-line': yaml_quoted,
    'cleanup-before-first-match': cleanup_before_first_match,
    'shared-standalone-filename': shared_standalone_filename,
    'skipped-custom-standalone': skipped_custom_standalone,
}
