import itertools, time
from engine import *
import engine

FAM = {}


def fam(*ps):
    def d(f):
        for p in ps:
            FAM.setdefault(p, []).append(f)
        return f
    return d


def clone(x):
    return json.loads(json.dumps(x))


def shuffle_tests(r, prog):
    p = clone(prog)
    r.shuffle(p['tests'])
    return p


# ------------------------------------------------------------------ C01

@fam('C01')
def replay(prop, r, b):
    box = b.box()
    m = Model()
    prog = gen_prog(r, long=r.random() < .1)
    check_run(prop, box, prog, m, count=r.choice([1, 1, 2]))
    for mode in r.sample([dict(ci=True), dict(), dict(upd='true'), dict(upd='clean'), dict(ci=True, upd='true'), dict(count=2)], 2):
        check_run(prop, box, shuffle_tests(r, prog), m, **mode)
    box.done()


CORNER = ['', '\n', '\n\n', ' ', '---', '/-/-/-/', '//-/-/-/', '---\n---', '\n---\n', 'a\n---', '---\na', '/-/-/-/\n---', '--- ', '[TestA - 2]\nx\n---', '[TestA - 1]', '\n[TestA - 2]\ny\n---\n',
          '[TestB - 1]\nz', 'x\n[TestB - 1]\nz', '\xff', '\xfe\xff\n\xc3', 'x' * 65536, 'x' * 65537 + '\ny', 'a\n\n', '\n\na', 'a\rb', '%s', '\x1b[0m', '\xef\xbb\xbfx']


@fam('C01', 'C03')
def corner_replay(prop, r, b):
    """the corner values, each in a file with a neighbour before and after"""
    for chunk in [CORNER[i:i + 9] for i in range(0, len(CORNER), 9)]:
        box, m = b.box(), Model()
        body = []
        for v in chunk:
            body.append({'kind': 'snap', 'vals': [v]})
            body.append({'kind': 'snap', 'vals': [v, v]})
        prog = {'tests': [{'name': 'TestA', 'body': body}, {'name': 'TestB', 'body': [{'kind': 'snap', 'vals': [v + '|']} for v in chunk]}]}
        check_run(prop, box, prog, m)
        check_run(prop, box, prog, m, ci=True)
        check_run(prop, box, {'tests': prog['tests'][::-1]}, m, upd='true')
        box.done()


corner_replay.once = True


@fam('C01', 'C02', 'C04', 'C10')
def long_lines(prop, r, b):
    """lines longer than any buffer a reader may have"""
    box, m = b.box(), Model()
    big = ['L' * ((1 << 24) + 7), 'M' * (1 << 20) + '\n---\n' + 'N' * ((1 << 22) + 1)]
    prog = {'tests': [{'name': 'TestB', 'body': [{'kind': 'snap', 'vals': ['first']}] + [{'kind': 'snap', 'vals': [v]} for v in big] + [{'kind': 'snap', 'vals': ['last']}, {'kind': 'ssnap', 'vals': [big[1]]}]}]}
    check_run(prop, box, prog, m)
    check_run(prop, box, prog, m, ci=True)
    p2 = clone(prog)
    p2['tests'][0]['body'][1]['vals'][0] = big[0][:-1] + 'l'
    p2['tests'][0]['body'][3]['vals'][0] = 'last changed'
    p2['tests'][0]['body'].append({'kind': 'yaml', 'text': 'a: 1\n'})
    m2 = m.copy()
    check_run(prop, box, p2, m2, upd='true', clean={'Sort': True, 'None': False, 'N': 1} if prop == 'C10' else None)
    check_run(prop, box, p2, m2, ci=True)
    box.done()


long_lines.once = True


@fam('C01', 'C03', 'C10')
def foreign_file(prop, r, b):
    """a file written earlier, with more entries than the test addresses"""
    box, m = b.box(), Model()
    text, ents = '', []
    for n in r.sample(['TestA', 'TestB', 'TestC', 'TestOld'], r.randint(1, 4)):
        for k in range(1, r.randint(2, 5)):
            v = gen_text(r)
            if v.endswith('\r'):
                continue
            text += entry(n, k, v)
            ents.append(['%s - %d' % (n, k), v])
    box.put('dyn_test.snap', text)
    m.multi['dyn_test.snap'] = ents
    prog = {'tests': [{'name': n, 'body': [{'kind': 'snap', 'vals': [dict(map(tuple, ents)).get('%s - %d' % (n, k), 'new') if r.random() < .8 else gen_text(r)]} for k in range(1, r.randint(2, 6))]} for n in r.sample(['TestA', 'TestB', 'TestC'], 2)]}
    check_run(prop, box, prog, m)
    check_run(prop, box, prog, m, upd='true')
    check_run(prop, box, prog, m, ci=True)
    box.done()


# ------------------------------------------------------------------ C02

@fam('C02')
def detects(prop, r, b):
    box, m = b.box(), Model()
    prog = gen_prog(r, tests=2, calls=4)
    check_run(prop, box, prog, m)
    for _ in range(3):
        p2 = clone(prog)
        for c in calls_of(p2):
            if r.random() < .7:
                change(r, c)
            if r.random() < .2:
                c.setdefault('cfg', {})['Update'] = False
        check_run(prop, box, p2, m, **r.choice([dict(ci=True), dict(), dict(upd='clean'), dict(ci=True, upd='true')]))
    box.done()


PAIRS = [('---', '/-/-/-/'), ('/-/-/-/', '//-/-/-/'), ('a', 'a\n'), ('a', '\na'), ('', '\n'), ('\xff', '\xfe'), ('\xff', '\xef\xbf\xbd'), ('a\n', 'a\n\n'), ('a b', 'a  b'), ('\xed\xa0\x80', '\xed\xa0\x81'),
         ('x\n\xff\ny', 'x\n\xfe\ny'), ('1', '01'), ('a\x00', 'a'), ('---\n/-/-/-/', '/-/-/-/\n---'), ('a\xff\xff', 'a\xff'), ('k\xc3', 'k\xc4'), (' ', ''), ('a\rb', 'a\nb'), ('A', 'a'),
         ('x' * 70000, 'x' * 69999 + 'y'), ('x' * 70000 + '\n---', 'x' * 70000 + '\n/-/-/-/'), ('l\n' * 50, 'l\n' * 51), ('\u21b5'.encode().decode('latin-1'), '\n'), ('a\n\nb', 'a\n\u21b5\nb'.encode().decode('latin-1'))]


@fam('C02', 'C13')
def pairs(prop, r, b):
    for nocolor in (True, False):
        box, m = b.box(), Model()
        ps = PAIRS + [(y, x) for x, y in PAIRS]
        prog = {'tests': [{'name': 'TestA', 'body': [{'kind': 'snap', 'vals': [x]} for x, y in ps]}, {'name': 'TestB', 'body': [{'kind': 'ssnap', 'vals': [x]} for x, y in ps]}]}
        p2 = {'tests': [{'name': 'TestA', 'body': [{'kind': 'snap', 'vals': [y]} for x, y in ps]}, {'name': 'TestB', 'body': [{'kind': 'ssnap', 'vals': [y]} for x, y in ps]}]}
        check_run(prop, box, prog, m, nocolor=nocolor)
        check_run(prop, box, p2, m, nocolor=nocolor, ci=True)
        check_run(prop, box, p2, m, nocolor=nocolor)
        box.done()


pairs.once = True


# ------------------------------------------------------------------ C03

@fam('C03')
def stable(prop, r, b):
    """slots do not move whatever else runs; a failing call consumes its ordinal; -count"""
    box, m = b.box(), Model()
    prog = gen_prog(r, tests=4, calls=4, par=.4)
    for c in calls_of(prog):
        if c['kind'] in ('json', 'sjson') and r.random() < .25:
            c['bad'], c['badtext'] = True, '{"a":'
    check_run(prop, box, prog, m, count=r.choice([1, 2, 3]), args=['-test.parallel=8'])
    p2 = clone(prog)
    for c in calls_of(p2):
        if r.random() < .3:
            change(r, c)
        if r.random() < .2:
            c.setdefault('cfg', {})['Update'] = r.random() < .5
    check_run(prop, box, shuffle_tests(r, p2), m, count=r.choice([1, 2]))
    # a subset of the tests
    p3 = clone(prog)
    p3['tests'] = r.sample(p3['tests'], r.randint(1, len(p3['tests'])))
    check_run(prop, box, p3, m, upd='true')
    check_run(prop, box, prog, m, ci=True)
    box.done()


# ------------------------------------------------------------------ C04

@fam('C04')
def converges(prop, r, b):
    box, m = b.box(), Model()
    prog = gen_prog(r, tests=3, calls=5)
    check_run(prop, box, prog, m)
    for _ in range(2):
        for c in calls_of(prog):
            if r.random() < .5:
                change(r, c)
            elif r.random() < .1 and c['kind'] == 'snap':
                c['vals'] = [r.choice(['', 'x' * 5000, '\n'.join(TOK)])]
        if r.random() < .5:
            check_run(prop, box, prog, m, upd='true', count=r.choice([1, 2]))
        else:
            p2 = clone(prog)
            for c in calls_of(p2):
                c.setdefault('cfg', {})['Update'] = True
            check_run(prop, box, p2, m, upd=r.choice([None, 'false', 'clean']))
        check_run(prop, box, prog, m, ci=True)
        check_run(prop, box, prog, m, upd='true')
    box.done()


# ------------------------------------------------------------------ C05

@fam('C05')
def modes(prop, r, b):
    box = b.box()
    m = Model()
    kinds = ['snap', 'json', 'yaml', 'ssnap', 'sjson']
    base = {'tests': []}
    for u in (None, True, False):
        body = []
        for k in kinds:
            for _ in range(3):
                c = gen_call(r, [k], cfgs=False)
                if u is not None:
                    c['cfg'] = {'Update': u}
                body.append(c)
        base['tests'].append({'name': 'Test%s' % u, 'body': body})
    # slots 1 match, 2 differ, 3 are missing
    pre = clone(base)
    for t in pre['tests']:
        for i, c in enumerate(t['body']):
            c['cfg'] = {'Update': True}
    keep = clone(base)
    check_run(prop, box, pre, m)
    for t in base['tests']:
        n = {}
        for c in t['body']:
            n[c['kind']] = n.get(c['kind'], 0) + 1
            if c['kind'] in ('ssnap', 'sjson'):
                if n[c['kind']] >= 2:
                    change(r, c)
            elif n[c['kind']] == 2:
                change(r, c)
        t['body'] += [gen_call(r, [k], cfgs=False) for k in kinds for _ in range(2)]
        for c in t['body']:
            u = {'TestNone': None, 'TestTrue': True, 'TestFalse': False}[t['name']]
            c['cfg'] = {} if u is None else {'Update': u}
    stale = '\n[TestGone - 1]\nold\n---\n'
    box.put('dyn_test.snap', box.files()['dyn_test.snap'] + stale)
    m.multi['dyn_test.snap'].append(['TestGone - 1', 'old'])
    box.put('gone_test.snap', stale)
    saved = box.files()
    for ci in (False, True):
        for upd in (None, 'true', 'false', 'clean', 'always', '1', 'TRUE', ''):
            for f in list(box.files()):
                if f not in saved:
                    os.remove(os.path.join(box.dir, f))
            for f, t in saved.items():
                box.put(f, t)
            m2 = m.copy()
            check_run(prop, box, base, m2, ci=ci, upd=upd)
    # Clean under every mode
    for ci in (False, True):
        for upd in (None, 'true', 'false', 'clean', 'always', ''):
            for sort in (False, True):
                bx = b.box()
                pre = {'tests': [{'name': 'TestK', 'body': [{'kind': 'snap', 'vals': ['v']}, {'kind': 'ssnap', 'vals': ['w']}]}]}
                order = '\n[TestZ - 1]\nold\n---\n\n[TestK - 1]\nv\n---\n\n[TestA - 1]\nold\n---\n'
                bx.put('dyn_test.snap', order)
                bx.put('old_test.snap', stale)
                bx.put('TestK_1.snap', 'w')
                bx.put('TestK_2.snap', 'w')
                bx.put('notes.txt', 'mine')
                res = bx.run(scenario(pre, {'Sort': sort}), ci=ci, upd=upd)
                if res is None:
                    raise Violation(prop, 'Clean died', dict(log=bx.log, out=bx.out[-2000:]))
                got = bx.files()
                rm = not ci and upd in ('true', 'clean')
                want = {'dyn_test.snap', 'old_test.snap', 'TestK_1.snap', 'TestK_2.snap', 'notes.txt'} - ({'old_test.snap', 'TestK_2.snap'} if rm else set())
                if set(got) != want:
                    raise Violation(prop, 'Clean (CI=%s UPDATE_SNAPS=%s sort=%s) left %s, expected %s' % (ci, upd, sort, sorted(got), sorted(want)), dict(log=bx.log))
                ids = [e[0] for e in parse(got['dyn_test.snap']) or []]
                w = ['TestK - 1'] if rm else ['TestZ - 1', 'TestK - 1', 'TestA - 1']
                if sort and not ci:
                    w = sorted(w)
                if ids != w:
                    raise Violation(prop, 'Clean (CI=%s UPDATE_SNAPS=%s sort=%s): entries %s, expected %s' % (ci, upd, sort, ids, w), dict(log=bx.log))
                if (not rm and not (sort and not ci)) and got['dyn_test.snap'] != order:
                    raise Violation(prop, 'Clean rewrote a file in a read-only mode', dict(log=bx.log))
                bx.done()
    box.done()


modes.once = True


# ------------------------------------------------------------------ C06

@fam('C06')
def parallel(prop, r, b, kind='plain'):
    box, m = b.box(), Model()
    names = ['TestP%d' % i for i in range(12)]
    def prog(vals):
        ts = []
        for n in names:
            body = []
            for k in range(5):
                body.append(dict(vals[(n, k)]))
            ts.append({'name': n, 'par': True, 'body': body})
        return {'tests': ts}
    vals = {}
    shared = {'S': {}, 'U': {'Update': True}, 'F': {'Update': False}}
    for n in names:
        for k in range(5):
            c = {'kind': 'snap', 'vals': [gen_text(r) + n]}
            if r.random() < .2:
                c = gen_call(r, ['json', 'yaml', 'ssnap', 'sjson'], cfgs=False)
            vals[(n, k)] = c
    p = prog(vals)
    # half of it exists
    first = clone(p)
    for t in first['tests']:
        t['body'] = t['body'][:r.randint(0, 4)]
    check_run(prop, box, first, m, args=['-test.parallel=16'], kind=kind)
    for c in vals.values():
        if r.random() < .5:
            change(r, c)
        u = r.choice([None, None, True, False])
        c.pop('cfg', None)
        if u is not None:
            c['cfg'] = {'Update': u}
            c['shared'] = 'U' if u else 'F'
        else:
            c['shared'] = 'S'
    p = prog(vals)
    p['shared'] = shared
    sk = {'name': 'TestSkip', 'par': True, 'body': [{'kind': r.choice(['skip', 'skipf', 'skipnow'])}]}
    p['tests'].append(sk)
    p['tests'].append({'name': 'TestSkip2', 'par': True, 'body': [{'kind': 'skip'}]})
    check_run(prop, box, p, m, args=['-test.parallel=16'], upd=r.choice([None, 'true']), kind=kind, clean={'Sort': False, 'None': True})
    q = clone(p)
    for c in calls_of(q):
        c.pop('cfg', None)
        c.pop('shared', None)
    m2 = m.copy()
    check_run(prop, box, q, m2, ci=True, args=['-test.parallel=16'], kind=kind)
    box.done()


@fam('C06')
def parallel_race(prop, r, b):
    for _ in range(3):
        parallel(prop, r, b, kind='race')


parallel_race.once = True
parallel_race.kinds = ('race',)


def hot_ordinals(prop, r, b):
    """goroutines of one test draw ordinals at the same time; every Unlock hands the processor over"""
    n, per = 16, 40
    for op in ('ssnap', 'snap', 'yaml', 'sjson'):
        box = b.box()
        st = []
        for i in range(n):
            s = {'Op': op, 'N': per}
            if op in ('snap', 'ssnap'):
                s['Vals'] = ['same']
            else:
                s['In'], s['Text'] = 'str', '{"a":1}'
            st.append(s)
        sc = {'Tests': [{'Name': 'TestHot', 'Steps': [{'Op': 'go', 'Steps': st}]}], 'Clean': {'Sort': False, 'N': 1}}
        for run, ci in (('record', False), ('replay', True)):
            res = box.run(sc, ci=ci, kind='yield')
            if res is None:
                raise Violation(prop, 'the process died', dict(out=box.out[-3000:], log=box.log))
            want = 'passed' if ci else 'added'
            got = {}
            for x in res['Recs']:
                o = observed(x)
                got[o] = got.get(o, 0) + 1
            if got != {want: n * per}:
                raise Violation(prop, '%s: %d concurrent calls of one test gave %s, expected all %s' % (op, n * per, got, want), dict(log=box.log))
            m = re.search(r'(\d+) snapshots? %s' % want, res['Stdout'])
            if not m or int(m.group(1)) != n * per:
                raise Violation(prop, '%s: the summary counts %s of %d calls as %s' % (op, m and m.group(1), n * per, want), dict(log=box.log))
            fs = box.files()
            if op in ('ssnap', 'sjson'):
                ids = sorted(fs)
                exp = sorted('TestHot_%d.snap%s' % (k, '.json' if op == 'sjson' else '') for k in range(1, n * per + 1))
            else:
                ids = sorted(e[0] for e in parse(fs.get('dyn_test.snap', '')) or [])
                exp = sorted('TestHot - %d' % k for k in range(1, n * per + 1))
            if ids != exp:
                raise Violation(prop, '%s: %d concurrent calls of one test filled %d slots: missing %s' % (op, n * per, len(set(ids)), sorted(set(exp) - set(ids))[:5]), dict(log=box.log))
        box.done()


hot_ordinals.once = True
hot_ordinals.kinds = ('yield',)
fam('C06')(hot_ordinals)


@fam('C06')
def parallel_yield(prop, r, b):
    parallel(prop, r, b, kind='yield')


parallel_yield.kinds = ('yield',)


# ------------------------------------------------------------------ C12

@fam('C12', 'C11')
def two_directories(prop, r, b):
    """one Config used by the tests of two directories"""
    other = os.path.join(b.h, 'other')
    box = b.box()
    ops = ['snap', 'yaml', 'json', 'ssnap', 'sjson']
    for d in (None, 'snapdir', '../up', 'a/b'):
        g = {} if d is None else {'Dir': d}
        if r.random() < .3:
            g['Filename'] = 'fn'
        st, want, k = [], set(), {}
        for op, there in [(op, w) for op in ops for w in r.sample([True, True, False, False], 4)]:
            s = {'Op': op, 'Shared': 'S', 'Style': 'other' if there else ''}
            if op in ('snap', 'ssnap'):
                s['Vals'] = ['v']
            else:
                s['In'], s['Text'] = 'str', '{"a":1}'
            st.append(s)
            base = os.path.normpath(os.path.join(other if there else b.h, d or '__snapshots__'))
            if op in ('ssnap', 'sjson'):
                f = os.path.join(base, g.get('Filename', 'TestT')) + '_%d.snap' + ('.json' if op == 'sjson' else '')
                k[f] = k.get(f, 0) + 1
                want.add(f % k[f])
            else:
                want.add(os.path.join(base, g.get('Filename', 'elsewhere_test' if there else 'dyn_test') + '.snap'))
        def collect():
            return {os.path.join(x, f) for x, ds, fs in os.walk(b.h) for f in fs if '.snap' in f} | {os.path.join(x, f) for x, ds, fs in os.walk(os.path.join(os.path.dirname(b.h), 'up')) for f in fs}
        had = collect()
        res = box.run({'Tests': [{'Name': 'TestT', 'Steps': st}], 'Shared': {'S': g}}, usedir=False)
        got = collect() - had
        for f in got:
            os.remove(f)
        if res is None:
            raise Violation(prop, 'the process died', dict(out=box.out[-3000:], log=box.log))
        if got != want:
            raise Violation(prop, 'one Config in two directories: files %s, expected %s' % (sorted(got - want)[:5], sorted(want - got)[:5]), dict(log=box.log))
        for x in res['Recs']:
            if x.get('Cfg'):
                raise Violation(prop, 'a Config changed: ' + x['Cfg'], dict(log=box.log))
            if observed(x) != 'added':
                raise Violation(prop, 'one Config in two directories: ' + observed(x), dict(log=box.log))
    box.done()


two_directories.once = True
two_directories.kinds = ('plain',)

@fam('C12')
def shared_configs(prop, r, b):
    """one Config for calls of every kind, in any order"""
    box, m = b.box(), Model()
    g = {}
    if r.random() < .4:
        g['Ext'] = r.choice(['.txt', '.json'])
    if r.random() < .4:
        g['Filename'] = 'shared'
    if r.random() < .4:
        g['JSON'] = {'Width': r.choice([0, 40, 120]), 'Indent': r.choice(['', ' ', '    ']), 'SortKeys': r.random() < .5}
    if r.random() < .3:
        g['Update'] = True
    body = []
    for _ in range(r.randint(2, 8)):
        c = gen_call(r, ['snap', 'json', 'yaml', 'ssnap', 'sjson'], cfgs=False)
        c['cfg'], c['shared'] = g, 'S'
        c.pop('style', None)
        body.append(c)
    other = []
    for _ in range(r.randint(1, 4)):
        c = gen_call(r, ['snap', 'json', 'ssnap', 'sjson'], cfgs=False)
        other.append(c)
    # keep the test names apart: standalone files are named after the test unless Filename is given
    prog = {'tests': [{'name': 'TestA', 'body': body}, {'name': 'TestB', 'body': other}], 'shared': {'S': g}}
    check_run(prop, box, prog, m)
    # the same calls through fresh configs
    p2 = clone(prog)
    for c in calls_of(p2):
        c.pop('shared', None)
    p2.pop('shared')
    check_run(prop, box, p2, m, ci=True)
    check_run(prop, box, prog, m, ci=True)
    box.done()


# ------------------------------------------------------------------ C19

@fam('C19')
def standalone(prop, r, b):
    box, m = b.box(), Model()
    prog = gen_prog(r, kinds=('ssnap', 'ssnap', 'sjson'), tests=3, calls=5)
    extra = ['\r', 'a\r\nb\r\n', '\n', '', '---', '/-/-/-/', '\x00\xff', 'a\n---\n', '\r\n---\r\n', '[TestA - 1]\n---\n', '\r\r', 'a\r']
    prog['tests'].append({'name': 'TestRaw', 'body': [{'kind': 'ssnap', 'vals': [v]} for v in r.sample(extra, 5)]})
    check_run(prop, box, prog, m, count=r.choice([1, 2]))
    check_run(prop, box, prog, m, ci=True)
    for c in calls_of(prog):
        if r.random() < .6:
            change(r, c)
            if c['kind'] == 'ssnap' and r.random() < .4:
                c['vals'][0] += r.choice(['\r', '\r\n', '\n', ' '])
    m2 = m.copy()
    check_run(prop, box, prog, m2)
    check_run(prop, box, prog, m, upd='true')
    check_run(prop, box, prog, m, ci=True)
    box.done()


@fam('C19', 'C02')
def standalone_bytes(prop, r, b):
    """every difference of the bytes counts, carriage returns included"""
    box, m = b.box(), Model()
    ps = [('a\r\n', 'a\n'), ('a\r', 'a'), ('a', 'a\n'), ('---', '/-/-/-/'), ('/-/-/-/', '---'), ('\xff', '\xfe'), ('\r', ''), ('a\r\nb', 'a\nb'), ('', '\n'), ('//-/-/-/', '/-/-/-/')]
    ps += [(y, x) for x, y in ps]
    t1 = {'tests': [{'name': 'TestA', 'body': [{'kind': 'ssnap', 'vals': [x]} for x, y in ps]}]}
    t2 = {'tests': [{'name': 'TestA', 'body': [{'kind': 'ssnap', 'vals': [y]} for x, y in ps]}]}
    check_run(prop, box, t1, m)
    check_run(prop, box, t2, m, ci=True)
    check_run(prop, box, t1, m, ci=True)
    check_run(prop, box, t2, m, upd='true')
    check_run(prop, box, t2, m, ci=True)
    box.done()


standalone_bytes.once = True
