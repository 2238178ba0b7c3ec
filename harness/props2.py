import functools, itertools, re, subprocess, textwrap
from engine import *
import props
from props import fam, clone, FAM, shuffle_tests


def vio(prop, box, what, **d):
    raise Violation(prop, what, dict(d, log=box.log))


# ------------------------------------------------------------------ Clean

def split_re(s, sep):
    out, cs, cp, cur, i = [], 0, 0, '', 0
    while i < len(s):
        ch = s[i]
        if ch == '[':
            cs += 1
        elif ch == ']':
            cs = max(0, cs - 1)
        elif ch == '(' and cs == 0:
            cp += 1
        elif ch == ')' and cs == 0:
            cp -= 1
        elif ch == '\\':
            cur += ch
            i += 1
            ch = s[i] if i < len(s) else ''
        elif ch == sep and cs == 0 and cp == 0:
            out.append(cur)
            cur = ''
            i += 1
            continue
        cur += ch
        i += 1
    return out + [cur]


def selected(name, pat):
    if pat == '':
        return True
    for alt in split_re(pat.replace(' ', '_'), '|'):
        ps = split_re(alt, '/')
        if all(re.search(p, e) for p, e in zip(ps, name.split('/'))):
            return True
    return False


def natkey(s):
    """order of github.com/maruel/natural for the ids used here: runs of digits compare by value"""
    return [(0, int(x)) if x.isdigit() else (1, x) for x in re.findall(r'\d+|\D+', s)]


def nat_less(a, b):
    # chunk by chunk: digits against digits by value, otherwise bytes
    x, y = re.findall(r'\d+|\D+', a), re.findall(r'\d+|\D+', b)
    for p, q in zip(x, y):
        if p == q:
            continue
        if p.isdigit() and q.isdigit() and int(p) != int(q):
            return int(p) < int(q)
        # common prefix, then what follows decides
        return a < b if not (p.isdigit() or q.isdigit()) else a < b
    return len(x) < len(y)


SKIPOPS = ['skip', 'skipf', 'skipnow']


def gen_clean(r, names=None, pats=True, skips=True, sort=None):
    """a directory with history, tests that address part of it, and a mode"""
    names = names or r.sample(['TestA', 'TestB', 'TestC', 'TestAB', 'TestA2', 'TestA10', 'Test_x', 'TestD'], r.randint(2, 5))
    tests = []
    for n in names:
        body = []
        k = r.random()
        if skips and k < .25:
            body = [{'kind': r.choice(SKIPOPS)}]
            if r.random() < .5:
                body.insert(0, {'kind': 'snap', 'vals': [gen_text(r)]})
        else:
            for _ in range(r.randint(0, 4)):
                body.append(gen_call(r, ['snap', 'snap', 'yaml', 'ssnap'], cfgs=False))
            for i in range(r.randint(0, 3)):
                sb = [gen_call(r, ['snap', 'ssnap'], cfgs=False) for _ in range(r.randint(1, 2))]
                if skips and r.random() < .3:
                    sb = [{'kind': r.choice(SKIPOPS)}]
                body.append({'sub': r.choice(['s', 'sub', 'x']) + str(i), 'body': sb})
        if r.random() < .12:
            many = r.choice(['snap', 'snap', 'yaml', 'ssnap'])
            body = [gen_call(r, [many], cfgs=False) for _ in range(r.choice([9, 10, 11, 12, 21]))] + body
        for c in list(walk(body, '')):
            if r.random() < .25 and c[1]['kind'] in ('snap', 'yaml'):
                c[1]['cfg'] = {'Filename': 'f1'}
        tests.append({'name': n, 'body': body})
    return {'tests': tests}


def executed(prog, pat):
    """what runs: per test, cut at the first skip; returns the program that runs and the names skipped"""
    skipped = []

    def cut(body, name):
        out = []
        for it in body:
            if 'sub' in it:
                n = name + '/' + it['sub']
                if selected(n, pat):
                    out.append({'sub': it['sub'], 'body': cut(it['body'], n)[0]})
                continue
            out.append(it)
            if it['kind'] in SKIPOPS:
                skipped.append(name)
                break
        return out, None
    ts = []
    for t in prog['tests']:
        if selected(t['name'], pat):
            ts.append({'name': t['name'], 'body': cut(t['body'], t['name'])[0]})
    return {'tests': ts}, skipped


def protected(name, skipped, pat):
    return any(name == s or name.startswith(s + '/') for s in skipped) or not selected(name, pat)


def parse_summary(out):
    d = {'passed': 0, 'failed': 0, 'added': 0, 'updated': 0, 'skipped': 0}
    for m in re.finditer(r'(?m)^\S* ?(\d+) snapshots? (passed|failed|added|updated|skipped)$', out):
        d[m.group(2)] += int(m.group(1))
    lists = {'file': None, 'test': None}
    cur = None
    act = {}
    for l in out.split('\n'):
        m = re.match(r'^\S+ (\d+) snapshot (file|test)s? (obsolete|removed)$', l)
        if m:
            cur = m.group(2)
            lists[cur] = []
            act[cur] = (int(m.group(1)), m.group(3))
            continue
        m = re.match(r"^  \S+\s+\S+ (.*)$", l)
        if m and cur:
            lists[cur].append(m.group(1))
    return d, lists, act


def clean_case(prop, r, b, pats=True, skips=True, sortp=.5, modes=None):
    box = b.box()
    prog = gen_clean(r, skips=skips)
    names = [t['name'] for t in prog['tests']]
    pat = ''
    if pats and r.random() < .6:
        a = r.choice(names)
        c = r.choice(names)
        pat = r.choice([a, a + '$', '^%s$' % a, '%s|%s' % (a, c), '%s/s0' % a, '^%s$/^sub1$' % a, '(%s|%s)/s' % (a, c), 'Test[AB]', '/s0', '%s/s0|%s/x1' % (a, c), a + '/', 'Test', 'Nope', a + '/sub', 'TestA', 'A'])
    run, skipped = executed(prog, pat)
    # what is stored already: values for everything the program can address, and more
    m = Model()
    store = {}
    full = prog
    ex = predict(clone(full), m, False, 'true')
    junk = []
    for p, ents in list(m.multi.items()):
        extra = []
        for _ in range(r.randint(0, 5)):
            n = r.choice(names + ['TestGone', 'TestA/gone', 'TestB/s0', 'TestAB/s0', 'TestA0', 'TestA/s0/deep', 'Test_x/y', 'ExampleX', 'FuzzZ', 'TestZ/%d'])
            extra.append(['%s - %d' % (n, r.choice([1, 2, 3, 5, 10, 11])), gen_text(r)])
        have = {e[0] for e in ents}
        for e in extra:
            if e[0] not in have:
                ents.append(e)
                have.add(e[0])
        if r.random() < .7:
            r.shuffle(ents)
        text = ''
        for i, v in ents:
            text += '\n[%s]\n%s\n---\n' % (i, esc(v))
        box.put(p, text)
    for p, v in m.alone.items():
        box.put(p, v)
    files = {}
    for f in r.sample(['old_test.snap', 'other_test.snap.txt', 'TestGone_1.snap', 'TestA_99.snap', 'TestGone_2.snap.json', 'x.snapshot', 'a.snapz'], r.randint(0, 5)):
        n = r.choice(names + ['TestGone', 'TestOther', 'TestA/gone'])
        files[f] = 'stale' if f.startswith('TestGone') else '\n[%s - 1]\nstale\n---\n' % n
        box.put(f, files[f])
    for f, t in (('notes.txt', 'mine'), ('snap.txt', 'mine'), ('sub/inner.snap', 'deep'), ('readme', ''), ('SNAP', 'x')):
        if r.random() < .5:
            box.put(f, t)
    outside = os.path.join(box.d, 'elsewhere')
    os.makedirs(outside)
    open(os.path.join(outside, 'z_test.snap'), 'w').write('\n[TestQ - 1]\nq\n---\n')
    mode = r.choice(modes or [dict(), dict(upd='true'), dict(upd='clean'), dict(upd='clean'), dict(ci=True, upd='clean'), dict(upd='false')])
    sort = r.random() < sortp
    count = r.choice([1, 1, 2, 3])
    if '/' in pat:
        count = 1  # testing does not repeat a run in which no name matched in full
    before = box.files()
    box.age()
    args = ['-test.count=%d' % count]
    if pat:
        args.append('-test.run=' + pat)
    m2 = m.copy()
    exp = predict(run, m2, mode.get('ci', False), mode.get('upd'), count)
    res = box.run(scenario(prog, {'Sort': sort, 'N': 2}), args=args, **mode)
    if res is None:
        vio(prop, box, 'the process died', out=box.out[-3000:])
    after = box.files()
    outs = res['Stdout'].split('\x00')
    tot, lists, act = parse_summary(outs[0].encode('latin-1').decode('utf-8'))
    removing = not mode.get('ci') and mode.get('upd') in ('true', 'clean')
    sorting = sort and not mode.get('ci')
    # -- entries
    listed = list(lists['test'] or [])
    must, never, may = [], set(), set()
    for p, ents in m2.multi.items():
        addr = exp['addr'].get(p)
        for i, v in ents:
            n, k = i.rsplit(' - ', 1)
            if addr is None:
                continue
            if int(k) <= addr.get(n, 0):
                never.add((p, i))
            elif protected(n, skipped, pat):
                never.add((p, i))
            elif pat == '':
                must.append(i)
            else:
                may.add(i)
    ctx = dict(pattern=pat, skipped=skipped, mode=mode, sort=sort, count=count, listed=lists, before=before, after=after)
    alln = [i for p, ents in m2.multi.items() if p in exp['addr'] for i, v in ents]
    for i in set(listed):
        c = listed.count(i)
        if c > must.count(i) + (alln.count(i) - sum(1 for q in never if q[1] == i) - must.count(i)):
            vio(prop, box, 'entry [%s] is listed obsolete although it is in use or protected' % i, **ctx)
    for i in must:
        if listed.count(i) != must.count(i):
            vio(prop, box, 'stale entry [%s] is listed %d times, expected %d' % (i, listed.count(i), must.count(i)), **ctx)
    if act.get('test') and act['test'] != (len(listed), 'removed' if removing else 'obsolete'):
        vio(prop, box, 'summary header %s for %d obsolete entries' % (act['test'], len(listed)), **ctx)
    # -- files
    lf = [os.path.relpath(f, box.dir) for f in (lists['file'] or [])]
    used = set(exp['addr']) | set(exp['salone'])
    visited = bool(used)
    for f in before:
        direct = '/' not in f and '.snap' in f
        if f in lf:
            if f in used:
                vio(prop, box, 'file %s is listed obsolete although it was used' % f, **ctx)
            if not direct or not visited:
                vio(prop, box, 'file %s must never be listed' % f, **ctx)
        if not direct or not visited or f in used:
            if f in lf or after.get(f) is None:
                vio(prop, box, 'file %s was %s' % (f, 'listed' if f in lf else 'removed'), **ctx)
            continue
        owners = [i.rsplit(' - ', 1)[0] for i, _ in (parse(before[f]) or [])]
        prot = any(protected(n, skipped, pat) for n in owners)
        alone = f in m.alone
        maybe = alone or f.startswith('TestA_')
        if alone:
            own = [t for t in tests_with_alone(prog, f)]
            prot = prot or any(protected(n, skipped, pat) for n in own)
        if prot and (f in lf or f not in after):
            vio(prop, box, 'file %s of a test that did not run is %s' % (f, 'listed' if f in lf else 'removed'), owners=owners, **ctx)
        if not prot and pat == '' and f not in lf and not any(f.startswith(s.replace('/', '_') + '_') for s in skipped):
            vio(prop, box, 'stale file %s is not listed' % f, **ctx)
    for f in lf:
        if (f in after) == removing:
            vio(prop, box, 'file %s is listed and %s' % (f, 'kept' if f in after else 'removed'), **ctx)
    for f in before:
        if f not in after and f not in lf:
            vio(prop, box, 'file %s vanished' % f, **ctx)
    if not os.path.exists(os.path.join(outside, 'z_test.snap')):
        vio(prop, box, 'a directory no test addressed was touched', **ctx)
    # -- contents
    for p in after:
        if p not in exp['addr']:
            if p in before and after[p] != before[p] and p not in exp['salw']:
                vio(prop, box, 'file %s changed' % p, **ctx)
            continue
        ents = parse(after[p])
        if ents is None:
            vio(prop, box, '%s is torn' % p, **ctx)
        want = [(i, v) for i, v in m2.multi[p]]
        gone = [i for i, v in want if (p, i) not in never and i in listed] if removing else []
        surv = [(i, v) for i, v in want if i not in gone]
        ids = [i for i, _ in ents]
        if sorted(ids) != sorted(i for i, _ in surv):
            vio(prop, box, '%s holds %s, expected %s' % (p, sorted(ids), sorted(i for i, _ in surv)), **ctx)
        sv = dict(surv)
        for i, bd in ents:
            if bd != esc(sv[i]):
                vio(prop, box, '%s: [%s] replays %r instead of %r' % (p, i, unesc(bd), sv[i]), **ctx)
        if sorting:
            so = sorted(ids, key=functools.cmp_to_key(lambda x, y: -1 if nat_less(x, y) else (1 if nat_less(y, x) else 0)))
            if ids != so:
                vio(prop, box, '%s is not sorted: %s, expected %s' % (p, ids, so), **ctx)
        else:
            if p not in exp['new'] and ids != [i for i, _ in surv]:
                vio(prop, box, '%s was reordered' % p, **ctx)
        if not gone and p not in exp['new'] and p not in exp['changed'] and ids == [i for i, _ in want]:
            if p in box.written():
                vio(prop, box, '%s was rewritten without need' % p, **ctx)
    # -- totals
    if tot != exp['totals']:
        vio(prop, box, 'summary totals %s, expected %s' % (tot, exp['totals']), **ctx)
    # -- the second Clean of the same process changes nothing further; nothing it lists is new
    if removing:
        _, l2, _ = parse_summary(outs[1].encode('latin-1').decode('utf-8'))
        if l2['test'] or l2['file']:
            vio(prop, box, 'a second Clean still finds %s' % l2, **ctx)
    # -- replays
    if not pat:
        box.age()
        m3 = m2.copy()
        snap = box.files()
        e3 = predict(run, m3, True, None)
        r3 = box.run(scenario(prog), ci=True)
        if r3 is None:
            vio(prop, box, 'the replay died', out=box.out[-2000:], **ctx)
        for x in r3['Recs']:
            o = observed(x)
            if o.startswith('passed') or o in ('skipped', 'nothing'):
                continue
            if mode.get('ci') or mode.get('upd') == 'false' or mode == {}:
                if e3['totals']['failed']:
                    continue
            vio(prop, box, 'after Clean a call of %s is %s' % (x['Test'], o), **ctx)
        if box.files() != snap:
            vio(prop, box, 'the replay changed files', **ctx)
        if sorting or removing:
            a = box.files()
            box.age()
            r4 = box.run(scenario(prog, {'Sort': sort}), **mode)
            if box.files() != a or box.written():
                vio(prop, box, 'Clean is not idempotent', **ctx)
    box.done()


def tests_with_alone(prog, f):
    for t in prog['tests']:
        cnt = {}
        for name, c in walk(t['body'], t['name']):
            if c['kind'] in ('ssnap', 'sjson'):
                pat = alone_pat(c, name)
                cnt[pat] = cnt.get(pat, 0) + 1
                if '%s_%d%s' % (pat[0], cnt[pat], pat[1]) == f:
                    yield name


@fam('C07')
def clean_keeps(prop, r, b):
    clean_case(prop, r, b)


@fam('C08')
def clean_protects(prop, r, b):
    clean_case(prop, r, b, modes=[dict(upd='clean'), dict(), dict(upd='true')])


@fam('C09')
def clean_reports(prop, r, b):
    clean_case(prop, r, b, pats=False)


@fam('C10')
def clean_sorts(prop, r, b):
    clean_case(prop, r, b, pats=r.random() < .3, sortp=.85)


@fam('C20')
def clean_totals(prop, r, b):
    clean_case(prop, r, b)


@fam('C20')
def totals(prop, r, b):
    """failing, invalid and updating calls, in parallel"""
    box, m = b.box(), Model()
    prog = gen_prog(r, tests=4, calls=5, par=.6)
    check_run(prop, box, prog, m)
    for c in calls_of(prog):
        if c['kind'] in ('json', 'sjson', 'yaml') and r.random() < .3:
            c['bad'], c['badtext'] = True, '{"a":' if c['kind'] != 'yaml' else 'a: b: c'
        if r.random() < .4:
            change(r, c)
        if r.random() < .2:
            c.setdefault('cfg', {})['Update'] = r.random() < .5
    prog['tests'].append({'name': 'TestEmpty', 'par': True, 'body': [{'kind': 'snap', 'vals': []}]})
    for k in range(r.randint(0, 4)):
        prog['tests'].append({'name': 'TestSkip%d' % k, 'par': True, 'body': [{'kind': r.choice(SKIPOPS)}]})
    mode = r.choice([dict(), dict(upd='true'), dict(ci=True), dict(upd='clean')])
    res = check_run(prop, box, prog, m, count=r.choice([1, 2]), args=['-test.parallel=8'], clean={'Sort': False}, **({k: v for k, v in mode.items()} if mode.get('upd') not in ('clean', 'true') else dict(mode)))
    tot, lists, act = parse_summary(res['Stdout'].encode('latin-1').decode('utf-8'))
    if tot != res['exp']['totals']:
        vio(prop, box, 'summary totals %s, expected %s' % (tot, res['exp']['totals']), stdout=res['Stdout'])
    if (lists['test'] or lists['file']):
        vio(prop, box, 'items listed that are in use: %s' % lists, stdout=res['Stdout'])
    box.done()


# ------------------------------------------------------------------ C11

@fam('C11')
def locations(prop, r, b):
    src = b.h
    for kind in ('plain', 'trim'):
        for cwd_changed in (False, True):
            box = b.box()
            absd = os.path.join(box.d, 'abs %d%%')
            steps = []
            want = []
            tn = 'TestLoc%d'
            cases = []
            k = {}
            for op in ('snap', 'json', 'yaml', 'ssnap', 'sjson'):
                for d in (None, 'rel dir', '../up%s', absd, '.'):
                    for fn in (None, 'name', 'a.b', 'x%d'):
                        for ext in (None, '.txt'):
                            if r.random() < .55:
                                continue
                            g = {}
                            if d is not None:
                                g['Dir'] = d
                            if fn is not None:
                                g['Filename'] = fn
                            if ext is not None:
                                g['Ext'] = ext
                            cases.append((op, g))
            names = ['TestLoc%d', 'TestL/s']
            body = {n: [] for n in names}
            for op, g in cases:
                n = r.choice(names)
                base = os.path.join(src, '__snapshots__') if 'Dir' not in g else (g['Dir'] if os.path.isabs(g['Dir']) else os.path.normpath(os.path.join(src, g['Dir'])))
                e = g.get('Ext', '.json' if op == 'sjson' else '')
                if op in ('snap', 'json', 'yaml'):
                    p = os.path.join(base, g.get('Filename', 'dyn_test') + '.snap' + e)
                else:
                    f = os.path.join(base, (g.get('Filename') or n.replace('/', '_')))
                    if 'Filename' in g and (f, e) in k and k[(f, e)][0] != n:
                        continue
                    c = k.get((f, e), (n, 0))[1] + 1
                    k[(f, e)] = (n, c)
                    p = '%s_%d.snap%s' % (f, c, e)
                want.append(p)
                s = {'Op': op, 'Cfg': g, 'Style': r.choice(['', 'helper', 'deep', 'method'])}
                if op in ('snap', 'ssnap'):
                    s['Vals'] = ['v']
                else:
                    s['In'], s['Text'] = 'str', '{"a": 1}' if op != 'yaml' else 'a: 1\n'
                body[n].append(s)
            pre = [{'Op': 'chdir', 'Path': box.d}] if cwd_changed else []
            tests = [{'Name': 'TestLoc%d', 'Steps': pre + body['TestLoc%d']}, {'Name': 'TestL', 'Steps': [{'Op': 'sub', 'Name': 's', 'Steps': pre + body['TestL/s']}]}]
            def collect():
                out = set()
                for root in (b.root,):
                    for base, ds, fs in os.walk(root):
                        for f in fs:
                            if '.snap' in f:
                                out.add(os.path.join(base, f))
                return out
            had = collect()
            res = box.run({'Tests': tests}, kind=kind, usedir=False)
            got = collect() - had
            try:
                if res is None:
                    vio(prop, box, 'the process died', out=box.out[-2000:])
                if got != set(want):
                    vio(prop, box, '%s%s: files %s, expected %s' % (kind, ' after chdir' if cwd_changed else '', sorted(got - set(want))[:6], sorted(set(want) - got)[:6]))
                # and again: everything is found where it was put
                res = box.run({'Tests': tests}, kind=kind, usedir=False, ci=True)
                for x in (res or {'Recs': []})['Recs']:
                    if observed(x) != 'passed':
                        vio(prop, box, '%s: a second run does not find a snapshot: %s' % (kind, observed(x)))
            finally:
                for f in got:
                    os.remove(f)
            box.done()


locations.solo = True
locations.kinds = ('plain', 'trim')


@fam('C11')
def layouts(prop, r, b):
    """packages at several depths, helpers in other packages and files, with and without -trimpath"""
    root = os.path.join(b.root, 'lay')
    os.makedirs(root)
    mod = open(os.path.join(b.h, 'go.mod')).read().replace('module hh', 'module example.com/lay')
    open(os.path.join(root, 'go.mod'), 'w').write(mod)
    shutil.copy(os.path.join(b.h, 'go.sum'), root)
    test = textwrap.dedent('''
        package %s
        import ("testing"; "os"; "github.com/gkampitakis/go-snaps/snaps"; "example.com/lay/help")
        func TestOne(t *testing.T) {
            snaps.MatchSnapshot(t, "one")
            local(t)
            help.Deep(5, func() { snaps.MatchSnapshot(t, "three") })
            t.Run("sub/x", func(t *testing.T) { help.Call(t, "four"); snaps.MatchStandaloneSnapshot(t, "s"); snaps.MatchStandaloneJSON(t, "{}") })
            os.Chdir(os.TempDir())
            snaps.MatchSnapshot(t, "five")
        }
        func TestGo(t *testing.T) {
            done := make(chan bool)
            go func() { defer close(done); snaps.WithConfig(snaps.Filename("g")).MatchSnapshot(t, "go") }()
            <-done
        }
    ''')
    helperf = 'package %s\nimport ("testing"; "github.com/gkampitakis/go-snaps/snaps")\nfunc local(t *testing.T) { snaps.MatchSnapshot(t, "two") }\n'
    os.makedirs(os.path.join(root, 'help'))
    open(os.path.join(root, 'help', 'help.go'), 'w').write('package help\nimport ("testing"; "github.com/gkampitakis/go-snaps/snaps")\nfunc Call(t *testing.T, s string) { snaps.MatchSnapshot(t, s) }\nfunc Deep(n int, f func()) { if n == 0 { f(); return }; Deep(n-1, f) }\n')
    want = set()
    for d, p in (('', 'lay'), ('p', 'p'), ('p/q/r', 'r'), ('has.dot', 'hd')):
        dd = os.path.join(root, d)
        os.makedirs(dd, exist_ok=True)
        open(os.path.join(dd, 'my.first_test.go'), 'w').write(test % p)
        open(os.path.join(dd, 'local.go'), 'w').write(helperf % p)
        for f in ('my.first_test.snap', 'TestOne_sub_x_1.snap', 'TestOne_sub_x_1.snap.json', 'g.snap'):
            want.add(os.path.normpath(os.path.join(d, '__snapshots__', f)))
    box = b.box()
    first = None
    for flags in ([], ['-trimpath']):
        p = subprocess.run(['go', 'test', '-vet=off', '-count=1'] + flags + ['./...'], cwd=root, env=goenv(), capture_output=True, text=True, timeout=300)
        got, texts = set(), {}
        for base, ds, fs in os.walk(root):
            for f in fs:
                if '.snap' in f:
                    q = os.path.relpath(os.path.join(base, f), root)
                    got.add(q)
                    texts[q] = open(os.path.join(base, f), 'rb').read()
        if got != want or p.returncode != 0:
            vio(prop, box, 'go test %s: files %s, expected %s' % (flags, sorted(got - want), sorted(want - got)), out=p.stdout[-2000:] + p.stderr[-1000:])
        if first is not None and texts != first:
            vio(prop, box, 'go test %s changed the snapshots' % flags)
        first = texts
        p = subprocess.run(['go', 'test', '-vet=off', '-count=1'] + flags + ['./...'], cwd=root, env=goenv({'CI': 'true'}), capture_output=True, text=True, timeout=300)
        if p.returncode != 0:
            vio(prop, box, 'go test %s does not find its snapshots' % flags, out=p.stdout[-2000:])
    box.done()
    shutil.rmtree(root)


layouts.once = True
layouts.solo = True


@fam('C11', 'C12', 'C19')
def location_random(prop, r, b):
    box, m = b.box(), Model()
    prog = gen_prog(r, kinds=('snap', 'json', 'ssnap', 'sjson'))
    check_run(prop, box, prog, m)
    check_run(prop, box, prog, m, ci=True)
    box.done()


# ------------------------------------------------------------------ C13

def check_report(prop, box, a, bb, rep):
    al, bl = a.split('\n'), bb.split('\n')
    if '\x1b' in rep.replace(a, '') and '\x1b' not in a + bb:
        vio(prop, box, 'escape sequences in NO_COLOR mode', report=rep)
    m = re.match(r'^\n- Snapshot +- (\d+)\n\+ Received +\+ (\d+)\n\n', rep)
    if not m:
        vio(prop, box, 'no header', report=rep)
    nd, ni = int(m.group(1)), int(m.group(2))
    tail = re.search(r'\nat [^\n]*:\d+\n$', rep)
    if not tail:
        vio(prop, box, 'no footer', report=rep)
    ls = rep[m.end():tail.start()].split('\n')
    if ls and ls[-1] == '':
        ls.pop()
    minus, plus, i = [], [], 0
    while i < len(ls):
        l = ls[i]
        if l.startswith('- '):
            minus.append(l[2:])
        elif l.startswith('+ '):
            plus.append(l[2:])
        elif re.match(r'^@@ -\d+(,\d+)? \+\d+(,\d+)? @@$', l):
            i += 1
            if i < len(ls) and ls[i] != '':
                vio(prop, box, 'bad hunk header', report=rep)
        elif l.startswith('  '):
            pass
        else:
            vio(prop, box, 'unexpected report line %r' % l, report=rep, a=a, b=bb)
        i += 1
    if (len(minus), len(plus)) != (nd, ni):
        vio(prop, box, 'header counts -%d +%d, shown -%d +%d' % (nd, ni, len(minus), len(plus)), report=rep, a=a, b=bb)
    # removing the shown lines leaves the same lines
    def remove(ls, xs):
        out = list(ls)
        for x in xs:
            if x not in out:
                return None
            out.remove(x)
        return out
    ra, rb = remove(al, minus), remove(bl, plus)
    if ra is None:
        vio(prop, box, 'a - line is not a line of the stored text', report=rep, a=a, b=bb)
    if rb is None:
        vio(prop, box, 'a + line is not a line of the received text', report=rep, a=a, b=bb)
    # in order: some choice of occurrences leaves equal sequences
    if not same_after(al, minus, bl, plus):
        vio(prop, box, 'the texts without the shown lines differ', report=rep, a=a, b=bb)


def same_after(al, minus, bl, plus):
    """can al lose minus (in order) and bl lose plus (in order) so that the rest is equal?"""
    import sys
    states = {(0, 0, 0, 0)}
    na, nb, nm, np_ = len(al), len(bl), len(minus), len(plus)
    seen = set(states)
    st = list(states)
    while st:
        i, j, x, y = st.pop()
        if i == na and j == nb and x == nm and y == np_:
            return True
        nxt = []
        if i < na and x < nm and al[i] == minus[x]:
            nxt.append((i + 1, j, x + 1, y))
        if j < nb and y < np_ and bl[j] == plus[y]:
            nxt.append((i, j + 1, x, y + 1))
        if i < na and j < nb and al[i] == bl[j]:
            nxt.append((i + 1, j + 1, x, y))
        for s in nxt:
            if s not in seen:
                seen.add(s)
                st.append(s)
        if len(seen) > 400000:
            return True
    return False


def edit(r, ls):
    out = list(ls)
    for _ in range(r.choice([1, 1, 2, 3, 6, 15])):
        k = r.randint(0, 3)
        i = r.randint(0, len(out))
        if k == 0:
            out.insert(i, r.choice(['new', '', 'a', 'b', '  x', '- x', '+ x', '@@ -1 +1 @@']))
        elif k == 1 and out:
            out.pop(min(i, len(out) - 1))
        elif k == 2 and out:
            out[min(i, len(out) - 1)] = r.choice(['chg', '', 'a', ' '])
        elif out:
            j = min(i, len(out) - 1)
            out[j:j] = out[max(0, j - 3):j]
    return out


@fam('C13')
def reports(prop, r, b):
    box, m = b.box(), Model()
    ps = []
    for _ in range(40):
        n = r.choice([1, 2, 3, 5, 9, 10, 11, 12, 30, 60, 210, 400])
        alpha = r.choice([['a', 'b', ''], ['a', 'b', 'c', 'd', 'e', '', ' '], ['line %d' % i for i in range(n)], ['a', '- a', '+ a', '  a', '\xff', '\xfe']])
        a = [r.choice(alpha) for _ in range(n)]
        if r.random() < .3:
            a = ['line %d' % i for i in range(n)]
        c = edit(r, a)
        x, y = '\n'.join(a), '\n'.join(c)
        if r.random() < .2:
            y += '\n'
        if x == y:
            y += 'Q'
        ps.append((x, y))
    prog = {'tests': [{'name': 'TestA', 'body': [{'kind': 'snap', 'vals': [x]} for x, y in ps]}]}
    p2 = {'tests': [{'name': 'TestA', 'body': [{'kind': 'snap', 'vals': [y]} for x, y in ps]}]}
    check_run(prop, box, prog, m)
    check_run(prop, box, prog, m)
    res = check_run(prop, box, p2, m)
    for (x, y), rec in zip(ps, res['Recs']):
        check_report(prop, box, x, y, rec['Errors'][0])
    # with colours a report appears exactly for the same pairs
    check_run(prop, box, p2, m, nocolor=False)
    box.done()


def inpkg(b, pkg, src, name, timeout=300, env=None):
    """an in-package test laid over the repository; None when it does not compile there"""
    d = os.path.join(b.root, 'ov')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, name)
    shutil.copy(os.path.join(HERE, 'inpkg', src), f)
    ov = os.path.join(d, 'ov.json')
    json.dump({'Replace': {os.path.join(b.repo, pkg, name): f}}, open(ov, 'w'))
    exe = os.path.join(d, name + '.bin')
    p = subprocess.run(['go', 'test', '-vet=off', '-c', '-overlay', ov, '-o', exe, './' + pkg], cwd=b.repo, env=goenv(), capture_output=True, text=True, timeout=timeout)
    if p.returncode != 0:
        return None
    e = dict(BASE_ENV, TMPDIR=d)
    e.update(env or {})
    p = subprocess.run([exe, '-test.run=^TestVerif'], cwd=d, env=e, capture_output=True, text=True, timeout=timeout, errors='replace')
    b.runs += 1
    return p


@fam('C13')
def edit_script(prop, r, b):
    """the line edit script, on the matcher itself"""
    box = b.box()
    p = inpkg(b, 'internal/difflib', 'difflib_verif_test.go', 'zz_verif_test.go', env={'VSEED': str(r.randint(0, 1 << 30))})
    if p is not None and p.returncode != 0:
        m = re.search(r'WITNESS (.*)', p.stdout)
        vio(prop, box, 'edit script: ' + (m.group(1) if m else p.stdout[-500:]), out=p.stdout[-3000:])
    box.done()


edit_script.once = True


# ------------------------------------------------------------------ C14

@fam('C14')
def json_forms(prop, r, b):
    box = b.box()
    vals = [gen_json(r) for _ in range(8)]
    forms = []
    for v in vals:
        forms.append([{'In': 'str', 'Text': gotext(r, v)}, {'In': 'bytes', 'Text': gotext(r, v)}, {'In': 'str', 'Text': gotext(r, shuffled(r, v))}, {'In': 'raw', 'Text': gotext(r, v)}])
        try:
            if not isinstance(v, (str, bytes)) and '12345678901234567890' not in json.dumps(v):
                forms[-1].append({'In': 'val', 'Val': v})
        except TypeError:
            pass
    def prog(k):
        st = []
        for fs in forms:
            f = fs[min(k, len(fs) - 1)]
            st.append(dict(f, Op='json'))
            st.append(dict(f, Op='sjson'))
        return {'Tests': [{'Name': 'TestJ', 'Steps': st}]}
    res = box.run(prog(0))
    first = box.files()
    for x in res['Recs']:
        if observed(x) != 'added':
            vio(prop, box, 'valid JSON: ' + observed(x))
        if x['Mutated']:
            vio(prop, box, 'the bytes of the caller were modified')
    ents = dict(parse(first['dyn_test.snap']) or [])
    for i, v in enumerate(vals):
        for t in (ents.get('TestJ - %d' % (i + 1)), first.get('TestJ_%d.snap.json' % (i + 1))):
            try:
                ok = t is not None and jcanon(jload(t)) == jcanon(v)
            except ValueError:
                ok = False
            if not ok:
                vio(prop, box, 'the stored text is not the value', text=t, value=v)
    for k in range(1, 5):
        box2 = b.box()
        res = box2.run(prog(k))
        if box2.files() != first:
            d = [(p, first.get(p), box2.files().get(p)) for p in first if first.get(p) != box2.files().get(p)]
            vio(prop, box2, 'form %d of the same documents is stored differently' % k, diff=d[:2], first=box.log)
        box2.done()
        res = box.run(prog(k), ci=True)
        for x in res['Recs']:
            if observed(x) != 'passed':
                vio(prop, box, 'form %d of the same document: %s' % (k, observed(x)))
    box.done()


BADJSON = ['', ' ', '{', '}', '{"a":}', '[1,]', '{"a":1,}', 'nul', 'tru', "{'a':1}", '01', '1.', '.5', '+1', '--1', '1 2', '{} {}', '[1 2]', '{"a" 1}', '{"a":1 "b":2}', '"\n"', '"\\x"', '"\\u12"', '"abc', 'NaN', 'Infinity', '// c\n1', '{a:1}', '[1]]', '"\x01"', '\xef\xbb\xbf{}', '---', '1e', '-']


@fam('C14', 'C17')
def json_bad(prop, r, b):
    box = b.box()
    st = []
    for t in BADJSON:
        for i in ('str', 'bytes', 'raw'):
            if i == 'raw' and t == '':
                continue
            st.append({'Op': r.choice(['json', 'sjson']), 'In': i, 'Text': t})
    st.append({'Op': 'json', 'In': 'bad'})
    st.append({'Op': 'sjson', 'In': 'bad'})
    n = sum(1 for s in st if s['Op'] == 'json')
    st.append({'Op': 'json', 'In': 'str', 'Text': '{"last":1}'})
    res = box.run({'Tests': [{'Name': 'TestBad', 'Steps': st}]}, upd=r.choice([None, 'true']))
    if res is None:
        vio(prop, box, 'the process died', out=box.out[-2000:])
    for s, x in zip(st[:-1], res['Recs']):
        if observed(x) != 'failed':
            vio(prop, box, 'invalid JSON %r as %s: %s' % (s.get('Text'), s['In'], observed(x)))
    if observed(res['Recs'][-1]) != 'added':
        vio(prop, box, 'valid JSON after invalid: ' + observed(res['Recs'][-1]))
    fs = box.files()
    if set(fs) != {'dyn_test.snap'} or [e[0] for e in parse(fs['dyn_test.snap'])] != ['TestBad - %d' % (n + 1)]:
        vio(prop, box, 'invalid JSON wrote something or moved a slot', files=fs)
    box.done()


json_bad.once = True


@fam('C14')
def json_garbage(prop, r, b):
    """a valid document with something before or after it"""
    box = b.box()
    st = []
    for d in ('{}', '{"a":1}', '[1]', '1', '"x"', 'null', '{"a":1}\n'):
        for g in (',', ';', '}', ']', '"', ':', '{', '[', '\x00', '/', '//x', '/* */', '#', 'x', ' ,', '\n;', '\n}', ' 1', '\x0b', '\xa0', '\xc2\xa0', '\xef\xbb\xbf', ',\n', '\x1a', '\\', "'", '\n---\n', '\f', '\x85'):
            for t in (d + g, g + d):
                for i in ('str', 'bytes', 'raw'):
                    st.append({'Op': r.choice(['json', 'sjson']), 'In': i, 'Text': t})
    st = [s for s in st if not is_json(s['Text'])]
    # encoding/json trims a RawMessage it marshals; it must be valid all the same
    res = box.run({'Tests': [{'Name': 'TestBad', 'Steps': st}]})
    if res is None:
        vio(prop, box, 'the process died', out=box.out[-2000:])
    for s, x in zip(st, res['Recs']):
        if observed(x) != 'failed':
            vio(prop, box, 'invalid JSON %r as %s: %s' % (s['Text'], s['In'], observed(x)))
    if box.files():
        vio(prop, box, 'invalid JSON wrote something', files=sorted(box.files()))
    box.done()


def is_json(t):
    if t.strip(' \t\r\n') != t.strip():
        return False
    try:
        json.loads(t)
        return True
    except ValueError:
        return False


json_garbage.once = True


# ------------------------------------------------------------------ C15 C16 C17

def jpaths(v, pre=()):
    """paths of all values below the root, as sequences of keys and indices"""
    out = []
    if isinstance(v, dict):
        for k in v:
            out.append(pre + (k,))
            out += jpaths(v[k], pre + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            out.append(pre + (i,))
            out += jpaths(x, pre + (i,))
    return out


def jget(v, p):
    for k in p:
        v = v[k]
    return v


def jset(v, p, x):
    if not p:
        return x
    v = dict(v) if isinstance(v, dict) else list(v)
    v[p[0]] = jset(v[p[0]], p[1:], x)
    return v


def gpath(p):
    return '.'.join(str(k) for k in p)


KEYS = ['a', 'b', 'c', 'user', 'name', 'id', 'x_y', 'k1']


def gen_doc(r, d=0):
    k = r.random()
    if d >= 3 or (d > 0 and k < .45):
        return r.choice([1, 2, -5, 1.5, 'x', 'hello', '', True, False, None, 'a b', 'q"q', 'x\\y', '<t>'])
    if d > 0 and k < .65:
        return [gen_doc(r, d + 1) for _ in range(r.randint(1, 3))]
    ks = r.sample(KEYS, r.randint(1, 4))
    return {k: gen_doc(r, d + 1) for k in ks}


def pick_targets(r, doc, n):
    ps = jpaths(doc)
    r.shuffle(ps)
    out = []
    for p in ps:
        if all(p[:len(q)] != q and q[:len(p)] != p for q in out):
            out.append(p)
        if len(out) >= n:
            break
    return out


def tname(v):
    if isinstance(v, bool):
        return 'bool', 'bool'
    if isinstance(v, (int, float)):
        return 'float64', 'float64'
    if isinstance(v, str):
        return 'string', 'string'
    if isinstance(v, dict):
        return 'map', 'map[string]interface {}'
    if isinstance(v, list):
        return 'slice', '[]interface {}'
    return None, None


def gen_matcher(r, doc, p, path, yaml=False):
    """-> (matcher, value it leaves)"""
    v = jget(doc, p)
    k = r.choice(['any', 'any', 'custom', 'type'])
    t = tname(v)
    if k == 'type' and t[0] and r.random() < .25:
        return {'K': 'type', 'T': 'anytype', 'Paths': [path]}, '<Type:interface {}>'
    if k == 'type' and t[0] and not yaml:
        return {'K': 'type', 'T': t[0], 'Paths': [path]}, '<Type:%s>' % t[1]
    if k == 'custom':
        ret = r.choice(['masked', 42, {'m': 1}, [1, 2], None, True]) if not yaml else r.choice(['masked', 42, True])
        return {'K': 'custom', 'Path': path, 'Ret': ret}, ret
    if r.random() < .4:
        ph = r.choice(['PH', 7, ['p'], {'p': 'q'}, False]) if not yaml else r.choice(['PH', 7, False])
        return {'K': 'any', 'Paths': [path], 'Ph': ph, 'SetPh': True}, ph
    return {'K': 'any', 'Paths': [path]}, '<Any value>'


def key_order(text):
    return json.JSONDecoder(object_pairs_hook=lambda ps: ('o', [(k, v) for k, v in ps])).decode(text)


@fam('C15')
def json_matchers(prop, r, b):
    box = b.box()
    st, want = [], []
    for _ in range(12):
        doc = gen_doc(r)
        ts = pick_targets(r, doc, r.randint(1, 3))
        ms, exp = [], doc
        for p in ts:
            m, x = gen_matcher(r, doc, p, gpath(p))
            if m['K'] == 'any' and ms and ms[-1]['K'] == 'any' and m.get('SetPh') == ms[-1].get('SetPh') and m.get('Ph') == ms[-1].get('Ph'):
                ms[-1]['Paths'].append(gpath(p))
            else:
                ms.append(m)
            exp = jset(exp, p, x)
        if r.random() < .3:
            p = r.choice(ts)
            m = {'K': 'custom', 'Path': gpath(p), 'Ret': 'second'}
            ms.append(m)
            exp = jset(exp, p, 'second')
        if r.random() < .3:
            ms.insert(r.randint(0, len(ms)), {'K': r.choice(['any']), 'Paths': ['nope.nope'], 'EOM': False})
        op = r.choice(['json', 'sjson'])
        st.append({'Op': op, 'In': r.choice(['str', 'bytes', 'bytes', 'raw']), 'Text': jtext(r, doc), 'M': ms, 'Cfg': {'JSON': {'Width': 80, 'Indent': ' ', 'SortKeys': False}}})
        want.append((op, doc, ms, exp))
    res = box.run({'Tests': [{'Name': 'TestM', 'Steps': st}]})
    if res is None:
        vio(prop, box, 'the process died', out=box.out[-2000:])
    fs = box.files()
    ents = dict(parse(fs.get('dyn_test.snap', '')) or [])
    n = {'json': 0, 'sjson': 0}
    for (op, doc, ms, exp), x in zip(want, res['Recs']):
        n[op] += 1
        if observed(x) != 'added':
            vio(prop, box, 'matchers %s: %s' % (ms, observed(x)), doc=doc)
        if x['Mutated']:
            vio(prop, box, 'the bytes of the caller were modified', matchers=ms, doc=doc)
        t = ents.get('TestM - %d' % n['json']) if op == 'json' else fs.get('TestM_%d.snap.json' % n['sjson'])
        try:
            ok = key_order(t.encode('latin-1').decode()) == key_order(json.dumps(exp))
        except (ValueError, AttributeError):
            ok = False
        if not ok:
            vio(prop, box, 'the masked document differs from the input in more than the targets', doc=doc, matchers=ms, stored=t, expected=exp)
    # the recorded run replays with the same matchers
    res = box.run({'Tests': [{'Name': 'TestM', 'Steps': st}]}, ci=True)
    for x in res['Recs']:
        if observed(x) != 'passed':
            vio(prop, box, 'replay with matchers: ' + observed(x))
    box.done()


@fam('C15', 'C17')
def nested_paths(prop, r, b):
    """a later path inside what an earlier one replaced: it addresses the replacement"""
    doc = {'a': {'b': {'c': 1}, 'd': [1, 2, {'e': 5}]}, 'f': 'x', 'g': [[1, 2], 3]}
    pairs = [('a', 'a.b'), ('a', 'a.b.c'), ('a.b', 'a.b.c'), ('a.d', 'a.d.0'), ('a.d.2', 'a.d.2.e'), ('g.0', 'g.0.1'), ('g', 'g.1')]
    box = b.box()
    st, want = [], []
    for p, q in pairs:
        pp, qq = tuple(int(x) if x.isdigit() else x for x in p.split('.')), None
        A = lambda *ps, **k: dict({'K': 'any', 'Paths': list(ps)}, **k)
        C = lambda x, ret: {'K': 'custom', 'Path': x, 'Ret': ret}
        T = lambda t, x: {'K': 'type', 'T': t, 'Paths': [x]}
        miss = [[A(p, q)], [A(p), A(q)], [C(p, 'r'), A(q)], [A(p), C(q, 'z')], [A('f', p, q)]]
        for ms in miss:
            st.append({'Op': 'json', 'In': r.choice(['str', 'bytes']), 'Text': jtext(r, doc), 'M': ms})
            want.append(('miss', q))
        ms = [A(p, q, EOM=False)]
        st.append({'Op': 'json', 'In': r.choice(['str', 'bytes']), 'Text': jtext(r, doc), 'M': ms})
        want.append(('ok', jset(doc, pp, '<Any value>')))
        # the inner one first
        qp = tuple(int(x) if x.isdigit() else x for x in q.split('.'))
        st.append({'Op': 'json', 'In': 'str', 'Text': jtext(r, doc), 'M': [A(q, p)]})
        want.append(('ok', jset(doc, pp, '<Any value>')))
        st.append({'Op': 'json', 'In': 'str', 'Text': jtext(r, doc), 'M': [C(q, 'in'), T('map' if isinstance(jget(doc, pp), dict) else 'slice', p)]})
        want.append(('ok', jset(doc, pp, '<Type:%s>' % tname(jget(doc, pp))[1])))
        # a replacement with structure: the second path addresses what the first one put there
        st.append({'Op': 'json', 'In': 'str', 'Text': jtext(r, doc), 'M': [C(p, {'k': {'b': 1}}), A(p + '.k')]})
        want.append(('ok', jset(doc, pp, {'k': '<Any value>'})))
    res = box.run({'Tests': [{'Name': 'TestN', 'Steps': st}]})
    if res is None:
        vio(prop, box, 'the process died', out=box.out[-2000:])
    ents = dict(parse(box.files().get('dyn_test.snap', '')) or [])
    for i, (s, (w, x), rec) in enumerate(zip(st, want, res['Recs'])):
        o = observed(rec)
        if w == 'miss':
            if o != 'failed' or '("%s")' % x not in rec['Errors'][0]:
                vio(prop, box, 'path %s is gone after the earlier replacement, the call: %s' % (x, o), step=s, message=rec['Errors'])
            if 'TestN - %d' % (i + 1) in ents:
                vio(prop, box, 'a failing call wrote its slot', step=s)
        else:
            if o != 'added':
                vio(prop, box, 'matchers %s: %s' % (s['M'], o), step=s, message=rec['Errors'])
            t = unesc(ents['TestN - %d' % (i + 1)])
            if jcanon(jload(t)) != jcanon(x):
                vio(prop, box, 'the masked document is not the expected one', step=s, stored=t, expected=x)
    box.done()


nested_paths.once = True


def y_scalar(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if v is None:
        return 'null'
    if isinstance(v, (int, float)):
        return repr(v)
    if v == '' or re.search(r'[^A-Za-z0-9]', v) or v in ('true', 'false', 'null'):
        return json.dumps(v)
    return v


def y_doc(v, ind=0, out=None, path='$', spans=None):
    """block style; spans: path -> (line index, prefix)"""
    pad = '  ' * ind
    if isinstance(v, dict):
        for k in v:
            x = v[k]
            if isinstance(x, (dict, list)) and x:
                out.append('%s%s:' % (pad, k))
                y_doc(x, ind + 1, out, path + '.' + k, spans)
            else:
                spans[path + '.' + k] = (len(out), '%s%s: ' % (pad, k))
                out.append('%s%s: %s' % (pad, k, y_scalar(x)))
    else:
        for i, x in enumerate(v):
            spans[path + '[%d]' % i] = (len(out), '%s- ' % pad)
            out.append('%s- %s' % (pad, y_scalar(x)))


def gen_ydoc(r, d=0):
    if d >= 2:
        return r.choice([1, 2, -5, 'x', 'hello', True, 'a b', 'w'])
    out = {}
    for k in r.sample(KEYS, r.randint(1, 4)):
        q = r.random()
        if q < .5:
            out[k] = r.choice([1, 2, -5, 'x', 'hello', True, 'a b', 'w', 10])
        elif q < .75:
            out[k] = [r.choice([1, 'x', 'b b', True]) for _ in range(r.randint(1, 3))]
        else:
            out[k] = gen_ydoc(r, d + 1)
    return out


def yvalue(t):
    import yaml
    return list(yaml.safe_load_all(t))


@fam('C15')
def yaml_matchers(prop, r, b):
    box = b.box()
    st, want = [], []
    for _ in range(10):
        doc = gen_ydoc(r)
        out, spans = [], {}
        y_doc(doc, 0, out, '$', spans)
        nl = r.random() < .6
        text = '\n'.join(out) + ('\n' if nl else '')
        ps = list(spans)
        r.shuffle(ps)
        ms, ls = [], list(out)
        for p in ps[:r.randint(1, 3)]:
            i, pre = spans[p]
            k = r.random()
            if k < .5:
                ms.append({'K': 'any', 'Paths': [p]})
                x = '<Any value>'
            elif k < .75:
                x = r.choice(['masked', 42, True])
                ms.append({'K': 'custom', 'Path': p, 'Ret': x})
                x = y_scalar(x)
            else:
                x = 'PH'
                ms.append({'K': 'any', 'Paths': [p], 'Ph': 'PH', 'SetPh': True})
            ls[i] = pre + x
        st.append({'Op': 'yaml', 'In': r.choice(['str', 'bytes']), 'Text': text, 'M': ms})
        want.append((text, ms, '\n'.join(ls) + ('\n' if nl else '')))
    res = box.run({'Tests': [{'Name': 'TestY', 'Steps': st}]})
    if res is None:
        vio(prop, box, 'the process died', out=box.out[-2000:])
    ents = dict(parse(box.files().get('dyn_test.snap', '')) or [])
    for i, ((text, ms, exp), x) in enumerate(zip(want, res['Recs'])):
        if observed(x) != 'added':
            vio(prop, box, 'matchers %s: %s' % (ms, observed(x)), doc=text)
        if x['Mutated']:
            vio(prop, box, 'the bytes of the caller were modified', matchers=ms, doc=text)
        t = unesc(ents['TestY - %d' % (i + 1)])
        if t != exp:
            try:
                if [key_y(q) for q in yvalue(t)] == [key_y(q) for q in yvalue(exp)] and t.endswith('\n') == exp.endswith('\n'):
                    continue
            except Exception:
                pass
            vio(prop, box, 'the masked document differs from the input in more than the targets', doc=text, matchers=ms, stored=t, expected=exp)
    box.done()


def key_y(v):
    if isinstance(v, dict):
        return ('o', [(k, key_y(x)) for k, x in v.items()])
    if isinstance(v, list):
        return ('a', [key_y(x) for x in v])
    return (type(v).__name__, v)


@fam('C16')
def masking(prop, r, b):
    """two documents that differ at covered paths only, and two that differ elsewhere"""
    box = b.box()
    A, B, C = [], [], []
    kinds = []
    for _ in range(10):
        if r.random() < .6:
            doc = gen_doc(r)
            if not isinstance(doc, dict):
                continue
            ts = pick_targets(r, doc, r.randint(1, 2))
            ms, d2 = [], doc
            for p in ts:
                v = jget(doc, p)
                k = r.choice(['any', 'any', 'custom', 'type'])
                t = tname(v)
                if k == 'type' and t[0] and r.random() < .3:
                    ms.append({'K': 'type', 'T': 'anytype', 'Paths': [gpath(p)]})
                    d2 = jset(d2, p, r.choice([{'new': [1]}, 'zzz', 0, True, [1, 2, 3]]))
                elif k == 'type' and t[0] in ('string', 'float64', 'bool'):
                    ms.append({'K': 'type', 'T': t[0], 'Paths': [gpath(p)]})
                    d2 = jset(d2, p, {'string': 'other', 'float64': 99.25, 'bool': not v}[t[0]])
                elif k == 'custom':
                    ms.append({'K': 'custom', 'Path': gpath(p), 'Ret': 'cb'})
                    d2 = jset(d2, p, r.choice([{'new': [1]}, 'zzz', 0, None]))
                else:
                    ms.append({'K': 'any', 'Paths': [gpath(p)]})
                    d2 = jset(d2, p, r.choice([{'new': [1]}, 'zzz', 0, None, [1, 2, 3]]))
            others = [p for p in jpaths(doc) if all(p[:len(q)] != q and q[:len(p)] != p for q in ts)]
            d3 = None
            if others:
                p = r.choice(others)
                x = r.choice(['DIFFERENT', 123456, None, ['n']])
                if jcanon(jget(doc, p)) != jcanon(x):
                    d3 = jset(d2, p, x)
            op = r.choice(['json', 'sjson'])
            f = lambda d: {'Op': op, 'In': r.choice(['str', 'bytes']), 'Text': jtext(r, d), 'M': ms}
            A.append(f(doc))
            B.append(f(d2))
            C.append(f(d3) if d3 is not None else None)
        else:
            doc = gen_ydoc(r)
            out, spans = [], {}
            y_doc(doc, 0, out, '$', spans)
            ps = list(spans)
            r.shuffle(ps)
            k = r.randint(1, min(2, len(ps)))
            ms, l2 = [], list(out)
            for p in ps[:k]:
                x = r.random()
                if x < .5:
                    ms.append({'K': 'any', 'Paths': [p]})
                elif x < .7:
                    ms.append({'K': 'type', 'T': 'anytype', 'Paths': [p]})
                else:
                    ms.append({'K': 'custom', 'Path': p, 'Ret': 'cb'})
                l2[spans[p][0]] = spans[p][1] + r.choice(['777', 'changed', 'false', '"q q"'])
            l3 = None
            if len(ps) > k:
                i, pre = spans[ps[k]]
                l3 = list(l2)
                l3[i] = pre + 'DIFFERENT'
            f = lambda ls: {'Op': 'yaml', 'In': r.choice(['str', 'bytes']), 'Text': '\n'.join(ls) + '\n', 'M': ms}
            A.append(f(out))
            B.append(f(l2))
            C.append(f(l3) if l3 is not None else None)
    sc = lambda st: {'Tests': [{'Name': 'TestM', 'Steps': st}]}
    ra = box.run(sc(A))
    for x in ra['Recs']:
        if observed(x) != 'added':
            vio(prop, box, 'record: ' + observed(x))
    rb = box.run(sc(B), ci=True)
    for s, x in zip(B, rb['Recs']):
        if observed(x) != 'passed':
            vio(prop, box, 'documents that differ at covered paths only: ' + observed(x), step=s)
    box2 = b.box()
    box2.run(sc(B))
    if box2.files() != box.files():
        vio(prop, box2, 'documents that differ at covered paths only are stored differently', a=box.files(), b=box2.files(), first=box.log)
    D = [c if c is not None else a for a, c in zip(A, C)]
    rc = box.run(sc(D), ci=True)
    for c, s, x in zip(C, D, rc['Recs']):
        if c is not None and observed(x) != 'failed':
            vio(prop, box, 'documents that differ at an uncovered path: ' + observed(x), step=s)
    box2.done()
    box.done()


@fam('C17', 'C05')
def matcher_failures(prop, r, b):
    box = b.box()
    seed = [{'Op': 'json', 'In': 'str', 'Text': '{"a":1,"b":"x"}'}, {'Op': 'yaml', 'In': 'str', 'Text': 'a: 1\nb: x\n'}, {'Op': 'sjson', 'In': 'str', 'Text': '{"a":1,"b":"x"}'}]
    bad = []
    for _ in range(8):
        op = r.choice(['json', 'yaml', 'sjson'])
        y = op == 'yaml'
        P = (lambda s: '$.' + s) if y else (lambda s: s)
        ms, need = [], []
        for _ in range(r.randint(1, 4)):
            k = r.randint(0, 6)
            if k == 0:
                ps = [P('missing'), P('b'), P('gone.deep')]
                ms.append({'K': 'any', 'Paths': ps})
                need += [('Any', ps[0]), ('Any', ps[2])]
            elif k == 1:
                ms.append({'K': 'type', 'T': 'string', 'Paths': [P('a'), P('nix')]})
                need += [('Type', P('a')), ('Type', P('nix'))]
            elif k == 2:
                ms.append({'K': 'custom', 'Path': P('b'), 'Err': 'callback says no', 'Ret': 1})
                need.append(('Custom', P('b')))
            elif k == 3:
                ms.append({'K': 'custom', 'Path': P('nowhere'), 'Ret': 1})
                need.append(('Custom', P('nowhere')))
            elif k == 4:
                ms.append({'K': 'any', 'Paths': [P('optional')], 'EOM': False})
            elif k == 5:
                ms.append({'K': 'type', 'T': 'bool', 'Paths': [P('c')]})
                need.append(('Type', P('c')))
            else:
                ms.append({'K': 'type', 'T': 'string', 'Paths': [P('optional2')], 'EOM': False})
        if not need:
            ms.append({'K': 'any', 'Paths': [P('absent')]})
            need.append(('Any', P('absent')))
        text = '{"a":1,"b":"x","c":"s"}' if not y else 'a: 1\nb: x\nc: s\n'
        bad.append(({'Op': op, 'In': r.choice(['str', 'bytes']), 'Text': text, 'M': ms}, need))
    tail = [{'Op': 'json', 'In': 'str', 'Text': '{"tail":1}', 'M': [{'K': 'any', 'Paths': ['nope'], 'EOM': False}, {'K': 'any', 'Paths': ['tail']}]}, {'Op': 'sjson', 'In': 'str', 'Text': '{"tail":1}', 'M': [{'K': 'custom', 'Path': 'nope', 'Ret': 1, 'EOM': False}]},
            {'Op': 'yaml', 'In': 'str', 'Text': 'tail: 1\n', 'M': [{'K': 'any', 'Paths': ['$.nope'], 'EOM': False}, {'K': 'any', 'Paths': ['$.tail']}]}, {'Op': 'snap', 'Vals': ['end']}]
    st = seed + [x for x, _ in bad] + tail
    upd = r.choice([None, 'true', 'clean'])
    # once with the failing slots missing, once with them present
    for present in (False, True):
        bx = b.box()
        if present:
            plain = [dict(s, M=[]) for s in st]
            bx.run({'Tests': [{'Name': 'TestF', 'Steps': plain}]})
        was = bx.files()
        res = bx.run({'Tests': [{'Name': 'TestF', 'Steps': st}]}, upd=upd)
        if res is None:
            vio(prop, bx, 'the process died', out=bx.out[-2000:])
        recs = res['Recs']
        for (s, need), x in zip(bad, recs[len(seed):]):
            if observed(x) != 'failed':
                vio(prop, bx, 'failing matchers %s: %s' % (s['M'], observed(x)))
            msg = x['Errors'][0]
            for nm, p in need:
                if 'match.%s("%s")' % (nm, p) not in msg:
                    vio(prop, bx, 'the failure does not name match.%s("%s")' % (nm, p), message=msg, matchers=s['M'])
        for s, x in zip(tail, recs[len(seed) + len(bad):]):
            o = observed(x)
            if not present and o != 'added':
                vio(prop, bx, 'a call after a failing one (missing paths ignored): ' + o, step=s)
        fs = bx.files()
        nj = 2 + sum(1 for s, _ in bad if s['Op'] in ('json', 'yaml'))
        na = 1 + sum(1 for s, _ in bad if s['Op'] == 'sjson')
        if not present:
            ids = [e[0] for e in parse(fs['dyn_test.snap'])]
            if ids != ['TestF - 1', 'TestF - 2'] + ['TestF - %d' % (nj + i) for i in (1, 2, 3)]:
                vio(prop, bx, 'entries after failing calls: %s' % ids)
            al = sorted(f for f in fs if f != 'dyn_test.snap')
            if al != sorted(['TestF_1.snap.json', 'TestF_%d.snap.json' % (na + 1)]):
                vio(prop, bx, 'standalone files after failing calls: %s' % al)
            e = dict(parse(fs['dyn_test.snap']))
            if jload(e['TestF - %d' % (nj + 1)]) != {'tail': '<Any value>'} or e['TestF - %d' % (nj + 2)] != 'tail: <Any value>\n':
                vio(prop, bx, 'a missing path that is ignored changed the result', entries=e)
        else:
            a, c = dict(parse(was['dyn_test.snap'])), dict(parse(fs['dyn_test.snap']))
            for k in range(3, nj + 1):
                if a['TestF - %d' % k] != c['TestF - %d' % k]:
                    vio(prop, bx, 'a failing call rewrote TestF - %d' % k)
            for k in range(2, na + 1):
                if was['TestF_%d.snap.json' % k] != fs['TestF_%d.snap.json' % k]:
                    vio(prop, bx, 'a failing call rewrote TestF_%d.snap.json' % k)
        bx.done()
    box.done()


# ------------------------------------------------------------------ C18

@fam('C18')
def yaml_verbatim(prop, r, b):
    box, m = b.box(), Model()
    prog = gen_prog(r, kinds=('yaml',), tests=2, calls=6)
    check_run(prop, box, prog, m)
    check_run(prop, box, prog, m, ci=True)
    p2 = clone(prog)
    for c in calls_of(p2):
        if r.random() < .6:
            change(r, c)
    m2 = m.copy()
    check_run(prop, box, p2, m2)
    check_run(prop, box, p2, m, upd='true')
    check_run(prop, box, p2, m, ci=True)
    box.done()


YAMLS = ['a: 1', 'a: 1\n', 'a: 1\n\n', '\n\na: 1\n', '# only\n', '# c\na: 1 # d\n', '---\na: 1\n', 'a: 1\n---\nb: 2\n', 'a: 1\n---\nb: 2', '---\na: 1\n---\nb: 2\n...\n', 'b: 1\na: 2\n', '- 1\n- 2\n', '"s"', 'x', '', 'a: |\n  l1\n\n  l2\n', 'a: |+\n  l1\n\n',
         'a: >\n  f\n  g\nb: {c: [1, 2]}\n', 'k: "---"\n', 'a:   1\nb:    2\n', '[]', '{}', 'a: &x 1\nb: *x\n', 'é: ü\n'.encode().decode('latin-1'), '/-/-/-/', 'a: /-/-/-/\n', "a: 'it''s'\n", 'a: 0x1F\nb: 1_000\n', '? k\n: v\n', 'a: 1\n# end']


@fam('C18', 'C01')
def yaml_corner(prop, r, b):
    box, m = b.box(), Model()
    prog = {'tests': [{'name': 'TestY', 'body': [{'kind': 'yaml', 'text': t, 'in': i} for t in YAMLS for i in ('str', 'bytes')]}]}
    check_run(prop, box, prog, m)
    check_run(prop, box, prog, m, ci=True)
    check_run(prop, box, prog, m, upd='true')
    box.done()
    # values marshal the same every time
    box = b.box()
    st = [{'Op': 'yaml', 'In': 'govals', 'Text': 't'}] + [{'Op': 'yaml', 'In': 'val', 'Val': v} for v in ({'b': 1, 'a': [1, 'x', None], 'c': {'z': 1, 'y': True}}, [1, 2], 1.5)]
    sc = {'Tests': [{'Name': 'TestV', 'Steps': st}]}
    box.run(sc)
    for _ in range(3):
        res = box.run(sc, ci=True)
        for x in res['Recs']:
            if observed(x) != 'passed':
                vio(prop, box, 'a Go value marshals differently: ' + observed(x))
    box.done()


yaml_corner.once = True

BADYAML = ['a: b: c', '{', '[1', 'a: "x', '\ta: 1', 'a: 1\n b: 2\n  c', '- a\nb: 1', "'", 'a: *nope', '{a: 1', 'a: [1,', '@a', 'a:\n\t- b']


@fam('C18', 'C17')
def yaml_bad(prop, r, b):
    box = b.box()
    st = [{'Op': 'yaml', 'In': i, 'Text': t} for t in BADYAML for i in ('str', 'bytes')]
    n = len(st)
    st.append({'Op': 'yaml', 'In': 'str', 'Text': 'ok: 1'})
    res = box.run({'Tests': [{'Name': 'TestBad', 'Steps': st}]})
    if res is None:
        vio(prop, box, 'the process died', out=box.out[-2000:])
    for s, x in zip(st[:-1], res['Recs']):
        if observed(x) != 'failed':
            vio(prop, box, 'invalid YAML %r: %s' % (s['Text'], observed(x)))
    fs = box.files()
    if set(fs) != {'dyn_test.snap'} or [e[0] for e in parse(fs['dyn_test.snap'])] != ['TestBad - %d' % (n + 1)]:
        vio(prop, box, 'invalid YAML wrote something or moved a slot', files=fs)
    box.done()


yaml_bad.once = True

NOWHERE = [('a: 1\n', '$.a.q'), ('a: 1\n', '$.a[3]'), ('- 1\n- 2\n', '$[7]'), ('a: null\nb:   x\n', '$.a.b'), ('a:   [1,   2]\nb:    2', '$.a[7]'), ('a:   1\n\n\nb: 2', '$.zz'),
           ('b:   {c:  [1,2]}\n', '$.b.c[2].d'), ('a:  1\n---\nb:   2\n', '$.c'), ('- a\n-   b\n', '$.k')]


@fam('C18', 'C17')
def yaml_nowhere(prop, r, b):
    """paths that lead nowhere: ignored without a trace when they need not exist, one failure otherwise"""
    box, m = b.box(), Model()
    st = []
    for t, p in NOWHERE:
        k = r.choice(['any', 'type', 'custom'])
        mk = lambda eom: [{'any': {'K': 'any', 'Paths': [p], 'EOM': eom}, 'type': {'K': 'type', 'T': 'string', 'Paths': [p], 'EOM': eom}, 'custom': {'K': 'custom', 'Path': p, 'Ret': 'x', 'EOM': eom}}[k]]
        st.append({'Op': 'yaml', 'In': r.choice(['str', 'bytes']), 'Text': t, 'M': mk(False)})
        st.append({'Op': 'yaml', 'In': r.choice(['str', 'bytes']), 'Text': t, 'M': mk(True)})
    res = box.run({'Tests': [{'Name': 'TestN', 'Steps': st}]})
    if res is None:
        vio(prop, box, 'the process died', out=box.out[-2000:])
    for i, (s, x) in enumerate(zip(st, res['Recs'])):
        o = observed(x)
        if o != ('added', 'failed')[i % 2]:
            vio(prop, box, 'a path that leads nowhere: ' + o, step=s)
    got = dict(parse(box.files()['dyn_test.snap']))
    for i, (t, p) in enumerate(NOWHERE):
        if got.get('TestN - %d' % (2 * i + 1)) != t.replace('\n---\n', '\n/-/-/-/\n'):
            vio(prop, box, 'nothing was masked but the document changed', text=t, path=p, stored=got)
    box.done()


yaml_nowhere.once = True
