"""The store as a model: what every call must do, computed from the properties."""
import copy, json, random
from hlib import *

NAMES = ['TestA', 'TestB', 'TestC', 'TestAB', 'Test_1', 'TestA_s', 'TestZ%d', 'TestB-2', 'Test.x', 'ExampleY']


def strip_sentinel(c):
    return c


class Model:
    def __init__(self):
        self.multi = {}   # path -> [[id, text or ('j', value)]]
        self.alone = {}   # path -> text or ('j', value)

    def copy(self):
        m = Model()
        m.multi = copy.deepcopy(self.multi)
        m.alone = copy.deepcopy(self.alone)
        return m


def cfg_of(c):
    return c.get('cfg') or {}


def multi_path(c):
    g = cfg_of(c)
    return (g.get('Filename') or 'dyn_test') + '.snap' + (g.get('Ext') or '')


def alone_pat(c, name):
    g = cfg_of(c)
    ext = g.get('Ext') or ''
    if c['kind'] == 'sjson' and not ext:
        ext = '.json'
    return ((g.get('Filename') or name.replace('/', '_')), '.snap' + ext)


def value_of(c):
    k = c['kind']
    if k == 'snap':
        return '\n'.join(c['vals'])
    if k == 'ssnap':
        return c['vals'][0]
    if k == 'yaml':
        return c['text']
    return ('j', c['json'])


def jeq(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True) if False else jcanon(a) == jcanon(b)


def jcanon(v):
    if isinstance(v, dict):
        return ('o', tuple(sorted((k, jcanon(x)) for k, x in v.items())))
    if isinstance(v, list):
        return ('a', tuple(jcanon(x) for x in v))
    if isinstance(v, bool) or v is None:
        return ('c', repr(v))
    if isinstance(v, (int, float)):
        return ('n', repr(v))
    return ('s', v)


def same(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return jcanon(a[1]) == jcanon(b[1])
    return False


def step_of(c, r=None):
    k = c['kind']
    s = {'Op': k}
    if c.get('shared'):
        s['Shared'] = c['shared']
    elif c.get('cfg') is not None:
        s['Cfg'] = c['cfg']
    if c.get('style'):
        s['Style'] = c['style']
    if k in ('snap', 'ssnap'):
        s['Vals'] = c['vals']
    elif k == 'yaml':
        s['In'] = c.get('in', 'str')
        s['Text'] = c['text'] if not c.get('bad') else c['badtext']
    elif k in ('json', 'sjson'):
        if c.get('bad'):
            s['In'], s['Text'] = c.get('in', 'str'), c['badtext']
        else:
            s['In'], s['Text'] = c.get('in', 'str'), c['jtext']
    return s


def steps_of(body):
    out = []
    for it in body:
        if 'sub' in it:
            out.append({'Op': 'sub', 'Name': it['sub'], 'Par': it.get('par', False), 'Steps': steps_of(it['body'])})
        else:
            out.append(step_of(it))
    return out


def scenario(prog, clean=None):
    s = {'Tests': [{'Name': t['name'], 'Par': t.get('par', False), 'Steps': steps_of(t['body'])} for t in prog['tests']]}
    if prog.get('shared'):
        s['Shared'] = prog['shared']
    if clean is not None:
        s['Clean'] = clean
    return s


def can(ci, upd, c):
    u = cfg_of(c).get('Update')
    if ci:
        return False, False
    if u is not None:
        return u, u
    return True, upd == 'true'


def walk(body, name):
    """calls of one execution, in an order consistent with each test's own order"""
    for it in body:
        if 'sub' in it:
            yield from walk(it['body'], name + '/' + it['sub'])
        else:
            yield name, it


def predict(prog, m, ci, upd, count=1):
    """updates m; returns per test name the list of outcomes, and what was addressed"""
    out, addr, salone = {}, {}, set()
    new, changed, salw = {}, {}, set()
    runs, kinds = {'passed': 0, 'failed': 0, 'added': 0, 'updated': 0, 'skipped': 0}, None
    for _ in range(count):
        for t in prog['tests']:
            cnt = {}
            for name, c in walk(t['body'], t['name']):
                k = c['kind']
                if k in ('skip', 'skipf', 'skipnow'):
                    out.setdefault(name, []).append('skipped')
                    runs['skipped'] += 1
                    continue
                if k == 'snap' and not c['vals']:
                    out.setdefault(name, []).append('nothing')
                    continue
                v = value_of(c)
                cr, up = can(ci, upd, c)
                if k in ('ssnap', 'sjson'):
                    pat = alone_pat(c, name)
                    cnt[pat] = cnt.get(pat, 0) + 1
                    p = '%s_%d%s' % (pat[0], cnt[pat], pat[1])
                    salone.add(p)
                    cur = m.alone.get(p)
                else:
                    p = multi_path(c)
                    cnt[(p, name)] = cnt.get((p, name), 0) + 1
                    i = '%s - %d' % (name, cnt[(p, name)])
                    a = addr.setdefault(p, {})
                    a[name] = max(a.get(name, 0), cnt[(p, name)])
                    cur = None
                    for e in m.multi.get(p, []):
                        if e[0] == i:
                            cur = e[1]
                            break
                if c.get('bad'):
                    o = 'failed'
                elif cur is None:
                    o = 'added' if cr else 'failed'
                elif same(cur, v):
                    o = 'passed'
                else:
                    o = 'updated' if up else 'failed'
                if o in ('added', 'updated'):
                    if k in ('ssnap', 'sjson'):
                        m.alone[p] = v
                        salw.add(p)
                    elif o == 'added':
                        m.multi.setdefault(p, []).append([i, v])
                        new.setdefault(p, []).append(i)
                    else:
                        for e in m.multi[p]:
                            if e[0] == i:
                                e[1] = v
                        changed.setdefault(p, set()).add(i)
                out.setdefault(name, []).append(o)
                runs[o] += 1
    return dict(out=out, addr=addr, salone=salone, new=new, changed=changed, salw=salw, totals=runs)


def observed(rec):
    """the outcome of one call as the test sees it"""
    if rec['Panic']:
        return 'panic: ' + rec['Panic']
    e, l = rec['Errors'] or [], rec['Logs'] or []
    if rec['Op'] in ('skip', 'skipf', 'skipnow'):
        return 'skipped' if rec['Skips'] == 1 and not e else 'bad skip'
    if rec['Op'] == 'snap' and not e and len(l) == 1 and 'warning' in l[0]:
        return 'nothing'
    if len(e) == 0 and len(l) == 0:
        return 'passed'
    if len(e) == 1 and len(l) == 0:
        return 'failed'
    if len(e) == 0 and len(l) == 1:
        if 'Snapshot added' in l[0]:
            return 'added'
        if 'Snapshot updated' in l[0]:
            return 'updated'
    return 'errors=%r logs=%r' % (e, l)


def body_ok(kind_value, body):
    if isinstance(kind_value, tuple):
        try:
            return jcanon(jload(body)) == jcanon(kind_value[1])
        except ValueError:
            return False
    return body == esc(kind_value)


def jload(latin):
    return json.loads(latin.encode('latin-1').decode('utf-8'))


def check_run(prop, box, prog, m, ci=False, upd=None, count=1, args=(), clean=None, kind='plain', **kw):
    """one run of the program: every outcome, every file and every write against the model"""
    before = box.files()
    box.age()
    exp = predict(prog, m, ci, upd, count)
    a = list(args)
    if count != 1:
        a.append('-test.count=%d' % count)
    r = box.run(scenario(prog, clean), ci=ci, upd=upd, args=a, kind=kind, **kw)

    def bad(what, **d):
        raise Violation(prop, what, dict(d, log=box.log))
    if r is None:
        if 'DATA RACE' in box.out:
            bad('data race', out=box.out[-4000:])
        bad('the test process died', out=box.out[-3000:])
    if kind == 'race' and 'DATA RACE' in r['text']:
        bad('data race', out=r['text'][-4000:])
    got = {}
    for x in r['Recs']:
        got.setdefault(x['Test'], []).append(observed(x))
        if x.get('Cfg'):
            bad('a Config changed: ' + x['Cfg'])
        if x.get('Mutated'):
            bad('the bytes of the caller were modified')
    if got != exp['out']:
        for t in exp['out']:
            if got.get(t) != exp['out'][t]:
                bad('outcomes of %s: expected %s, got %s' % (t, exp['out'][t], got.get(t)), expected=exp['out'], got=got)
        bad('outcomes differ', expected=exp['out'], got=got)
    after = box.files()
    writes = box.written()
    for p in set(before) | set(after):
        if p in exp['new'] or p in exp['changed'] or p in exp['salw']:
            continue
        if before.get(p) != after.get(p):
            bad('%s changed without reason' % p, before=before.get(p), after=after.get(p))
        if p in writes:
            bad('%s was written although nothing differed' % p)
    for p in m.multi:
        if p not in exp['new'] and p not in exp['changed']:
            continue
        old, ents = parse(before.get(p, '')), parse(after.get(p, ''))
        if ents is None:
            bad('%s is torn' % p, text=after.get(p))
        ids = [e[0] for e in ents]
        oldids = [e[0] for e in old or []]
        if ids[:len(oldids)] != oldids:
            bad('%s: entries were dropped or reordered' % p, before=oldids, after=ids)
        if sorted(ids[len(oldids):]) != sorted(exp['new'].get(p, [])):
            bad('%s: entries added %s, expected %s' % (p, ids[len(oldids):], exp['new'].get(p, [])), text=after[p])
        val = {}
        for i, v in m.multi[p]:
            val.setdefault(i, v)
        oldb = dict((e[0], e[1]) for e in reversed(old or []))
        for i, b in ents:
            if i in val and (i in exp['new'].get(p, []) or i in exp['changed'].get(p, ())):
                if not body_ok(val[i], b):
                    bad('%s: slot %s holds %r' % (p, i, b), expected=val[i])
            elif i in oldb and b != oldb[i]:
                bad('%s: slot %s changed' % (p, i), before=oldb[i], after=b)
    for p in exp['salw']:
        t = after.get(p)
        v = m.alone[p]
        if t is None:
            bad('standalone file %s is missing' % p, files=sorted(after))
        if isinstance(v, tuple):
            try:
                ok = jcanon(jload(t)) == jcanon(v[1])
            except ValueError:
                ok = False
            if not ok:
                bad('standalone file %s is not the value' % p, text=t)
        elif t != v:
            bad('standalone file %s is not the value' % p, text=t, expected=v)
    want = set(m.multi) | set(m.alone)
    if set(after) - want - set(before):
        bad('unexpected files %s' % sorted(set(after) - want - set(before)))
    r['exp'] = exp
    return r


# ---------------------------------------------------------------- programs

def gen_call(r, kinds, long=False, cfgs=True):
    k = r.choice(kinds)
    c = {'kind': k}
    if k in ('snap', 'ssnap'):
        n = r.choice([1, 1, 1, 2, 3]) if k == 'snap' else 1
        c['vals'] = [gen_text(r, long) for _ in range(n)]
        if k == 'ssnap' and r.random() < .3:
            c['vals'][0] += r.choice(['\r', '\r\n', '\r\nx', '\r\r\n'])
    elif k == 'yaml':
        c['text'] = gen_yaml(r)
        c['in'] = r.choice(['str', 'bytes'])
    else:
        c['json'] = gen_json(r)
        c['jtext'] = jtext(r, c['json'])
        c['in'] = r.choice(['str', 'bytes'])
    if cfgs:
        g = {}
        if r.random() < .3:
            g['Filename'] = r.choice(['f1', 'f2', 'with.dot', 'per%cent', '100%d'])
        if r.random() < .2:
            g['Ext'] = r.choice(['.txt', '.x.y', '.json'])
        if g:
            c['cfg'] = g
        if k in ('ssnap', 'sjson') and 'Filename' in g:
            # a Filename shared by the standalone calls of several tests shares one counter
            del g['Filename']
    if r.random() < .3:
        c['style'] = r.choice(['helper', 'deep', 'method'])
    return c


def gen_prog(r, kinds=('snap', 'snap', 'json', 'yaml', 'ssnap', 'sjson'), tests=3, calls=4, par=0.0, long=False, cfgs=True):
    names = r.sample(NAMES, r.randint(1, tests))
    # names that collide once / is replaced share a standalone counter
    if 'TestA' in names and 'TestA_s' in names:
        names.remove('TestA_s')
    ts = []
    for n in names:
        body = [gen_call(r, kinds, long, cfgs) for _ in range(r.randint(1, calls))]
        if r.random() < .35:
            for i in range(r.randint(1, 2)):
                body.insert(r.randint(0, len(body)), {'sub': 's%d' % i, 'par': r.random() < par, 'body': [gen_call(r, kinds, long, cfgs) for _ in range(r.randint(1, 3))]})
        ts.append({'name': n, 'par': r.random() < par, 'body': body})
    return {'tests': ts}


def calls_of(prog):
    for t in prog['tests']:
        for _, c in walk(t['body'], t['name']):
            yield c


def change(r, c):
    """another value for the call"""
    k = c['kind']
    if k in ('snap', 'ssnap'):
        i = r.randrange(len(c['vals']))
        old = value_of(c)
        for _ in range(20):
            vs = list(c['vals'])
            vs[i] = mutate(r, vs[i])
            if '\n'.join(vs) != old:
                c['vals'] = vs
                return
        c['vals'] = [old + 'Q']
    elif k == 'yaml':
        t = c['text']
        for _ in range(30):
            u = r.choice([t + '\n', t[:-1] if t.endswith('\n') else t + '\n', '# c\n' + t, gen_yaml(r), gen_yaml(r)])
            if u != t:
                c['text'] = u
                return
    else:
        old = jcanon(c['json'])
        while True:
            v = gen_json(r)
            if jcanon(v) != old:
                c['json'], c['jtext'] = v, jtext(r, v)
                return
