"""Bounded replay of the real code: builds the interpreter against the repository under check, runs
scenarios in scratch directories and compares with a model written from the properties."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, hashlib

GO = '/opt/veriftools/go1.27.3/bin'
HERE = os.path.dirname(os.path.abspath(__file__))


class Violation(Exception):
    def __init__(self, prop, what, detail):
        Exception.__init__(self, what)
        self.prop, self.what, self.detail = prop, what, detail


class HarnessError(Exception):
    pass


def goenv(extra=None):
    e = {'PATH': GO + ':/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'HOME': os.environ.get('HOME', '/root'),
         'GOTOOLCHAIN': 'local', 'GOSUMDB': 'off', 'GOPROXY': 'off', 'GOFLAGS': '-mod=mod', 'GOWORK': 'off',
         'GOPATH': '/root/go', 'GOMODCACHE': '/root/go/pkg/mod', 'GOCACHE': os.environ.get('GOCACHE', '/root/.cache/go-build')}
    e.update(extra or {})
    return e


class Bench:
    """a scratch copy of the interpreter, built against repo"""

    def __init__(self, repo='/repo'):
        self.repo = repo
        self.root = tempfile.mkdtemp(prefix='vh')
        self.h = os.path.join(self.root, 'h')
        shutil.copytree(os.path.join(HERE, 'h'), self.h)
        mod = open(os.path.join(repo, 'go.mod')).read()
        mod = re.sub(r'(?m)^module .*$', 'module hh', mod)
        mod += '\nrequire github.com/gkampitakis/go-snaps v0.0.0\nreplace github.com/gkampitakis/go-snaps => %s\n' % repo
        open(os.path.join(self.h, 'go.mod'), 'w').write(mod)
        shutil.copy(os.path.join(repo, 'go.sum'), self.h)
        self.bins = {}
        self.n = 0
        self.runs = 0
        self.samples = []

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def build(self, kind='plain'):
        if kind in self.bins:
            return self.bins[kind]
        out = os.path.join(self.h, 'h_%s.test' % kind)
        args = {'plain': [], 'race': ['-race'], 'trim': ['-trimpath'], 'yield': self.yielding}[kind]
        args = args() if callable(args) else args
        p = subprocess.run(['go', 'test', '-vet=off', '-c'] + args + ['-o', out, '.'], cwd=self.h, env=goenv(), capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            raise HarnessError('build failed: ' + p.stderr[-3000:])
        self.bins[kind] = out
        return out

    def yielding(self):
        """the standard library with an Unlock that hands the processor over: other goroutines run between critical sections"""
        src = os.path.join(os.path.dirname(GO), 'src', 'sync')
        rep = {}
        for f, pat in (('mutex.go', r'(func \(m \*Mutex\) Unlock\(\) \{\n(?:[^\n]+\n)*?)(\}\n)'), ('rwmutex.go', r'(func \(rw \*RWMutex\) R?Unlock\(\) \{\n(?:[^\n]*\n)*?)(\}\n)')):
            t = open(os.path.join(src, f)).read()
            t = re.sub(pat, r'\1\truntime.Gosched()\n\2', t)
            t = t.replace('import (', 'import (\n\t"runtime"', 1)
            o = os.path.join(self.h, 'yield_' + f + 'x')
            open(o, 'w').write(t)
            rep[os.path.join(src, f)] = o
        # Pool unlocks while pinned to a processor: leave that one alone
        t = open(os.path.join(src, 'pool.go')).read().replace('allPoolsMu.Unlock()', 'allPoolsMu.mu.Unlock()')
        o = os.path.join(self.h, 'yield_pool.gox')
        open(o, 'w').write(t)
        rep[os.path.join(src, 'pool.go')] = o
        ov = os.path.join(self.h, 'yield.json')
        json.dump({'Replace': rep}, open(ov, 'w'))
        return ['-overlay', ov]

    def box(self):
        self.n += 1
        d = os.path.join(self.root, 'box%d' % self.n)
        os.makedirs(d)
        return Box(self, d)


BASE_ENV = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'TMPDIR': '/tmp'}


class Box:
    def __init__(self, bench, d):
        self.b, self.d = bench, d
        self.dir = os.path.join(d, 'snaps')
        self.log = []
        os.makedirs(os.path.join(d, 'tmp'))

    def done(self):
        if not self.b.samples and self.log:
            t = json.dumps(self.log[0].get('scenario'))
            self.b.samples.append(json.loads(t) if len(t) < 4000 else t[:4000])
        shutil.rmtree(self.d, ignore_errors=True)

    def run(self, scen, ci=False, upd=None, args=(), kind='plain', nocolor=True, cwd=None, env=None, usedir=True, timeout=120):
        scen = dict(scen)
        if usedir:
            scen['Dir'] = self.dir
        f = os.path.join(self.d, 'scen.json')
        o = os.path.join(self.d, 'out.json')
        json.dump(scen, open(f, 'w'))
        if os.path.exists(o):
            os.remove(o)
        e = dict(BASE_ENV, HSCEN=f, HOUT=o, TMPDIR=os.path.join(self.d, 'tmp'))
        if ci:
            e['CI'] = 'true'
        if upd is not None:
            e['UPDATE_SNAPS'] = upd
        if nocolor:
            e['NO_COLOR'] = '1'
        e.update(env or {})
        exe = self.b.build(kind)
        entry = dict(scenario=scen, env={k: v for k, v in e.items() if k in ('CI', 'UPDATE_SNAPS', 'NO_COLOR')}, args=list(args), binary=kind)
        self.log.append(entry)
        p = subprocess.run([exe] + list(args), cwd=cwd or self.b.h, env=e, capture_output=True, timeout=timeout)
        self.b.runs += 1
        self.out = p.stdout.decode('latin-1') + p.stderr.decode('latin-1')
        if not os.path.exists(o):
            entry['crash'] = self.out[-3000:]
            return None
        r = json.load(open(o))
        entry['result'] = r
        r['text'] = self.out
        return r

    def files(self):
        """path relative to the snapshot dir -> bytes (latin-1)"""
        out = {}
        for base, ds, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(base, f)
                out[os.path.relpath(p, self.dir)] = open(p, 'rb').read().decode('latin-1')
        return out

    def age(self):
        """make every file look old, so that a write can be seen"""
        for base, ds, fs in os.walk(self.dir):
            for f in fs:
                os.utime(os.path.join(base, f), (1000000000, 1000000000))

    def written(self):
        out = set()
        for base, ds, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(base, f)
                if int(os.stat(p).st_mtime) != 1000000000:
                    out.add(os.path.relpath(p, self.dir))
        return out

    def put(self, rel, text):
        p = os.path.join(self.dir, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'wb').write(text.encode('latin-1'))


# ---------------------------------------------------------------- the snapshot file, from the properties

def esc_line(l):
    if l == '---':
        return '/-/-/-/'
    if re.fullmatch(r'/*/-/-/-/', l):
        return '/' + l
    return l


def unesc_line(l):
    if l == '/-/-/-/':
        return '---'
    if re.fullmatch(r'/+/-/-/-/', l):
        return l[1:]
    return l


def esc(t):
    return '\n'.join(esc_line(l) for l in t.split('\n'))


def unesc(t):
    return '\n'.join(unesc_line(l) for l in t.split('\n'))


def entry(test, k, text, raw=False):
    return '\n[%s - %d]\n%s\n---\n' % (test, k, text if raw else esc(text))


def parse(text):
    """[(id, body)] in file order; None when the file is torn"""
    if text == '':
        return []
    if not text.endswith('\n'):
        return None
    ls = text[:-1].split('\n')
    out, cur, body = [], None, []
    for l in ls:
        if cur is None:
            if l == '':
                continue
            if not (l.startswith('[') and l.endswith(']')):
                return None
            cur, body = l[1:-1], []
        elif l == '---':
            out.append((cur, '\n'.join(body)))
            cur = None
        else:
            body.append(l)
    return None if cur is not None else out


# ---------------------------------------------------------------- values

TOK = ['---', '/-/-/-/', '//-/-/-/', '/---', '--- ', ' ---', '----', '--', '', ' ', '[TestA - 1]', '[TestB - 1]', '[TestA/s - 2]',
       '[TestC - 1]', 'a', 'b', 'ab', '\xff\xfe', '\xc3\xa9', 'caf\xc3', '%d %s %!', '{"a":1}', 'x' * 100, '[mock - 1', 'a\rb', '\x00', '/', '//', '-/-/-/', '\xef\xbf\xbd', '\xed\xa0\x80', '[TestA - 10]', 'key: value', '/-/-/-/ ', '\u00a0']


def gen_text(r, long=False):
    k = r.random()
    if k < .04:
        return ''
    if k < .08:
        return '\n' * r.randint(1, 4)
    if long and k < .12:
        return ('y' * r.choice([4095, 4096, 65535, 65536, 70000, 140000])) + r.choice(['', '\n', '\nz', '\n---\nz'])
    n = r.choice([1, 1, 1, 2, 3, 4, 6, 12])
    t = '\n'.join(r.choice(TOK) for _ in range(n))
    if r.random() < .15:
        t = '\n' + t
    if r.random() < .2:
        t += '\n'
    return t


def mutate(r, t):
    """a different text"""
    for _ in range(50):
        k = r.randint(0, 11)
        if k == 0:
            u = t + '\n'
        elif k == 1:
            u = '\n' + t
        elif k == 2:
            u = t[:-1]
        elif k == 3:
            u = t + r.choice([' ', '-', '\x00', 'z'])
        elif k == 4 and t:
            i = r.randrange(len(t))
            u = t[:i] + r.choice(['\xfe', '\xff', 'q', '\n', '/', '-', ' ']) + t[i + 1:]
        elif k == 5:
            u = t.replace('---', '/-/-/-/', 1)
        elif k == 6:
            u = t.replace('/-/-/-/', '---', 1)
        elif k == 7:
            u = t.replace('\n', '', 1)
        elif k == 8:
            ls = t.split('\n')
            r.shuffle(ls)
            u = '\n'.join(ls)
        elif k == 9 and t:
            i = r.randrange(len(t) + 1)
            u = t[:i] + t[i + 1:]
        elif k == 10:
            u = t.replace('/-/-/-/', '//-/-/-/', 1)
        else:
            u = gen_text(r)
        if u != t and '\r\n' not in u and not u.endswith('\r'):
            return u
    return t + 'Q'


def gen_json(r, depth=0):
    k = r.random()
    if depth > 2 or k < .5:
        return r.choice([0, 1, -3, 1.5, 'x', '', '---', 'a\nb', True, False, None, 12345678901234567890, '\u00e9', '<&>', 'x' * 90])
    if k < .75:
        return [gen_json(r, depth + 1) for _ in range(r.randint(0, 4))]
    return {r.choice(['a', 'b', 'c', 'zz', 'k1', 'A', 'ab', 'x_y']): gen_json(r, depth + 1) for _ in range(r.randint(0, 4))}


def jtext(r, v):
    """some spelling of v with insignificant whitespace"""
    return json.dumps(v, ensure_ascii=r.random() < .5, indent=r.choice([None, 1, 2, '\t']), separators=r.choice([(',', ':'), (', ', ': ')])).encode('utf-8').decode('latin-1')


def gotext(r, v):
    """like jtext, strings spelt the way encoding/json spells them: the text a Go value is marshalled to, up to whitespace"""
    t = json.dumps(v, ensure_ascii=False, indent=r.choice([None, 1, 2, '\t']), separators=r.choice([(',', ':'), (', ', ': ')]))
    for c in '<>&\u2028\u2029':
        t = t.replace(c, '\\u%04x' % ord(c))
    return t.encode('utf-8').decode('latin-1')


def shuffled(r, v):
    if isinstance(v, dict):
        ks = list(v)
        r.shuffle(ks)
        return {k: shuffled(r, v[k]) for k in ks}
    if isinstance(v, list):
        return [shuffled(r, x) for x in v]
    return v


def gen_yaml(r):
    docs = []
    for _ in range(r.choice([1, 1, 1, 2])):
        ls = []
        ks = ['a', 'b', 'cc', 'd_e', 'zed', 'k0']
        r.shuffle(ks)
        for k in ks[:r.randint(1, 4)]:
            v = r.choice(['1', 'x', '"q # r"', 'true', '[1, 2]', '{i: 1}', '|\n  l1\n  l2', "'---'", 'null', '1.50', '-3'])
            ls.append('%s: %s' % (k, v) + (r.choice(['', ' # note']) if '\n' not in v else ''))
        if r.random() < .3:
            ls.insert(r.randrange(len(ls) + 1), '# a comment')
        docs.append('\n'.join(ls))
    t = '\n---\n'.join(docs)
    if r.random() < .6:
        t += '\n'
    if r.random() < .1:
        t = '---\n' + t
    return t
