"""python3 run.py PROP SECONDS SEED [REPO [WORKERS]]: replays scenarios for one property on the real code"""
import sys, json, time, random, traceback, multiprocessing, hashlib
from hlib import *
import props
import props2


def one(prop, f, s, b):
    r = random.Random('%s/%s/%s' % (prop, f.__name__, s))
    try:
        f(prop, r, b)
    except Violation as v:
        return dict(property=prop, family=f.__name__, seed=str(s), what=v.what, detail=v.detail)
    except subprocess.TimeoutExpired as e:
        return dict(property=prop, family=f.__name__, seed=str(s), what='the test process hung', detail=str(e)[:500])
    return None


def worker(prop, secs, seed, w, b, q, stop, fs):
    if w:
        b.root = os.path.join(b.root, 'w%d' % w)
        os.makedirs(b.root)
    t0 = time.time()
    n, fams, found, err = 0, {}, None, None
    try:
        once = [f for f in fs if getattr(f, 'once', False)]
        rest = [f for f in fs if not getattr(f, 'once', False)]
        i = 0
        todo = (once if w == 0 else []) + rest
        while todo and not stop.is_set():
            for f in todo:
                found = one(prop, f, '%s.%d.%d' % (seed, w, i), b)
                n += 1
                fams[f.__name__] = fams.get(f.__name__, 0) + 1
                if found or stop.is_set() or (i and time.time() - t0 >= secs):
                    break
            i += 1
            if found or time.time() - t0 >= secs:
                break
            todo = rest
    except Exception:
        err = traceback.format_exc()
    q.put((n, b.runs, fams, found, err, b.samples))
    if found:
        stop.set()


def search(prop, secs, seed, repo='/repo', workers=6):
    """-> dict(found=None or {...}, cases, runs, families, errors)"""
    t0 = time.time()
    b = Bench(repo)
    out = dict(found=None, cases=0, runs=0, families={}, errors=[], samples=[])
    try:
        fs = props.FAM.get(prop, [])
        if any(getattr(f, 'solo', False) for f in fs):
            workers = 1
        kinds = {'plain'}
        for f in fs:
            kinds |= set(getattr(f, 'kinds', ()))
        for k in sorted(kinds):
            b.build(k)
        ctx = multiprocessing.get_context('fork')
        q, stop = ctx.Queue(), ctx.Event()
        ps = [ctx.Process(target=worker, args=(prop, secs, seed, w, b, q, stop, fs)) for w in range(workers)]
        for p in ps:
            p.start()
        end = time.time() + secs + 240
        for _ in ps:
            try:
                n, runs, fams, found, err, samples = q.get(timeout=max(1, end - time.time()))
            except Exception:
                out['errors'].append('a worker gave no answer')
                break
            out['cases'] += n
            out['runs'] += runs
            for k, v in fams.items():
                out['families'][k] = out['families'].get(k, 0) + v
            if found and not out['found']:
                out['found'] = found
            if err:
                out['errors'].append(err)
            if len(out['samples']) < 2:
                out['samples'] += samples
        for p in ps:
            p.join(5)
            if p.is_alive():
                p.kill()
        out['seconds'] = time.time() - t0
        return out
    finally:
        b.close()


if __name__ == '__main__':
    a = sys.argv
    r = search(a[1], float(a[2]), a[3] if len(a) > 3 else '1', a[4] if len(a) > 4 else '/repo', int(a[5]) if len(a) > 5 else 6)
    if r['found']:
        f = r['found']
        print('VIOLATION', f['property'], f['family'], f['seed'], f['what'])
        d = f['detail']
        if isinstance(d, dict):
            print(json.dumps({k: v for k, v in d.items() if k != 'log'}, default=str)[:3000])
    print({k: v for k, v in r.items() if k not in ('found', 'samples')})
