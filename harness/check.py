"""check.py PROPERTY [REPO]: the check of one property.

1. builds govc and lets it verify every function under contract that the property rests on;
2. verifies the theorems over those contracts (the Verus library in spec/);
3. replays scenarios on the real code: a witness search when an obligation failed, a bounded
   stand-in for what the contracts assume otherwise;
4. demonstrates the known findings; writes evidence/<property>.json."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from hlib import Bench, HarnessError, goenv
import run as replay
import findings

LEVELS = json.load(open(os.path.join(HERE, 'levels.json')))
ASSUME = [l.strip() for l in open(os.path.join(VERIF, 'ASSUMPTIONS.txt')) if l.strip() and not l.startswith('#')]


def jdump(d, f, **k):
    def other(o):
        if isinstance(o, (set, frozenset)):
            return sorted(o, key=str)
        return o.decode('latin-1') if isinstance(o, bytes) else str(o)

    def keys(o):
        if isinstance(o, dict):
            return {a if isinstance(a, str) else str(a): keys(b) for a, b in o.items()}
        if isinstance(o, (list, tuple)):
            return [keys(b) for b in o]
        return o
    with f:
        f.write(json.dumps(keys(d), default=other, **k))


def theorems(prop):
    out = []
    for f in sorted(glob.glob(os.path.join(VERIF, 'spec', '*.rs'))):
        t = open(f).read()
        for m in re.finditer(r'// THEOREM \[([^\]]*)\] ([^\n]*)\n(?:\s*//[^\n]*\n|#\[[^\n]*\n)*pub (?:broadcast )?proof fn (\w+)', t):
            if prop in m.group(1).split():
                out.append((m.group(3), m.group(2)))
    return out


def axioms():
    out = []
    for f in sorted(glob.glob(os.path.join(VERIF, 'spec', '*.rs'))):
        t = open(f).read()
        for m in re.finditer(r'// AXIOM ([^\n]*)\n', t):
            out.append(m.group(1))
    return out


def prove(prop, repo, tmp):
    e = goenv({'GOFLAGS': ''})
    exe = os.path.join(tmp, 'govc')
    p = subprocess.run(['go', 'build', '-o', exe, '.'], cwd=os.path.join(VERIF, 'govc'), env=e, capture_output=True, text=True)
    if p.returncode != 0:
        raise HarnessError('govc does not build: ' + p.stderr[-2000:])
    out = os.path.join(tmp, 'out')
    e = goenv()
    e['PATH'] = os.environ['PATH'] + ':' + e['PATH']
    e['GOFLAGS'] = ''
    cmd = [exe, '-repo', repo, '-contracts', os.path.join(VERIF, 'contracts'), '-spec', os.path.join(VERIF, 'spec'), '-prop', prop, '-out', out]
    try:
        p = subprocess.run(cmd, env=dict(os.environ, **e), capture_output=True, text=True, timeout=420)
    except subprocess.TimeoutExpired:
        return dict(obligations=[], functions=[], fatal='govc took over 420 s'), cmd
    try:
        return json.load(open(os.path.join(out, 'result.json'))), cmd
    except (OSError, ValueError):
        return dict(obligations=[], functions=[], fatal='govc gave no result: ' + (p.stdout + p.stderr)[-2000:]), cmd


def main():
    prop = sys.argv[1]
    repo = sys.argv[2] if len(sys.argv) > 2 else '/repo'
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vc')
    level = LEVELS[prop]
    failed, viol, lines = [], [], []
    try:
        r, cmd = prove(prop, repo, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    r['obligations'] = r.get('obligations') or []
    r['functions'] = r.get('functions') or []
    obs = [o for o in r['obligations'] if prop in (o.get('props') or [])]
    if r.get('fatal'):
        failed.append(dict(name='verifier', func='', text='the verifier accepts the input', detail=r['fatal'], status='failed'))
    elif not r.get('spec_ok', True):
        failed.append(dict(name='library', func='', text='the theorem library verifies', detail=r.get('spec_detail', ''), status='failed'))
    # vacuous obligations prove nothing
    vac = set(r.get('vacuous') or [])
    failed += [o for o in obs if o['status'] != 'proved']
    for v in sorted(vac):
        failed.append(dict(name='not-vacuous', func=v, text='the assumptions of the proof are consistent', status='failed', detail='false was proved'))
    th = theorems(prop)
    # replay
    secs = {'quick': 30, 'thorough': 300}[tier]
    if failed:
        secs = max(secs, 150)
    rep, err = None, None
    try:
        rep = replay.search(prop, secs, seed, repo)
        if rep['errors'] and not rep['found']:
            err = rep['errors'][0]
    except Exception as e:
        err = '%s: %s' % (type(e).__name__, e)
    known = []
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            m = re.match(r'finding: property=(\S+) (\S+) (.*)', l)
            if m and m.group(1) == prop:
                b = Bench(repo)
                try:
                    what = findings.FINDINGS[m.group(2)](b)
                except Exception as e:
                    what = None
                finally:
                    b.close()
                if what:
                    known.append('%s: %s' % (m.group(2), what))
                    lines.append('KNOWN-FINDING: property=%s %s: %s (%s)' % (prop, m.group(2), m.group(3), what))
    except OSError:
        pass
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, prop + '.json')
    if os.path.exists(rpath):
        os.remove(rpath)
    short = [dict(function=o['func'], obligation=o['name'], states=o.get('text'), position=o.get('pos'), detail=o.get('detail')) for o in failed]
    if rep and rep['found']:
        jdump(dict(property=prop, failing_input=rep['found'], failed_obligations=short, how='the scenario in failing_input was run against the real code of %s by harness/run.py %s' % (repo, prop)), open(rpath, 'w'), indent=1)
        lines.append('violated: %s' % rep['found']['what'][:300].replace('\n', ' '))
        viol.append('VIOLATION property=%s replay=%s' % (prop, rpath))
    elif failed:
        jdump(dict(property=prop, failing_input=None, failed_obligations=short, searched=rep and {k: rep[k] for k in ('cases', 'runs', 'families', 'seconds')}), open(rpath, 'w'), indent=1)
        viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rpath))
    for o in short[:10]:
        lines.append('obligation not discharged: %s %s: %s %s' % (o['function'], o['obligation'], o['states'], (o['detail'] or '')[:300].replace('\n', ' ')))
    proved = [o for o in obs if o['status'] == 'proved']
    trusted = ['govc (the translation from Go SSA to verification conditions)', 'go/packages, go/types, go/ssa', 'Verus and Z3'] + \
        ['assumed contract: ' + a for a in (r.get('assumed_contracts') or [])] + ['axiom: ' + a for a in axioms()]
    ext = sorted({x for f in r['functions'] if prop in (f.get('props') or []) for x in (f.get('externs') or [])})
    uni = sorted({x for f in r['functions'] if prop in (f.get('props') or []) for x in (f.get('uninterpreted') or [])})
    trusted += ['modelled library function: ' + x for x in ext]
    cov = dict(
        obligations=len(obs) + len(th), discharged=len(proved) + (len(th) if r.get('spec_ok') else 0),
        checker_cmd=' '.join(['govc'] + cmd[1:-2]) + '  (verus over the generated conditions and spec/*.rs)',
        trusted_base=trusted,
        back_end='Verus / Z3',
        functions_under_contract=sorted(f['func'] for f in r['functions'] if prop in (f.get('props') or [])),
        inlined=sorted({x for f in r['functions'] if prop in (f.get('props') or []) for x in (f.get('inlined') or [])}),
        uninterpreted=uni,
        obligation_names=sorted({'%s %s' % (o['func'], o['name']) for o in obs}),
        theorems=['%s: %s' % t for t in th], library_lemmas=r.get('spec_lemmas'),
        vacuity_probes=r.get('probes'), seconds=r.get('seconds'),
        bounded_replay=dict(label='bounded, not counted as proved', evaluations=(rep or {}).get('cases', 0), executions=(rep or {}).get('runs', 0), families=(rep or {}).get('families', {}), seconds=(rep or {}).get('seconds', 0), error=err),
        known_findings=known)
    cov['evaluations'] = (rep or {}).get('cases', 0)
    cov['samples'] = (rep or {}).get('samples', [])[:2]
    if level != 'proof':
        cov['explanation'] = 'contract obligations discharged by a deductive verifier, together with a bounded replay of scenarios on the real code for what the contracts leave assumed'
        cov['distinct_nontrivial'] = (rep or {}).get('cases', 0)
        cov['rule'] = 'a case is a generated history of test executions replayed on the real code and compared with a model of the property; every case runs at least one call of the library and differs by its seed'
    ev = dict(property=prop, tier=tier, seed=int(seed) if re.match(r'^-?\d+$', seed) else 0, level=level, coverage=cov, assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=len(viol))
    jdump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for l in lines:
        print(l.encode('ascii', 'backslashreplace').decode().translate({i: '\\x%02x' % i for i in list(range(32)) + [127]}))
    print('%s: %d of %d obligations discharged, %d theorems, %d functions; replay: %d cases, %d runs; %.0f s' % (prop, len(proved), len(obs), len(th), len(cov['functions_under_contract']), cov['evaluations'], cov['bounded_replay']['executions'], time.time() - t0))
    if viol:
        print(viol[0])
        return 1
    if err:
        print('the replay did not run: ' + err)
        return 2
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
