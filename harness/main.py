"""check one property: drive the real code, record, let TLC judge the recorded traces and the models"""
import sys, os, json, time, importlib, hashlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(v, '1')
os.environ.setdefault('MPLBACKEND', 'agg')
sys.dont_write_bytecode = True
import numpy as np
import tlc
from rec import Rec

SHOW = 12


def known(pid):
    out = []
    with open(os.path.join(ROOT, 'known_findings.txt')) as f:
        for l in f:
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                d = dict(x.split('=', 1) for x in l[len('finding: '):].split(' :: ')[0].split())
                d['text'] = l.split(' :: ', 1)[1]
                out.append(d)
    return out


def matches(finding, ev, clauses):
    """a finding names the function and the (only) clause that fails"""
    return [finding['clause']] == clauses and ev.get('f', ev.get('op')) in finding['f'].split(',')


def main():
    pid = sys.argv[1].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tlc.build()
    mod = importlib.import_module('props.' + pid.lower())
    out = os.path.join(ROOT, 'out', pid)
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        if f.startswith('violation'):
            os.remove(os.path.join(out, f))
    work = os.path.join(out, 'work.%d' % os.getpid())
    os.makedirs(work, exist_ok=True)
    rec = Rec(pid, seed, tier)
    rec.work = work
    violations, findings = [], {}
    try:
        broke = None
        try:
            mod.build(rec)
        except tlc.ToolError:
            raise
        except Exception:      # a result too malformed for the driver to go on: what was recorded up to here is judged
            broke = traceback.format_exc()
        keep = set(mod.CLAUSES) if hasattr(mod, 'CLAUSES') else None
        drop = set() if pid in ('C02', 'C03', 'C31', 'C33', 'C34', 'C35', 'C36', 'C37', 'C38', 'C39') else {'pure'}
        for c in rec.chunks:
            for e in c.ev:
                e['chk'] = [x for x in e.get('chk', []) if x not in drop and (keep is None or x in keep or x == 'ok')]
        t1 = time.time()
        gen = dist = 0
        kf = known(pid)
        # split so that a single trace file stays moderate
        groups, cur, size = [], [], 0
        for k, c in enumerate(rec.chunks):
            cur.append(k)
            size += len(c.ev)
            if size > 40000:
                groups.append(cur)
                cur, size = [], 0
        if cur:
            groups.append(cur)
        budget = 850 if tier == 'quick' else 36000
        for gi, g in enumerate(groups):
            R = tlc.validate([rec.chunks[k].ev for k in g], work, 'trace%d' % gi, timeout=max(60, budget - (time.time() - t0)))
            gen += R['generated']
            dist += R['distinct']
            fails = list(R['fails'])
            if R['error']:
                fails.append((R['error'][0], R['error'][1], ['unreadable result']))
                with open(os.path.join(out, 'tlc.txt'), 'w') as f:
                    f.write(R['out'])
            for a, b, cl in fails:
                ch = rec.chunks[g[a - 1]]
                ev = ch.ev[b - 1]
                hit = [f for f in kf if matches(f, ev, cl)]
                if hit:
                    findings[hit[0]['id']] = hit[0]
                else:
                    violations.append((g[a - 1], b, cl))
        if broke and not violations:
            raise RuntimeError(broke)
        t2 = time.time()
        models = mod.models(rec) if hasattr(mod, 'models') else []
        for m in models:
            gen += m['generated']
            dist += m['distinct']
    finally:
        import shutil
        shutil.rmtree(work, ignore_errors=True)
    for f in findings.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, f['text']))
    lines = []
    for n, (k, b, cl) in enumerate(violations[:SHOW]):
        ch = rec.chunks[k]
        path = os.path.join(out, 'violation%d.json' % (n + 1))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, seed=seed, tier=tier, label=ch.label, chunk=k, event=b, clauses=cl, failing=ch.ev[b - 1], history=ch.ev[:b]), f, indent=1)
        e = ch.ev[b - 1]
        print('  %s event %d of "%s" chunk %d: %s %s' % (','.join(cl), b, ch.label, k, e.get('f', e['op']), e.get('msg', '')))
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
    # evidence
    level = mod.LEVEL
    nev = rec.events()
    evals, keys = 0, set()
    samples = []
    for c in rec.chunks:
        for e in c.ev:
            if not e.get('chk'):
                continue
            evals += 1
            o = e.get('o')
            if o or e['op'] not in ('Kernel', 'Query', 'FarmQuery'):
                nz = any(x.strip('-0. ') for row in (o or ['1']) for x in (row if isinstance(row, str) else '1').split())
                if nz:
                    keys.add(hashlib.sha1(json.dumps({q: w for q, w in e.items() if q not in ('pre', 'post', 'rel')}, sort_keys=True, default=str).encode()).digest()[:10])
    idx = np.random.default_rng(seed).permutation(len(rec.chunks))[:3]
    for k in idx:
        c = rec.chunks[k]
        samples.append(dict(label=c.label, events=[{q: (w if len(str(w)) < 300 else str(w)[:300] + '...') for q, w in e.items() if q not in ('pre', 'post')} for e in c.ev[:6]]))
    cov = dict(samples=samples, events=nev, chunks=len(rec.chunks), models=[{q: w for q, w in m.items() if q != 'out'} for m in models])
    if level == 'model_checking':
        cov.update(states=dist, transitions=gen, traces_validated_against_impl=len(rec.chunks))
    cov.update(evaluations=evals, distinct_nontrivial=len(keys),
               rule=getattr(mod, 'RULE', 'recorded calls with at least one clause to decide; non-trivial: distinct and with some non-zero result'))
    cov.update(rec.notes)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(violations),
              assumptions=getattr(mod, 'ASSUMPTIONS', ['IEEE double arithmetic; tolerances stated in DESIGN.md']))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d chunks, %d events, %d judged, %d distinct non-trivial; TLC %d states; record %.1fs, judge %.1fs, total %.1fs; %d violations' % (
        pid, len(rec.chunks), nev, evals, len(keys), dist, t1 - t0, t2 - t1, time.time() - t0, len(violations)))
    for l in lines:
        print(l)
    return 1 if violations else 0


if __name__ == '__main__':
    try:
        rc = main()
    except tlc.ToolError as e:
        print('TOOL ERROR', e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
