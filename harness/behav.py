"""Behaviours of the specification, generated by TLC from spec/Gen.tla"""
import re, json, os
import tlc


def generate(rec, family, depth, simulate=None):
    """all behaviours of the given length, or `simulate` random ones"""
    extra = []
    if simulate:
        extra = ['-simulate', 'num=%d' % simulate, '-depth', str(depth + 1), '-seed', str(rec.seed)]
    rc, out = tlc.run('Gen', 'Gen.cfg', os.path.join(rec.work, 'gen_%s_%d' % (family, depth)), env=dict(GEN_FAMILY=family, GEN_DEPTH=str(depth)),
                      extra=extra, workers=1 if simulate else 8)
    hs = []
    for m in re.finditer(r'"BEH (.*)"\s*$', out, re.M):
        hs.append(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
    if not hs or 'Error' in out:
        raise tlc.ToolError('generation failed\n' + out[-3000:])
    g, d = tlc.stats(out)
    rec.model['states'] += d
    rec.model['transitions'] += g
    rec.notes.setdefault('behaviours_generated', {})['%s/%d%s' % (family, depth, 's' if simulate else '')] = len(hs)
    if simulate:   # TLC evaluates all last steps of a run: keep one per run
        g_ = {}
        for h in hs:
            g_.setdefault(json.dumps(h[:-1], sort_keys=True), []).append(h)
        hs = [v[len(k) % len(v)] for k, v in sorted(g_.items())]
    hs.sort(key=lambda h: json.dumps(h, sort_keys=True))
    return hs
