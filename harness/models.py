"""Model checking runs attached to the properties: the state machine and the reference semantics themselves, explored by TLC.

Each run must pass; each named deviation of the model (a way an implementation could go wrong) must make TLC report a violated
invariant, otherwise the model would not decide anything: both failures are errors of the machinery, not of the code."""
import os, time, concurrent.futures as cf
import tlc

MACHINES = {
    'one': ('MCWiz', dict(MC_FAMILY='one'), ['chicache', 'incyaw', 'frameyaw', 'loadwind', 'stalegl', 'lamlost', 'badload', 'qground', 'qpresc', 'newct', 'newlam', 'newmodel', 'newgl']),
    'alias': ('MCWiz', dict(MC_FAMILY='alias'), ['refhub', 'refwind', 'refframe', 'refload']),
    'farm': ('MCWiz', dict(MC_FAMILY='farm'), ['appendbad', 'firstrow', 'partial', 'view', 'refrows']),
    'overlap': ('MCOverlap', dict(MC_GROUND='0'), ['override', 'nofinally', 'chinone', 'buffer', 'cache']),
    'overlapground': ('MCOverlap', dict(MC_GROUND='1'), ['override', 'nofinally', 'chinone', 'buffer']),
    'dispatch': ('MCDispatch', {}, ['skewff', 'silent', 'longiany', 'multilongi', 'straightroot']),
    'geometry': ('MCGeom', {}, ['swirlsign', 'onehub', 'transposed', 'leftyaw', 'chisign']),
}
LEMMAS = ('tubes', 'plane', 'lines', 'rings', 'doublets', 'elliptic', 'points', 'loading')


def one(rec, name, bug='none', n=None, workers=2):
    t = time.time()
    if name in MACHINES:
        mod, env, _ = MACHINES[name]
        env = dict(env, MC_BUGS=bug)
    else:
        mod, env = 'MCLemmas', dict(MC_FAMILY=name, MC_N=str(n))
    rc, out = tlc.run(mod, mod + '.cfg', os.path.join(rec.work, 'mc_%s_%s' % (name, bug)), env=env, workers=workers, heap='3g')
    passed = 'Model checking completed. No error has been found.' in out
    broken = 'Invariant' in out and 'is violated' in out or 'is violated by the initial state' in out
    if bug == 'none' and not passed:
        raise tlc.ToolError('model %s does not satisfy its invariants\n%s' % (name, out[-3000:]))
    if bug != 'none' and not broken:
        raise tlc.ToolError('model %s does not notice deviation %s\n%s' % (name, bug, out[-3000:]))
    g, d = tlc.stats(out)
    r = dict(module=mod, family=name, deviation=bug, generated=g, distinct=d, result='holds' if bug == 'none' else 'violated, as it must be', wall_s=round(time.time() - t, 1))
    if n:
        r['samples'] = n
    return r


def run(rec, *names):
    """models that hold, and their deviations (quick: two of each, picked by the seed; thorough: all)"""
    jobs = []
    for name in names:
        if name in MACHINES:
            bugs = MACHINES[name][2]
            if not rec.thorough:
                k = rec.seed % len(bugs)
                bugs = [bugs[k], bugs[(k + len(bugs) // 2) % len(bugs)]]
            jobs += [(name, b, None) for b in ['none'] + bugs]
        else:
            jobs.append((name, 'none', 400 if rec.thorough else 40))
    with cf.ThreadPoolExecutor(4) as ex:
        return list(ex.map(lambda j: one(rec, *j), jobs))
