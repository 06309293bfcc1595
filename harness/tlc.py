"""Runs TLC on recorded traces and on the models."""
import os, re, json, subprocess, glob, shutil, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CLS = os.path.join(ROOT, 'build', 'cls')
SPEC = os.path.join(ROOT, 'spec')


class ToolError(Exception):
    pass


def build():
    src = os.path.join(ROOT, 'java', 'FPOverrides.java')
    dst = os.path.join(CLS, 'FPOverrides.class')
    if os.path.exists(dst) and os.path.getmtime(dst) >= os.path.getmtime(src):
        return
    tmp = CLS + '.%d' % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    p = subprocess.run(['javac', '-cp', JARS, '-d', tmp, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ToolError('javac failed: ' + p.stdout)
    os.makedirs(CLS, exist_ok=True)
    for f in glob.glob(os.path.join(tmp, '*')):
        os.replace(f, os.path.join(CLS, os.path.basename(f)))
    shutil.rmtree(tmp, ignore_errors=True)


def run(module, cfg, work, env=None, workers=8, timeout=840, extra=(), heap='6g', nodeadlock=True):
    """run TLC on SPEC/module.tla with SPEC/cfg; returns (returncode, output)"""
    build()
    os.makedirs(work, exist_ok=True)
    meta = os.path.join(work, 'meta')
    shutil.rmtree(meta, ignore_errors=True)
    tmp = os.path.join(work, 'tmp.' + module)
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    cmd = ['java', '-Djava.io.tmpdir=' + tmp, '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:FPOverrides',
           '-cp', JARS + ':' + CLS, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', os.path.join(SPEC, cfg)]
    if nodeadlock:
        cmd.append('-deadlock')
    cmd += list(extra) + [os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    shutil.rmtree(tmp, ignore_errors=True)
    return p.returncode, p.stdout


def stats(out):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def validate(chunks, work, name='trace', timeout=840):
    """check recorded chunks; returns dict(fails=[(chunk,event,[clauses])], generated, distinct)"""
    os.makedirs(work, exist_ok=True)
    path = os.path.join(work, name + '.json')
    data = [c for c in chunks]
    with open(path, 'w') as f:
        json.dump(data, f)
    rc, out = run('WizTrace', 'WizTrace.cfg', os.path.join(work, name + '.tlc'), env={'WIZ_TRACE': path}, timeout=timeout)
    fails = []
    for m in re.finditer(r'<<\s*"FAIL",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>', out):
        fails.append((int(m.group(1)), int(m.group(2)), sorted(x.strip().strip('"') for x in m.group(3).split(','))))
    gen, dist = stats(out)
    expected = sum(len(c) + 1 for c in data)
    ok = 'Model checking completed. No error has been found.' in out
    if ok and dist != expected:
        raise ToolError('trace not followed to its end: %d states, expected %d\n%s' % (dist, expected, out[-3000:]))
    err = None
    if not ok:
        # an event whose verdict cannot be evaluated (malformed result): the state TLC was in identifies it
        c = re.findall(r'/\\ c = (\d+)', out)
        i = re.findall(r'/\\ i = (\d+)', out)
        if c and i:
            err = (int(c[-1]), int(i[-1]) + 1)
        else:
            raise ToolError('TLC failed\n' + out[-4000:])
    return dict(fails=sorted(fails), error=err, generated=gen, distinct=dist, out=out, trace=path)
