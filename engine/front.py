"""Front end: builds the SSA dumper and dumps /repo's current source."""
import hashlib, os, subprocess, sys, tempfile, json, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


def goenv():
    env = dict(os.environ)
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True).stdout
    for kv in out.split(b'\0'):
        if b'=' in kv:
            k, v = kv.split(b'=', 1)
            env[k.decode()] = v.decode(errors='replace')
    return env


def files(root, exts):
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if not x.startswith('.') and x != 'node_modules')
        for f in sorted(fs):
            if f.endswith(exts):
                yield os.path.join(d, f)


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def tool():
    """path of the SSA dumper, built from /verif/tool/ssadump"""
    src = os.path.join(VERIF, 'tool', 'ssadump')
    key = digest(list(files(src, ('.go', '.mod', '.sum'))))
    out = os.path.join(BUILD, 'ssadump-' + key)
    if os.path.exists(out):
        return out
    env = goenv()
    env.update(GOFLAGS='-mod=mod', GONOSUMDB='*', GOSUMDB='off', GOPROXY='off', GOTOOLCHAIN='local')
    go = '/opt/veriftools/go1.27.3/bin/go'
    if not os.path.exists(go):
        go = '/usr/local/bin/go'
    tmp = out + '.%d' % os.getpid()
    with tempfile.TemporaryDirectory(prefix='ssadump') as d:
        subprocess.run(['cp', '-r', src, d], check=True)
        w = os.path.join(d, 'ssadump')
        env2 = {k: v for k, v in env.items() if k not in ('GOROOT', 'GOTOOLDIR')}
        env2['PATH'] = '/usr/local/bin:/usr/bin:/bin'
        r = subprocess.run([go, 'build', '-o', tmp, '.'], cwd=w, env=env2, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('building the SSA dumper failed:\n' + r.stderr[-3000:])
    os.rename(tmp, out)
    return out


def dump():
    """JSON of the SSA of /repo's working tree (cached by source content)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = digest(list(files(REPO, ('.go', '.mod', '.sum')))) + digest(list(files(os.path.join(VERIF, 'tool'), ('.go', '.mod'))))
        out = os.path.join(BUILD, 'ssa-%s.json' % key)
        if not os.path.exists(out):
            exe = tool()
            env = goenv()
            tmp = out + '.tmp'
            with open(tmp, 'wb') as f:
                r = subprocess.run([exe, '-dir', REPO], stdout=f, stderr=subprocess.PIPE, env=env, cwd=REPO)
            if r.returncode:
                raise RuntimeError('dumping the SSA of /repo failed:\n' + r.stderr.decode()[-3000:])
            os.rename(tmp, out)
        with open(out) as f:
            return json.load(f), key


def prune(key):
    """drop cached dumps of other source states"""
    try:
        fs = sorted((os.path.getmtime(os.path.join(BUILD, f)), f) for f in os.listdir(BUILD) if f.startswith('ssa-'))
        for _, f in fs[:-6]:
            if key not in f:
                os.unlink(os.path.join(BUILD, f))
    except OSError:
        pass
