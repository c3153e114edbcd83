#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]: discharge every proof obligation of a property
on /repo's current source, write its evidence file, report violations."""
import shutil, importlib, json, multiprocessing as mp, os, resource, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(VERIF, 'engine'), os.path.join(VERIF, 'contracts')]
EVID = os.path.join(VERIF, 'evidence')


def unit_main(q, js, mod, name, tier):
    """one verification unit, in its own process"""
    t0 = time.time()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    import core, exec as ex
    from verify import new_program
    P = None
    err = None
    try:
        m = importlib.import_module(mod)
        P = new_program(js)
        dict(units(m))[name](P)
    except BaseException as e:  # noqa
        kind = type(e).__name__
        err = {'name': (P.prefix if P else '') + 'verifier', 'paths': 1, 'time': 0.0, 'failed': [
            {'msg': 'the obligations of this unit could not be generated or decided: %s: %s' % (kind, e), 'status': 'undecided',
             'trace': traceback.format_exc().splitlines()[-14:], 'cond': '', 'model': ''}]}
    obls = dict(P.obls) if P else {}
    if err:
        obls[err['name']] = err
    for o in obls.values():
        o['unit'] = name
    q.put((name, json.dumps({'obls': list(obls.values()), 'assumed': sorted(P.assumed) if P else [], 'inlined': sorted(P.inlined) if P else [],
                 'bounded': sorted(getattr(P, 'bounded', [])) if P else [],
                 'contracted': sorted(getattr(P, 'contracted', set())) if P else [],
                 'z3_queries': core.STATS.queries, 'z3_s': core.STATS.time, 'z3_unknown': core.STATS.unknown,
                 'cvc5_calls': ex.CVC5_CALLS[0], 'cvc5_unsat': ex.CVC5_CALLS[1], 'wall': time.time() - t0})))


def units(m):
    return getattr(m, 'UNITS', None) or [('all', m.check)]


def run_units(js, mod, tier, limit):
    m = importlib.import_module(mod)
    us = units(m)
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    res, procs = {}, {}
    todo = [n for n, _ in us]
    t0 = time.time()
    while todo or procs:
        while todo and len(procs) < 8:
            n = todo.pop(0)
            p = ctx.Process(target=unit_main, args=(q, js, mod, n, tier))
            p.start()
            procs[n] = (p, time.time())
        try:
            n, r = q.get(timeout=0.5)
            res[n] = json.loads(r)
            procs[n][0].join(5)
            procs[n][0].kill()
            del procs[n]
            continue
        except Exception:
            pass
        for n, (p, ts) in list(procs.items()):
            dead = not p.is_alive() and q.empty() and time.time() - ts > 1
            late = time.time() - t0 > limit
            if dead:
                try:
                    n2, r = q.get(timeout=1.0)
                    res[n2] = json.loads(r)
                    procs.pop(n2, None)
                    continue
                except Exception:
                    pass
            if dead or late:
                p.kill()
                res[n] = {'obls': [{'name': n + '/verifier', 'unit': n, 'paths': 1, 'time': 0.0, 'failed': [
                    {'msg': 'time limit of %d s reached' % limit if late else 'the verifier process ended (memory limit?)',
                     'status': 'undecided', 'trace': [], 'cond': '', 'model': ''}]}],
                    'assumed': [], 'inlined': [], 'bounded': [], 'contracted': [], 'z3_queries': 0, 'z3_s': 0, 'z3_unknown': 0,
                    'cvc5_calls': 0, 'cvc5_unsat': 0, 'wall': time.time() - ts}
                procs.pop(n, None)
    return res


def known(prop):
    """obligations listed as known findings of this property"""
    out = {}
    f = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                o, _, what = rest.partition(' ')
                if o.startswith('obligation='):
                    out[o[len('obligation='):]] = what
    return out


def replay(m, prop, tier, seed, failed=()):
    """run the replay harnesses against the real code: (list of failing inputs, cases run, notes)"""
    import front
    fails, cases, notes, samples = [], 0, [], []
    env = front.goenv()
    env.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_PROP=prop)
    for h in getattr(m, 'REPLAY', []):
        pkg, fname, test = h['pkg'], h['file'], h['test']
        with tempfile.TemporaryDirectory(prefix='verif-replay-') as d:
            ov = {'Replace': {os.path.join(front.REPO, pkg, 'zz_' + f if f.endswith('_test.go') else f): os.path.join(VERIF, 'replay', f)
                              for f in [fname] + h.get('with', [])}}
            for f in [fname] + h.get('with', []):
                pth = os.path.join(front.REPO, pkg, 'zz_' + f)
                src = open(os.path.join(VERIF, 'replay', f)).read()
                src = src.replace('package PKG', 'package ' + h.get('name', pkg.split('/')[-1]), 1)
                g = os.path.join(d, f)
                open(g, 'w').write(src)
                ov['Replace'][pth] = g
            of = os.path.join(d, 'overlay.json')
            json.dump(ov, open(of, 'w'))
            for x in ('go.mod', 'go.sum'):
                s = open(os.path.join(front.REPO, x), 'rb').read()
                open(os.path.join(d, x), 'wb').write(s)
            for mod, edits in h.get('patchmod', []):
                # a copy of a dependency with test hooks, used through a replace directive
                md = subprocess.run(['go', 'list', '-m', '-f', '{{.Dir}}', mod], cwd=front.REPO, env=env, capture_output=True, text=True).stdout.strip()
                cp = os.path.join(d, 'mod-' + mod.replace('/', '_'))
                shutil.copytree(md, cp, copy_function=shutil.copyfile)
                for root, ds, _ in os.walk(cp):
                    os.chmod(root, 0o755)
                for f, old, new in edits:
                    t = open(os.path.join(cp, f)).read()
                    assert t.count(old) == 1, (mod, f, t.count(old))
                    open(os.path.join(cp, f), 'w').write(t.replace(old, new))
                with open(os.path.join(d, 'go.mod'), 'a') as fh:
                    fh.write('\nreplace %s => %s\n' % (mod, cp))
            cf = os.path.join(d, 'case')
            env['VERIF_CASE_FILE'] = cf
            env['VERIF_TMP'] = os.path.join(d, 'tmp')
            env['TMPDIR'] = os.path.join(d, 'tmp')
            os.mkdir(env['TMPDIR'])
            lim = 240 if tier == 'thorough' else 150
            cmd = ['go', 'test', '-modfile', os.path.join(d, 'go.mod'), '-overlay', of, '-vet=off', '-count=1', '-timeout', '%ds' % lim,
                   '-run', '^%s$' % test, '-v'] + (['-race'] if h.get('race') else []) + ['./' + pkg]
            try:
                r = subprocess.run(cmd, cwd=front.REPO, env=env, capture_output=True, text=True, timeout=lim + 150, errors='replace')
                out = r.stdout + r.stderr
                rc = r.returncode
            except subprocess.TimeoutExpired as e:
                out, rc = 'replay harness timed out', 99
            n0 = len(fails)
            for l in out.splitlines():
                l = l.strip()
                k = l.find('VERIF-FAIL ')
                if k >= 0:
                    fails.append({'harness': test, 'input': l[k + 11:]})
                k = l.find('VERIF-CASES ')
                if k >= 0:
                    try:
                        cases += int(l[k + 12:].split()[0])
                    except ValueError:
                        pass
                k = l.find('VERIF-SAMPLE ')
                if k >= 0 and len(samples) < 6:
                    samples.append(l[k + 13:][:400])
            if rc != 0 and len(fails) == n0:
                if os.path.exists(cf) and ('panic:' in out or 'fatal error:' in out or 'DATA RACE' in out or 'test timed out' in out or 'VERIF-STARTED' in out):
                    case = open(cf).read()
                    if case:
                        tail = [l for l in out.splitlines() if 'panic' in l or 'fatal' in l or 'RACE' in l][:4]
                        fails.append({'harness': test, 'input': case, 'crash': tail})
                        continue
                notes.append('%s did not run: %s' % (test, out[-1500:]))
    return fails, cases, notes, samples


def main():
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    if tier == 'thorough':
        os.environ['VERIF_Z3_TIMEOUT'] = '20000'
    import front
    mod = prop.lower()
    m = importlib.import_module(mod)
    res, gen_err = {}, None
    try:
        js, key = front.dump()
        front.prune(key)
    except Exception as e:
        gen_err = str(e)
    if gen_err is None:
        res = run_units(js, mod, tier, 1500 if tier == 'thorough' else 560)
        want = getattr(m, 'FUNCS', [])
        have = set(f['name'] for f in js['funcs'])
    obls = []
    for u in res.values():
        obls += u['obls']
    if gen_err:
        obls.append({'name': 'frontend', 'unit': '', 'paths': 1, 'time': 0, 'failed': [
            {'msg': gen_err[-3000:], 'status': 'undecided', 'trace': [], 'cond': '', 'model': ''}]})
    elif not obls:
        obls.append({'name': 'no-obligations', 'unit': '', 'paths': 1, 'time': 0, 'failed': [
            {'msg': 'the verifier generated no obligation', 'status': 'undecided', 'trace': [], 'cond': '', 'model': ''}]})
    kn = known(prop)
    bad, kf = [], []
    for o in obls:
        if o['failed']:
            (kf if o['name'] in kn else bad).append(o)
    total = sum(max(o['paths'], 1) for o in obls)
    nfail = sum(len(o['failed']) for o in obls)
    assumed = sorted(set(a for u in res.values() for a in u['assumed']))
    fails, cases, notes, samples = [], 0, [], []
    if bad or tier == 'thorough':
        fails, cases, notes, samples = replay(m, prop, tier, seed, bad)
    for o in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, kn[o['name']]))
    viol = bool(bad) or bool(fails)
    rp = os.path.join(EVID, 'replay-%s.json' % prop)
    if viol:
        doc = {'property': prop, 'tier': tier, 'seed': seed, 'failing_inputs': fails[:20],
               'failed_obligations': [{'obligation': o['name'], 'unit': o['unit'], 'failures': o['failed'][:3]} for o in bad],
               'replay_harness': [dict(h) for h in getattr(m, 'REPLAY', [])], 'harness_cases': cases, 'harness_notes': notes,
               'rerun': 'cd /verif && VERIF_SEED=%d python3-vt check.py %s %s' % (seed, prop, tier)}
        with open(rp, 'w') as f:
            json.dump(doc, f, indent=1)
    elif os.path.exists(rp):
        os.unlink(rp)
    funcs = sorted(set(x for u in res.values() for x in u['inlined']) | set(x for u in res.values() for x in u['contracted']))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {
              'obligations': total, 'discharged': total - nfail,
              'contract_clauses': len(obls),
              'checker_cmd': 'python3-vt /verif/check.py %s %s' % (prop, tier),
              'trusted_base': ['go/ssa translation of /repo (golang.org/x/tools, /verif/tool/ssadump)',
                               'the obligation generator in /verif/engine (path-wise symbolic execution, loop rules)',
                               'z3 %s; cvc5 for obligations z3 leaves undecided' % z3v()] + ['assumed contract: ' + a for a in assumed],
              'functions_under_contract': getattr(m, 'UNDER', []),
              'functions_verified_in_context': funcs,
              'back_ends': {'z3': {'queries': sum(u['z3_queries'] for u in res.values()), 'seconds': round(sum(u['z3_s'] for u in res.values()), 2),
                                   'unknown': sum(u['z3_unknown'] for u in res.values())},
                            'cvc5': {'calls': sum(u['cvc5_calls'] for u in res.values()), 'discharged': sum(u['cvc5_unsat'] for u in res.values())}},
              'clauses': [{'name': o['name'], 'paths': o['paths'], 'failed': len(o['failed']), 'seconds': round(o['time'], 3)} for o in obls],
              'bounded_not_proved': sorted(set(b for u in res.values() for b in u['bounded'])) + getattr(m, 'BOUNDED', []),
              'conformance_cases': cases, 'samples': samples or ['%s: %d paths' % (o['name'], o['paths']) for o in obls[:5]],
          },
          'assumptions': getattr(m, 'ASSUMPTIONS', []) + ['assumed contract (not verified): ' + a for a in assumed] +
          ['integers are mathematical with Go wrap-around made explicit; lengths below 2^48'],
          'wall_s': round(time.time() - t0, 2), 'violations': (1 if viol else 0)}
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d obligations, %d discharged, %d contract clauses, %d z3 queries, %.1f s%s' % (
        prop, tier, total, total - nfail, len(obls), ev['coverage']['back_ends']['z3']['queries'], time.time() - t0,
        ', %d conformance cases' % cases if cases else ''))
    for n in notes[:3]:
        print('NOTE', n[-600:])
    if viol:
        for o in bad[:12]:
            f = o['failed'][0]
            print('FAILED OBLIGATION %s (%s): %s' % (o['name'], f['status'], f['msg'][:300]))
        for f in fails[:5]:
            print('FAILING INPUT %s: %s' % (f['harness'], f['input'][:600]))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if fails else ' no-failing-input-found'))
        sys.stdout.flush()
        return 1
    return 0


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:
        traceback.print_exc()
        p = sys.argv[1].upper() if len(sys.argv) > 1 else '?'
        rp = os.path.join(EVID, 'replay-%s.json' % p)
        os.makedirs(EVID, exist_ok=True)
        json.dump({'property': p, 'error': traceback.format_exc()}, open(rp, 'w'))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (p, rp))
        rc = 1
    sys.stdout.flush()
    os._exit(rc)
