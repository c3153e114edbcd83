"""The entry points MainMain of the submission and the monitor servers: nothing is served unless the log was loaded and started."""
from iomodels import *
from cryptomodels import NILIF
import exec as ex

LISTENER = 'net.Listener'


def server_models(P, fails):
    """http.Serve, and the start-up steps: name -> (result type or None); each may fail"""
    def serve(P, st, args, i):
        rec(st, 'Serve', 'ok', l=args[0], h=args[1])
        return (newerr(st),)
    P.models['net/http.Serve'] = serve
    for name, mk in fails.items():
        def step(P, st, args, i, name=name, mk=mk):
            if args and args[0] is None:
                raise ex.GoPanic('nil receiver')
            s2 = st.clone()
            v = mk(P, st)
            rec(st, name, 'ok', args=args, v=v)
            rec(s2, name, 'err', args=args)
            return [(st, 'ret', (v, NILIF)), (s2, 'ret', (P.zero(s2, i['results'][0]), newerr(s2)))]
        P.models[name] = step


def common(P, st, k, r, steps, listener):
    """the steps happened in order, each once; nothing is served after a failure"""
    cs = calls(st)
    ops = [c[0] for c in cs if c[0] in steps or c[0] == 'Serve']
    P.oblige(st, 'ensures.steps-in-order', ops == (steps + ['Serve'])[:len(ops)])
    sv = [c[1] for c in cs if c[0] == 'Serve']
    bad = [c for c in cs if c[0] in steps and c[2] != 'ok']
    P.oblige(st, 'ensures.nothing-served-after-a-failure', not (sv and bad) and len(sv) <= 1 and (not sv or len(ops) == len(steps) + 1))
    for c in sv:
        P.oblige(st, 'ensures.listener', term(c['l']).eq(term(listener)))
        last = [x[1]['v'] for x in cs if x[0] == steps[-1]][-1:]
        P.oblige(st, 'ensures.serves-what-was-started', bool(last) and term(c['h']).eq(term(last[0])))
    return sv, bad


def submit_main(P):
    P.prefix = 'ctsubmit.MainMain/'
    install_io(P)
    st = State(P)
    load, start = CS + 'LoadLog', '(*%sLog).Start' % CS
    P.nonnil.add('*' + CS + 'Log')
    log = Ptr(SymObj(nn(st, 'log'), P.tid[CS + 'Log']))
    handler = SymIface(nn(st, 'mux'), P.tid['net/http.Handler'])
    server_models(P, {load: lambda P, st: log, start: lambda P, st: handler})
    l = SymIface(nn(st, 'listener'), P.tid[LISTENER])
    kv, addr = st.fresh_seq('kvpath'), st.fresh_seq('consul')
    outs = run(P, st, CS + 'MainMain', [SymIface(nn(st, 'ctx')), l, kv, addr, None])

    def post(st, k, r):
        sv, bad = common(P, st, k, r, [load, start], l)
        for c in calls(st):
            if c[0] == load:
                P.oblige(st, 'ensures.loads-the-configured-log', And(seq_eq(st, c[1]['args'][1], kv), seq_eq(st, c[1]['args'][2], addr)))
            if c[0] == start:
                P.oblige(st, 'ensures.starts-the-loaded-log', term(c[1]['args'][0]).eq(term(log)))
        if not sv and not bad:
            P.oblige(st, 'ensures.serves-when-nothing-failed', eqt(kv.len, 0))
    forall(P, outs, post)
    reach(P, outs, 'reach.serves', lambda st, k, r: any(c[0] == 'Serve' for c in calls(st)))
    reach(P, outs, 'reach.refuses', lambda st, k, r: any(c[2] == 'err' for c in calls(st)))


def monitor_main(P):
    P.prefix = 'ctmonitor.MainMain/'
    install_io(P)
    st = State(P)
    start = CM + 'Start'
    handler = SymIface(nn(st, 'mux'), P.tid['net/http.Handler'])
    server_models(P, {start: lambda P, st: handler})
    l = SymIface(nn(st, 'listener'), P.tid[LISTENER])
    d, u, mask = st.fresh_seq('dir'), st.fresh_seq('url'), st.fresh_int('mask', 0, 64)
    outs = run(P, st, CM + 'MainMain', [l, d, u, mask, None])

    def post(st, k, r):
        sv, bad = common(P, st, k, r, [start], l)
        for c in calls(st):
            if c[0] == start:
                a = c[1]['args']
                P.oblige(st, 'ensures.configured-storage-and-mask', And(seq_eq(st, a[1], d), seq_eq(st, a[2], u), eqt(a[3], mask)))
        if not sv and not bad:
            P.oblige(st, 'ensures.serves-when-nothing-failed', And(eqt(d.len, 0), eqt(u.len, 0)))
    forall(P, outs, post)
    reach(P, outs, 'reach.serves', lambda st, k, r: any(c[0] == 'Serve' for c in calls(st)))


# ------------------------------------------------------------------ commands
CMD = 'itko.dev/cmd/'


def flag_models(P, st, names):
    """the flag package: a flag reads its default until flag.Parse, then whatever the operator gave"""
    given = {n: (st.fresh_seq('flag.' + n) if k is str else st.fresh_int('flag.' + n, -2 ** 31, 2 ** 31)) for n, k in names.items()}

    def name_of(st, v):
        for n in names:
            if st.decide(seq_eq(st, v, lit(n))):
                return n
        return None

    def declared(st, p, v, args):
        n = name_of(st, args[0])
        st.store(p, args[1])
        st.ghost['flags'] = st.ghost.get('flags', ()) + ((p, v(n, st)),)

    def var(ty, kind):
        def val(n, s):
            if n is not None and names[n] is kind:
                return given[n]
            return s.fresh_seq('flag') if kind is str else s.fresh_int('flag', -2 ** 31, 2 ** 31)

        def new(P, st, args, i):
            p = Ptr(st.alloc(args[1], P.tid[ty]))
            declared(st, p, val, args)
            return (p,)

        def into(P, st, args, i):
            declared(st, args[0], val, args[1:])
            return ()
        return new, into
    for f, ty, kind in (('String', 'string', str), ('Int', 'int', int)):
        new, into = var(ty, kind)
        P.models['flag.' + f], P.models['flag.' + f + 'Var'] = new, into

    def parse(P, st, args, i):
        for p, v in st.ghost.get('flags', ()):
            st.store(p, v)
        return ()
    P.models['flag.Parse'] = parse
    P.models['symfn'] = lambda P, st, cal, args, i: ()

    def listen(P, st, args, i):
        s2 = st.clone()
        v = SymIface(nn(st, 'listener'), P.tid[LISTENER])
        rec(st, 'Listen', 'ok', net=args[0], addr=args[1], v=v)
        rec(s2, 'Listen', 'err', net=args[0], addr=args[1])
        return [(st, 'ret', (v, NILIF)), (s2, 'ret', (P.zero(s2, i['results'][0]), newerr(s2)))]
    P.models['net.Listen'] = listen
    return given


def command(cmd, entry, names, check):
    """the command hands the operator's flags to the server, on the address it was told to listen on"""
    def unit(P):
        P.prefix = cmd + '/'
        install_io(P)
        st = State(P)
        given = flag_models(P, st, names)

        def main(P, st, args, i):
            rec(st, 'MainMain', 'ok', args=args)
            return ()
        P.models[entry] = main
        outs = run(P, st, CMD + cmd + '.main', [])

        def post(st, k, r):
            ms = [c[1]['args'] for c in calls(st) if c[0] == 'MainMain']
            ls = [c for c in calls(st) if c[0] == 'Listen']
            P.oblige(st, 'ensures.one-server', len(ms) <= 1)
            for a in ms:
                l = [x for x in a if isinstance(x, SymIface) and any(c[2] == 'ok' and term(c[1]['v']).eq(term(x)) for c in ls)]
                P.oblige(st, 'ensures.listens-where-told', len(l) == 1 and len(ls) == 1 and seq_eq(st, ls[0][1]['addr'], given['listen-address']))
                check(P, st, a, given)
            if not ms:
                bad = Or(*([any(c[2] == 'err' for c in ls)] + [eqt(v.len, 0) if isinstance(v, Seq) else eqt(v, 0) for v in given.values()]))
                P.oblige(st, 'ensures.refuses-only-missing-flags-or-address', bad)
            return bool(ms)
        forall(P, outs, post)
        reach(P, outs, 'reach.serves', lambda st, k, r: any(c[0] == 'MainMain' for c in calls(st)))
    return unit


def monitor_flags(P, st, a, g):
    P.oblige(st, 'ensures.configured-storage-and-mask',
             And(seq_eq(st, a[1], g['store-directory']), seq_eq(st, a[2], g['store-address']), eqt(a[3], g['mask-size'])))
    P.oblige(st, 'ensures.no-start-signal', a[4] is None)


def submit_flags(P, st, a, g):
    P.oblige(st, 'ensures.configured-log', seq_eq(st, a[2], g['kv-path']))
    P.oblige(st, 'ensures.no-start-signal', a[4] is None)


monitor_command = command('itko-monitor', CM + 'MainMain', {'store-directory': str, 'store-address': str, 'listen-address': str, 'mask-size': int}, monitor_flags)
submit_command = command('itko-submit', CS + 'MainMain', {'kv-path': str, 'listen-address': str}, submit_flags)


def fastly_command(P):
    P.prefix = 'fastly-monitor/'
    install_io(P)
    st = State(P)

    def serve(P, st, args, i):
        rec(st, 'Serve', 'ok', f=args[0])
        return ()
    P.models['github.com/fastly/compute-sdk-go/fsthttp.ServeFunc'] = serve
    outs = nopanic(P, run(P, st, CMD + 'fastly-monitor.main', []), 'no-panic')
    forall(P, outs, lambda st, k, r: P.oblige(st, 'ensures.serves-the-monitor', [getattr(c[1]['f'], 'fn', None) for c in calls(st) if c[0] == 'Serve'] == [CM + 'FastlyServe']))
    reach(P, outs, 'reach.serves', lambda st, k, r: True)
