"""The servers of the monitor: which handler answers which path, over which storage and limits (Start, FastlyServe),
and how a handler's answer reaches the client (wrapper, FastlyWrapper)."""
from monitor import *
from strmodels import install_strings
import exec as ex
from mains import fastly_command

RW, FRW = 'net/http.ResponseWriter', 'github.com/fastly/compute-sdk-go/fsthttp.ResponseWriter'
RQ, FRQ = 'net/http.Request', 'github.com/fastly/compute-sdk-go/fsthttp.Request'
FH = 'github.com/fastly/compute-sdk-go/fsthttp.'
FETCH = CM + 'Fetch'
PATHS = {'/ct/v1/get-sth-consistency': 'get_sth_consistency', '/ct/v1/get-proof-by-hash': 'get_proof_by_hash', '/ct/v1/get-entries': 'get_entries',
         '/ct/v1/get-entry-and-proof': 'get_entry_and_proof', '/ct/v1/get-sth': 'get_sth', '/ct/v1/get-roots': 'get_roots'}
# the request budget of C12: more entries than this are never promised, and the arithmetic of get-entries is proved below it
MAXENTRIES = 2 ** 31 - 1


def handlers(P):
    """the handlers, recorded; their contracts are the units of C12, C13 and C14"""
    def mk(name):
        def f(P, st, args, i):
            rec(st, 'handler', 'ok', name=name, f=args[0], ctx=args[1], query=args[3])
            return (P.fresh(st, i['results'][0], 'resp'), st.fresh_int('code', 100, 999), SymIface(st.fresh_u('err')))
        return f
    for n in PATHS.values():
        P.models['(%s).%s' % (FETCH, n)] = mk(n)


def query_of(P, url):
    t = P.tid['net/url.Values']
    return MapRef(SymObj(uf('queryof', [url], core.U), t), t)


def responses(P, rw, err):
    def event(op):
        def f(P, st, args, i):
            rec(st, op, 'ok', a=[st.content(x) if isinstance(x, (SliceV, Seq)) else x for x in args], w=args[0])
            return tuple(P.fresh(st, t, 'r') for t in i['results'])
        return f
    P.models[err] = event('Error')
    P.imodels[(rw, 'WriteHeader')] = event('WriteHeader')
    P.imodels[(rw, 'Write')] = event('Write')
    for n in ('Fprint', 'Fprintf', 'Fprintln'):
        P.models['fmt.' + n] = event('Write')
    P.imodels[(rw, 'Header')] = lambda P, st, args, i: (P.fresh(st, i['results'][0], 'hdr'),)
    for h in ('(net/http.Header).Set', '(%sHeader).Set' % FH):
        P.models[h] = lambda P, st, args, i: ()
    P.models['(*net/url.URL).Query'] = lambda P, st, args, i: (
        rec(st, 'Query', 'ok', url=args[0]), query_of(P, term(args[0])))[1:]


def field(P, st, v, tname, f):
    return v.f[fidx(P, tname, f)] if isinstance(v, St) else st.load(Ptr(v.obj, tuple(v.path) + (fidx(P, tname, f),)))


def wrap_unit(fn, rw, rq, errfn, prefix):
    """what a handler returns reaches the client: the status code, and the body of an answer"""
    def unit(P):
        P.prefix = prefix
        install_io(P)
        install_strings(P)
        st = State(P)
        resp, code = st.fresh_seq('resp'), st.fresh_int('code', 100, 999)
        err = SymIface(st.fresh_u('err'))
        w = SymIface(nn(st, 'w'), P.tid[rw])
        r = Ptr(SymObj(nn(st, 'rq'), P.tid[rq]))
        url = term(fieldval(P, st, r, rq, 'URL'))

        def handler(P, st, cal, args, i):
            rec(st, 'handler', 'ok', ctx=args[0], query=args[2])
            return (bytesv(P, st, resp), code, err)
        responses(P, rw, errfn)
        P.models['symfn'] = handler
        outs = nopanic(P, run(P, st, fn, [SymFn(nn(st, 'wrapped'))]), 'no-panic')
        for o in outs:
            args = [w, r] if rw == RW else [SymIface(nn(o.st, 'ctx')), w, r]
            outs2 = nopanic(P, [ex.Outcome(*x) for x in P.call(o.st, o.val[0], args, {'results': []})], 'no-panic')

            def post(st, k, _):
                ev = [c for c in calls(st) if c[0] in ('Error', 'WriteHeader', 'Write')]
                hs = [c[1] for c in calls(st) if c[0] == 'handler']
                P.oblige(st, 'ensures.handler-called-once', len(hs) == 1)
                P.oblige(st, 'ensures.handler-gets-the-query', len(hs) == 1 and isinstance(hs[0]['query'], MapRef) and term(hs[0]['query']).eq(term(query_of(P, url))))
                P.oblige(st, 'ensures.writes-to-the-client', all(term(c[1]['w']).eq(term(w)) for c in ev))
                if st.decide(isnil(st, err)):
                    ops = [c[0] for c in ev]
                    P.oblige(st, 'ensures.answer', ops == ['WriteHeader', 'Write'] or (ops == ['Write'] and eqt(code, 200)))
                    for o, c, _x in ev:
                        if o == 'WriteHeader':
                            P.oblige(st, 'ensures.status-reaches-the-client', eqt(c['a'][1], code))
                        elif o == 'Write':
                            P.oblige(st, 'ensures.body-reaches-the-client', seq_eq(st, c['a'][1], resp))
                else:
                    P.oblige(st, 'ensures.error', [c[0] for c in ev] == ['Error'])
                    if [c[0] for c in ev] == ['Error']:
                        P.oblige(st, 'ensures.status-reaches-the-client', eqt(ev[0][1]['a'][2], code))
                return True
            forall(P, outs2, post)
            reach(P, outs2, 'reach', post)
    return unit


wrapper = wrap_unit(CM + 'wrapper', RW, RQ, 'net/http.Error', 'ctmonitor.wrapper/')
fastly_wrapper = wrap_unit(CM + 'FastlyWrapper', FRW, FRQ, FH + 'Error', 'ctmonitor.FastlyWrapper/')




def start_unit(paths):
    """the handlers Start installs: each of the paths is answered by its own handler, with the mask size given, a limit on
    entries within the contract of get-entries, over the storage configured"""
    def unit(P):
        P.prefix = 'ctmonitor.Start/'
        install_io(P)
        install_strings(P)
        m = P.models
        st = State(P)
        handlers(P)
        responses(P, RW, 'net/http.Error')

        def handle(P, st, args, i):
            rec(st, 'Handle', 'ok', pattern=args[1], h=args[2], mux=args[0])
            return ()
        m['(*net/http.ServeMux).Handle'] = handle
        m['(*net/http.ServeMux).HandleFunc'] = handle
        m['net/http.NewServeMux'] = lambda P, st, args, i: (Ptr(SymObj(nn(st, 'mux'), P.tid['net/http.ServeMux'])),)
        m['go.opentelemetry.io/contrib/instrumentation/net/http/otelhttp.NewHandler'] = lambda P, st, args, i: (args[0],)

        def maxb(P, st, args, i):
            o = SymIface(nn(st, 'limited'), P.tid['net/http.Handler'])
            rec(st, 'MaxBytes', 'ok', h=args[0])
            return (o,)
        m['net/http.MaxBytesHandler'] = maxb
        dir_, url = st.fresh_seq('dir'), st.fresh_seq('url')
        mask = st.fresh_int('mask', 0, 64)
        outs = nopanic(P, run(P, st, CM + 'Start', [SymIface(nn(st, 'ctx')), dir_, url, mask]), 'no-panic')
        nodir = eqt(dir_.len, 0)

        def post(st, k, r):
            h, err = r
            P.oblige(st, 'ensures.started', isnil(st, err))
            cs = calls(st)
            muxes = [c[1]['mux'] for c in cs if c[0] == 'Handle']
            roots = [c[1]['h'] for c in cs if c[0] == 'MaxBytes'] or [h]
            P.oblige(st, 'ensures.serves-the-endpoints', len(roots) == 1 and len(muxes) > 0 and And(*[
                term(roots[0].v if isinstance(roots[0], Iface) else roots[0]) == term(x) for x in muxes]))
            hs = {}
            for c in cs:
                if c[0] == 'Handle':
                    p = c[1]['pattern'].concrete()
                    hs.setdefault(bytes(p).decode() if p is not None else None, []).append(c[1])
            P.oblige(st, 'ensures.patterns-known', None not in hs)
            for path in paths:
                x = hs.get('GET ' + path) or hs.get(path) or []
                P.oblige(st, 'ensures.endpoint-installed', len(x) == 1, path)
                if len(x) != 1:
                    continue
                hv = x[0]['h']
                fn = hv.v if isinstance(hv, Iface) else hv
                s0 = st.clone()
                w, rq = SymIface(nn(s0, 'w'), P.tid[RW]), Ptr(SymObj(nn(s0, 'rq'), P.tid[RQ]))
                for o in nopanic(P, [ex.Outcome(*y) for y in P.call(s0, fn, [w, rq], {'results': []})], 'endpoint-no-panic'):
                    s = o.st
                    hc = [c[1] for c in calls(s) if c[0] == 'handler']
                    P.oblige(s, 'ensures.endpoint-handler', [c['name'] for c in hc] == [PATHS[path]], path)
                    for c in hc:
                        f = c['f']
                        P.oblige(s, 'ensures.mask-size', eqt(field(P, s, f, FETCH, 'maskSize'), mask))
                        P.oblige(s, 'ensures.entry-limit-within-contract', And(gt(field(P, s, f, FETCH, 'maxGetEntry'), 0), le(field(P, s, f, FETCH, 'maxGetEntry'), MAXENTRIES)))
                        stor = field(P, s, f, FETCH, 's')
                        tn = stor.ty if isinstance(stor, Iface) else None
                        if s.decide(nodir):
                            P.oblige(s, 'ensures.storage', tn == '*' + CM + 'UrlStorage' and seq_eq(s, field(P, s, stor.v, CM + 'UrlStorage', 'urlPrefix'), url))
                        else:
                            P.oblige(s, 'ensures.storage', tn == '*' + CM + 'FsStorage' and seq_eq(s, field(P, s, stor.v, CM + 'FsStorage', 'root'), dir_))
            return True
        forall(P, outs, post)
        reach(P, outs, 'reach.dir', lambda s, k, r: not s.decide(nodir))
        reach(P, outs, 'reach.url', lambda s, k, r: s.decide(nodir))
    return unit


def fastly_unit(paths):
    """FastlyServe: each of the paths is answered by its own handler over a fresh storage for the backend of the requested host"""
    def unit(P):
        P.prefix = 'ctmonitor.FastlyServe/'
        install_io(P)
        install_strings(P)
        st = State(P)
        handlers(P)
        responses(P, FRW, FH + 'Error')
        CSTORE = 'github.com/fastly/compute-sdk-go/configstore.'
        rq = Ptr(SymObj(nn(st, 'rq'), P.tid[FRQ]))
        w = SymIface(nn(st, 'w'), P.tid[FRW])
        url = fieldval(P, st, rq, FRQ, 'URL')
        st.fact(url.obj.t != NIL)
        path, method, host = fieldval(P, st, url, 'net/url.URL', 'Path'), fieldval(P, st, rq, FRQ, 'Method'), fieldval(P, st, rq, FRQ, 'Host')
        backend = st.fresh_seq('backend')

        def copen(P, st, args, i):
            s2 = st.clone()
            rec(st, 'Open', 'ok', name=args[0])
            rec(s2, 'Open', 'err')
            return [(st, 'ret', (Ptr(SymObj(nn(st, 'store'), P.tid[CSTORE + 'Store'])), NILIF)), (s2, 'ret', (None, newerr(s2)))]

        def cget(P, st, args, i):
            s2 = st.clone()
            rec(st, 'Get', 'ok', key=args[1])
            rec(s2, 'Get', 'err', key=args[1])
            return [(st, 'ret', (backend, NILIF)), (s2, 'ret', (Seq([]), newerr(s2)))]
        P.models[CSTORE + 'Open'] = copen
        P.models['(*%sStore).Get' % CSTORE] = cget
        outs = nopanic(P, run(P, st, CM + 'FastlyServe', [SymIface(nn(st, 'ctx')), w, rq]), 'no-panic')
        FS = CM + 'FastlyStorage'

        def post(st, k, r):
            hc = [c[1] for c in calls(st) if c[0] == 'handler']
            got = [c for c in calls(st) if c[0] == 'Get']
            P.oblige(st, 'ensures.at-most-one-handler', len(hc) <= 1)
            for c in hc:
                P.oblige(st, 'ensures.right-handler', And(*[seq_eq(st, path, lit(p)) if n == c['name'] else True for p, n in PATHS.items()]))
                f = c['f']
                P.oblige(st, 'ensures.entry-limit-within-contract', And(gt(field(P, st, f, FETCH, 'maxGetEntry'), 0), le(field(P, st, f, FETCH, 'maxGetEntry'), MAXENTRIES)))
                stor = field(P, st, f, FETCH, 's')
                tn = stor.ty if isinstance(stor, Iface) else None
                P.oblige(st, 'ensures.storage', tn == '*' + FS)
                if tn == '*' + FS:
                    P.oblige(st, 'ensures.backend-of-the-host', len(got) == 1 and And(got[0][2] == 'ok', seq_eq(st, got[0][1]['key'], host), seq_eq(st, field(P, st, stor.v, FS, 'backend'), backend)))
                    P.oblige(st, 'ensures.fresh-budget', eqt(field(P, st, stor.v, FS, 'requests'), 0))
            get = seq_eq(st, method, lit('GET'))
            # only a failed look-up of the backend excuses a GET of an endpoint from being answered
            if not any(c[2] == 'err' for c in calls(st) if c[0] in ('Open', 'Get')) and st.decide(get):
                for p in paths:
                    if st.decide(seq_eq(st, path, lit(p))):
                        P.oblige(st, 'ensures.endpoint-answered', [c['name'] for c in hc] == [PATHS[p]])
            return True
        forall(P, outs, post)
        for p in paths:
            reach(P, outs, 'reach.' + PATHS[p], lambda s, k, r, p=p: [c[1]['name'] for c in calls(s) if c[0] == 'handler'] == [PATHS[p]])
    return unit


FASTLY_HOOKS = [('github.com/fastly/compute-sdk-go', [
    ('fsthttp/request.go', 'func (req *Request) Send(ctx context.Context, backend string) (*Response, error) {',
     'var VerifSend func(req *Request, backend string) (*Response, error)\n\nfunc (req *Request) Send(ctx context.Context, backend string) (*Response, error) {\n\tif VerifSend != nil {\n\t\treturn VerifSend(req, backend)\n\t}'),
    ('cache/simple/simple.go', 'func GetOrSet(key []byte, setFn func() (CacheEntry, error)) (io.ReadCloser, error) {',
     'var VerifGetOrSet func(key []byte, setFn func() (CacheEntry, error)) (io.ReadCloser, error)\n\nfunc GetOrSet(key []byte, setFn func() (CacheEntry, error)) (io.ReadCloser, error) {\n\tif VerifGetOrSet != nil {\n\t\treturn VerifGetOrSet(key, setFn)\n\t}'),
    ('configstore/configstore.go', 'func Open(name string) (*Store, error) {',
     'var VerifGet func(key string) (string, error)\n\nfunc Open(name string) (*Store, error) {\n\tif VerifGet != nil {\n\t\treturn &Store{}, nil\n\t}'),
    ('configstore/configstore.go', 'func (s *Store) Get(key string) (string, error) {',
     'func (s *Store) Get(key string) (string, error) {\n\tif VerifGet != nil {\n\t\treturn VerifGet(key)\n\t}'),
])]
# the servers of the monitor behind their routes, over published trees
SERVE_REPLAY = {'pkg': 'internal/ctmonitor', 'file': 'serve_test.go', 'test': 'TestVerifServe', 'patchmod': FASTLY_HOOKS,
                'with': ['vh_test.go', 'vhlog_test.go', 'vhmon_test.go', 'c12_test.go', 'c13_test.go', 'c14_test.go']}


def serve_units(*paths):
    paths = ['/ct/v1/' + p for p in paths]
    return [('Start', start_unit(paths)), ('FastlyServe', fastly_unit(paths)), ('wrapper', wrapper), ('FastlyWrapper', fastly_wrapper), ('fastly command', fastly_command)]


SERVE_UNDER = [CM + x for x in ('Start', 'FastlyServe', 'wrapper', 'FastlyWrapper', 'newFetch')] + ['itko.dev/cmd/fastly-monitor.main']
SERVE_ASSUME = ['net/http.ServeMux serves a request by the handler of the pattern it matches; otelhttp.NewHandler and MaxBytesHandler pass requests on',
                'fastly configstore.Store.Get returns the value of the key']
