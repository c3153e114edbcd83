"""C21: get-sth and get-roots serve the published objects."""
from serve import *
from mains import monitor_main, monitor_command


def object_unit(method, key):
    """the handler answers 200 with exactly the stored bytes of its object, or an error status"""
    def unit(P):
        P.prefix = 'ctmonitor.%s/' % method
        install_io(P)
        install_strings(P)
        st = State(P)
        stored = st.fresh_seq('stored')

        def get(P, st, args, i):
            s2 = st.clone()
            rec(st, 'Get', 'ok', key=args[2])
            rec(s2, 'Get', 'err', key=args[2])
            # what comes along with an error is arbitrary
            return [(st, 'ret', (bytesv(P, st, stored), False, NILIF)),
                    (s2, 'ret', (bytesv(P, s2, s2.fresh_seq('partial')), s2.fresh_bool('notfound'), newerr(s2)))]
        P.imodels[(STO, 'Get')] = get
        P.imodels[(STO, 'AvailableReqs')] = lambda P, st, args, i: (st.fresh_int('avail'),)
        f = P.fresh(st, P.tid[FETCH], 'f')
        fs = list(f.f)
        fs[fidx(P, FETCH, 's')] = SymIface(nn(st, 'storage'), P.tid[STO])
        query = MapRef(SymObj(nn(st, 'query'), P.tid['net/url.Values']), P.tid['net/url.Values'])
        outs = nopanic(P, run(P, st, '(%s).%s' % (FETCH, method), [St(P.tid[FETCH], fs), SymIface(nn(st, 'ctx')), SymIface(st.fresh_u('body')), query]), 'no-panic')

        def post(st, k, r):
            resp, code, err = r
            gs = [c for c in calls(st) if c[0] == 'Get']
            ok = st.decide(isnil(st, err))
            P.oblige(st, 'ensures.reads-its-object', And(*[seq_eq(st, c[1]['key'], lit(key)) for c in gs]))
            if ok:
                P.oblige(st, 'ensures.status', eqt(code, 200))
                P.oblige(st, 'ensures.answer-only-when-read', any(c[2] == 'ok' for c in gs))
                P.oblige(st, 'ensures.exact-bytes', seq_eq(st, st.content(resp), stored))
            else:
                P.oblige(st, 'ensures.error-only-when-unreadable', any(c[2] == 'err' for c in gs))
                P.oblige(st, 'ensures.error-status', And(ge(code, 500), le(code, 599)))
            return ok
        forall(P, outs, post)
        reach(P, outs, 'reach.answer', lambda st, k, r: st.decide(isnil(st, r[2])))
        reach(P, outs, 'reach.error', lambda st, k, r: not st.decide(isnil(st, r[2])))
    return unit


UNITS = [('get_sth', object_unit('get_sth', 'ct/v1/get-sth')), ('get_roots', object_unit('get_roots', 'ct/v1/get-roots')),
         ('Start', start_unit(['/ct/v1/get-sth', '/ct/v1/get-roots'])), ('wrapper', wrapper), ('MainMain', monitor_main), ('command', monitor_command)]
UNDER = ['(%sFetch).%s' % (CM, m) for m in ('get_sth', 'get_roots')] + ['(*%sFetch).get' % CM] + [CM + x for x in ('Start', 'wrapper', 'newFetch', 'MainMain')] + ['itko.dev/cmd/itko-monitor.main']
ASSUMPTIONS = SERVE_ASSUME[:1] + ['storage reads meet the Storage contract (C17); what is stored under the two keys is C01, C04 and C20', 'http.Serve answers requests by the handler it is given']
REPLAY = [{'pkg': 'internal/ctmonitor', 'file': 'c21_test.go', 'test': 'TestVerifC21', 'with': ['vh_test.go', 'vhlog_test.go', 'vhmon_test.go', 'c14_test.go']},
          {'pkg': 'cmd/itko-monitor', 'file': 'cmdmon_test.go', 'name': 'main', 'test': 'TestVerifCommand', 'with': ['vh_test.go']}]
