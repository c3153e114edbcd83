"""C13: the proof endpoints answer only within the published tree and from its tiles."""
from serve import *
import monitor

METHODS = {'cons': 'get_sth_consistency', 'hash': 'get_proof_by_hash', 'both': 'get_entry_and_proof'}


def status_class(st, err, code):
    return st.decide(And(isnil(st, err), lt(code, 400)))


def setup(P, what, mode):
    published = mode != 'any-bytes'
    E = Mon(P, benign=mode == 'fault-free', published=published)
    P.prefix = 'ctmonitor.Fetch.%s/%s/' % (METHODS[what], mode)
    install_monitor(P, E)
    P.models['(*%sFetch).getIndexForHash' % CM] = index_for_hash(E)
    st = State(P)
    install_proofs(P, E, st)
    T = E.size = sth_size(P, st)
    if published:
        st.fact(z3.And(T >= 0, T < 2 ** 62))
    E.widths = lambda s, L, N, W: [True]
    args = [fetch(P, st), SymIface(nn(st, 'ctx')), SymIface(nn(st, 'body')),
            MapRef(SymObj(nn(st, 'q'), P.tid['net/url.Values']), P.tid['net/url.Values'])]
    return E, st, T, args


def proofs(st):
    return [x for x in calls(st) if x[0] == 'Prove']


def common(P, st, r, valid, wellformed, T, published):
    """rejections; returns whether the request was answered"""
    resp, code, err = r
    good = status_class(st, err, code)
    P.oblige(st, 'ensures.no-proof-for-invalid-parameters', Implies(tz(bool(proofs(st))), tz(valid)))
    if good:
        P.oblige(st, 'ensures.status', eqt(code, 200))
        P.oblige(st, 'ensures.only-valid-parameters-are-answered', valid)
        return True
    P.oblige(st, 'ensures.error-status', And(ge(code, 400), lt(code, 600)))
    client = And(ge(code, 400), lt(code, 500))
    P.oblige(st, 'ensures.4xx-for-malformed-parameters', Or(wellformed, client))
    sthread = any(x[0] == 'json.Unmarshal' for x in calls(st)) or st.ghost.get('sthok', False)
    if published and st.ghost.get('sthread'):
        P.oblige(st, 'ensures.4xx-beyond-the-published-tree', Or(valid, client))
    return False


def mark_sth(P):
    u = P.models['encoding/json.Unmarshal']

    def f(P, st, args, i):
        outs = u(P, st, args, i)
        for x in outs:
            s, k, v = x
            e = v[0] if isinstance(v, tuple) else v
            if e is NILIF or isnil(s, e) is True:
                s.ghost['sthread'] = True
        return outs
    P.models['encoding/json.Unmarshal'] = f


def consistency(mode):
    def check(P):
        E, st, T, args = setup(P, 'cons', mode)
        mark_sth(P)
        ok1, m = intparam(st, 'first')
        ok2, n = intparam(st, 'second')
        pw = st.fresh_int('pw')
        published = mode != 'any-bytes'
        wf = And(ok1, ok2, ge(m, 0), ge(n, 0), le(m, n))
        valid = And(wf, le(n, T))
        if mode == 'fault-free':
            st.fact(tz(And(wf, eqt(n, T))))
        outs = nopanic(P, run(P, st, '(%sFetch).get_sth_consistency' % CM, args), 'no-panic')

        def post(st, k, r):
            good = common(P, st, r, valid if published else wf, wf, T, published)
            if mode == 'fault-free':
                P.oblige(st, 'ensures.answered-at-the-published-size', good)
            if not good:
                return False
            ty, v = answered(P, st, r[0])
            R = CTP + 'GetSTHConsistencyResponse'
            P.oblige(st, 'ensures.response-type', ty == R)
            if ty != R:
                return False
            c = v.f[fidx(P, R, 'Consistency')]
            if st.decide(eqt(m, 0)):
                P.oblige(st, 'ensures.empty-proof-from-size-0', And(eqt(st.content(c).len, 0), Not(c.nil)))
                P.oblige(st, 'ensures.no-proof-computed-from-size-0', not proofs(st))
            else:
                check_proof(P, st.clone(), c, 'tree', n, m, pw)
            return True
        forall(P, outs, post)
        reach(P, outs, 'reach.answered', post)
    return check


def byhash(mode):
    def check(P):
        E, st, T, args = setup(P, 'hash', mode)
        mark_sth(P)
        okt, n = intparam(st, 'tree_size')
        pw = st.fresh_int('pw')
        q = query(st, 'hash')
        published = mode != 'any-bytes'
        qt = core.reifyst(st, q)
        state = {}

        def hash_of(st):
            enc = P.gvals.get('encoding/base64.StdEncoding')
            t = hashenc(P, st)
            return uf('b64ok', [t, qt], BOOL), uf('unb64', [t, qt], core.U)
        b64ok, hb = hash_of(st)
        okh = And(gt(q.len, 0), b64ok, eqt(uf('len', [hb], INT), 32))
        h16 = Seq([Sub(hb, 0, 16)])
        wf = And(okh, okt)
        idx = recorded(st, h16)
        if mode == 'fault-free':
            st.fact(tz(And(wf, eqt(n, T), lt(idx, n))))
        outs = nopanic(P, run(P, st, '(%sFetch).get_proof_by_hash' % CM, args), 'no-panic')

        def post(st, k, r):
            found = [x for x in calls(st) if x[0] == 'index' and x[2] == 'ok']
            valid = And(wf, le(n, T), lt(idx, n))
            for x in calls(st):
                if x[0] == 'index':
                    P.oblige(st, 'ensures.looks-up-the-first-16-bytes', seq_eq(st, x[1]['hash'], h16))
            good = common(P, st, r, valid, And(wf, le(n, T)) if False else wf, T, published and found)
            if not good:
                notfound = [x for x in calls(st) if x[0] == 'index' and x[2] != 'ok']
                if notfound:
                    P.oblige(st, 'ensures.4xx-for-an-unrecorded-hash', And(ge(r[1], 400), lt(r[1], 500)))
                if mode == 'fault-free':
                    P.oblige(st, 'ensures.answered-at-the-published-size', bool(notfound))
                return False
            ty, v = answered(P, st, r[0])
            R = CTP + 'GetProofByHashResponse'
            P.oblige(st, 'ensures.response-type', ty == R)
            if ty != R:
                return False
            P.oblige(st, 'ensures.leaf-index', eqt(v.f[fidx(P, R, 'LeafIndex')], idx))
            check_proof(P, st.clone(), v.f[fidx(P, R, 'AuditPath')], 'record', n, idx, pw)
            return True
        forall(P, outs, post)
        reach(P, outs, 'reach.answered', post)
    return check


def hashenc(P, st):
    return term(st.load(Ptr(SymObj(z3.Const('g:encoding/base64.StdEncoding', core.U), P.tid['*encoding/base64.Encoding']))))


def entry(mode):
    def check(P):
        E, st, T, args = setup(P, 'both', mode)
        mark_sth(P)
        okl, leaf = intparam(st, 'leaf_index')
        okt, n = intparam(st, 'tree_size')
        wf = And(okl, okt, ge(leaf, 0), lt(leaf, n))
        valid = And(wf, le(n, T))
        pw = st.fresh_int('pw')
        outs = nopanic(P, run(P, st, '(%sFetch).get_entry_and_proof' % CM, args), 'no-panic')

        def post(st, k, r):
            if not common(P, st, r, valid if mode != 'any-bytes' else wf, wf, T, mode != 'any-bytes'):
                return False
            R = CTP + 'GetEntryAndProofResponse'
            ty, v = answered(P, st, r[0])
            P.oblige(st, 'ensures.response-type', ty == R)
            if ty == R:
                check_proof(P, st.clone(), v.f[fidx(P, R, 'AuditPath')], 'record', n, leaf, pw)
            return True
        forall(P, outs, post)
        reach(P, outs, 'reach.answered', lambda st, k, r: status_class(st, r[2], r[1]))
    return check


def mkfetch(P, st):
    f = fetch(P, st)
    p = Ptr(st.alloc(f, f.ty))
    return p, SymIface(nn(st, 'ctx')), f.f[fidx(P, CM + 'Fetch', 'maskSize')], []


def lookup(P):
    install_io(P)
    P.models[SL + 'KAnonHashPath'] = kanon
    P.imodels[(STO, 'Get')] = st_get(True)
    index_unit('(*%sFetch).getIndexForHash' % CM, 'int/hashes/', None, mkfetch)(P)


UNITS = [('getTile', gettile_any), ('get_sth_consistency', consistency('any-outcome')), ('get_sth_consistency fault-free', consistency('fault-free')),
         ('get_sth_consistency any-bytes', consistency('any-bytes')),
         ('get_proof_by_hash', byhash('any-outcome')), ('get_proof_by_hash fault-free', byhash('fault-free')),
         ('get_proof_by_hash any-bytes', byhash('any-bytes')),
         ('get_entry_and_proof', entry('any-outcome')), ('get_entry_and_proof any-bytes', entry('any-bytes')),
         ('getIndexForHash', lookup)]

UNDER = ['(%sFetch).%s' % (CM, m) for m in METHODS.values()] + ['(*%sFetch).%s' % (CM, m) for m in ('get', 'getSth', 'getTile', 'getIndexForHash')] + \
    [CM + 'hashreader', CM + 'hashreader$1'] + SERVE_UNDER
REPLAY = [{'pkg': 'internal/ctmonitor', 'file': 'c13_test.go', 'test': 'TestVerifC13', 'with': ['vh_test.go', 'vhlog_test.go', 'vhmon_test.go']},
          {'pkg': 'internal/ctmonitor', 'file': 'c07m_test.go', 'test': 'TestVerifMonitorLookup', 'with': ['vh_test.go', 'vhlog_test.go', 'vhmon_test.go']}]
ASSUMPTIONS = SERVE_ASSUME + ['tlog.ProveRecord / ProveTree ask the reader only for hashes of complete proper subtrees of the requested tree and return the RFC 6962 proof of the hashes they are given',
               'tlog.TileForIndex, StoredHashIndex, HashFromTile, base64, encoding/json and strconv.ParseInt behave as documented',
               '0 <= maskSize <= 32', 'storage reads meet the Storage contract (C17)',
               'a request for an intermediate size may fail with a 5xx status when its partial tiles were never published']
UNITS += serve_units('get-sth-consistency', 'get-proof-by-hash', 'get-entry-and-proof')
REPLAY += [SERVE_REPLAY]
from c03 import growth, STAGEONE_REPLAY
UNITS += [('stageOne batch size', growth)]
UNDER += ['(*%sstageOneData).stageOne' % CS]
REPLAY += [STAGEONE_REPLAY]
