"""C14: get-entry-and-proof serves every leaf of the published tree."""
from serve import *

RESP = CTP + 'GetEntryAndProofResponse'


def unit(benign, published=True):
    def check(P):
        E = Mon(P, benign=benign, published=published)
        P.prefix = 'ctmonitor.Fetch.get_entry_and_proof/%s/' % ('fault-free' if benign else 'any-outcome' if published else 'any-bytes')
        install_monitor(P, E)
        st = State(P)
        install_proofs(P, E, st)
        T = E.size = sth_size(P, st)
        okl, leaf = intparam(st, 'leaf_index')
        okt, n = intparam(st, 'tree_size')
        pw = st.fresh_int('pw')
        if published:
            st.fact(z3.And(T >= 0, T < 2 ** 62))
        E.widths = lambda s, L, N, W: [eqt(covered(s, L, N, W), T), le(covered(s, L, N, 256), T)]
        if benign:
            st.fact(tz(And(okl, okt, ge(leaf, 0), lt(leaf, n), eqt(n, T))))
        args = [fetch(P, st), SymIface(nn(st, 'ctx')), SymIface(nn(st, 'body')), MapRef(SymObj(nn(st, 'q'), P.tid['net/url.Values']), P.tid['net/url.Values'])]
        outs = nopanic(P, run(P, st, '(%sFetch).get_entry_and_proof' % CM, args), 'no-panic')

        def post(st, k, r):
            resp, code, err = r
            good = st.decide(And(isnil(st, err), lt(code, 400)))
            if benign:
                hints(st, [sub(leaf, mul(256, idiv(leaf, 256)))])
                P.oblige(st, 'ensures.every-leaf-is-served', And(good, eqt(code, 200)))
            elif not good:
                P.oblige(st, 'ensures.error-status', ge(code, 400))
                return False
            if not good:
                return False
            P.oblige(st, 'ensures.status', eqt(code, 200))
            P.oblige(st, 'ensures.only-within-the-published-tree', And(okl, okt, ge(leaf, 0), lt(leaf, n), le(n, T)))
            ty, v = answered(P, st, resp)
            P.oblige(st, 'ensures.response-type', ty == RESP)
            if ty != RESP:
                return False
            g = lambda f: v.f[fidx(P, RESP, f)]
            check_proof(P, st.clone(), g('AuditPath'), 'record', n, leaf, pw)
            if not published:
                return True
            e = st.load(entry_ptr(P, st, leaf))
            P.oblige(st, 'ensures.leaf-input', seq_eq(st, st.content(g('LeafInput')), mtl(st, e)))
            isp = st.decide(entry_fields(P, st, e)['isp'])
            P.oblige(st, 'ensures.complete-chain', seq_eq(st, st.content(g('ExtraData')), extra_data(P, st, e, isp)))
            return True
        forall(P, outs, post)
        reach(P, outs, 'reach.served', post)
    return check


def hints(st, js):
    for h in st.ghost.get('hyps', ()):
        for j in js:
            h.at(st, j)


UNITS = [('getTile', gettile_unit), ('get_entry_and_proof', unit(False)), ('get_entry_and_proof fault-free', unit(True))]

UNDER = ['(%sFetch).get_entry_and_proof' % CM, '(*%sFetch).getTile' % CM, '(*%sFetch).get' % CM, '(*%sFetch).getSth' % CM, CM + 'hashreader']
REPLAY = [{'pkg': 'internal/ctmonitor', 'file': 'c14_test.go', 'test': 'TestVerifC14', 'with': ['vh_test.go', 'vhlog_test.go', 'vhmon_test.go']}]
ASSUMPTIONS = SERVE_ASSUME + ['the published log of size T: full tiles, the partial tiles of size T, and every partial tile of level >= 1 at each width it went through (tiles are only added: C01; a batch has at most 256 entries: proved here of stage one); issuer objects of every entry (C15)',
               'tlog.ProveRecord asks the reader only for hashes of complete proper subtrees of the requested tree and returns the RFC 6962 audit path of the hashes it is given',
               'tlog.TileForIndex, StoredHashIndex and HashFromTile behave as documented (HashFromTile fails when tile, width or data do not fit)',
               'tls.Marshal, encoding/json and strconv.ParseInt behave as documented; tls.Marshal succeeds on entries within the limits of the structure']
UNITS += serve_units('get-entry-and-proof')
UNDER += SERVE_UNDER
REPLAY += [SERVE_REPLAY]
from c03 import growth, STAGEONE_REPLAY
UNITS += [('stageOne batch size', growth)]
UNDER += ['(*%sstageOneData).stageOne' % CS]
REPLAY += [STAGEONE_REPLAY]
