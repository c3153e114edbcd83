"""C12: get-entries returns a contiguous run of true entries from start."""
from serve import *

RESP = CTP + 'GetEntriesResponse'
LE_T = CTP + 'LeafEntry'


def minz(a, b):
    return simp(z3.If(tz(le(a, b)), tz(a), tz(b)))


def maxz(a, b):
    return simp(z3.If(tz(ge(a, b)), tz(a), tz(b)))


def entries_shape(E):
    """loop invariant of the collected entries: those from start up to the next leaf of the tiles read, within the range asked for"""
    def factory(P, st, v0, k, id):
        if not isinstance(v0, SliceV):
            return None
        c0 = st.content(v0)
        fam = entries_family(P)
        if c0.p and not (len(c0.p) == 1 and isinstance(c0.p[0], Cat) and c0.p[0].fam is fam):
            return None
        start, N0, end = E.start, E.N0, E.end
        ctx = st.ctx
        if len(ctx) == 1:
            x = lambda kk: mul(256, add(N0, kk))
        else:
            x = lambda kk: add(mul(256, add(N0, ctx[-2])), kk)
        hi = lambda kk: maxz(start, minz(x(kk), add(end, 1)))

        def content(kk):
            return Seq([Cat(fam, start, hi(kk))])
        nil = st.fresh_bool('nil')
        c = content(k)
        o = st.alloc(c, ('backing', P.tid['*' + ENTRY]))
        cap = st.fresh_int('cap')
        st.fact(cap >= tz(c.len))
        st.fact(z3.Implies(nil, tz(eqt(c.len, 0))))
        val = SliceV(Ptr(o), 0, c.len, cap, nil)

        def chk(s, v, kk):
            if not isinstance(v, SliceV):
                return False
            return seq_eq(s, s.content(v), content(kk))
        return val, chk
    return factory


def unit(mode):
    def check(P):
        published = mode != 'any-bytes'
        benign = mode == 'fault-free'
        E = Mon(P, benign=benign, published=published, budget=not benign)
        P.prefix = 'ctmonitor.Fetch.get_entries/%s/' % mode
        install_monitor(P, E)
        st = State(P)
        T = E.size = sth_size(P, st)
        E.widths = lambda s, L, N, W: [eqt(covered(s, L, N, W), T), le(covered(s, L, N, 256), T)]
        oks, start = intparam(st, 'start')
        oke, end = intparam(st, 'end')
        f = fetch(P, st)
        limit = f.f[fidx(P, CM + 'Fetch', 'maxGetEntry')]
        st.fact(tz(And(ge(limit, 0), lt(limit, 2 ** 31))))
        w = st.fresh_int('w')
        valid = And(oks, oke, ge(start, 0), le(start, end), lt(start, T))
        E.start = start
        E.end = st.fresh_int('last')
        st.fact(E.end == tz(minz(end, minz(add(start, limit), sub(T, 1)))))
        E.N0, E.N1 = idiv(start, 256), idiv(E.end, 256)
        if published:
            st.fact(z3.And(T >= 0, T < 2 ** 62))
            P.shapes.append(('[]*' + ENTRY, entries_shape(E)))
            P.maxunroll = 0     # the invariant is stated for the tile loop and the leaf loop inside it
        if benign:
            st.fact(tz(valid))
            u = P.models['encoding/json.Unmarshal']
            P.models['encoding/json.Unmarshal'] = lambda P, st, a, i: ext.json_unmarshal(P, st, a, i)[:1]
        args = [f, SymIface(nn(st, 'ctx')), SymIface(nn(st, 'body')), MapRef(SymObj(nn(st, 'q'), P.tid['net/url.Values']), P.tid['net/url.Values'])]
        outs = nopanic(P, run(P, st, '(%sFetch).get_entries' % CM, args), 'no-panic')

        def post(st, k, r):
            resp, code, err = r
            good = st.decide(And(isnil(st, err), lt(code, 400)))
            if benign:
                P.oblige(st, 'ensures.answered', good)
            if not good:
                P.oblige(st, 'ensures.error-status', And(ge(code, 400), lt(code, 600)))
                P.oblige(st, 'ensures.4xx-for-malformed-parameters', Or(And(oks, oke, ge(start, 0), le(start, end)), lt(code, 500)))
                return False
            P.oblige(st, 'ensures.status', eqt(code, 200))
            if not published:
                return True
            P.oblige(st, 'ensures.only-valid-parameters-are-answered', valid)
            ty, v = answered(P, st, resp)
            P.oblige(st, 'ensures.response-type', ty == RESP)
            if ty != RESP:
                return False
            c = st.content(v.f[fidx(P, RESP, 'Entries')])
            n = add(sub(E.end, start), 1)
            P.oblige(st, 'ensures.nothing-beyond-the-range', le(c.len, n))
            if benign:
                P.oblige(st, 'ensures.everything-without-a-budget', eqt(c.len, n))
            st.fact(tz(And(ge(w, 0), lt(w, c.len))))
            if not st.feasible():
                return False
            x = seq_get(st, c, w)
            e = st.load(entry_ptr(P, st, add(start, w)))
            P.oblige(st, 'ensures.leaf-input', seq_eq(st, st.content(x.f[fidx(P, LE_T, 'LeafInput')]), mtl(st, e)))
            isp = st.decide(entry_fields(P, st, e)['isp'])
            P.oblige(st, 'ensures.complete-chain', seq_eq(st, st.content(x.f[fidx(P, LE_T, 'ExtraData')]), extra_data(P, st, e, isp)))
            return True
        forall(P, outs, post)
        reach(P, outs, 'reach.answered', post)
    return check


UNITS = [('getTile', gettile_any), ('get_entries', unit('any-outcome')), ('get_entries fault-free', unit('fault-free')), ('get_entries any-bytes', unit('any-bytes'))]

UNDER = ['(%sFetch).get_entries' % CM, '(*%sFetch).getTile' % CM, '(*%sFetch).get' % CM, '(*%sFetch).getSth' % CM]
REPLAY = [{'pkg': 'internal/ctmonitor', 'file': 'c12_test.go', 'test': 'TestVerifC12', 'with': ['vh_test.go', 'vhlog_test.go', 'vhmon_test.go']}]
ASSUMPTIONS = SERVE_ASSUME + ['the published log of size T: full data tiles and the partial data tile of size T hold the encoded leaves (C01, C05); issuer objects of every entry (C15)',
               'ReadTileLeaf returns the first encoded leaf and the rest (C05); MerkleTreeLeaf its MerkleTreeLeaf structure (C06)',
               '0 <= maxGetEntry < 2^31 (what Start and FastlyServe set is checked here)',
               'tlog.TileForIndex and StoredHashIndex, tls.Marshal, encoding/json and strconv.ParseInt behave as documented; tls.Marshal succeeds on entries within the limits of the structure']
UNITS += serve_units('get-entries')
UNDER += SERVE_UNDER
REPLAY += [SERVE_REPLAY]


def noquota(P):
    """the storages without a request budget never end a list of entries"""
    st = State(P)
    for t in ('FsStorage', 'UrlStorage'):
        P.prefix = 'ctmonitor.%s.AvailableReqs/' % t
        s = Ptr(SymObj(nn(st, 's'), P.tid[CM + t]))
        outs = nopanic(P, run(P, st.clone(), '(*%s).AvailableReqs' % (CM + t), [s]), 'no-panic')
        forall(P, outs, lambda st, k, r: P.oblige(st, 'ensures.budget-never-used-up', Not(eqt(r[0], 0))))


UNITS += [('AvailableReqs', noquota)]
UNDER += ['(*%s).AvailableReqs' % (CM + t) for t in ('FsStorage', 'UrlStorage')]
