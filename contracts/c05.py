"""C05: AppendTileLeaf and ReadTileLeaf are inverse; appending keeps the tile."""
from verify import *
from leaf import *


def check(P):
    contract_append(P)
    contract_read(P)


def contract_append(P):
    P.prefix = 'sunlight.AppendTileLeaf/'
    st = State(P)
    o, e, f = sym_entry(P, st)
    st.fact(tz(limits(f)))
    t = P.fresh(st, P.funcs[SL + 'AppendTileLeaf'].params[0]['t'], 'tile')
    old = st.content(t)
    outs = run(P, st, SL + 'AppendTileLeaf', [t, Ptr(o)])
    outs = nopanic(P, outs, 'no-panic')

    def post(st, kind, r):
        P.oblige(st, 'ensures.appends-leaf', seq_eq(st, st.content(r[0]), old + tile_leaf(st, f)))
        P.oblige(st, 'ensures.tile-unchanged', seq_eq(st, st.content(t), old))
        e2 = st.load(Ptr(o))
        P.oblige(st, 'ensures.entry-unchanged', val_eq(st, e2, e))
    forall(P, outs, post)
    reach(P, outs, 'reach.cert', lambda st, k, r: not st.decide(f['isp']))
    reach(P, outs, 'reach.precert', lambda st, k, r: st.decide(f['isp']))


def contract_read(P):
    P.prefix = 'sunlight.ReadTileLeaf/'
    # total: never panics on any bytes
    st = State(P)
    t = P.fresh(st, P.funcs[SL + 'ReadTileLeaf'].params[0]['t'], 'tile')
    outs = run(P, st, SL + 'ReadTileLeaf', [t])
    outs = nopanic(P, outs, 'no-panic')
    forall(P, outs, lambda st, k, r: P.oblige(st, 'ensures.entry-iff-no-error', eqt(tz(isnil(st, r[2])), tz(Not(isnil(st, r[0]))))))
    reach(P, outs, 'reach.ok', lambda st, k, r: st.decide(isnil(st, r[2])))
    reach(P, outs, 'reach.error', lambda st, k, r: not st.decide(isnil(st, r[2])))

    # inverse of the encoding, for any following bytes
    for isp in (False, True):
        P.prefix = 'sunlight.ReadTileLeaf/%s/' % ('precert' if isp else 'cert')
        st = State(P)
        o, e, f = sym_entry(P, st)
        st.fact(tz(limits(f)))
        st.fact(f['isp'] == isp)
        st.fact(f['ts'] >= 0)
        rest = st.fresh_seq('rest')
        enc = tile_leaf(st, f)
        arg = P.newslice(st, enc + rest)
        outs = run(P, st, SL + 'ReadTileLeaf', [arg])
        outs = nopanic(P, outs, 'no-panic')

        def post(st, kind, r):
            P.oblige(st, 'ensures.accepts-encoding', tz(isnil(st, r[2])))
            g = entry_fields(P, st, st.load(r[0]))
            P.oblige(st, 'ensures.timestamp', eqt(g['ts'], f['ts']))
            P.oblige(st, 'ensures.type', eqt(tz(g['isp']), tz(f['isp'])))
            P.oblige(st, 'ensures.certificate', seq_eq(st, g['cert'], f['cert']))
            P.oblige(st, 'ensures.leaf-index', eqt(g['idx'], f['idx']))
            P.oblige(st, 'ensures.chain-fingerprints', seq_eq(st, g['fps'], f['fps']))
            if isp:
                P.oblige(st, 'ensures.issuer-key-hash', seq_eq(st, g['ikh'], f['ikh']))
                P.oblige(st, 'ensures.precertificate', seq_eq(st, g['pre'], f['pre']))
                P.oblige(st, 'ensures.certificate-fp', seq_eq(st, g['cfp'], ext.sha256(st, f['pre'])))
            else:
                P.oblige(st, 'ensures.certificate-fp', seq_eq(st, g['cfp'], ext.sha256(st, f['cert'])))
            P.oblige(st, 'ensures.rest', seq_eq(st, st.content(r[1]), rest))
        forall(P, outs, post)
        reach(P, outs, 'reach', lambda st, k, r: True)
    P.prefix = ''


UNITS = [('AppendTileLeaf', contract_append), ('ReadTileLeaf', contract_read)]
UNDER = [SL + 'AppendTileLeaf', SL + 'ReadTileLeaf', SL + 'MarshalExtensions', SL + 'ParseExtensions', SL + 'addUint40', SL + 'readUint40']
ASSUMPTIONS = ['golang.org/x/crypto/cryptobyte (Builder, String) behaves as documented',
               'format limits: certificates and TBS certificates below 2^24 bytes, at most 2047 chain fingerprints, indices below 2^40, timestamps not negative']
REPLAY = [{'pkg': 'internal/sunlight', 'file': 'c05_test.go', 'test': 'TestVerifC05', 'with': ['vh_test.go']}]
