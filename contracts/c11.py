"""C11: tile paths and hash-prefix paths."""
from verify import *
from spec import *

TILE = 'golang.org/x/mod/sumdb/tlog.Tile'


def tile_struct(P, st, H, L, N, W):
    fs = P.U(P.tid[TILE])['fields']
    m = {'H': H, 'L': L, 'N': N, 'W': W}
    return St(P.tid[TILE], [m[f['n']] for f in fs])


def d3(n):
    return Seq([Lit([simp(48 + tz(idiv(tz(n), 100)) % 10), simp(48 + tz(idiv(tz(n), 10)) % 10), simp(48 + tz(n) % 10)])])


def path_spec(st, L, N, W):
    """tile/<L>/<groups>[.p/<W>] (c2sp static-ct path of a height-8 tile)"""
    g = 1
    while not st.decide(lt(N, 1000 ** g)):
        g += 1
    out = Seq()
    for i in range(g):
        grp = simp(tz(idiv(tz(N), 1000 ** i)) % 1000)
        out = (lit('x') if i > 0 else Seq()) + d3(grp) + (lit('/') if i > 0 else Seq()) + out
    level = lit('data') if st.decide(eqt(L, -1)) else ext.decstr(st, L)
    suf = Seq() if st.decide(eqt(W, 256)) else lit('.p/') + ext.decstr(st, W)
    return lit('tile/') + level + lit('/') + out + suf


def contract_path(P, name=SL + 'Path'):
    P.prefix = 'sunlight.Path/'
    st = State(P)
    L = st.fresh_int('L', -1, 2 ** 31)
    N = st.fresh_int('N', 0, 2 ** 63 - 1)
    W = st.fresh_int('W', 1, 256)
    P.unroll['*'] = 8       # also a helper the loop was moved to
    outs = run(P, st, name, [tile_struct(P, st, 8, L, N, W)])
    del P.unroll['*']
    outs = nopanic(P, outs, 'no-panic')
    forall(P, outs, lambda st, k, r: P.oblige(st, 'ensures.format', seq_eq(st, r[0], path_spec(st, L, N, W))))
    reach(P, outs, 'reach.7-groups', lambda st, k, r: (st.fact(N >= 10 ** 18) or True))
    reach(P, outs, 'reach.data', lambda st, k, r: st.decide(eqt(L, -1)))
    # lemma: the digit groups determine N
    P.prefix = 'lemma.path-injective/'
    st = State(P)
    a = st.fresh_int('a', 0, 2 ** 63 - 1)
    b = st.fresh_int('b', 0, 2 ** 63 - 1)
    for i in range(7):
        st.fact((a / 1000 ** i) % 1000 == (b / 1000 ** i) % 1000)
    P.oblige(st, 'groups', a == b)
    st = State(P)
    a = st.fresh_int('a', 0, 999)
    b = st.fresh_int('b', 0, 999)
    for x, y in zip(d3(a).p[0].v, d3(b).p[0].v):
        st.fact(x == y)
    P.oblige(st, 'digits', a == b)


def hashpath_spec(st, h, mask):
    hx = ext.hexstr(st, h)
    ds = list(hx.p[0].v)[:mask]
    out = []
    for i, d in enumerate(ds):
        if i and i % 2 == 0:
            out.append(47)
        out.append(d)
    return Seq([Lit(out)]) if out else Seq()


def contract_hashpath(P):
    P.prefix = 'sunlight.KAnonHashPath/'
    n = SL + 'KAnonHashPath'
    for mask in range(0, 33):
        st = State(P)
        h = st.fresh_seq('h', 16)
        outs = run(P, st, n, [P.newslice(st, h), mask])
        outs = nopanic(P, outs, 'no-panic')
        forall(P, outs, lambda st, k, r: P.oblige(st, 'ensures.format', seq_eq(st, r[0], hashpath_spec(st, h, mask))))
        reach(P, outs, 'reach', lambda st, k, r: True)
    P.prefix = ''


from publish import WRITERS
from bucket import get_unit, HASHES, DEDUPE
from c13 import lookup
from monitor import gettile_any
UNITS = [('Path', contract_path), ('KAnonHashPath', contract_hashpath), WRITERS[0], ('getTile', gettile_any),
         ('GetRecordHash', get_unit(HASHES)), ('GetDedupeEntry', get_unit(DEDUPE)), ('getIndexForHash', lookup)]
UNDER = [SL + 'Path', SL + 'KAnonHashPath', '(*%sBucket).SetTile' % CS] + ['(*%sBucket).%s' % (CS, f) for f in ('GetRecordHash', 'GetDedupeEntry')] + [
    '(*itko.dev/internal/ctmonitor.Fetch).%s' % f for f in ('getTile', 'getIndexForHash')]
ASSUMPTIONS = ['fmt.Sprintf of the verbs %d, %03d, %s and hex.EncodeToString write decimal and hexadecimal digits as documented',
               'tile coordinates: level -1..2^31, number 0..2^63-1, width 1..256, height 8; hashes of 16 bytes and every mask size 0..32, as the callers use (each mask size is its own case of the proof: complete, not sampled)',
               'storage reads meet the Storage contract (C17)']
PUB = ['vh_test.go', 'vhlog_test.go', 'vhsub_test.go', 'vhsz_test.go', 'vhpub_test.go']
MON = ['vh_test.go', 'vhlog_test.go', 'vhmon_test.go']
REPLAY = [{'pkg': 'internal/sunlight', 'file': 'c11_test.go', 'test': 'TestVerifC11', 'with': ['vh_test.go']},
          {'pkg': 'internal/ctsubmit', 'file': 'c01_test.go', 'test': 'TestVerifPublishC11', 'with': PUB},
          {'pkg': 'internal/ctsubmit', 'file': 'c07_test.go', 'test': 'TestVerifIndex', 'with': ['vh_test.go', 'vhsub_test.go']},
          {'pkg': 'internal/ctmonitor', 'file': 'c07m_test.go', 'test': 'TestVerifMonitorLookup', 'with': MON},
          {'pkg': 'internal/ctmonitor', 'file': 'c14_test.go', 'test': 'TestVerifC14', 'with': MON}]
