"""C19: the leaf_index extension."""
from verify import *
from spec import *
from leaf import sym_entry

EXT = SL + 'Extensions'


def pe_unfold(st, a, o):
    """definition of the parse of the extension list in atom a at offset o:
    peok(a,o), peval(a,o) describe the first leaf_index extension at or after o"""
    n = uf('len', [a], INT)
    at = lambda i: uf('at', [a, add(o, i)], INT)
    for i in range(8):
        st.fact(z3.And(at(i) >= 0, at(i) <= 255))
    L = at(1) * 256 + at(2)
    fits = z3.And(tz(add(o, 3)) <= n, tz(add(o, 3)) + L <= n)
    ok, val = uf('peok', [a, o], BOOL), uf('peval', [a, o], INT)
    v = z3.Sum([at(3 + i) * 256 ** (4 - i) for i in range(5)])
    nxt = simp(o + 3 + L)
    st.fact(z3.If(z3.Not(fits), z3.Not(ok),
                  z3.If(at(0) == 0, z3.And(ok == (L == 5), z3.Implies(L == 5, val == v)),
                        z3.And(ok == uf('peok', [a, nxt], BOOL), val == uf('peval', [a, nxt], INT)))))


def contract_marshal(P):
    """MarshalExtensions writes the one leaf_index extension, or refuses"""
    st = State(P)
    v = st.fresh_int('leafIndex', 0, U64 - 1)
    outs = run(P, st, SL + 'MarshalExtensions', [St(P.tid[EXT], [v])])
    P.prefix = 'sunlight.MarshalExtensions/'
    outs = nopanic(P, outs, 'no-panic')

    def post(st, kind, r):
        ok = isnil(st, r[1])
        P.oblige(st, 'ensures.error-iff-out-of-range', eqt(tz(ok), lt(v, 2 ** 40)))
        if st.decide(ok):
            P.oblige(st, 'ensures.bytes', seq_eq(st, st.content(r[0]), ext_bytes(v)))
    forall(P, outs, post)
    reach(P, outs, 'reach.ok', lambda st, k, r: st.decide(isnil(st, r[1])))
    reach(P, outs, 'reach.error', lambda st, k, r: not st.decide(isnil(st, r[1])))


def contract_parse(P):
    """ParseExtensions finds the first leaf_index extension, for any input"""
    P.prefix = 'sunlight.ParseExtensions/'
    st = State(P)
    data = P.fresh(st, P.funcs[SL + 'ParseExtensions'].params[0]['t'], 'in')
    a = data.base.obj.t
    ok0, v0 = uf('peok', [a, 0], BOOL), uf('peval', [a, 0], INT)

    def gen(C, s, S0):
        r = []
        for lf in C.leaves:
            if lf.id[-1] == 'off':
                pe_unfold(s, a, lf.hv)
                r.append((('pe', lf.id), [lf.id],
                          lambda vals, k, lf=lf: And(eqt(ok0, uf('peok', [a, vals[lf.id]], BOOL)), eqt(v0, uf('peval', [a, vals[lf.id]], INT)))))
        return r
    P.intinv = [gen]
    pe_unfold(st, a, z3.IntVal(0))
    outs = run(P, st, SL + 'ParseExtensions', [data])
    P.intinv = []
    outs = nopanic(P, outs, 'no-panic')

    def post(st, kind, r):
        ok = isnil(st, r[1])
        P.oblige(st, 'ensures.accepts-iff-first-leaf-index-wellformed', eqt(tz(ok), ok0))
        if st.decide(ok):
            P.oblige(st, 'ensures.value', eqt(r[0].f[0], v0))
    forall(P, outs, post)
    reach(P, outs, 'reach.ok', lambda st, k, r: st.decide(isnil(st, r[1])))
    reach(P, outs, 'reach.error', lambda st, k, r: not st.decide(isnil(st, r[1])))


def lemma_roundtrip(P):
    """Marshal output parses to its index (base case of the round trip; unknown
    extensions before it are the induction step of the definition)"""
    P.prefix = 'lemma.roundtrip/'
    st = State(P)
    v = st.fresh_int('idx', 0, 2 ** 40 - 1)
    a = st.fresh_u('buf')
    o = st.fresh_int('o', 0)
    n = uf('len', [a], INT)
    st.fact(n >= o + 8)
    spec = ext_bytes(v)
    for i in range(8):
        st.fact(uf('at', [a, add(o, i)], INT) == tz(seq_get(st, spec, i)))
    pe_unfold(st, a, o)
    P.oblige(st, 'parses', And(uf('peok', [a, o], BOOL), eqt(uf('peval', [a, o], INT), v)))
    P.prefix = ''


def contract_refused(P):
    """no leaf and no tile entry is ever written with an index that does not fit: the encoders do not return"""
    for name, fn, args in (('MerkleTreeLeaf', '(*%sLogEntry).MerkleTreeLeaf' % SL, lambda st, o: [Ptr(o)]),
                           ('AppendTileLeaf', SL + 'AppendTileLeaf', lambda st, o: [P.fresh(st, P.funcs[SL + 'AppendTileLeaf'].params[0]['t'], 'tile'), Ptr(o)])):
        P.prefix = 'sunlight.%s/' % name
        st = State(P)
        o, e, f = sym_entry(P, st)
        st.fact(tz(ge(f['idx'], 2 ** 40)))
        outs = run(P, st, fn, args(st, o))
        for x in outs:
            try:
                P.oblige(x.st, 'ensures.index-out-of-range-is-never-written', x.kind == 'panic', 'returns a leaf with an index of 2^40 or more')
            except Infeasible:
                pass
        P.oblige(st, 'reach', bool(outs))
    P.prefix = ''


UNITS = [('MarshalExtensions', contract_marshal), ('ParseExtensions', contract_parse), ('round trip lemma', lemma_roundtrip),
         ('MerkleTreeLeaf, AppendTileLeaf', contract_refused)]
UNDER = [SL + 'MarshalExtensions', SL + 'ParseExtensions', '(*%sLogEntry).MerkleTreeLeaf' % SL, SL + 'AppendTileLeaf']
ASSUMPTIONS = ['golang.org/x/crypto/cryptobyte (Builder, String) behaves as documented',
               'that stageZero and AppendTileLeaf put this extension into SCTs and leaves is proved under C02 and C05']

REPLAY = [{'pkg': 'internal/sunlight', 'file': 'c19_test.go', 'test': 'TestVerifC19', 'with': ['vh_test.go']}]
