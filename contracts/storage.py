"""Contract of the Storage interface (proved of its implementations in C17) and of the file name functions (C11)."""
from verify import *
from spec import *
from leaf import fidx
from iomodels import rec, calls, nn, newerr, bytesv, nf_term
import core

TILE = 'golang.org/x/mod/sumdb/tlog.Tile'


def stored(st, key):
    """content of the object of that name"""
    a = uf('stored', [core.reifyst(st, key)], core.U)
    l = uf('len', [a], INT)
    st.fact(z3.And(l >= 0, l < 2 ** 40))
    return Seq([Sub(a, 0, l)])


def st_get(three=False):
    def f(P, st, args, i):
        key = args[2]
        kw = dict(recv=args[0], ctx=args[1], key=key)
        c = stored(st, key)
        s2 = st.clone()
        rec(st, 'Get', 'ok', content=c, **kw)
        e = newerr(s2)
        z = P.zero(s2, i['results'][0])
        if not three:
            rec(s2, 'Get', e, **kw)
            return [(st, 'ret', (bytesv(P, st, c), NILIF)), (s2, 'ret', (z, e))]
        s3 = s2.clone()
        rec(s2, 'Get', e, notfound=True, **kw)
        rec(s3, 'Get', e, notfound=False, **kw)
        return [(st, 'ret', (bytesv(P, st, c), False, NILIF)), (s2, 'ret', (z, True, e)), (s3, 'ret', (z, False, e))]
    return f


def st_set(P, st, args, i):
    kw = dict(recv=args[0], ctx=args[1], key=args[2], data=st.content(args[3]))
    s2 = st.clone()
    rec(st, 'Set', 'ok', **kw)
    e = newerr(s2)
    rec(s2, 'Set', e, **kw)
    return [(st, 'ret', (NILIF,)), (s2, 'ret', (e,))]


def st_exists(P, st, args, i):
    kw = dict(recv=args[0], ctx=args[1], key=args[2])
    s2, s3 = st.clone(), st.clone()
    rec(st, 'Exists', 'ok', exists=True, **kw)
    rec(s2, 'Exists', 'ok', exists=False, **kw)
    e = newerr(s3)
    rec(s3, 'Exists', e, **kw)
    return [(st, 'ret', (True, NILIF)), (s2, 'ret', (False, NILIF)), (s3, 'ret', (False, e))]


def deep(P, st, v):
    return ext.deepterm(P, st, v)


def storage_kind(P, st, c):
    """(kind, constructor call) of the storage a recorded call went to"""
    r = c[1]['recv'] if isinstance(c, tuple) else c
    v = deep(P, st, st.load(r))
    for x in calls(st):
        if x[0] in ('NewFsStorage', 'NewS3Storage') and x[1]['v'].eq(v):
            return ('fs' if x[0] == 'NewFsStorage' else 's3'), x
    return None, None


def install_storage(P):
    m = P.models
    for t in ('FsStorage', 'S3Storage'):
        m['(*%s%s).Get' % (CS, t)] = st_get()
        m['(*%s%s).Set' % (CS, t)] = st_set
        m['(*%s%s).Exists' % (CS, t)] = st_exists

    def newfs(P, st, args, i):
        v = P.fresh(st, P.tid[CS + 'FsStorage'], 'fs')
        rec(st, 'NewFsStorage', 'ok', root=args[0], v=deep(P, st, v))
        return (v,)

    def news3(P, st, args, i):
        v = P.fresh(st, P.tid[CS + 'S3Storage'], 's3')
        rec(st, 'NewS3Storage', 'ok', args=tuple(args), v=deep(P, st, v))
        return (v,)
    m[CS + 'NewFsStorage'] = newfs
    m[CS + 'NewS3Storage'] = news3


def selected(P, st, recv, rd, s3args):
    """the storage is the one the configuration selects"""
    kind, made = storage_kind(P, st, recv)
    if kind is None:
        return False
    if kind == 'fs':
        return And(Not(eqt(rd.len, 0)), seq_eq(st, made[1]['root'], rd))
    return And(eqt(rd.len, 0), *[seq_eq(st, a, b) for a, b in zip(made[1]['args'], s3args)])


def tilepath(st, L, N, W):
    """name of the tile of height 8 (C11)"""
    if not isz(L) and L == -1:
        t = uf('tilepath', [z3.IntVal(-1), tz(N), tz(W)], core.U)
    else:
        t = uf('tilepath', [tz(L), tz(N), tz(W)], core.U)
    l = uf('len', [t], INT)
    st.fact(z3.And(l >= 1, l < 2 ** 20))
    return Seq([Sub(t, 0, l)])


def tf(P, t, f):
    return t.f[fidx(P, TILE, f)]


def path_model(P, st, args, i):
    """contract of sunlight.Path (C11): the name is determined by level, number and width"""
    P.contracted = getattr(P, 'contracted', set()) | {SL + 'Path'}
    t = args[0]
    P.oblige(st, 'Path.requires.height-8', eqt(tf(P, t, 'H'), 8))
    return (tilepath(st, tf(P, t, 'L'), tf(P, t, 'N'), tf(P, t, 'W')),)


def install_path(P):
    P.models[SL + 'Path'] = path_model


# ------------------------------------------------------------------ map invariants
def install_mapinv(P, pred, inv, witness):
    """prove inv(st, map id, k, key, value|None) of every entry of the maps selected by pred(MapV) across loops;
    inv returns a formula; witness(st) gives the arbitrary key the proof is done for"""
    def law_of(id, k):
        def law(st, mv, key, v):
            f = inv(st, id, k, key, v)
            if f is not True:
                st.fact(tz(f))
        return law

    def check(name, st, mv, id, k):
        def one(s):
            q = witness(s)
            v, ok = P.mapv_lookup(s, mv, q, mv.vt)
            P.oblige(s, name, inv(s, id, k, q, v if ok else None))
        P.all_paths(st, one)

    def shape(C, st, v0, id):
        if not pred(v0):
            return None
        from loops import Leaf
        if not getattr(C, 'mapchk', None):
            C.mapchk = set()
        if id not in C.mapchk:
            C.mapchk.add(id)
            check('loop-invariant.entry', C.S0.clone(), v0, id, 0)
        mv = MapV(st.fresh_u('lmap'), (), v0.kt, v0.vt, (law_of(id, C.k),))
        lf = Leaf(id, 'map', v0, mv)
        C.leaves.append(lf)
        return mv

    def trans(C, lf, bv):
        for y, v in bv:
            check('loop-invariant.kept', y.st.clone(), v, lf.id, add(C.k, 1))
        return False
    P.mapshape, P.map_transition = shape, trans
