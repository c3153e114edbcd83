"""Contracts of the index and deduplication objects (C07, C08): Put*/Get* of internal/ctsubmit/bucket.go."""
from iomodels import *
from storage import *
from monitor import kanonpath, kanon, counters
import groups

BK = CS + 'Bucket'
STORAGE = CS + 'Storage'
HASHLEN = 16


class Kind:
    def __init__(self, put, get, obj, up, size, bytesto):
        self.put, self.get, self.obj, self.up, self.size, self.bytesto = put, get, obj, up, size, bytesto


HASHES = Kind('(*%s).PutRecordHashes' % BK, '(*%s).GetRecordHash' % BK, 'int/hashes/', CS + 'RecordHashUpload', 21, CS + 'BytesToRecord')
DEDUPE = Kind('(*%s).PutDedupeEntries' % BK, '(*%s).GetDedupeEntry' % BK, 'int/dedupe/', CS + 'DedupeUpload', 29, CS + 'BytesToDedupe')


def uc(st, name, args):
    """bytes of an index object made of whole records: atom and number of records"""
    a = uf(name, args, core.U)
    return a, uf(name + 'n', args, INT)


def absent(kt):
    return uf('absent', [kt], BOOL)


def initial(st, K, q):
    """the object of that path before the update: empty when there is none"""
    kt = core.reifyst(st, lit(K.obj) + q)
    a = uf('stored', [kt], core.U)
    n = uf('storedn', [kt], INT)
    st.fact(z3.And(n >= 0, n < 2 ** 34, uf('len', [a], INT) == K.size * n, z3.Implies(absent(kt), n == 0)))
    return Seq([Sub(a, 0, mul(K.size, n))])


def current(st, K, key, k):
    """the object of that path after k entries were inserted"""
    kt = core.reifyst(st, key)
    a = uf('cur', [kt, tz(k)], core.U)
    n = uf('curn', [kt, tz(k)], INT)
    st.fact(z3.And(n >= 0, n < 2 ** 35, uf('len', [a], INT) == K.size * n))
    return Seq([Sub(a, 0, mul(K.size, n))])


def get_model(K):
    def f(P, st, args, i):
        """contract of Storage.Get (C17): the stored object; a missing one is reported as not found, and only a missing one"""
        key = args[2]
        kt = core.reifyst(st, key)
        outs = []
        s2, s3 = st.clone(), st.clone()
        pre, q = core.split_at(st, key, len(K.obj))
        own = eqt(core.reifyst(st, pre), core.reifyst(st, lit(K.obj)))
        P.oblige(st, 'Get.requires.own-objects', own)
        c = initial(st, K, q)
        st.fact(z3.Not(absent(kt)))
        outs.append((st, 'ret', (bytesv(P, st, c), NILIF)))
        for s, nf in ((s2, True), (s3, False)):
            e = newerr(s)
            initial(s, K, q)
            s.fact(nf_term(s, e) if nf else z3.Not(nf_term(s, e)))
            if nf:
                s.fact(absent(kt))
            outs.append((s, 'ret', (P.zero(s, i['results'][0]), e)))
            if not nf:
                s.ghost['readfail'] = True
        return outs
    return f


def set_model(P, st, args, i):
    """recorded; the outcome is arbitrary"""
    e = SymIface(st.fresh_u('seterr'), P.tid['error'])
    ev = St(None, (args[2], st.content(args[3]), Opaque(e.t, None)))
    st.ghost['events'] = st.ghost.get('events', Seq()) + groups.unit(ev)
    return (e,)


def recfields(P, K, e):
    """hash, leaf index, timestamp|None of an upload record"""
    g = lambda f: e.f[fidx(P, K.up, f)]
    return g('hash'), g('leafIndex'), (g('timestamp') if K.size == 29 else None)


def tsint(ts):
    return simp(z3.If(tz(ts) < 0, tz(ts) + 2 ** 64, tz(ts)))


def is_record(P, st, K, s, e):
    """the bytes s are the record of the upload e: 16 bytes of hash, 40-bit little-endian index[, 64-bit little-endian timestamp]"""
    h, ix, ts = recfields(P, K, e)
    a, b = core.split_at(st, s, 16)
    c, d = core.split_at(st, b, 5)
    f = [seq_eq(st, a, h), eqt(core.seq_int(st, c, 'le'), simp(tz(ix) % 2 ** 40))]
    if ts is not None:
        f.append(eqt(core.seq_int(st, d, 'le'), tsint(ts)))
    return And(*f)


def order(st, s):
    return ext.ordkey(st, s)


def put_unit(K, touched):
    def check(P):
        P.prefix = '%s/%s/' % (K.put.split('.')[-1], 'touched' if touched else 'untouched')
        P.track_ranges = True
        groups.install_errgroup(P)
        P.models[SL + 'KAnonHashPath'] = kanon
        P.imodels[('*', 'Get')] = get_model(K)
        P.imodels[('*', 'Set')] = set_model
        st = State(P)
        hs = P.fresh(st, P.tid['[]' + K.up], 'hashes')
        c = st.content(hs)
        mask = st.fresh_int('mask')
        m = st.fresh_int('m')
        j = st.fresh_int('j')
        st.fact(z3.And(mask >= 0, mask <= 32, m >= 0))
        if touched:
            st.fact(m < tz(c.len))
        pathof = lambda s, x: kanonpath(s, recfields(P, K, seq_get(s, c, x))[0], mask)
        other = st.fresh_seq('other')
        q = pathof(st, m) if touched else other
        qt = core.reifyst(st, q)
        steps = []

        def law_of(kind, k):
            def law(s, mv, key, v):
                kt = core.reifyst(s, key)
                if v is None:
                    if touched:
                        s.fact(z3.Implies(kt == qt, tz(Not(lt(m, k))) if kind == 'populate' else z3.BoolVal(False)))
                    return None
                if not touched:
                    s.fact(kt != qt)
                if kind == 'populate':
                    return bytesv(P, s, initial(s, K, key))
                return bytesv(P, s, current(s, K, key, k))
            return law

        def shape(C, s, v0, id):
            kind = getattr(C, 'mapkind', None)
            if kind is None:
                kind = C.mapkind = 'populate' if v0.base is None and not v0.upd else 'update'

                def entry(x):
                    v, ok = P.mapv_lookup(x, v0, q, v0.vt)
                    if kind == 'update':
                        P.oblige(x, 'loop-invariant.object-of-every-entry-and-no-other', ok == touched)
                        if ok:
                            P.oblige(x, 'loop-invariant.starts-from-the-stored-object', seq_eq(x, x.content(v), initial(x, K, q)))
                P.all_paths(C.S0.clone(), entry)
            law = law_of(kind, C.k)
            mv = MapV(s.fresh_u('lmap'), (), v0.kt, v0.vt, (law,))
            from loops import Leaf
            C.leaves.append(Leaf(id, 'map', v0, mv))
            return mv

        def trans(C, lf, bv):
            for y, v in bv:
                P.all_paths(y.st.clone(), lambda s: step(C, lf, s, v))
            return False

        def step(C, lf, s, v):
            k = C.k
            if not touched:
                s.fact(core.reifyst(s, pathof(s, k)) != qt)
            # the object of path q after this iteration
            x, ok = P.mapv_lookup(s, v, q, v.vt)
            if C.mapkind == 'populate':
                if touched:
                    P.oblige(s, 'loop-invariant.fetched', ok or Not(lt(m, add(k, 1))))
                else:
                    P.oblige(s, 'loop-invariant.untouched-not-fetched', not ok)
                if ok:
                    P.oblige(s, 'loop-invariant.fetched-content', seq_eq(s, s.content(x), initial(s, K, q)))
                return
            P.oblige(s, 'loop-invariant.present', ok == touched)
            if not ok:
                return
            new = s.content(x)
            same = s.decide(eqt(core.reifyst(s, pathof(s, k)), qt))
            old = current(s, K, pathof(s, k) if same else q, k)
            if not same:
                P.oblige(s, 'step.other-objects-unchanged', seq_eq(s, new, old))
                return
            e = seq_get(s, c, k)
            # insertion position: how much of the old object precedes
            pre = 0
            for p in new.p:
                if isinstance(p, Sub) and p.atom.eq(old.p[0].atom) and eqt(p.off, pre) is True:
                    pre = add(pre, p.len)
                else:
                    break
            p = idiv(pre, K.size)
            P.oblige(s, 'step.whole-records', And(eqt(pre, mul(K.size, p)), eqt(new.len, add(old.len, K.size)), le(pre, old.len)))
            a, b = core.split_at(s, new, pre)
            b, d = core.split_at(s, b, K.size)
            oa, od = core.split_at(s, old, pre)
            P.oblige(s, 'step.records-before-kept', seq_eq(s, a, oa))
            P.oblige(s, 'step.inserted-record', is_record(P, s, K, b, e))
            P.oblige(s, 'step.records-after-kept', seq_eq(s, d, od))
            h = recfields(P, K, e)[0]
            at = lambda x: order(s, Seq([Sub(old.p[0].atom, mul(K.size, x), HASHLEN)]))
            n = idiv(old.len, K.size)
            for hy in s.ghost.get('hyps', ()):
                hy.at(s, j)
            # stored objects are sorted (the insertion lemma: stays-sorted), used for the records next to the place of insertion
            s.fact(tz(And(Implies(And(ge(j, 0), lt(j, p), le(p, n)), le(at(j), at(sub(p, 1)))), Implies(And(le(p, j), lt(j, n)), le(at(p), at(j))))))
            P.oblige(s, 'step.next-record-is-greater', Implies(lt(p, n), lt(order(s, h), at(p))))
            P.oblige(s, 'step.records-before-are-not-greater', Implies(And(ge(j, 0), lt(j, p)), le(at(j), order(s, h))))
        P.mapshape, P.map_transition = shape, trans
        bk = Ptr(SymObj(nn(st, 'bucket'), P.tid[BK]))
        sto = st.load(Ptr(bk.obj, (fidx(P, BK, 'S'),)))
        st.fact(sto.t != NIL)
        args = [bk, SymIface(nn(st, 'ctx')), hs, mask]
        outs = nopanic(P, run(P, st, K.put, args), 'no-panic')

        def post(s, kind, r):
            err = r[0] if isinstance(r, tuple) else r
            ev = s.ghost.get('events', Seq())
            if not s.decide(isnil(s, err)):
                if s.ghost.get('readfail') is True:
                    P.oblige(s, 'ensures.read-failure-writes-nothing', eqt(ev.len, 0))
                return False
            P.oblige(s, 'ensures.read-failure-is-reported', s.ghost.get('readfail') is not True)
            gn = s.ghost.get('gnil')
            P.oblige(s, 'ensures.waits-for-the-writes', gn is not None)
            if gn is None:
                return False
            i = s.fresh_int('i')
            if touched:
                rs = s.ghost.get('ranges', ())
                P.oblige(s, 'ensures.objects-enumerated', len(rs) == 1)
                if len(rs) != 1:
                    return False
                mv, rt = rs[0]
                v, ok = P.mapv_lookup(s, mv, q, mv.vt)
                P.oblige(s, 'ensures.object-of-every-entry', ok)
                # enumerating a map visits every key
                s.fact(z3.And(i >= 0, i < uf('maplen', [rt], INT), uf('mapkey:string', [rt, i], core.U) == qt))
                P.oblige(s, 'ensures.every-object-written', And(lt(i, ev.len), lt(i, gn.len)))
                e = seq_get(s, ev, i)
                g = seq_get(s, gn, i)
                P.oblige(s, 'ensures.written-under-its-name', seq_eq(s, e.f[0], lit(K.obj) + q))
                P.oblige(s, 'ensures.written-content', seq_eq(s, e.f[1], current(s, K, q, c.len)))
                s.fact(term(g) == NIL)      # Wait returned nil
                P.oblige(s, 'ensures.write-outcome-awaited', term(e.f[2]) == NIL)
                s.fact(term(e.f[2]) == NIL)
            else:
                s.fact(tz(And(ge(i, 0), lt(i, ev.len))))
                if s.feasible():
                    e = seq_get(s, ev, i)
                    P.oblige(s, 'ensures.no-other-object-written', Not(seq_eq(s, e.f[0], lit(K.obj) + q)))
            return True
        forall(P, outs, post)
        reach(P, outs, 'reach.updated', post)
    return check


def get_unit(K):
    """an answer is the first record of that hash; a recorded hash is found; an unreadable object is an error"""
    def check(P):
        P.prefix = K.get.split('.')[-1] + '/'
        P.models[SL + 'KAnonHashPath'] = kanon
        P.imodels[('*', 'Get')] = get_model(K)
        st = State(P)
        ha = st.fresh_u('hash')
        st.fact(uf('len', [ha], INT) == 16)
        h = Seq([Sub(ha, 0, 16)])
        mask, m = st.fresh_int('mask'), st.fresh_int('m')
        st.fact(tz(And(ge(mask, 0), le(mask, 32), ge(m, 0))))
        bk = Ptr(SymObj(nn(st, 'bucket'), P.tid[BK]))
        sto = st.load(Ptr(bk.obj, (fidx(P, BK, 'S'),)))
        st.fact(sto.t != NIL)
        F = initial(st, K, kanonpath(st, h, mask))
        n = idiv(F.len, K.size)
        a = F.p[0].atom
        hash_ = lambda x: Seq([Sub(a, mul(K.size, x), HASHLEN)])
        idx = lambda s, x: core.seq_int(s, Seq([Sub(a, add(mul(K.size, x), 16), 5)]), 'le')
        tst = lambda s, x: core.seq_int(s, Seq([Sub(a, add(mul(K.size, x), 21), 8)]), 'le')
        st.fact(m < tz(n))
        outs = nopanic(P, run(P, st, K.get, [bk, SymIface(nn(st, 'ctx')), h, mask]), 'no-panic')

        def is_(s, v, x):
            hh, ix, ts = recfields(P, K, v)
            f = [seq_eq(s, hh, h), eqt(ix, idx(s, x))]
            if ts is not None:
                f.append(eqt(tsint(ts), tst(s, x)))
            return And(*f)

        def post(s, kind, r):
            v, err = r
            ks = counters(s)
            for hy in s.ghost.get('hyps', ()):
                hy.at(s, m)
            # stored objects are sorted (the insertion lemma: stays-sorted), used at the places the code looked at
            at = lambda x: order(s, hash_(x))
            for k in ks:
                for x in (k, sub(k, 1)):
                    s.fact(tz(And(Implies(And(ge(x, 0), le(x, m)), le(at(x), at(m))), Implies(And(le(m, x), lt(x, n)), le(at(m), at(x))))))
            if s.decide(isnil(s, err)):
                P.oblige(s, 'ensures.answer-is-recorded', Or(*[And(ge(x, 0), lt(x, n), seq_eq(s, hash_(x), h), is_(s, v, x)) for x in ks]))
                # m: the first record of the hash
                s.fact(tz(seq_eq(s, hash_(m), h)))
                for x in ks:
                    s.fact(tz(Implies(And(ge(x, 0), lt(x, m)), Not(seq_eq(s, hash_(x), h)))))
                if s.feasible():
                    P.oblige(s, 'ensures.first-record', is_(s, v, m))
                return True
            if s.ghost.get('readfail') is not True:
                s.fact(tz(seq_eq(s, hash_(m), h)))
                P.oblige(s, 'ensures.recorded-hash-is-found', not s.feasible())
            return False
        forall(P, outs, post)
        reach(P, outs, 'reach.found', post)
    return check


def lemma_unit(K):
    """over the step and lookup contracts: inserting a record after the records that are not greater keeps the object sorted,
    keeps the first record of every hash that has one, and makes the hash of the record found; nothing else changes.
    By induction over the batch (the step is the loop invariant) this is the property for every batch and history."""
    def check(P):
        P.prefix = 'insertion-lemma-%d/' % K.size
        st = State(P)
        H = lambda j: uf('recH', [tz(j)], INT)       # hash of record j before, as an ordered value
        X = lambda j: uf('recX', [tz(j)], INT)       # what it records
        n, p, i, j, f, q, h, x = [st.fresh_int(v) for v in ('n', 'p', 'i', 'j', 'f', 'q', 'h', 'x')]
        st.fact(z3.And(n >= 0, p >= 0, p <= n))
        a = z3.Int('a!')
        b = z3.Int('b!')
        st.fact(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), H(a) <= H(b))))
        st.fact(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < p), H(a) <= h)))
        st.fact(z3.Implies(p < n, h < H(p)))
        nH = lambda j: z3.If(j < p, H(j), z3.If(j == p, h, H(j - 1)))
        nX = lambda j: z3.If(j < p, X(j), z3.If(j == p, x, X(j - 1)))

        def ob(name, hyp, goal):
            s = st.clone()
            s.fact(hyp)
            P.oblige(s, name, goal)
        ob('stays-sorted', z3.And(0 <= i, i < j, j < n + 1), nH(i) <= nH(j))
        found = z3.And(0 <= f, f < n, H(f) == q, z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < f), H(a) != q)))
        g = z3.If(f < p, f, f + 1)
        ob('found-before-is-found', found, z3.And(0 <= g, g < n + 1, nH(g) == q, nX(g) == X(f)))
        ob('found-before-is-the-first', z3.And(found, 0 <= i, i < g), nH(i) != q)
        new = z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < n), H(a) != h))
        ob('new-hash-is-found', new, z3.And(nH(p) == h, nX(p) == x))
        ob('new-hash-is-the-first', z3.And(new, 0 <= i, i < p), nH(i) != h)
        ob('other-records-unchanged', z3.And(0 <= i, i < n), z3.And(nH(z3.If(i < p, i, i + 1)) == H(i), nX(z3.If(i < p, i, i + 1)) == X(i)))
        P.obls.setdefault(P.prefix + 'hypotheses-consistent', {'name': P.prefix + 'hypotheses-consistent', 'paths': 1, 'failed': [], 'time': 0.0})
    return check


def roundtrip_unit(K):
    """the bytes ToBytes writes are what the reader's decoder reads, for indices below 2^40"""
    def check(P):
        P.prefix = K.bytesto.split('.')[-1] + '/'
        st = State(P)
        o = SymObj(nn(st, 'up'), P.tid[K.up])
        e = P.symload(st, o, ())
        h, ix, ts = recfields(P, K, e)
        st.fact(tz(And(ge(ix, 0), lt(ix, 2 ** 40))))
        outs = nopanic(P, run(P, st, '(*%s).ToBytes' % K.up, [Ptr(o)]), 'no-panic')

        def post(s, kind, r):
            v = r[0] if isinstance(r, tuple) else r
            c = s.content(v)
            P.oblige(s, 'ensures.size', eqt(c.len, K.size))
            P.oblige(s, 'ensures.layout', is_record(P, s, K, c, e))
            for y in P.call(s, K.bytesto, [v], {'results': [P.tid[K.up], P.tid['error']]}) if False else run(P, s, K.bytesto, [v]):
                def post2(s2, k2, r2):
                    P.oblige(s2, 'ensures.decodes', k2 == 'ret')
                    w, err = r2
                    P.oblige(s2, 'ensures.decodes-without-error', isnil(s2, err))
                    hh, i2, t2 = recfields(P, K, w)
                    P.oblige(s2, 'ensures.same-record', And(seq_eq(s2, hh, h), eqt(i2, ix), eqt(t2, ts) if ts is not None else True))
                forall(P, [y], post2)
            return True
        forall(P, outs, post)
    return check
