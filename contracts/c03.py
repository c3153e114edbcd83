"""C03: accepted submissions get consecutive leaf indexes, none lost or repeated."""
from iomodels import *
from cryptomodels import *
import core, loops

S1 = CS + 'stageOneData'
UWRP = CS + 'UnsequencedEntryWithReturnPath'
LWRP = CS + 'LogEntryWithReturnPath'
UNSEQ = SL + 'UnsequencedEntry'
ENTRY = SL + 'LogEntry'
from publish import pick
BATCH = 255


def is_sequenced(P, st, x, u, ix):
    """the LogEntryWithReturnPath x is the submission u at index ix, unmodified (any time)"""
    e, en = x.f[fidx(P, LWRP, 'entry')], u.f[fidx(P, UWRP, 'entry')]
    cs = [term(x.f[fidx(P, LWRP, 'returnPath')]) == term(u.f[fidx(P, UWRP, 'returnPath')])]
    for f in P.U(P.tid[ENTRY])['fields']:
        n = f['n']
        v = e.f[fidx(P, ENTRY, n)]
        if n == 'LeafIndex':
            cs.append(eqt(v, ix))
        elif n != 'Timestamp':
            w = en.f[fidx(P, UNSEQ, n)]
            cs.append(seq_eq(st, st.content(v), st.content(w)) if isinstance(v, SliceV) else seq_eq(st, v, w) if isinstance(v, Seq) else eqt(v, w))
    return And(*cs)


def threshold(P, fn):
    """the bound of the invariant on the pool: the size stage one itself compares with (any bound will do for this property)"""
    f, ks = P.funcs.get(fn), [BATCH]
    for b in (f.blocks if f else []):
        for i in b['instrs']:
            if i['op'] == 'BinOp' and i.get('tok') in ('<', '<=', '>', '>=', '==', '!='):
                for o in (i['x'], i['y']):
                    if o.get('k') == 'const' and 'int' in o and BATCH < int(o['int']) <= 2 ** 30:
                        ks.append(int(o['int']))
    return max(ks)


def stageone(P, limit=None):
    """one arbitrary iteration of the sequencing loop, from any state that satisfies the invariant:
    R submissions were received, the first H of them were handed on in batches, and the pool holds the others in order, sequenced"""
    P.prefix = 'stageOne/'
    install_crypto(P)
    st = State(P)
    fn = '(*%s).stageOne' % S1
    limit = limit or threshold(P, loops.holder(P, fn))
    d = Ptr(SymObj(nn(st, 'd'), P.tid[S1]))
    ld = lambda st, f: st.load(Ptr(d.obj, (fidx(P, S1, f),)))
    rx, tx, start = ld(st, 'stageOneRx'), ld(st, 'stageTwoTx'), ld(st, 'startingSequence')
    fl = ld(st, 'flushMs')
    ctx = SymIface(nn(st, 'ctx'))
    R, H, m = st.fresh_int('received'), st.fresh_int('handed'), st.fresh_int('m')
    # m: an arbitrary submission; u: what was received m-th; W: what it was sequenced as
    st.fact(tz(And(ge(H, 0), le(H, R), lt(sub(R, H), limit), ge(m, 0), ge(start, 0), lt(add(start, R), 2 ** 62))))
    rt, lt_ = P.tid[UWRP], P.tid[LWRP]
    u = P.mk(st, rt, 'received', [m])
    W = P.symload(st, SymObj(nn(st, 'sequencedas'), lt_), ())
    done = ChanV(st.fresh_u('ctxdone'), None)
    P.imodels[('context.Context', 'Done')] = lambda P, st, args, i: (ChanV(done.t, P.U(i['results'][0])['elem']),)
    P.imodels[('context.Context', 'Err')] = lambda P, st, args, i: (newerr(st),)

    def after(P, st, args, i):
        ch = ChanV(st.fresh_u('timer'), P.U(i['results'][0])['elem'], 1)
        st.ghost['timers'] = st.ghost.get('timers', ()) + ((ch.t, args[0]),)
        return (ch,)
    P.models['time.After'] = after

    def since(P, st, args, i):
        return (st.fresh_int('since'),)
    P.models['time.Since'] = since
    P.models['(time.Time).Sub'] = since

    def recv(P, st, ch, i):
        if ch.t.eq(rx.t):
            a, b = st, st.clone()
            n = a.ghost['R']
            a.ghost['R'] = add(n, 1)
            v = P.mk(a, rt, 'received', [tz(n)])
            a.ghost['got'] = v
            return [(a, v, True), (b, P.zero(b, rt), False)]
        for t, dur in st.ghost.get('timers', ()):
            if t.eq(ch.t):
                st.ghost['tick'] = True
                return [(st, P.fresh(st, ch.elem, 'tick'), True)]
        return [(st, P.fresh(st, ch.elem, 'recv'), False)]
    P.recv_hook = recv

    def send(P, st, ch, x, i):
        P.oblige(st, 'send.to-the-next-stage', ch.t == tx.t if not ch.t.eq(tx.t) else True)
        P.oblige(st, 'send.waits', i.get('op') != 'Select' or bool(i.get('blocking')))
        r, h = st.ghost['R'], st.ghost['H']
        c = st.content(x)
        P.oblige(st, 'batch.everything-pending', eqt(c.len, sub(r, h)))
        P.oblige(st, 'batch.of-bounded-size', le(c.len, limit))
        s = st.clone()
        s.fact(tz(And(le(h, m), lt(m, r))))
        if s.feasible():
            y = seq_get(s, c, sub(m, h))
            P.oblige(s, 'batch.in-order-unmodified', is_sequenced(P, s, y, u, add(start, m)))
            if s.decide(lt(m, R)):
                P.oblige(s, 'batch.as-sequenced', val_eq(s, y, W))
        st.ghost['H'] = r
        st.ghost['sent'] = True
        if isinstance(x, SliceV) and x.base is not None:
            st.freeze(x.base, x.off, x.len)
    P.send_hook = send

    def role(i, v):
        t = P.T(i['t'])['s']
        if isinstance(v, SliceV):
            return 'pool'
        if t in ('uint64', 'int64', 'int', 'uint'):
            return 'index'
        return None

    def check(st, phis, when):
        st.ghost.setdefault('R', 0)
        st.ghost.setdefault('H', 0)
        r, h = st.ghost['R'], st.ghost['H']
        first = when == 'entry'
        pools = [v for i, v in phis if role(i, v) == 'pool']
        P.oblige(st, 'invariant.%s.one-pool' % when, len(pools) == 1)
        for i, v in phis:
            if role(i, v) == 'index':
                P.oblige(st, 'invariant.%s.next-index' % when, eqt(v, add(start, r)))
        if len(pools) != 1:
            return
        p = pools[0]
        P.oblige(st, 'invariant.%s.pending' % when, And(eqt(p.len, sub(r, h)), lt(p.len, limit)))
        if not first:
            if st.ghost.get('got') is not None:
                P.oblige(st, 'invariant.%s.received-once' % when, eqt(r, add(R, 1)))
            s = st.clone()
            s.fact(tz(And(le(h, m), lt(m, r))))
            if s.feasible():
                y = seq_get(s, s.content(p), sub(m, h))
                P.oblige(s, 'invariant.%s.in-order-unmodified' % when, is_sequenced(P, s, y, u, add(start, m)))
                if s.decide(lt(m, R)):
                    P.oblige(s, 'invariant.%s.as-sequenced' % when, val_eq(s, y, W))
            if st.ghost.get('tick'):
                P.oblige(st, 'timer.hands-on-everything-pending', eqt(h, r))
            if p.base is not None:
                for path, fo, fl_ in st.frozen.get(p.base.obj, ()):
                    P.oblige(st, 'batch.never-altered-after-it-was-handed-on', Or(le(add(p.off, p.cap), fo), le(add(fo, fl_), p.off), eqt(fl_, 0)) if fo is not None else False)
            if st.ghost.get('tick') or st.ghost.get('got') is not None:
                reached.add('tick' if st.ghost.get('tick') else 'sent' if st.ghost.get('sent') else 'kept')

    def make(st, phis):
        st.ghost['R'], st.ghost['H'] = R, H
        vals, objs = {}, set()
        for i, v in phis:
            w = role(i, v)
            if w == 'pool':
                n = sub(R, H)
                cap = st.fresh_int('poolcap')
                st.fact(tz(And(ge(cap, n), le(cap, 2 ** 40))))
                a = st.fresh_u('pool')
                o = st.alloc(Seq([Sub(a, 0, cap, lt_)]), ('backing', lt_))
                objs.add(o)
                vals[i['r']] = SliceV(Ptr(o), 0, n, cap, False)
                c = st.content(vals[i['r']])
                # the invariant, for the arbitrary submission m
                s = st.clone()
                inr = tz(And(le(H, m), lt(m, R)))
                y = P.mk(st, lt_, 'el', [a, tz(sub(m, H))])
                st.fact(z3.Implies(inr, tz(And(val_eq(st, y, W), is_sequenced(P, st, W, u, add(start, m))))))
            elif w == 'index':
                vals[i['r']] = simp(add(start, R))
            else:
                vals[i['r']] = P.fresh(st, i['t'], 'any')
        return vals, objs
    reached = set()
    main = []

    def hook(P, f, L, it):
        main.append(L)
        return loops.cut_loop(P, f, L, it, make, check)

    P.loop_hook[fn] = hook
    # a submission is sequenced as one thing: W is what m became when it was received (its time was chosen then)
    seqm = P.models.get('(%s).Sequence' % UNSEQ)
    outs = nopanic(P, run(P, st, fn, [d, ctx]), 'no-panic')

    def post(st, k, r):
        err = r[0] if isinstance(r, tuple) else r
        P.oblige(st, 'ensures.stops-with-an-error', Not(isnil(st, err)))
        return True
    forall(P, outs, post)
    reach(P, outs, 'reach.stops', post)
    for w in ('tick', 'sent', 'kept'):
        P.obls[P.prefix + 'reach.' + w] = {'name': P.prefix + 'reach.' + w, 'paths': 1, 'time': 0.0, 'reach': True,
                                           'failed': [] if w in reached else [{'msg': 'no iteration reaches this', 'status': 'unreachable', 'trace': [], 'cond': '', 'model': ''}]}


STAGEONE_REPLAY = {'pkg': 'internal/ctsubmit', 'file': 'c03_test.go', 'test': 'TestVerifStageOne', 'with': ['vh_test.go']}
STAGEONE_UNDER = ['(*%s).stageOne' % S1, '(%s).Sequence' % UNSEQ]
BATCHES = ('stageOne', stageone)    # the batches stage two receives


def growth(P):
    """no batch makes a tile level grow by more than one entry, so every partial tile of level >= 1 is published at every width"""
    pick(lambda P: stageone(P, 256), ['batch.of-bounded-size', 'invariant.entry.pending', 'invariant.preserved.pending'],
         ['batch.', 'invariant.', 'send.', 'timer.', 'ensures.', 'reach'])(P)


UNITS = [BATCHES]
UNDER = ['(*%s).stageOne' % S1, '(%s).Sequence' % UNSEQ] + [CS + 'LoadLog (starting index)', '(*%sLog).Start' % CS]
REPLAY = [STAGEONE_REPLAY,
          {'pkg': 'internal/ctsubmit', 'file': 'c16_test.go', 'test': 'TestVerifC16Start', 'with': ['vh_test.go', 'vhs3_test.go', 'vhlog_test.go']},
          {'pkg': 'internal/ctsubmit', 'file': 'c03start_test.go', 'test': 'TestVerifStart', 'with': ['vh_test.go', 'vhlog_test.go', 'vhsub_test.go', 'vhsz_test.go', 'vhpub_test.go']}]
ASSUMPTIONS = ['a channel delivers each value sent on it once, in the order of the sends; each stage runs once (Start, proved)',
               'leaf indices stay below 2^62 (uint64 addition is treated as mathematical below that)',
               'time.Now, time.Since, time.After and ctx.Done return arbitrary values and fire at arbitrary times',
               'the sequencer of the next stage does not write to a batch it received before answering (it only reads it)']
from c15 import only
from stagezero import endpoint_unit
from c16 import loadlog
UNITS += [('LoadLog starting index', only(loadlog, ('continues-from-the-published-size', 'channels'))),
          ('Start', only(endpoint_unit, ('one-sequencer-of-each-stage',)))]
