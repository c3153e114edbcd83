"""C18: a slow or absent client cannot stall sequencing."""
from stagezero import *
from publish import pick
from stagetwo import stagetwo
from c03 import stageone


def post(P, st, S, out, resp, code):
    cs = calls(st)
    sends = [c for c in cs if c[0] == 'Send']
    P.oblige(st, 'ensures.submitted-at-most-once', len(sends) <= 1)
    for c in sends:
        v = c[1]['v']
        P.oblige(st, 'ensures.only-submits', isinstance(v, St) and v.ty == P.tid[UWRP] and term(c[1]['ch']) == term(S['f']['stageOneTx']))
        rp = v.f[fidx(P, UWRP, 'returnPath')]
        own = isinstance(rp, ChanV) and str(rp.t).startswith('chan!')
        P.oblige(st, 'ensures.own-answer-slot', own, 'the return path is not a channel made for this submission')
        P.oblige(st, 'ensures.room-for-the-answer', own and rp.cap is not None and ge(rp.cap, 1))
        P.oblige(st, 'ensures.gives-up-submitting', bounded_wait(st, c))
    for c in cs:
        if c[0] in ('Answer', 'ForeignRecv', 'ClientGone'):
            P.oblige(st, 'ensures.gives-up-waiting', bounded_wait(st, c))
    # not answered in time
    late = [c for c in cs if c[0] == 'Timeout']
    asked = [c for c in cs if c[0] == 'GetDedupeEntry' and c[2] != 'ok']
    if late:
        P.oblige(st, 'ensures.late-is-503', out == 'error' and eqt(code, 503))
    if asked and sends and not [c for c in cs if c[0] in ('Answer', 'ClientGone')]:
        P.oblige(st, 'ensures.unanswered-is-503', out == 'error' and eqt(code, 503))


def bounded_wait(st, c):
    """the channel operation is one of a select with a timer that was started with a fixed duration"""
    sel = c[1].get('sel')
    if sel is None:
        return False
    cs = calls(st)
    before = cs[:[k for k, x in enumerate(cs) if x is c][0]]
    fired = [x[1]['ch'].t for x in before if x[0] == 'Timeout']
    ts = [x[1]['ch'].t for x in before if x[0] == 'After' and not isz(x[1]['d']) and 0 < x[1]['d'] <= 3600 * 10 ** 9 and not any(x[1]['ch'].t.eq(y) for y in fired)]
    return not sel[1] or any(t.eq(x) for t in ts for x in sel[0])


def unit(P):
    got = stagezero(post)(P)
    reached(P, got, 'reach.answered', lambda x, ops, tr: x == 'sct' and 'Answer' in ops)
    reached(P, got, 'reach.late', lambda x, ops, tr: x == 'error' and 'Timeout' in ops and 'Send' in ops)
    reached(P, got, 'reach.not-taken', lambda x, ops, tr: x == 'error' and 'Timeout' in ops and 'Send' not in ops)


UNITS = [('stageZero', unit), ('stageZeroWrapper', wrapper_unit),
         ('stageOne', pick(stageone, ['batch.', 'invariant.preserved.received-once', 'send.'], ['timer.', 'ensures.stops', 'invariant.preserved.next-index'])),
         ('stageTwo', pick(stagetwo, ['answer.', 'invariant.'], ['stored.', 'tree.', 'dedupe.']))]
UNDER = ['(*%s).stageZero' % SZ, '(*%s).stageZeroWrapper' % SZ, '(*%sstageOneData).stageOne' % CS, '(*%sstageTwoData).stageTwo' % CS, '(%s).Sequence' % UNSEQ]
ASSUMPTIONS = ['a send on a channel with free capacity does not block, and nobody but the sequencer sends on the answer slot (stage zero only reads it: proved)',
               'time.After, time.NewTimer and context.WithTimeout fire after their duration',
               'the calls made before and between the two waits (body read, chain validation, deduplication lookup) return']
PUB = ['vh_test.go', 'vhlog_test.go', 'vhsub_test.go', 'vhsz_test.go', 'vhpub_test.go']
REPLAY = [{'pkg': 'internal/ctsubmit', 'file': 'c01_test.go', 'test': 'TestVerifPublishC18', 'with': PUB},
          {'pkg': 'internal/ctsubmit', 'file': 'c02_test.go', 'test': 'TestVerifClients', 'with': PUB}]
