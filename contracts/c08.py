"""C08: resubmitting a logged certificate returns the original SCT."""
from bucket import *
from stagezero import *
from publish import pick
from stagetwo import stagetwo


def post(P, st, S, out, resp, code):
    sends = [c for c in calls(st) if c[0] == 'Send']
    d = None
    if sends or out == 'sct':
        d = requested(P, st, S)
    if d is None:
        return
    if d[2] == 'ok':
        P.oblige(st, 'ensures.duplicate-not-sequenced', not sends)
    if sends:
        P.oblige(st, 'ensures.sequenced-only-when-not-recorded', d[2] != 'ok')
    if out == 'sct' and not sends:
        P.oblige(st, 'ensures.recorded-answer', d[2] == 'ok')
        v = sct_value(P, st, resp)
        e = expected(P, st, S)
        if v is None or e is None:
            return
        g = lambda f: d[1]['val'].f[fidx(P, CS + 'DedupeUpload', f)]
        sct_fields(P, st, S, v, g('leafIndex'), g('timestamp'), e)


def unit(P):
    got = stagezero(post)(P)
    reached(P, got, 'reach.duplicate', lambda x, ops, tr: x == 'sct' and 'Send' not in ops)
    reached(P, got, 'reach.new', lambda x, ops, tr: x == 'sct' and 'Answer' in ops)


UNITS = [('PutDedupeEntries touched', put_unit(DEDUPE, True)), ('PutDedupeEntries untouched', put_unit(DEDUPE, False)),
         ('GetDedupeEntry', get_unit(DEDUPE)), ('ToBytes/BytesToDedupe', roundtrip_unit(DEDUPE)),
         ('insertion lemma', lemma_unit(DEDUPE)), ('stageZero', unit),
         ('stageTwo', pick(stagetwo, ['dedupe.', 'answer.with-the-sequenced-entry'], ['stored.', 'tree.', 'answer.']))]
UNDER = ['(*%s).PutDedupeEntries' % BK, '(*%s).PutDedupeEntries$1' % BK, '(*%s).GetDedupeEntry' % BK, '(*%sDedupeUpload).ToBytes' % CS,
         CS + 'BytesToDedupe', '(*%sstageTwoData).stageTwo' % CS, '(*%s).stageZero' % SZ, '(%s).Sequence' % UNSEQ]
WITH = ['vh_test.go', 'vhsub_test.go', 'vhlog_test.go', 'vhsz_test.go', 'c07_test.go', 'c15_test.go']
REPLAY = [{'pkg': 'internal/ctsubmit', 'file': 'c08_test.go', 'test': 'TestVerifDedupeIndex', 'with': WITH},
          {'pkg': 'internal/ctsubmit', 'file': 'c08_test.go', 'test': 'TestVerifResubmit', 'with': WITH},
          {'pkg': 'internal/ctsubmit', 'file': 'c01_test.go', 'test': 'TestVerifPublishC08', 'with': ['vh_test.go', 'vhlog_test.go', 'vhsub_test.go', 'vhsz_test.go', 'vhpub_test.go']}]
ASSUMPTIONS = ['storage reads and writes meet the Storage contract (C17); KAnonHashPath meets its contract (C11)',
               'errgroup.Group: Go runs the function once; Wait returns after all of them, nil only when all returned nil',
               'the deduplication objects are written only by this code: each is whole 29-byte records (the induction over update histories starts from no objects)',
               '0 <= maskSize <= 32; leaf indices are below 2^40 (the record holds 40 bits; decoding is proved for those)',
               'ranging over a map visits every key once; bytes.Compare orders byte strings, errors.Is/As look through wrapping as documented',
               'ctfe.ValidateChain, ctfe.IsPrecertificate, ct.IsPreIssuer, x509.BuildPrecertTBS, encoding/json and base64 behave as documented; a deduplication lookup that fails is not a recorded certificate']
