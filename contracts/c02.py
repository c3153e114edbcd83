"""C02: an SCT is issued only for an entry that is durably in the log."""
from stagezero import *
from publish import pick, WRITERS
from stagetwo import stagetwo
from bucket import put_unit, DEDUPE


def post(P, st, S, out, resp, code):
    cs = calls(st)
    sends = [c for c in cs if c[0] == 'Send']
    if out != 'sct':
        return
    # nothing that was needed failed: only the deduplication lookup may say "not recorded"
    P.oblige(st, 'ensures.sct-only-if-every-step-succeeded', all(c[2] == 'ok' for c in cs if c[0] != 'GetDedupeEntry'))
    ds = [c for c in cs if c[0] == 'GetDedupeEntry']
    if ds and ds[0][2] == 'ok' and not sends:
        return      # a recorded certificate: C08
    ans = [c for c in cs if c[0] == 'Answer']
    P.oblige(st, 'ensures.answered-by-the-sequencer', len(ans) == 1 and len(sends) == 1)
    if len(ans) != 1 or len(sends) != 1:
        return
    P.oblige(st, 'ensures.after-the-submission', cs.index(sends[0]) < cs.index(ans[0]))
    e = expected(P, st, S)
    v = sct_value(P, st, resp)
    if e is None or v is None:
        return
    sct_fields(P, st, S, v, ans[0][1]['ix'], ans[0][1]['ts'], e)


def unit(P):
    got = stagezero(post)(P)
    reached(P, got, 'reach.sct', lambda x, ops, tr: x == 'sct' and 'Answer' in ops)
    reached(P, got, 'reach.late', lambda x, ops, tr: x == 'error' and 'Timeout' in ops and 'Send' in ops)


UNITS = [('stageZero', unit), ('stageZeroWrapper', wrapper_unit),
         ('stageTwo', pick(stagetwo, ['answer.', 'dedupe.', 'stored.', 'invariant.'], ['tree.']))] + WRITERS
UNITS += [('PutDedupeEntries', pick(put_unit(DEDUPE, True), ['ensures.'], ['step.', 'loop-invariant.']))]
UNDER = ['(*%s).%s' % (SZ, f) for f in ('stageZero', 'stageZeroWrapper')] + [
    '(*%sstageTwoData).stageTwo' % CS, '(%s).Sequence' % UNSEQ, '(*%sLogEntry).MerkleTreeLeaf' % SL, SL + 'MarshalExtensions', SL + 'DigitallySign'] + [
    '(*%sBucket).%s' % (CS, f) for f in ('SetTile', 'SetSth', 'SetCheckpoint', 'SetIssuer', 'PutDedupeEntries')]
ASSUMPTIONS = ['the answer slot belongs to one submission (proved: C18)',
               'an object is durable once Storage.Set returned nil (the Storage contract, C17)',
               'tlog.{StoredHashesForRecordHash,TreeHash,ReadTileData,NewTiles,TileForIndex,HashFromTile,StoredHashIndex,RecordHash} behave as documented',
               'errgroup.Group: Go runs the function once; Wait returns after all of them, nil only when all returned nil',
               'ctfe, x509, encoding/json, base64 and net/http behave as documented; rfc6979.Sign meets its contract (C09)']
PUB = ['vh_test.go', 'vhlog_test.go', 'vhsub_test.go', 'vhsz_test.go', 'vhpub_test.go']
REPLAY = [{'pkg': 'internal/ctsubmit', 'file': 'c01_test.go', 'test': 'TestVerifPublishC02', 'with': PUB},
          {'pkg': 'internal/ctsubmit', 'file': 'c02_test.go', 'test': 'TestVerifSCT', 'with': PUB}]
from c03 import BATCHES, STAGEONE_REPLAY, STAGEONE_UNDER
UNITS += [BATCHES]
UNDER += STAGEONE_UNDER
REPLAY += [STAGEONE_REPLAY]
