"""C01: a tree head is published only after everything it covers is stored."""
from publish import *
from stagetwo import stagetwo
from bucket import put_unit, HASHES
UNITS = [('stageTwo', pick(stagetwo, ['stored.', 'answer.after', 'dedupe.continues', 'dedupe.after', 'invariant.'], ['tree.', 'dedupe.', 'answer.']))] + WRITERS
UNITS += [('PutRecordHashes', pick(put_unit(HASHES, True), ['ensures.'], ['step.', 'loop-invariant.']))]
UNDER = ['(*%sstageTwoData).stageTwo' % CS] + ['(*%s).%s' % (BK, f) for f in ('SetTile', 'SetSth', 'SetCheckpoint', 'SetIssuer', 'PutRecordHashes', 'PutRecordHashes$1')]
ASSUMPTIONS = ['an object is stored once Storage.Set returned nil (the Storage contract, C17)',
               'errgroup.Group: Go runs the function once, at any time before Wait returns; Wait returns after all of them, nil only when all returned nil',
               'tlog.NewTiles(8, old, new) lists, for every level that grew, the tiles from the first one that changed to the rightmost; maps.Clone copies',
               'one sequencer runs at a time (the consul lock, C16) and stage two is started once (C15)']
PUB = ['vh_test.go', 'vhlog_test.go', 'vhsub_test.go', 'vhsz_test.go', 'vhpub_test.go']
REPLAY = [{'pkg': 'internal/ctsubmit', 'file': 'c01_test.go', 'test': 'TestVerifPublishC01', 'with': PUB}]
from c03 import BATCHES, STAGEONE_REPLAY, STAGEONE_UNDER
UNITS += [BATCHES]
UNDER += STAGEONE_UNDER
REPLAY += [STAGEONE_REPLAY]
