"""C04: every published tree head is the Merkle tree head of the stored leaves."""
from publish import *
from stagetwo import stagetwo, requests
from c15 import only
from c16 import loadlog
from c10 import check_sign as cosign
UNITS = [('stageTwo', pick(stagetwo, ['tree.', 'invariant.'], ['stored.', 'dedupe.', 'answer.'])), ('requests of tlog', requests),
         ('SignTreeHead', pick(signth, ['tree.'])), ('SignTreeHeadCheckpoint', cosign),
         ('LoadLog', only(loadlog, ('continues-from-the-published-size', 'data-tile', 'empty-data-tile', 'edge-tile', 'no-hash-tiles-of-the-empty-tree',
                                    'authenticated-against-the-tree-head', 'settings', 'signing-key')))] + WRITERS[:3]
UNDER = ['(*%sstageTwoData).{stageTwo,hashReader}' % CS, '(*%sstageTwoData).hashReader$1' % CS, SL + 'SignTreeHead', SL + 'SignTreeHeadCheckpoint', SL + 'DigitallySign', CS + 'LoadLog'] + [
    '(*%s).%s' % (BK, f) for f in ('SetTile', 'SetSth', 'SetCheckpoint')]
ASSUMPTIONS = ['tlog.StoredHashesForRecordHash and tlog.TreeHash compute the RFC 6962 hashes from the maximal complete subtrees of the leaves to the left, which they ask the reader for; '
               'tlog.ReadTileData asks for the hashes of its tile; tlog.{NewTiles,TileForIndex,HashFromTile,StoredHashIndex,RecordHash} behave as documented',
               'that these requests are always new hashes or in the old edge is proved (requests of tlog), from the numbering of tlog.TileForIndex',
               'MerkleTreeLeaf and AppendTileLeaf theirs (C05, C06), sunlight.Path its (C11), rfc6979.Sign its (C09)',
               'tlog.TileHashReader(...).ReadHashes of the last leaf saves the rightmost tile of every level that has a partial one',
               'the tree stays below 2^55 leaves',
               'the objects of the log are written only by the sequencer']
PUB = ['vh_test.go', 'vhlog_test.go', 'vhsub_test.go', 'vhsz_test.go', 'vhpub_test.go']
REPLAY = [{'pkg': 'internal/ctsubmit', 'file': 'c01_test.go', 'test': 'TestVerifPublishC04', 'with': PUB}]
from c03 import BATCHES, STAGEONE_REPLAY, STAGEONE_UNDER
UNITS += [BATCHES]
UNDER += STAGEONE_UNDER
REPLAY += [STAGEONE_REPLAY]
