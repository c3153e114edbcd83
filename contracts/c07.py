"""C07: hash index lookups find every recorded leaf."""
from bucket import *
from c13 import lookup
from stagetwo import stagetwo
from publish import pick
UNITS = [('PutRecordHashes touched', put_unit(HASHES, True)), ('PutRecordHashes untouched', put_unit(HASHES, False)),
         ('GetRecordHash', get_unit(HASHES)), ('getIndexForHash', lookup), ('ToBytes/BytesToRecord', roundtrip_unit(HASHES)),
         ('insertion lemma', lemma_unit(HASHES)),
         ('stageTwo', pick(stagetwo, ['stored.record-hashes.'], ['stored.', 'tree.', 'dedupe.', 'answer.', 'invariant.']))]
UNDER = ['(*%s).PutRecordHashes' % BK, '(*%s).PutRecordHashes$1' % BK, '(*%s).GetRecordHash' % BK, '(*%sRecordHashUpload).ToBytes' % CS,
         CS + 'BytesToRecord', '(*itko.dev/internal/ctmonitor.Fetch).getIndexForHash', '(*%sstageTwoData).stageTwo' % CS]
WITH = ['vh_test.go', 'vhsub_test.go']
REPLAY = [{'pkg': 'internal/ctsubmit', 'file': 'c07_test.go', 'test': 'TestVerifIndex', 'with': WITH},
          {'pkg': 'internal/ctmonitor', 'file': 'c07m_test.go', 'test': 'TestVerifMonitorLookup', 'with': ['vh_test.go', 'vhlog_test.go', 'vhmon_test.go']},
          {'pkg': 'internal/ctsubmit', 'file': 'c01_test.go', 'test': 'TestVerifPublishC07', 'with': ['vh_test.go', 'vhlog_test.go', 'vhsub_test.go', 'vhsz_test.go', 'vhpub_test.go']}]
ASSUMPTIONS = ['storage reads and writes meet the Storage contract (C17); KAnonHashPath meets its contract (C11)',
               'errgroup.Group: Go runs the function once; Wait returns after all of them, nil only when all returned nil',
               'the objects of the index are written only by this code: each is whole 21-byte records (the induction over update histories starts from no objects)',
               '0 <= maskSize <= 32; leaf indices are below 2^40 (the record holds 40 bits; decoding is proved for those)',
               'ranging over a map visits every key once; bytes.Compare orders byte strings, errors.Is/As look through wrapping as documented']
