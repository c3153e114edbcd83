"""C06: the Merkle leaf layout."""
from verify import *
from leaf import *
from stagezero import *
from stagetwo import stagetwo
from publish import pick
from c15 import signed_entry


def contract_leaf(P):
    P.prefix = 'sunlight.LogEntry.MerkleTreeLeaf/'
    st = State(P)
    o, e, f = sym_entry(P, st)
    st.fact(tz(limits(f)))
    outs = run(P, st, '(*%sLogEntry).MerkleTreeLeaf' % SL, [Ptr(o)])
    outs = nopanic(P, outs, 'no-panic')

    def post(st, kind, r):
        P.oblige(st, 'ensures.layout', seq_eq(st, st.content(r[0]), merkle_leaf(st, f)))
        P.oblige(st, 'ensures.entry-unchanged', val_eq(st, st.load(Ptr(o)), e))
    forall(P, outs, post)
    reach(P, outs, 'reach.cert', lambda st, k, r: not st.decide(f['isp']))
    reach(P, outs, 'reach.precert', lambda st, k, r: st.decide(f['isp']))
    P.prefix = ''


def sct(P, st, S, out, resp, code):
    """an SCT signs the leaf bytes of the entry it is for, whether sequenced now or recorded before"""
    if out != 'sct':
        return
    e = expected(P, st, S)
    if e is not None:
        signed_entry(P, st, S, e, resp)


def stage0(P):
    got = stagezero(sct)(P)
    reached(P, got, 'reach.sequenced', lambda x, ops, tr: x == 'sct' and 'Answer' in ops)
    reached(P, got, 'reach.duplicate', lambda x, ops, tr: x == 'sct' and 'Send' not in ops)


UNITS = [('MerkleTreeLeaf', contract_leaf), ('stageZero', stage0),
         ('stageTwo', pick(stagetwo, ['stored.record-hashes.', 'tree.StoredHashesForRecordHash.'], ['stored.', 'tree.', 'dedupe.', 'answer.', 'invariant.']))]
UNDER = ['(*%sLogEntry).MerkleTreeLeaf' % SL, SL + 'MarshalExtensions', '(*%s).stageZero' % SZ, '(*%sstageTwoData).stageTwo' % CS]
ASSUMPTIONS = ['certificates and TBS certificates are shorter than 2^24 bytes and leaf indices below 2^40 (beyond it MerkleTreeLeaf panics in cryptobyte instead of encoding something else)',
               'cryptobyte.Builder behaves as documented', 'tlog.RecordHash is SHA-256 of 0x00 and the leaf (RFC 6962)',
               'the stored-hash arithmetic of tlog, ctfe, x509, encoding/json and base64 behave as documented; rfc6979.Sign meets its contract (C09)']
PUB = ['vh_test.go', 'vhlog_test.go', 'vhsub_test.go', 'vhsz_test.go', 'vhpub_test.go']
REPLAY = [{'pkg': 'internal/sunlight', 'file': 'c05_test.go', 'test': 'TestVerifC06', 'with': ['vh_test.go']},
          {'pkg': 'internal/ctsubmit', 'file': 'c01_test.go', 'test': 'TestVerifPublishC06', 'with': PUB},
          {'pkg': 'internal/ctsubmit', 'file': 'c15_test.go', 'test': 'TestVerifSigned', 'with': PUB}]
