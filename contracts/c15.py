"""C15: only validated chains of the right kind are logged, with the right leaf data."""
from stagezero import *


def admitted(P, st, S, what):
    """the request was validated, with these options, and is of the endpoint's kind"""
    f = S['f']
    ra, un, no, va, ip = [one(st, x) for x in ('ReadAll', 'Unmarshal', 'NewCertValidationOpts', 'ValidateChain', 'IsPrecertificate')]
    P.oblige(st, what + '.requires.body-decoded', ra is not None and un is not None)
    P.oblige(st, what + '.requires.chain-validated', va is not None and no is not None)
    P.oblige(st, what + '.requires.kind-determined', ip is not None)
    P.oblige(st, what + '.requires.body-of-this-request', And(term(ra['r']) == term(S['body']), un['text'] == core.reifyst(st, ra['content'])))
    t = P.tid['[][]byte']
    given = P.mk(st, t, 'unjson.chain', [un['text']])
    P.oblige(st, what + '.requires.submitted-chain', seq_eq(st, st.content(va['raw']), st.content(given)))
    P.oblige(st, what + '.requires.nonempty', gt(st.content(given).len, 0))
    P.oblige(st, what + '.requires.these-options', term(va['opts']) == term(no['opts']))
    P.oblige(st, what + '.requires.accepted-roots', term(no['trustedRoots']) == term(f['roots']))
    for w in ('notAfterStart', 'notAfterLimit'):
        P.oblige(st, what + '.requires.expiry-window', no[w] is not None and term(no[w]) == term(f[w]))
    P.oblige(st, what + '.requires.any-validity', And(Not(no['rejectExpired']), Not(no['rejectUnexpired']), Not(no['acceptOnlyCA'])))
    P.oblige(st, what + '.requires.leaf-kind-of-leaf', term(ip['cert']) == term(seq_get(st, va['chain'], 0)))
    P.oblige(st, what + '.requires.kind-of-endpoint', eqt(uf('isprecert', [term(seq_get(st, va['chain'], 0))], BOOL), S['pre']))


def post(P, st, S, out, resp, code):
    sends = [c for c in calls(st) if c[0] == 'Send']
    ded = [c for c in calls(st) if c[0] == 'GetDedupeEntry']
    if not sends and out != 'sct':
        return
    admitted(P, st, S, 'sequence' if sends else 'answer')
    e = expected(P, st, S)
    P.oblige(st, 'ensures.precertificate-has-its-issuer', e is not None)
    if e is None:
        return
    P.oblige(st, 'ensures.at-most-one-submission', len(sends) <= 1)
    for c in sends:
        v = c[1]['v']
        P.oblige(st, 'ensures.to-the-sequencer', isinstance(v, St) and v.ty == P.tid[UWRP] and term(c[1]['ch']) == term(S['f']['stageOneTx']))
        same_entry(P, st, v.f[fidx(P, UWRP, 'entry')], e, S['j'])
    if out == 'sct':
        signed_entry(P, st, S, e, resp)


def signed_entry(P, st, S, e, resp):
    """the SCT is over the leaf of this entry"""
    ty, v = answered(P, st, resp)
    P.oblige(st, 'ensures.sct-object', ty == ACR)
    if ty is None:
        return
    ts = simp(tz(v.f[fidx(P, ACR, 'Timestamp')]))
    ans = one(st, 'Answer')
    d = one(st, 'GetDedupeEntry')
    ix = ans['ix'] if ans else d['val'].f[fidx(P, CS + 'DedupeUpload', 'leafIndex')]
    f = dict(cert=e['cert'], pre=e['pre'], isp=e['isp'], ikh=e['ikh'], ts=ts, idx=ix)
    P.oblige(st, 'ensures.signed-leaf', is_signed(st, st.content(v.f[fidx(P, ACR, 'Signature')]), term(S['f']['signingKey']), merkle_leaf(st, f)))


def unit(P):
    got = stagezero(post)(P)
    reached(P, got, 'reach.sequenced', lambda x, ops, tr: x == 'sct' and 'Answer' in ops)
    reached(P, got, 'reach.duplicate', lambda x, ops, tr: x == 'sct' and 'Send' not in ops)
    reached(P, got, 'reach.rejected-chain', lambda x, ops, tr: x == 'error' and ('ValidateChain', False) in tr)


UNITS = [('stageZero', unit)]
UNITS += [('stageZeroWrapper', wrapper_unit), ('Start', endpoint_unit)]
REPLAY = [{'pkg': 'internal/ctsubmit', 'file': 'c16_test.go', 'test': 'TestVerifC16Window', 'with': ['vh_test.go', 'vhs3_test.go', 'vhlog_test.go']},
          {'pkg': 'internal/ctsubmit', 'file': 'c15_test.go', 'test': 'TestVerifAdmission', 'with': ['vh_test.go', 'vhlog_test.go', 'vhsub_test.go', 'vhsz_test.go']},
          {'pkg': 'internal/ctsubmit', 'file': 'c03start_test.go', 'test': 'TestVerifStart', 'with': ['vh_test.go', 'vhlog_test.go', 'vhsub_test.go', 'vhsz_test.go', 'vhpub_test.go']}]


def only(f, names):
    """the obligations of another property's unit that this property rests on"""
    def check(P):
        keep = lambda n: any(('ensures.' + x) in n for x in names)
        P.dropped = lambda n: not keep(n)
        f(P)
        for n in [n for n in P.obls if not keep(n)]:
            del P.obls[n]
        for x in names:
            n = P.prefix + 'has.' + x
            ok = any(('ensures.' + x) in m for m in P.obls)
            P.obls[n] = {'name': n, 'paths': 1, 'time': 0.0, 'failed': [] if ok else [{'msg': 'no execution reaches this clause', 'status': 'unreachable', 'trace': [], 'cond': '', 'model': ''}]}
    return check


from c16 import loadlog
UNITS += [('LoadLog window and roots', only(loadlog, ('window', 'accepted-roots')))]
UNDER = ['(*%s).%s' % (SZ, f) for f in ('stageZero', 'stageZeroWrapper', 'addChain', 'addPreChain')] + ['(*%sLog).Start' % CS, '(%s).Sequence' % UNSEQ,
         '(*%sLogEntry).MerkleTreeLeaf' % SL, SL + 'MarshalExtensions', SL + 'DigitallySign', CS + 'LoadLog']
ASSUMPTIONS = ['ctfe.ValidateChain returns a chain (leaf first, its own bytes unchanged) only if it validates to one of the given roots with notAfterStart <= notAfter < notAfterLimit, and has at least one element and fewer than 2048',
               'ctfe.IsPrecertificate, ct.IsPreIssuer and x509.BuildPrecertTBS decide/compute what RFC 6962 3.1/3.2 say; the TBS stays below 2^24 bytes',
               'encoding/json and base64 behave as documented; otelhttp.NewHandler passes requests through; http.MaxBytesHandler limits the body',
               'what the answer slot delivers is this entry with an index and a time (the contract of the sequencer: C02, C03)', 'crypto/sha256 is a function of its input; rfc6979.Sign meets its contract (C09)']
