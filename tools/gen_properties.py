#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text is editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, obs):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=obs, hook_needed=None)))

LOGIC='internal/ctsubmit/logic.go'; BUCKET='internal/ctsubmit/bucket.go'; STOR='internal/ctsubmit/storage.go'
CONF='internal/ctsubmit/config.go'; TILE='internal/sunlight/tile_ol.go'; EXT='internal/sunlight/extensions_ol.go'
CKPT='internal/sunlight/checkpoint_ol.go'; MISC='internal/sunlight/misc.go'; SIGN='internal/sunlight/digitallysign_ol.go'
FETCH='internal/ctmonitor/fetch.go'; ML='internal/ctmonitor/logic.go'; MS='internal/ctmonitor/storage.go'; FA='internal/ctmonitor/fastly.go'
RFC='internal/rfc6979/ecdsa_ol.go'; SETUP='internal/ctsetup/main.go'
NOT="The repository has no test of this package at all; the four integration tests need docker and sample a few hundred fault-free submissions. "

p('C01','Tree head is published only after everything it covers is stored',
 'A tree head (the get-sth object or the checkpoint) of size n is written to storage only after storage has acknowledged the data tiles, hash tiles, record-hash index entries and issuer certificates of every leaf of the batch that grew the tree to n. If any of those writes fails, the sequencer stops with an error and writes no tree head, acknowledges no entry of that batch, and processes no further batch.',
 ['crash_points','fault_sequences','histories'],'every batch content and length, every prior tree state, every subset of failing storage operations and every completion order of the concurrent uploads',
 NOT+'No test injects a storage failure or a crash between two writes.',
 [LOGIC,BUCKET],[('storage','objects written so far','object store'),('edge tiles','rightmost tiles kept in memory','ctsubmit stage two')],
 [('uploads run in an error group that is awaited before the tree head is signed and set',LOGIC)],['order and keys of storage writes','stage two return value'])
p('C02','An SCT is issued only for an entry that is durably in the log',
 'A submitter of a new (not deduplicated) chain receives an SCT only after a tree head covering that entry and its deduplication record were stored, and the SCT carries exactly the leaf index and timestamp with which that entry was stored, the log id of the log, version v1 and a signature over exactly that entry. When any step fails or times out the submitter gets an error status and no SCT.',
 ['crash_points','fault_sequences','histories','inputs'],'every accepted chain, every storage failure, every interleaving of the stages',
 NOT+'The tests cannot stop the process between sequencing and acknowledgement.',
 [LOGIC,CONF],[('return path','channel on which the sequenced entry is handed back','ctsubmit')],
 [('stage two answers the return path last',LOGIC),('stage zero builds the SCT from the returned entry',LOGIC)],['add-chain / add-pre-chain response','storage writes'])
p('C03','Accepted submissions get consecutive leaf indexes, none lost or repeated',
 'The sequencer gives accepted submissions consecutive leaf indexes starting at the published tree size, in arrival order, with no gap, repetition or loss. Every submission is handed on exactly once, unmodified, in a batch of at most 255 entries, and a batch is never altered after it was handed on.',
 ['histories','schedules','inputs'],'every arrival sequence and timing of submissions and flush timers',
 NOT+'Batch boundaries and timer/arrival races are not controlled by any test.',
 [LOGIC,CONF],[('sequence','next leaf index','ctsubmit stage one'),('pool','entries sequenced but not handed on','ctsubmit stage one')],
 [('increment per received entry; copy of the pool handed to stage two',LOGIC)],['batches received by stage two'])
p('C04','Every published tree head is the Merkle tree head of the stored leaves',
 'For every batch the newly published tree head has size old size + batch length (an empty batch republishes the same size), its root is the RFC 6962 tree hash of exactly the stored leaves 0..size-1, and each data tile and hash tile written holds exactly the bytes of the leaves and subtree hashes its coordinates name. The get-sth object and the checkpoint of one batch carry the same size and root, and both are signed with the log key under the configured origin.',
 ['histories','inputs'],'every sequence of batches, including batches that fill, cross or end exactly at a tile boundary, and every entry content',
 NOT+'Tile-boundary batch shapes and multi-level trees (65536+ leaves) are outside what the tests submit.',
 [LOGIC,MISC,CKPT],[('edge tiles','rightmost tile of each level and the rightmost data tile','ctsubmit stage two'),('tree size','size of the last published head','ctsubmit stage two')],
 [('hash reader over new hashes and edge tiles',LOGIC),('tree tiles from tlog.NewTiles/ReadTileData',LOGIC),('SignTreeHead / SignTreeHeadCheckpoint',MISC)],['storage objects tile/*, ct/v1/get-sth, checkpoint'])
p('C05','Data tile entries decode to exactly what was encoded',
 'For every log entry (certificate or precertificate, any sizes within the format limits, any chain length) decoding the bytes appended to a data tile returns the same timestamp, type, issuer key hash, certificate, precertificate, chain fingerprints and leaf index, and leaves exactly the bytes that follow. Appending never changes the bytes already in the tile.',
 ['inputs'],'every entry, every existing tile content and every following content',
 NOT+'Round trip over all lengths, both entry types and all chain lengths cannot be sampled.',
 [TILE,EXT],[],[('AppendTileLeaf / ReadTileLeaf',TILE)],['return values of the tile leaf encoder and decoder'])
p('C06','The Merkle leaf has the RFC 6962 layout and is the same at every use',
 'For every entry the leaf bytes are exactly the RFC 6962 MerkleTreeLeaf: version 0, leaf type 0, 64-bit timestamp, entry type, issuer key hash for precertificates, 24-bit length-prefixed certificate and an extensions field holding exactly the leaf_index extension. The same bytes are what the record hash in the tree and in the hash index is computed over and what the SCT signature covers.',
 ['inputs'],'every entry of either type, every timestamp and leaf index below 2^40',
 NOT+'No unit test of the encoding exists.',
 [TILE,EXT,LOGIC],[],[('MerkleTreeLeaf',TILE)],['leaf bytes','record hash','SCT signature input'])
p('C07','Hash index lookups find every recorded leaf',
 'After a successful index update every newly recorded leaf hash and every hash that was found before is found with its leaf index, by the log as well as by the monitoring side reading the same objects; records stay sorted by hash and no other record changes. A read failure other than "not found" aborts the update without writing anything.',
 ['inputs','histories','fault_sequences'],'every existing index object, every batch of hashes (including duplicates and shared objects), every mask size 0..32 and every storage failure',
 NOT+'The source carries the comment "This NEEDS unit testing".',
 [BUCKET,FETCH,MISC],[('index object','sorted 21-byte records (16-byte hash, 40-bit little-endian index)','int/hashes/*')],
 [('PutRecordHashes / GetRecordHash',BUCKET),('getIndexForHash',FETCH)],['storage objects int/hashes/*','lookup results'])
p('C08','Resubmitting a logged certificate returns the original SCT',
 'Once the deduplication record of a certificate is stored, every later lookup of that certificate returns the index and timestamp stored first, whatever other records are added, and never those of another certificate with a different fingerprint prefix; the resubmission is then answered with an SCT built from them and is not sequenced again. A read failure other than "not found" while storing records aborts without writing anything.',
 ['inputs','histories','fault_sequences'],'every existing deduplication object, every batch, every mask size 0..32, every storage failure',
 NOT+'The hammer test resubmits a few chains and never checks all orders of fingerprints.',
 [BUCKET,LOGIC],[('dedupe object','sorted 29-byte records (16-byte fingerprint prefix, 40-bit index, 64-bit timestamp)','int/dedupe/*')],
 [('PutDedupeEntries / GetDedupeEntry',BUCKET),('stage zero lookup',LOGIC)],['storage objects int/dedupe/*','add-chain response'])
p('C09','Signatures are deterministic RFC 6979 ECDSA in the TLS encoding',
 'Signing the same message with the same key always yields the same bytes: the nonce is derived from key and digest only, exactly as RFC 6979 section 3.2 prescribes, r and s are computed by the ECDSA equations, and the DER encoding is minimal. The result is wrapped as SHA-256/ECDSA with a 16-bit length.',
 ['inputs'],'every private key on P-256, P-384 and P-521 and every message',
 'The rfc6979 tests check about thirty fixed vectors; leading-zero scalars, rejected nonces and high-bit encodings are only met by chance, and the TLS wrapper is not tested.',
 [RFC,SIGN],[],[('rfc6979DRBG, randomPoint, signNISTEC, encodeSignature',RFC),('DigitallySign',SIGN)],['signature bytes'])
p('C10','Checkpoints parse back to what was formatted and verify only as signed',
 'For every tree size and root, formatting a checkpoint and parsing it returns the same origin, size, root and extension, and every accepted text is in canonical form with a 32-byte hash. A signature is accepted only if it is well formed, its algorithm matches the key type and it verifies over the RFC 6962 tree-head structure of exactly that checkpoint\'s size, root and embedded timestamp, for ECDSA and for RSA keys.',
 ['inputs'],'every checkpoint value, every candidate text and every signature byte string',
 NOT+'No test parses or verifies a checkpoint.',
 [CKPT],[],[('ParseCheckpoint, FormatCheckpoint, NewRFC6962Verifier, SignTreeHeadCheckpoint',CKPT)],['parse result','verifier verdict'])
p('C11','Object names follow the tile and hash-prefix path formats',
 'The path of a tile is tile/<level or "data">/<number in groups of three digits, every group but the last prefixed with x>, followed by .p/<width> exactly when the tile is partial. The path of a hash is its first <mask size> lowercase hex digits split into two-digit segments by slashes. Both hold for every coordinate and every mask size, so writer and readers name the same object and different tiles get different names.',
 ['inputs'],'every level, every tile number below 2^63, every width, every 16-byte hash and mask size 0..32',
 NOT+'Numbers of 1000 and above and odd mask sizes are never reached by the tests except mask size 5.',
 [TILE,MISC],[],[('Path',TILE),('KAnonHashPath',MISC)],['object keys'])
p('C12','get-entries returns a contiguous run of true entries from start',
 'For every start and end, get-entries either answers with an error status or with entries start, start+1, ... in order, without gap, duplicate or entry beyond min(end, tree size-1), each with its exact Merkle leaf and the complete certificate chain that was submitted. It never panics, and without a request budget it returns everything up to min(end, start+limit, tree size-1).',
 ['inputs','histories'],'every pair of query strings, every tree size, every batch history that produced the tiles, every request budget',
 NOT+'The hammer test asks for ranges inside trees of a few hundred entries.',
 [ML,FETCH,TILE],[('tiles','data tiles at the published size','object store')],[('get_entries, getTile',ML)],['get-entries response'])
p('C13','Proof endpoints answer only within the published tree and from its tiles',
 'get-sth-consistency, get-proof-by-hash and get-entry-and-proof reject missing, malformed, negative, reversed or out-of-range parameters (anything beyond the published tree size) with a 4xx status before any proof is computed, and never panic. An accepted request is answered with exactly the RFC 6962 proof for the requested sizes and index, read from the published tiles, with the index that the hash index records for the hash; the consistency proof from size 0 is empty.',
 ['inputs','histories'],'every combination of query strings and every published tree size',
 NOT+'Only well-formed and a few malformed parameters are sampled.',
 [ML,FETCH],[],[('get_sth_consistency, get_proof_by_hash, get_entry_and_proof, hashreader',ML)],['HTTP status and body'])
p('C14','get-entry-and-proof serves every leaf of the published tree',
 'For every leaf index below a requested tree size equal to the published one, get-entry-and-proof reads objects that the published tree guarantees to exist and returns that leaf, its complete chain and its audit path. A partial tile is requested with its published width, after the full tile was reported missing, and only then.',
 ['inputs','histories'],'every published tree size and leaf index, every batch history',
 NOT+'The hammer test gives get-entry-and-proof weight zero.',
 [ML,FETCH],[],[('get_entry_and_proof, getTile, hashreader',ML)],['storage keys requested','HTTP response'])
p('C15','Only validated chains of the right kind are logged, with the right leaf data',
 'A submission is sequenced or answered with an SCT only if its chain validates to an accepted root within the configured expiry window and its leaf kind matches the endpoint; everything else, including an undecodable or empty chain, gets an error status and never a panic. The logged leaf is the certificate itself or, for a precertificate, its TBS with poison removed and the key hash of the issuer that signs the final certificate, skipping a dedicated precertificate-signing issuer; fingerprints and chain follow the validated order.',
 ['inputs'],'every request body and every result of chain validation',
 NOT+'Only the synthetic chains of the hammer generator are submitted.',
 [LOGIC],[],[('stageZero',LOGIC)],['HTTP status','entry handed to the sequencer'])
p('C16','A log starts only on its own key and authenticated published state',
 'Loading a log succeeds only if the configured log id equals the hash of the public key of the loaded private key and the stored tree head and edge tiles were read and authenticated against each other. It then continues from exactly the published size: the first new index is that size, and the in-memory edge tiles are the rightmost published tile of each level that authenticating the last leaf passes through, and the data tile of the same coordinates as the level-0 one. If loading or starting fails, nothing is served.',
 ['configurations','histories','fault_sequences'],'every configuration, stored state and storage failure at start-up',
 NOT+'Start-up on a non-empty tree is never exercised.',
 [CONF],[],[('LoadLog',CONF)],['LoadLog result'])
p('C17','Storage adapters report not-found, failure and content faithfully',
 'Every storage adapter reads and writes exactly the object named by its configured prefix and the key, returns the stored bytes unchanged, and reports success only if the operation succeeded. "Not found" is reported exactly when the object does not exist; any other failure is reported as an error that is not "not found", in cached and uncached reads alike.',
 ['inputs','fault_sequences'],'every key and content, every status or error of the underlying store',
 NOT+'Failing stores are not simulated.',
 [STOR,MS,FA],[],[('Get/Set/Exists of the adapters',STOR),('UrlStorage, FsStorage',MS),('FastlyStorage',FA)],['adapter results'])
p('C18','A slow or absent client cannot stall sequencing',
 'Handing a sequenced entry back never blocks the sequencer, whatever the submitter does: each submission has its own answer slot with room for its single answer, and it is answered exactly once after its batch is published. A submitter that is not answered in time gets status 503.',
 ['schedules','histories'],'every interleaving of submitters, timeouts and the sequencer stages',
 NOT+'No test lets a client time out while its entry is being sequenced.',
 [LOGIC],[],[('buffered return channel',LOGIC)],['channel operations of the stages'])
p('C19','The leaf index extension is a 40-bit big-endian field and round-trips',
 'For every leaf index below 2^40 the extension is type 0, length 5 and the big-endian 40-bit index, and parsing it, also after unknown extensions, returns that index; an index of 2^40 or more is refused. Parsing rejects truncated or oversized leaf_index data and an extension list without one, and never panics.',
 ['inputs'],'every 64-bit index and every byte string',
 NOT+'The 40-bit boundary is far beyond any tested tree.',
 [EXT],[],[('MarshalExtensions, ParseExtensions, addUint40, readUint40',EXT)],['extension bytes','parse result'])
p('C20','A new log is bootstrapped as the signed empty tree with its roots',
 'Set-up stores the accepted roots file with exactly the certificates of the given root bundle in order, and a tree head of size 0 whose root hash is SHA-256 of the empty string, signed with the given key. Both go to the storage the configuration selects (the directory when one is configured), a failing step is reported as an error, and no tree head is stored after a failure.',
 ['configurations','fault_sequences','inputs'],'every configuration, key, root bundle and storage failure',
 NOT+'Set-up runs once per integration test with one bundle.',
 [SETUP,MISC],[],[('uploadRoots, uploadEmptySth',SETUP)],['storage objects ct/v1/get-roots, ct/v1/get-sth'])
p('C21','The monitor serves the published tree head and roots unchanged',
 'get-sth and get-roots answer with status 200 and exactly the bytes stored under ct/v1/get-sth and ct/v1/get-roots, and with a 5xx status and no answer body from another object when the object cannot be read, over whichever storage the server was configured with. The server serves nothing else under these paths.',
 ['inputs','configurations','fault_sequences'],'every stored object, storage configuration and storage failure',
 NOT+'The tests fetch one tree head through one storage and do not compare it with the stored object.',
 [ML,FETCH,'internal/ctmonitor/main.go'],[],[('get_sth, get_roots, get, Start, wrapper',ML)],['HTTP response'])
p('C22','Only the process holding the log lock sequences, and it stops when the lock is gone',
 'A submission server reads the configuration and the published state of a log, and sequences entries for it, only after it acquired the consul lock under the lock key of that log (its path plus /lock) on the configured consul with a session of its own; when the lock cannot be acquired, nothing is loaded or served. When consul reports that lock lost, the process ends, whatever else it is doing. There is one sequencer of each stage, and when either stops, its lock is released (or the process ends).',
 ['schedules','histories','fault_sequences'],'every outcome and timing of acquiring the lock, every point at which it is lost, every stop of a stage',
 NOT+'No test runs two servers for one log, or takes a lock away.',
 [CONF,LOGIC,'internal/ctsubmit/main.go'],[('consul lock','which process may sequence','consul, key path/lock')],
 [('lock before state, goroutine that waits for its loss',CONF),('Unlock when a stage stops',LOGIC)],['consul requests','process exit'])

out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
