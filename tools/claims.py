CLAIM['C17'] = 'Every Get/Exists/Set of the S3, file-system, URL and Fastly adapters (monitor and submit side) meets its contract over the assumed contracts of the SDK/os/http calls it makes, for every key, prefix, content and error outcome.'
CLAIM['C20'] = 'uploadRoots, uploadConfig, uploadEmptySth and MainMain meet their contracts for every bundle, key file, configuration and failing step, over the storage and signing contracts proved for C17 and C09.'
CLAIM['C16'] = 'MainMain serves only a log that LoadLog returned and Start started. LoadLog and sunlight.TileReader return a running log only for its own key and a tree edge authenticated against the stored tree head, for every consul/storage outcome and every published state, over the storage contracts proved for C17 and the assumed contract of tlog.TileHashReader.'
CLAIM['C10'] = 'FormatCheckpoint, ParseCheckpoint, NewRFC6962Verifier (and its verify closure) and SignTreeHeadCheckpoint meet their contracts for every text, key, message and signature, over assumed contracts of the string, note and signature-verification libraries.'
CLAIM['C14'] = 'Start, FastlyServe and their wrappers serve get-entry-and-proof by its own handler over the configured storage. get_entry_and_proof, getTile, get, getSth and the hashreader closure meet their contracts for every query, published size, leaf and storage outcome (any-outcome unit: an answer is right or an error; fault-free unit: every leaf of the published size is served), over the contracts of ReadTileLeaf (C05), MerkleTreeLeaf (C06), Path (C11) and assumed contracts of tlog, tls and json.'
CLAIM['C13'] = 'Start, FastlyServe and their wrappers serve the proof endpoints by its own handler over the configured storage. get_sth_consistency, get_proof_by_hash, get_entry_and_proof, getIndexForHash, the hashreader closure and the wrapper meet their contracts for every query, published size, storage content and storage outcome, over assumed contracts of tlog, base64 and json.'
CLAIM['C12'] = 'Start, FastlyServe and their wrappers serve get-entries by its own handler over the configured storage. get_entries, getTile, get and getSth meet their contracts for every query, published size, request budget and storage outcome, with an invariant over the tile loop and the leaf loop (the entries collected are exactly those from start up to the next leaf read, within the range); fault-free unit: the whole range up to the limit is served; any-bytes unit: no panic for arbitrary stored bytes.'
CLAIM['C07'] = 'PutRecordHashes, GetRecordHash, ToBytes, BytesToRecord and getIndexForHash meet their contracts for every stored object, batch (duplicates, shared objects), mask size and storage outcome: each entry of the batch inserts one record at its place in the object of its hash and changes no other; the insertion lemma over those contracts gives sortedness and found-ness for every history.'
CLAIM['C15'] = 'stageZero, stageZeroWrapper, the endpoint handlers, Start and the admission setup of LoadLog meet their contracts for every body, every outcome of decoding, chain validation, TBS construction, lookup, signing and sequencing: nothing is sequenced or answered unless the submitted chain was validated with the configured roots and window and its kind is the endpoint\'s, the entry is the leaf data of the validated chain at every chain position, the SCT is over that leaf, and every other outcome is an error status without an SCT and without a panic; over assumed contracts of the ctfe, x509, json and cryptobyte libraries.'
CLAIM['C08'] = 'PutDedupeEntries, GetDedupeEntry, ToBytes, BytesToDedupe and the lookup in stageZero meet their contracts for every stored object, batch, mask size and storage outcome: each entry of a batch inserts one record at its place and changes no other, a lookup answers the first record of its fingerprint (insertion lemma: for every history the one stored first), and stageZero answers a found record with an SCT built from it without sequencing.'
CLAIM['C03'] = 'stageOne keeps its loop invariant (the pool is exactly the submissions received and not yet handed on, in order, sequenced from the starting size, fewer than the size that closes a batch, in memory disjoint from every batch handed on) for every arrival, timer and stop event, and every batch sent is the whole pool, unmodified; LoadLog starts at the published size. Unbounded in the number of iterations.'
CLAIM['C01'] = 'stageTwo and the writers of Bucket meet their contracts for every state left by earlier batches, every batch and every outcome of every write: both forms of a tree head are written only on paths on which every data tile, hash tile, record-hash and deduplication update and issuer certificate of the batch was acknowledged, and after any failure stageTwo returns an error without publishing, answering or taking another batch (invariant over the batch loop, error-group contract over all schedules of its functions).'
CLAIM['C02'] = 'stageTwo answers a submission only after the tree head covering it and its deduplication record were stored, with exactly the completed entry it wrote; stageZero and its wrapper turn that answer, and nothing else, into an SCT over that entry; for every batch, write outcome and schedule, over the signing contracts proved for C06 and C10.'
CLAIM['C04'] = 'stageTwo keeps, for every state and batch, the invariant that its tree size, edge tiles and hash reader describe the stored leaves; the tiles it writes hold exactly the bytes their coordinates name; both tree-head forms carry the size and root of old leaves plus batch; a bit-vector lemma shows every hash that tlog requests lies in the new hashes or the stored right edge. Over assumed contracts of tlog (StoredHashes, TreeHash, NewTiles, ReadTileData).'
CLAIM['C18'] = 'Each submission is given its own answer slot with room for one answer (stageZero), stageTwo answers each exactly once after publication by a send that cannot block on any other party, and the selects of stageZero answer 503 when the entry is not sequenced or answered in time; for every batch, arrival and timer event.'
CLAIM['C09'] = 'Every function of internal/rfc6979 (per curve; candidate generation also per hash) and DigitallySign meet their contracts for every key with 0 < D < N, digest and message: the candidates are those of RFC 6979 3.2 (induction over the candidates), the nonce is the first in range, r and s satisfy the ECDSA equations over the field, the DER encoding is minimal and the wrapper is 04 03 and a 16-bit length; over assumed contracts of bigmod, nistec, math/big, hmac and cryptobyte.'
CLAIM['C21'] = 'get_sth, get_roots, get, Start, wrapper and MainMain of the monitor meet their contracts for every stored object, storage outcome and configuration: the answer is the stored object, or an error status.'
CLAIM['C22'] = 'LoadLog, Start and MainMain meet their contracts for every outcome of acquiring the lock and of every start-up step: a log is returned only with the lock of its own key held before any state was read, and with a goroutine that ends the process once the lock-lost channel closes whatever else it waits for; each stage runs once and releases the lock when it stops; over the assumed contract of the consul lock.'
