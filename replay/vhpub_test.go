package PKG

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"github.com/google/certificate-transparency-go/x509"
	"golang.org/x/mod/sumdb/tlog"
	"itko.dev/internal/sunlight"
)

// the publishing stage over an in-memory store, checked against the independent log builder

const vhOrigin = "log.example/test"

func vhMaskPath(h []byte, mask int) string {
	s := hex.EncodeToString(h)[:mask]
	var p []string
	for i := 0; i < len(s); i += 2 {
		p = append(p, s[i:min(i+2, len(s))])
	}
	return strings.Join(p, "/")
}

// vhHasRecord: the object is whole records of that size, one of which is the wanted one
func vhHasRecord(obj []byte, size int, want []byte) bool {
	for i := 0; i+size <= len(obj); i += size {
		if bytes.Equal(obj[i:i+size], want) {
			return true
		}
	}
	return false
}

func vhLE(n int, v uint64) []byte { return binary.LittleEndian.AppendUint64(nil, v)[:n] }

func vhFp(e *vhEntry) [32]byte {
	if e.IsPre {
		return sha256.Sum256(e.Pre)
	}
	return sha256.Sum256(e.Cert)
}

// vhMissing: what a tree head of size n needs of the leaves old..n-1 and of the tiles they are in, and is not stored
func vhMissing(m map[string][]byte, l *vhLog, old, n, mask int) string {
	for L, cnt := 0, int64(n); cnt > 0; L, cnt = L+1, cnt>>8 {
		for N := int64(old) >> (8 * L) >> 8; N*256 < cnt; N++ {
			W := int(min(256, cnt-N*256))
			for _, q := range []int{L, -1} {
				if q < 0 && L > 0 {
					continue
				}
				k, want := vhTilePath(q, N, W), []byte(nil)
				if q < 0 {
					want = l.dataTile(N, W)
				} else {
					want = l.hashTile(L, N, W)
				}
				if got, ok := m[k]; !ok {
					return k + " is not stored"
				} else if !bytes.Equal(got, want) {
					return fmt.Sprintf("%s holds %d bytes %x.., not the %d bytes %x.. of its leaves", k, len(got), got[:min(len(got), 40)], len(want), want[:min(len(want), 40)])
				}
			}
		}
	}
	for i := old; i < n; i++ {
		e := l.E[i]
		h := tlog.RecordHash(e.leaf())
		k := "int/hashes/" + vhMaskPath(h[:], mask)
		if !vhHasRecord(m[k], 21, vhCat(h[:16], vhLE(5, uint64(i)))) {
			return fmt.Sprintf("the record hash of leaf %d is not in %s", i, k)
		}
		for _, c := range e.Chain {
			k := fmt.Sprintf("issuer/%x", sha256.Sum256(c))
			if !bytes.Equal(m[k], c) {
				return fmt.Sprintf("issuer certificate of leaf %d is not stored under %s", i, k)
			}
		}
	}
	return ""
}

// vhWrongTile: an object of that name is not what its coordinates say, for a log of at least the leaves it covers
func vhWrongTile(key string, data []byte, l *vhLog) string {
	if !strings.HasPrefix(key, "tile/") {
		return ""
	}
	p := strings.Split(strings.ReplaceAll(key, "/x", "/"), "/")
	L, W := -1, 256
	if p[1] != "data" {
		L, _ = strconv.Atoi(p[1])
	}
	if strings.HasSuffix(p[len(p)-2], ".p") {
		W, _ = strconv.Atoi(p[len(p)-1])
		p = p[:len(p)-1]
		p[len(p)-1] = strings.TrimSuffix(p[len(p)-1], ".p")
	}
	N, _ := strconv.Atoi(strings.Join(p[2:], ""))
	if W < 1 || W > 256 || vhTilePath(L, int64(N), W) != key {
		return fmt.Sprintf("an object is named %s, which is not a tile name", key)
	}
	if (int64(N)*256+int64(W))<<(8*max(L, 0)) > int64(len(l.E)) {
		return fmt.Sprintf("%s is beyond the tree of %d leaves", key, len(l.E))
	}
	want := []byte(nil)
	if L < 0 {
		want = l.dataTile(int64(N), W)
	} else {
		want = l.hashTile(L, int64(N), W)
	}
	if !bytes.Equal(want, data) {
		return fmt.Sprintf("%s holds %d bytes %x.., not the %d bytes %x.. of its leaves", key, len(data), data[:min(len(data), 40)], len(want), want[:min(len(want), 40)])
	}
	return ""
}

func vhSTHInput(ts uint64, n int, root tlog.Hash) []byte {
	return vhCat([]byte{0, 1}, vhU(8, ts), vhU(8, uint64(n)), root[:])
}

func vhSigOK(k *ecdsa.PublicKey, msg, sig []byte) bool {
	d := sha256.Sum256(msg)
	return len(sig) > 4 && sig[0] == 4 && sig[1] == 3 && int(sig[2])<<8+int(sig[3]) == len(sig)-4 && ecdsa.VerifyASN1(k, d[:], sig[4:])
}

// vhHead: size of a published head and what is wrong with it
func vhHead(key string, data []byte, l *vhLog, k *ecdsa.PrivateKey, origin string) (int, string) {
	if key == "checkpoint" {
		ls := strings.Split(string(data), "\n")
		if len(ls) < 5 {
			return -1, fmt.Sprintf("checkpoint %q", data)
		}
		n, err := strconv.Atoi(ls[1])
		if err != nil || n < 0 {
			return -1, fmt.Sprintf("checkpoint %q", data)
		}
		if n > len(l.E) {
			return n, fmt.Sprintf("checkpoint of size %d, there are only %d leaves", n, len(l.E))
		}
		root := l.root(n)
		if ls[0] != origin || ls[2] != base64.StdEncoding.EncodeToString(root[:]) || ls[3] != "" {
			return n, fmt.Sprintf("checkpoint %q, expected origin %q and root %s", data, origin, base64.StdEncoding.EncodeToString(root[:]))
		}
		f := strings.Fields(ls[4])
		if len(f) != 3 || f[1] != origin {
			return n, fmt.Sprintf("checkpoint signature line %q", ls[4])
		}
		b, _ := base64.StdEncoding.DecodeString(f[2])
		if len(b) < 12 || !vhSigOK(&k.PublicKey, vhSTHInput(binary.BigEndian.Uint64(b[4:]), n, root), b[12:]) {
			return n, fmt.Sprintf("the signature of checkpoint %q does not verify", data)
		}
		return n, ""
	}
	var s struct {
		N   int    `json:"tree_size"`
		TS  uint64 `json:"timestamp"`
		R   []byte `json:"sha256_root_hash"`
		Sig []byte `json:"tree_head_signature"`
	}
	if json.Unmarshal(data, &s) != nil || s.N < 0 {
		return -1, fmt.Sprintf("tree head %q", data)
	}
	if s.N > len(l.E) {
		return s.N, fmt.Sprintf("tree head of size %d, there are only %d leaves", s.N, len(l.E))
	}
	root := l.root(s.N)
	if !bytes.Equal(s.R, root[:]) {
		return s.N, fmt.Sprintf("tree head of size %d with root %x, expected %x", s.N, s.R, root)
	}
	if !vhSigOK(&k.PublicKey, vhSTHInput(s.TS, s.N, root), s.Sig) {
		return s.N, fmt.Sprintf("the signature of tree head %q does not verify", data)
	}
	return s.N, ""
}

// vhTwo is a publishing stage on a log of some size
type vhTwo struct {
	l    *vhLog
	st   *vhStore
	d    *stageTwoData
	rx   chan []LogEntryWithReturnPath
	key  *ecdsa.PrivateKey
	mask int
	iss  [][]byte
}

func vhNewTwo(r *rand.Rand, size, mask int) *vhTwo {
	w := &vhTwo{l: &vhLog{}, st: vhNewStore(), rx: make(chan []LogEntryWithReturnPath, 8), key: vhKeyPair(), mask: mask}
	w.st.nf = r.Intn(4)
	for i := 0; i < 4; i++ {
		b := make([]byte, 20+r.Intn(300))
		r.Read(b)
		w.iss = append(w.iss, b)
	}
	for i := 0; i < size; i++ {
		w.l.add(vhRandEntry(r, i, w.iss[:2]))
	}
	if size > 0 {
		w.st.m = w.l.objects(size)
	}
	edge := map[int]tileWithBytes{-1: {tlog.Tile{H: 8, L: -1, N: 0, W: 0}, nil}}
	if size > 0 {
		N, W := int64(size-1)/256, (size-1)%256+1
		edge[-1] = tileWithBytes{tlog.Tile{H: 8, L: -1, N: N, W: W}, w.l.dataTile(N, W)}
		if W == 256 && r.Intn(2) == 0 {
			edge[-1] = tileWithBytes{tlog.Tile{H: 8, L: -1, N: N + 1, W: 0}, []byte{}}
		}
		for L, cnt := 0, int64(size); cnt > 0; L, cnt = L+1, cnt>>8 {
			N, W := (cnt-1)/256, int(cnt-1)%256+1
			if W < 256 || L == 0 || r.Intn(2) == 0 {
				edge[L] = tileWithBytes{tlog.Tile{H: 8, L: L, N: N, W: W}, w.l.hashTile(L, N, W)}
			}
		}
	}
	w.d = &stageTwoData{stageTwoRx: w.rx, bucket: Bucket{S: w.st}, edgeTiles: edge, maskSize: mask, checkpointOrigin: vhOrigin, treeSize: uint64(size), signingKey: w.key}
	return w
}

type vhBatch struct {
	old   int
	sent  []sunlight.LogEntry
	slots []chan sunlight.LogEntry
	pool  []LogEntryWithReturnPath
}

// batch makes and adds to the expected log the next n entries
func (w *vhTwo) batch(r *rand.Rand, n int) *vhBatch {
	b := &vhBatch{old: len(w.l.E)}
	for i := 0; i < n; i++ {
		e := vhRandEntry(r, len(w.l.E), w.iss)
		w.l.add(e)
		le := sunlight.LogEntry{Certificate: e.Cert, IsPrecert: e.IsPre, IssuerKeyHash: e.IKH, PreCertificate: e.Pre, CertificateFp: vhFp(e), Timestamp: e.TS, LeafIndex: e.Idx}
		for _, c := range e.Chain {
			le.Chain = append(le.Chain, &x509.Certificate{Raw: c})
			le.ChainFp = append(le.ChainFp, sha256.Sum256(c))
		}
		slot := make(chan sunlight.LogEntry, 1)
		b.sent, b.slots = append(b.sent, le), append(b.slots, slot)
		b.pool = append(b.pool, LogEntryWithReturnPath{entry: le, returnPath: slot})
	}
	return b
}

func vhClassOf(key string) string {
	for _, p := range []string{"tile/data", "tile/", "int/hashes/", "int/dedupe/", "issuer/", "ct/v1/get-sth", "checkpoint"} {
		if strings.HasPrefix(key, p) {
			return p
		}
	}
	return "other"
}

func vhSameEntry(a, b *sunlight.LogEntry) bool {
	if len(a.Chain) != len(b.Chain) || len(a.ChainFp) != len(b.ChainFp) {
		return false
	}
	for i := range a.Chain {
		if a.Chain[i] != b.Chain[i] || a.ChainFp[i] != b.ChainFp[i] {
			return false
		}
	}
	return bytes.Equal(a.Certificate, b.Certificate) && bytes.Equal(a.PreCertificate, b.PreCertificate) && a.IsPrecert == b.IsPrecert &&
		a.IssuerKeyHash == b.IssuerKeyHash && a.CertificateFp == b.CertificateFp && a.Timestamp == b.Timestamp && a.LeafIndex == b.LeafIndex
}

// vhPublishRun publishes batches of the given sizes on a log of that size; failAt: class of the storage operation that fails in the last batch
func vhPublishRun(seed int64, size int, sizes []int, failAt string, slow bool) (name string, bad []string) {
	r := rand.New(rand.NewSource(seed))
	mask := []int{0, 1, 2, 3, 4, 6}[r.Intn(6)]
	name = fmt.Sprintf("seed %d: log of %d leaves, mask %d, batches %v, failing %q", seed, size, mask, sizes, failAt)
	fail := func(f string, a ...any) {
		if len(bad) < 6 {
			bad = append(bad, fmt.Sprintf(f, a...))
		}
	}
	w := vhNewTwo(r, size, mask)
	if slow {
		w.st.delay = func(op, key string) time.Duration { return time.Duration(rand.Intn(3)) * time.Millisecond }
	}
	old, failing, heads, failed, stopped := size, false, 0, false, false
	nth, h0all := r.Intn(3), 0
	w.st.fail = func(op, key string) error {
		w.st.mu.Lock()
		defer w.st.mu.Unlock()
		if !failing || failAt == "" || vhClassOf(key) != failAt {
			return nil
		}
		if nth > 0 && !failed && (failAt == "tile/" || failAt == "issuer/") {
			nth--
			return nil
		}
		failed = true
		return vhReadErr(r)
	}
	var failure []string
	w.st.onset = func(key string, data []byte) {
		c := vhClassOf(key)
		if c == "tile/data" || c == "tile/" {
			if p := vhWrongTile(key, data, w.l); p != "" {
				failure = append(failure, "[C04] "+p)
			}
		}
		if c == "ct/v1/get-sth" || c == "checkpoint" {
			heads++
			n, p := vhHead(key, data, w.l, w.key, vhOrigin)
			if p != "" {
				failure = append(failure, "[C04] "+p)
			}
			if n != len(w.l.E) {
				failure = append(failure, fmt.Sprintf("[C04] published size %d, expected %d", n, len(w.l.E)))
			}
			if p := vhMissing(w.st.m, w.l, old, len(w.l.E), mask); p != "" {
				failure = append(failure, fmt.Sprintf("[C01] [C02] [C04] %s written for size %d: %s", key, n, p))
			}
			if failed && failAt != "ct/v1/get-sth" {
				failure = append(failure, fmt.Sprintf("[C01] %s of size %d written although %s could not be stored", key, n, failAt))
			}
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	// the sequencer is told to stop while a batch is being published: what was stored is still answered
	shutdown := failAt == "shutdown"
	if shutdown {
		failAt = ""
		inner := w.st.onset
		w.st.onset = func(key string, data []byte) {
			inner(key, data)
			if failing && heads == h0all+2 && vhClassOf(key) == "int/dedupe/" {
				cancel()
			}
		}
	}
	ret := make(chan error, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				ret <- fmt.Errorf("panic: %v", p)
			}
		}()
		ret <- w.d.stageTwo(ctx)
	}()
	for bi, n := range sizes {
		w.st.mu.Lock()
		old = len(w.l.E)
		h0 := heads
		h0all = heads
		b := w.batch(r, n)
		failing = bi == len(sizes)-1
		w.st.mu.Unlock()
		last := failing && failAt != ""
		w.rx <- b.pool
		if last {
			next := w.batch(r, 0)
			w.rx <- next.pool
			select {
			case err := <-ret:
				stopped = true
				w.st.mu.Lock()
				if !failed {
					// nothing of that class was written (an empty batch has no tiles)
					w.st.mu.Unlock()
					return
				}
				h1 := heads
				w.st.mu.Unlock()
				if err == nil {
					fail("[C01] the sequencer stopped without an error")
				} else if strings.HasPrefix(err.Error(), "panic") {
					fail("[C01] [C04] [C18] the sequencer crashed: %v", err)
				}
				if len(w.rx) == 0 {
					fail("[C01] the sequencer went on to the next batch after %s could not be stored", failAt)
				}
				if c := failAt; (c == "tile/data" || c == "tile/" || c == "int/hashes/" || c == "issuer/") && h1 != h0 {
					fail("[C01] a tree head was written although %s could not be stored", failAt)
				}
			case <-time.After(2 * time.Second):
				w.st.mu.Lock()
				f := failed
				w.st.mu.Unlock()
				if f {
					fail("[C01] [C02] [C08] the sequencer goes on although %s could not be stored", failAt)
				}
			}
			if failed {
				for i, s := range b.slots {
					if len(s) > 0 {
						fail("[C01] [C02] [C08] [C18] entry %d was acknowledged although %s could not be stored", b.old+i, failAt)
						break
					}
				}
			}
		} else {
			for i, s := range b.slots {
				select {
				case e := <-s:
					if !vhSameEntry(&e, &b.sent[i]) {
						fail("[C02] [C18] [C08] entry %d was answered with %+v, sequenced was %+v", b.old+i, e, b.sent[i])
					}
				case err := <-ret:
					stopped = true
					if shutdown && len(s) > 0 {
						ret <- err
						stopped = false
						continue
					}
					if shutdown {
						fail("[C02] [C18] entry %d was published and recorded, and never answered: the sequencer was told to stop meanwhile and ended with %v", b.old+i, err)
						goto done
					}
					fail("[C01] [C04] [C18] the sequencer stopped: %v", err)
					goto done
				case <-time.After(10 * time.Second):
					fail("[C18] entry %d of the batch was never answered", b.old+i)
					goto done
				}
				if i == 0 {
					w.st.mu.Lock()
					if heads != h0+2 {
						fail("[C02] [C18] [C01] entry %d was acknowledged after %d tree heads of its batch were stored", b.old, heads-h0)
					}
					for k := range b.slots {
						fp := b.sent[k].CertificateFp
						o := "int/dedupe/" + vhMaskPath(fp[:], mask)
						if !vhHasRecord(w.st.m[o], 29, vhCat(fp[:16], vhLE(5, b.sent[k].LeafIndex), vhLE(8, uint64(b.sent[k].Timestamp)))) {
							fail("[C02] [C08] entry %d was acknowledged before its deduplication record was stored in %s", b.old+k, o)
							break
						}
					}
					w.st.mu.Unlock()
				}
			}
			if n == 0 {
				for k := 0; k < 2000; k++ {
					w.st.mu.Lock()
					h := heads
					w.st.mu.Unlock()
					if h == h0+2 || len(ret) > 0 {
						break
					}
					time.Sleep(time.Millisecond)
				}
				w.st.mu.Lock()
				if heads != h0+2 {
					fail("[C04] an empty batch published %d tree heads", heads-h0)
				}
				w.st.mu.Unlock()
			}
		}
	}
done:
	cancel()
	wait := 5 * time.Second
	if stopped {
		wait = 0
	}
	select {
	case err := <-ret:
		if err == nil || strings.HasPrefix(err.Error(), "panic") {
			fail("[C01] [C18] the sequencer ended with %v", err)
		}
	case <-time.After(wait):
		if failAt == "" && !stopped {
			fail("[C18] the sequencer does not stop")
		}
	}
	w.st.mu.Lock()
	defer w.st.mu.Unlock()
	for _, f := range failure {
		fail("%s", f)
	}
	return
}
