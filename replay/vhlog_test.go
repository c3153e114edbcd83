package PKG

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"

	"golang.org/x/mod/sumdb/tlog"
)

// an independent builder of published logs (RFC 6962 leaves, tiles of height 8)

type vhEntry struct {
	Cert, Pre []byte
	IsPre     bool
	IKH       [32]byte
	Chain     [][]byte // issuer certificates (DER or any bytes)
	TS        int64
	Idx       uint64
}

func vhU(n int, v uint64) []byte {
	b := binary.BigEndian.AppendUint64(nil, v)
	return b[8-n:]
}

func vhCat(bs ...[]byte) []byte {
	r := []byte{}
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func (e *vhEntry) timestamped() []byte {
	r := vhU(8, uint64(e.TS))
	if e.IsPre {
		r = vhCat(r, vhU(2, 1), e.IKH[:])
	} else {
		r = vhCat(r, vhU(2, 0))
	}
	return vhCat(r, vhU(3, uint64(len(e.Cert))), e.Cert, vhU(2, 8), []byte{0, 0, 5}, vhU(5, e.Idx))
}

// leaf is the RFC 6962 MerkleTreeLeaf
func (e *vhEntry) leaf() []byte { return vhCat([]byte{0, 0}, e.timestamped()) }

func (e *vhEntry) tileLeaf() []byte {
	r := e.timestamped()
	if e.IsPre {
		r = vhCat(r, vhU(3, uint64(len(e.Pre))), e.Pre)
	}
	r = vhCat(r, vhU(2, uint64(32*len(e.Chain))))
	for _, c := range e.Chain {
		f := sha256.Sum256(c)
		r = append(r, f[:]...)
	}
	return r
}

// extraData is the RFC 6962 extra_data of get-entries
func (e *vhEntry) extraData() []byte {
	var ch []byte
	for _, c := range e.Chain {
		ch = vhCat(ch, vhU(3, uint64(len(c))), c)
	}
	ch = vhCat(vhU(3, uint64(len(ch))), ch)
	if e.IsPre {
		return vhCat(vhU(3, uint64(len(e.Pre))), e.Pre, ch)
	}
	return ch
}

func vhTilePath(L int, N int64, W int) string {
	l := "data"
	if L >= 0 {
		l = strconv.Itoa(L)
	}
	s := fmt.Sprintf("%03d", N%1000)
	for N >= 1000 {
		N /= 1000
		s = fmt.Sprintf("x%03d/%s", N%1000, s)
	}
	s = "tile/" + l + "/" + s
	if W != 256 {
		s += ".p/" + strconv.Itoa(W)
	}
	return s
}

type vhLog struct {
	E      []*vhEntry
	hashes []tlog.Hash
}

func vhRandEntry(r *rand.Rand, idx int, issuers [][]byte) *vhEntry {
	e := &vhEntry{TS: 1700000000000 + r.Int63n(1<<40), Idx: uint64(idx), IsPre: r.Intn(2) == 0}
	e.Cert = make([]byte, 1+r.Intn(40))
	r.Read(e.Cert)
	if e.IsPre {
		e.Pre = make([]byte, 1+r.Intn(40))
		r.Read(e.Pre)
		r.Read(e.IKH[:])
	}
	for n := r.Intn(4); n > 0 && len(issuers) > 0; n-- {
		e.Chain = append(e.Chain, issuers[r.Intn(len(issuers))])
	}
	return e
}

func (l *vhLog) ReadHashes(ix []int64) ([]tlog.Hash, error) {
	var r []tlog.Hash
	for _, i := range ix {
		if i < 0 || i >= int64(len(l.hashes)) {
			return nil, fmt.Errorf("no hash %d", i)
		}
		r = append(r, l.hashes[i])
	}
	return r, nil
}

func (l *vhLog) add(e *vhEntry) {
	h, err := tlog.StoredHashesForRecordHash(int64(len(l.E)), tlog.RecordHash(e.leaf()), l)
	if err != nil {
		panic(err)
	}
	l.hashes = append(l.hashes, h...)
	l.E = append(l.E, e)
}

func (l *vhLog) root(n int) tlog.Hash {
	if n == 0 {
		return sha256.Sum256(nil)
	}
	h, err := tlog.TreeHash(int64(n), l)
	if err != nil {
		panic(err)
	}
	return h
}

func (l *vhLog) hashTile(L int, N int64, W int) []byte {
	var b []byte
	for i := int64(0); i < int64(W); i++ {
		h := l.hashes[tlog.StoredHashIndex(8*L, N*256+i)]
		b = append(b, h[:]...)
	}
	return b
}

func (l *vhLog) dataTile(N int64, W int) []byte {
	var b []byte
	for i := int64(0); i < int64(W); i++ {
		b = append(b, l.E[N*256+i].tileLeaf()...)
	}
	return b
}

// objects is what the published log of size n consists of: every full tile and the partial tiles of size n
func (l *vhLog) objects(n int) map[string][]byte {
	m := map[string][]byte{}
	for L, cnt := 0, int64(n); cnt > 0; L, cnt = L+1, cnt>>8 {
		for N := int64(0); N*256 < cnt; N++ {
			W := int(min(256, cnt-N*256))
			m[vhTilePath(L, N, W)] = l.hashTile(L, N, W)
			if L == 0 {
				m[vhTilePath(-1, N, W)] = l.dataTile(N, W)
			}
		}
	}
	for _, e := range l.E[:n] {
		for _, c := range e.Chain {
			m[fmt.Sprintf("issuer/%x", sha256.Sum256(c))] = c
		}
	}
	m["ct/v1/get-sth"] = l.sth(n)
	return m
}

func (l *vhLog) sth(n int) []byte {
	h := l.root(n)
	b, _ := json.Marshal(map[string]any{"tree_size": n, "timestamp": 1700000000123, "sha256_root_hash": base64.StdEncoding.EncodeToString(h[:]),
		"tree_head_signature": base64.StdEncoding.EncodeToString([]byte{4, 3, 0, 2, 48, 0})})
	return b
}
