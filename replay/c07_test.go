package PKG

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"
	"time"
)

// an independent model of the index objects: what a lookup must answer
type vhRec struct {
	h  [16]byte
	ix uint64
	ts int64
}

// vhKey is the name of the object of that hash: its first mask hex digits, in segments of two
func vhKey(prefix string, h []byte, mask int) string {
	x := fmt.Sprintf("%x", h)[:mask]
	for len(x) > 2 {
		prefix, x = prefix+x[:2]+"/", x[2:]
	}
	return prefix + x
}

func vhEnc(size int, e vhRec) []byte {
	b := append([]byte{}, e.h[:]...)
	var l [8]byte
	binary.LittleEndian.PutUint64(l[:], e.ix)
	b = append(b, l[:5]...)
	if size == 29 {
		binary.LittleEndian.PutUint64(l[:], uint64(e.ts))
		b = append(b, l[:]...)
	}
	return b
}

type vhKindT struct {
	name, prefix string
	size         int
	put          func(b *Bucket, es []vhRec, mask int) error
	get          func(b *Bucket, h [16]byte, mask int) (vhRec, error)
}

var vhKinds = map[string]vhKindT{
	"hashes": {"PutRecordHashes", "int/hashes/", 21,
		func(b *Bucket, es []vhRec, mask int) error {
			var u []RecordHashUpload
			for _, e := range es {
				u = append(u, RecordHashUpload{hash: e.h, leafIndex: e.ix})
			}
			return b.PutRecordHashes(context.Background(), u, mask)
		},
		func(b *Bucket, h [16]byte, mask int) (vhRec, error) {
			r, err := b.GetRecordHash(context.Background(), h, mask)
			return vhRec{h: r.hash, ix: r.leafIndex}, err
		}},
	"dedupe": {"PutDedupeEntries", "int/dedupe/", 29,
		func(b *Bucket, es []vhRec, mask int) error {
			var u []DedupeUpload
			for _, e := range es {
				u = append(u, DedupeUpload{hash: e.h, leafIndex: e.ix, timestamp: e.ts})
			}
			return b.PutDedupeEntries(context.Background(), u, mask)
		},
		func(b *Bucket, h [16]byte, mask int) (vhRec, error) {
			r, err := b.GetDedupeEntry(context.Background(), h, mask)
			return vhRec{r.hash, r.leafIndex, r.timestamp}, err
		}},
}

func vhRandHash(r *rand.Rand, style int, seen []vhRec) (h [16]byte) {
	r.Read(h[:])
	switch style {
	case 1: // share the object
		copy(h[:], []byte{0xab, 0xcd, 0xef, 0x01})
	case 2: // differ late or in one bit
		h = [16]byte{0x80}
		h[r.Intn(16)] ^= 1 << r.Intn(8)
	case 3: // extreme bytes
		for i := range h {
			h[i] = []byte{0, 0xff, 0x7f, 0x80}[r.Intn(4)]
		}
	}
	if len(seen) > 0 && r.Intn(6) == 0 {
		h = seen[r.Intn(len(seen))].h
		if r.Intn(2) == 0 {
			h[15] ^= byte(1 + r.Intn(3))
		}
	}
	return
}

func vhIndexTest(t *testing.T, K vhKindT) {
	r := vhRand()
	rounds := 150
	if vhThorough() {
		rounds = 2500
	}
	for i := 0; i < rounds; i++ {
		mask := i % 33
		if r.Intn(3) == 0 {
			mask = r.Intn(6)
		}
		style := r.Intn(4)
		s := vhNewStore()
		b := &Bucket{S: s}
		first := map[[16]byte]vhRec{}
		var all []vhRec
		unknown := map[[16]byte]bool{} // recorded by an update that failed part way
		for step := 0; step < 1+r.Intn(5); step++ {
			s.nf = r.Intn(4)
			n := []int{0, 1, 2, 3, 5, 17, 60}[r.Intn(7)]
			var batch []vhRec
			for k := 0; k < n; k++ {
				ix := uint64(r.Int63n(1 << 40))
				if r.Intn(3) == 0 {
					ix = uint64(len(all) + k)
				}
				batch = append(batch, vhRec{vhRandHash(r, style, append(all, batch...)), ix, r.Int63()})
			}
			mode := r.Intn(6) // 0: a read fails, 1: a write fails, 2: slow writes
			var readFailed, writeFailed bool
			left := r.Intn(4)
			rerr := vhReadErr(r)
			s.fail, s.delay = nil, nil
			switch mode {
			case 0:
				s.fail = func(op, key string) error {
					if op == "get" {
						if left--; left < 0 {
							readFailed = true
							return rerr
						}
					}
					return nil
				}
			case 1:
				s.fail = func(op, key string) error {
					s.mu.Lock()
					defer s.mu.Unlock()
					if op == "set" {
						if left--; left < 0 {
							writeFailed = true
							return errors.New("write failed")
						}
					}
					return nil
				}
			case 2:
				s.delay = func(op, key string) time.Duration {
					if op == "set" {
						return time.Millisecond
					}
					return 0
				}
			}
			before := s.snap()
			vhCase("%s mask=%d style=%d step=%d batch=%d mode=%d stored=%d", K.name, mask, style, step, n, mode, len(all))
			s.log = nil
			err := K.put(b, batch, mask)
			s.fail, s.delay = nil, nil
			after := s.snap()
			if readFailed {
				if err == nil {
					vhFail(t, "%s: a read failed (%v) but the update reports success", K.name, rerr)
				}
				for _, l := range s.log {
					if strings.HasPrefix(l, "set ") {
						vhFail(t, "%s: a read failed (%v) and the update still wrote: %v", K.name, rerr, s.log)
						break
					}
				}
				continue
			}
			if writeFailed {
				if err == nil {
					vhFail(t, "%s: a write failed but the update reports success", K.name)
				}
				for _, e := range batch {
					unknown[e.h] = true
				}
				break
			}
			if err != nil {
				vhFail(t, "%s mask=%d: update failed without a storage failure: %v", K.name, mask, err)
				return
			}
			want := map[string]int{}
			for _, e := range batch {
				all = append(all, e)
				if _, ok := first[e.h]; !ok {
					first[e.h] = e
				}
				want[vhKey(K.prefix, e.h[:], mask)] += K.size
			}
			for k, v := range after {
				if !strings.HasPrefix(k, K.prefix) {
					vhFail(t, "%s wrote %q", K.name, k)
				}
				if len(v) != len(before[k])+want[k] {
					vhFail(t, "%s mask=%d: object %q has %d bytes, expected %d", K.name, mask, k, len(v), len(before[k])+want[k])
				}
				if !sort.SliceIsSorted(make([]int, len(v)/K.size), func(i, j int) bool {
					return bytes.Compare(v[i*K.size:i*K.size+16], v[j*K.size:j*K.size+16]) < 0
				}) {
					vhFail(t, "%s mask=%d: object %q is not sorted by hash: %x", K.name, mask, k, v)
				}
				var got, exp []string
				for i := 0; i+K.size <= len(v); i += K.size {
					got = append(got, string(v[i:i+K.size]))
				}
				for i := 0; i+K.size <= len(before[k]); i += K.size {
					exp = append(exp, string(before[k][i:i+K.size]))
				}
				for _, e := range batch {
					if vhKey(K.prefix, e.h[:], mask) == k {
						exp = append(exp, string(vhEnc(K.size, e)))
					}
				}
				sort.Strings(got)
				sort.Strings(exp)
				if strings.Join(got, "") != strings.Join(exp, "") {
					vhFail(t, "%s mask=%d: object %q holds other records than the old ones and the new ones", K.name, mask, k)
				}
			}
			for k, w := range want {
				if len(after[k]) != len(before[k])+w {
					vhFail(t, "%s mask=%d: object %q of the batch has %d bytes, expected %d", K.name, mask, k, len(after[k]), len(before[k])+w)
				}
			}
			for h, e := range first {
				g, err := K.get(b, h, mask)
				if err != nil {
					vhFail(t, "%s mask=%d: recorded hash %x is not found: %v", K.name, mask, h, err)
				} else if g.h != e.h || g.ix != e.ix || (K.size == 29 && g.ts != e.ts) {
					vhFail(t, "%s mask=%d: lookup of %x answers index %d time %d, first recorded index %d time %d", K.name, mask, h, g.ix, g.ts, e.ix, e.ts)
				}
			}
			for k := 0; k < 10; k++ {
				h := vhRandHash(r, style, all)
				_, rec := first[h]
				if g, err := K.get(b, h, mask); err == nil && !rec {
					vhFail(t, "%s mask=%d: lookup of the unrecorded %x answers index %d (record of %x)", K.name, mask, h, g.ix, g.h)
				}
			}
		}
		if len(unknown) > 0 {
			for h, e := range first {
				if g, err := K.get(b, h, mask); err != nil || g.ix != e.ix || (K.size == 29 && g.ts != e.ts) {
					vhFail(t, "%s mask=%d: after a failed write the recorded %x is answered with %v %v", K.name, mask, h, g, err)
				}
			}
		}
	}
}

func TestVerifIndex(t *testing.T) {
	defer vhDone()
	vhIndexTest(t, vhKinds["hashes"])
}
