package PKG

import (
	"bytes"
	"context"
	"sort"
	"testing"
)

// the monitoring side finds every record of the objects the submission side writes (format of vhIndexObjects)
func TestVerifMonitorLookup(t *testing.T) {
	defer vhDone()
	r := vhRand()
	rounds := 120
	if vhThorough() {
		rounds = 2000
	}
	for i := 0; i < rounds; i++ {
		mask := i % 33
		objs := map[string][]byte{}
		first := map[[16]byte]uint64{}
		type rec struct {
			h  [16]byte
			ix uint64
		}
		var recs []rec
		for k := 0; k < []int{0, 1, 2, 40}[r.Intn(4)]; k++ {
			var x rec
			r.Read(x.h[:])
			if r.Intn(2) == 0 {
				x.h = [16]byte{0xab, 0xcd}
				x.h[r.Intn(16)] ^= 1 << r.Intn(8)
			}
			x.ix = uint64(r.Int63n(1 << 40))
			recs = append(recs, x)
		}
		sort.SliceStable(recs, func(i, j int) bool { return bytes.Compare(recs[i].h[:], recs[j].h[:]) < 0 })
		for _, x := range recs {
			if _, ok := first[x.h]; !ok {
				first[x.h] = x.ix
			}
			k := vhIndexKey(x.h[:], mask)
			var l []byte
			for n := 0; n < 5; n++ {
				l = append(l, byte(x.ix>>(8*n)))
			}
			objs[k] = append(append(objs[k], x.h[:]...), l...)
		}
		m := &vhMem{m: objs, budget: -1}
		f := newFetch(m, mask, 1000)
		vhCase("getIndexForHash mask=%d records=%d objects=%d", mask, len(recs), len(objs))
		for h, ix := range first {
			g, err := f.getIndexForHash(context.Background(), h[:])
			if err != nil {
				vhFail(t, "mask=%d: recorded hash %x is not found: %v", mask, h, err)
			} else if g != int64(ix) {
				vhFail(t, "mask=%d: lookup of %x answers %d, recorded %d", mask, h, g, ix)
			}
			h[15] ^= 0x10
			if _, ok := first[h]; !ok {
				if g, err := f.getIndexForHash(context.Background(), h[:]); err == nil {
					vhFail(t, "mask=%d: lookup of the unrecorded %x answers %d", mask, h, g)
				}
			}
		}
	}
}
