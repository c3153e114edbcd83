package PKG

import (
	"bytes"
	"testing"
)

// c19Parse is the specification of ParseExtensions
func c19Parse(b []byte) (uint64, bool) {
	for len(b) > 0 {
		if len(b) < 3 {
			return 0, false
		}
		ty, n := b[0], int(b[1])<<8|int(b[2])
		if len(b) < 3+n {
			return 0, false
		}
		d := b[3 : 3+n]
		b = b[3+n:]
		if ty == 0 {
			if n != 5 {
				return 0, false
			}
			return uint64(d[0])<<32 | uint64(d[1])<<24 | uint64(d[2])<<16 | uint64(d[3])<<8 | uint64(d[4]), true
		}
	}
	return 0, false
}

func TestVerifC19(t *testing.T) {
	r := vhRand()
	idx := []uint64{0, 1, 2, 127, 128, 255, 256, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<39 - 1, 1 << 39, 1<<40 - 1, 1 << 40, 1<<40 + 1, 1<<40 + 255, 1 << 41, 1 << 48, 1 << 56, 1 << 63, 1<<64 - 1}
	for i := 0; i < 40; i++ {
		idx = append(idx, 1<<uint(i), 1<<uint(i)-1, 1<<uint(i)+1)
	}
	for i := 0; i < 5000; i++ {
		idx = append(idx, r.Uint64()>>uint(r.Intn(64)))
	}
	for _, i := range idx {
		vhCase("MarshalExtensions(LeafIndex=%d)", i)
		var b []byte
		var err error
		if p := vhPanics(func() { b, err = MarshalExtensions(Extensions{LeafIndex: i}) }); p != nil {
			vhFail(t, "MarshalExtensions(%d) panics: %v", i, p)
			continue
		}
		if i >= 1<<40 {
			if err == nil {
				vhFail(t, "MarshalExtensions(%d) accepts an index of 2^40 or more: %x", i, b)
			}
			for _, pre := range []bool{false, true} {
				e := &LogEntry{Certificate: []byte{1}, PreCertificate: []byte{2}, IsPrecert: pre, LeafIndex: i}
				if p := vhPanics(func() { b = e.MerkleTreeLeaf() }); p == nil {
					vhFail(t, "MerkleTreeLeaf of an entry with index %d (2^40 or more) returns %x", i, b)
				}
				if p := vhPanics(func() { b = AppendTileLeaf(nil, e) }); p == nil {
					vhFail(t, "AppendTileLeaf of an entry with index %d (2^40 or more) returns %x", i, b)
				}
			}
			continue
		}
		want := []byte{0, 0, 5, byte(i >> 32), byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)}
		if err != nil || !bytes.Equal(b, want) {
			vhFail(t, "MarshalExtensions(%d) = %x, %v; want %x", i, b, err, want)
			continue
		}
		// after unknown extensions
		var pre []byte
		for k := r.Intn(4); k > 0; k-- {
			n := r.Intn(300)
			pre = append(pre, byte(1+r.Intn(255)), byte(n>>8), byte(n))
			d := make([]byte, n)
			r.Read(d)
			pre = append(pre, d...)
		}
		in := append(pre, want...)
		c19Check(t, in)
	}
	for i := 0; i < 60000; i++ {
		b := make([]byte, r.Intn(30))
		for j := range b {
			if r.Intn(3) > 0 {
				b[j] = byte(r.Intn(7))
			} else {
				b[j] = byte(r.Intn(256))
			}
		}
		c19Check(t, b)
	}
	for n := 0; n < 12; n++ {
		b := append([]byte{0, 0, byte(n)}, make([]byte, n)...)
		c19Check(t, b)
		c19Check(t, append(b, 0))
		for k := 0; k <= len(b); k++ {
			c19Check(t, b[:k:k])
		}
	}
	vhDone()
}

func c19Check(t *testing.T, b []byte) {
	vhCase("ParseExtensions(%x)", b)
	want, ok := c19Parse(b)
	var e Extensions
	var err error
	if p := vhPanics(func() { e, err = ParseExtensions(b) }); p != nil {
		vhFail(t, "ParseExtensions(%x) panics: %v", b, p)
		return
	}
	if ok != (err == nil) || (ok && e.LeafIndex != want) {
		vhFail(t, "ParseExtensions(%x) = %d, %v; want %d, accepted=%v", b, e.LeafIndex, err, want, ok)
	}
}
