package PKG

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"math/rand"
	"testing"
)

func c05Bytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func c05Entry(r *rand.Rand, isp bool, nc, np, fps int, ts int64, idx uint64) *LogEntry {
	e := &LogEntry{Certificate: c05Bytes(r, nc), IsPrecert: isp, Timestamp: ts, LeafIndex: idx}
	if isp {
		e.PreCertificate = c05Bytes(r, np)
		r.Read(e.IssuerKeyHash[:])
	}
	// fields that the format ignores are set too, and fields that may be zero are zero at times
	if !isp && r.Intn(2) == 0 {
		e.PreCertificate = c05Bytes(r, 5)
		r.Read(e.IssuerKeyHash[:])
		r.Read(e.CertificateFp[:])
	}
	if isp && r.Intn(4) == 0 {
		e.IssuerKeyHash = [32]byte{}
	}
	for i := 0; i < fps; i++ {
		var f [32]byte
		r.Read(f[:])
		e.ChainFp = append(e.ChainFp, f)
	}
	return e
}

func c05u24(n int) []byte { return []byte{byte(n >> 16), byte(n >> 8), byte(n)} }

// c05Timestamped is the specification of the TimestampedEntry bytes
func c05Timestamped(e *LogEntry) []byte {
	var o []byte
	o = binary.BigEndian.AppendUint64(o, uint64(e.Timestamp))
	if e.IsPrecert {
		o = append(o, 0, 1)
		o = append(o, e.IssuerKeyHash[:]...)
	} else {
		o = append(o, 0, 0)
	}
	o = append(o, c05u24(len(e.Certificate))...)
	o = append(o, e.Certificate...)
	i := e.LeafIndex
	return append(o, 0, 8, 0, 0, 5, byte(i>>32), byte(i>>24), byte(i>>16), byte(i>>8), byte(i))
}

func c05Leaf(e *LogEntry) []byte {
	o := c05Timestamped(e)
	if e.IsPrecert {
		o = append(o, c05u24(len(e.PreCertificate))...)
		o = append(o, e.PreCertificate...)
	}
	o = binary.BigEndian.AppendUint16(o, uint16(32*len(e.ChainFp)))
	for _, f := range e.ChainFp {
		o = append(o, f[:]...)
	}
	return o
}

func c05Same(t *testing.T, d string, e, g *LogEntry) {
	fp := sha256.Sum256(e.Certificate)
	if e.IsPrecert {
		fp = sha256.Sum256(e.PreCertificate)
	}
	ok := g.Timestamp == e.Timestamp && g.IsPrecert == e.IsPrecert && bytes.Equal(g.Certificate, e.Certificate) &&
		g.LeafIndex == e.LeafIndex && g.CertificateFp == fp && len(g.ChainFp) == len(e.ChainFp)
	if ok && e.IsPrecert {
		ok = g.IssuerKeyHash == e.IssuerKeyHash && bytes.Equal(g.PreCertificate, e.PreCertificate)
	}
	for i := range e.ChainFp {
		ok = ok && g.ChainFp[i] == e.ChainFp[i]
	}
	if !ok {
		vhFail(t, "%s: decoded entry differs: ts=%d isp=%v cert=%dB ikh=%x pre=%dB fps=%d idx=%d", d, g.Timestamp, g.IsPrecert,
			len(g.Certificate), g.IssuerKeyHash, len(g.PreCertificate), len(g.ChainFp), g.LeafIndex)
	}
}

func c05Each(f func(d string, e *LogEntry, r *rand.Rand)) {
	r := vhRand()
	lens := []int{0, 1, 2, 31, 32, 33, 127, 128, 255, 256, 257, 65535, 65536, 65537, 1 << 20}
	fps := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256, 257, 1023, 1024, 2046, 2047}
	tss := []int64{0, 1, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<40 - 1, 1 << 40, 1700000000000, 1<<48 + 5, 1<<56 + 7, 1<<62 + 3, 1<<63 - 1}
	idx := []uint64{0, 1, 127, 128, 255, 256, 257, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<39 - 1, 1 << 39, 1<<40 - 1}
	run := func(isp bool, nc, np, k int, ts int64, ix uint64) {
		e := c05Entry(r, isp, nc, np, k, ts, ix)
		d := "LogEntry{precert=" + map[bool]string{true: "true", false: "false"}[isp] + "}"
		vhCase("%s cert=%d bytes pre=%d bytes fingerprints=%d ts=%d leafindex=%d", d, nc, np, k, ts, ix)
		f("", e, r)
	}
	for _, isp := range []bool{false, true} {
		for _, n := range lens {
			run(isp, n, 300, 2, 1700000000000, 77)
			run(isp, 300, n, 1, 1700000000001, 78)
		}
		for _, k := range fps {
			run(isp, 40, 50, k, 5, 6)
		}
		for _, ts := range tss {
			run(isp, 10, 11, 1, ts, 99)
		}
		for _, ix := range idx {
			run(isp, 10, 11, 1, 100, ix)
		}
		run(isp, 1<<24-1, 10, 0, 9, 9)
		run(isp, 10, 1<<24-1, 1, 9, 9)
		n := 400
		if vhThorough() {
			n = 6000
		}
		for i := 0; i < n; i++ {
			run(isp, r.Intn(1<<uint(r.Intn(14))), r.Intn(1<<uint(r.Intn(14))), r.Intn(1<<uint(r.Intn(6))), int64(r.Uint64()>>uint(1+r.Intn(60))), r.Uint64()>>uint(24+r.Intn(40)))
		}
	}
}

func TestVerifC05(t *testing.T) {
	c05Each(func(d string, e *LogEntry, r *rand.Rand) {
		desc := func() string {
			return "AppendTileLeaf/ReadTileLeaf"
		}
		info := func(what string) {
			vhFail(t, "%s: %s (precert=%v cert=%d bytes pre=%d bytes fingerprints=%d ts=%d leafindex=%d)", desc(), what, e.IsPrecert,
				len(e.Certificate), len(e.PreCertificate), len(e.ChainFp), e.Timestamp, e.LeafIndex)
		}
		pre := c05Bytes(r, r.Intn(40))
		// spare capacity behind the tile must not be a way to change it
		buf := append(append([]byte{}, pre...), make([]byte, 64)...)
		orig := append([]byte{}, pre...)
		var out []byte
		if p := vhPanics(func() { out = AppendTileLeaf(buf[:len(pre)], e) }); p != nil {
			info("panic in AppendTileLeaf")
			return
		}
		if !bytes.Equal(buf[:len(pre)], orig) {
			info("appending changed the bytes already in the tile")
		}
		want := append(append([]byte{}, pre...), c05Leaf(e)...)
		if !bytes.Equal(out, want) {
			info("encoding differs from the static-ct tile leaf format")
			return
		}
		rest := c05Bytes(r, r.Intn(50))
		in := append(append([]byte{}, out[len(pre):]...), rest...)
		var g *LogEntry
		var rem []byte
		var err error
		if p := vhPanics(func() { g, rem, err = ReadTileLeaf(in) }); p != nil {
			info("panic in ReadTileLeaf")
			return
		}
		if err != nil || g == nil {
			info("ReadTileLeaf rejects the encoding: " + err.Error())
			return
		}
		if !bytes.Equal(rem, rest) {
			info("ReadTileLeaf does not leave exactly the following bytes")
		}
		c05Same(t, "roundtrip", e, g)
		// truncations: an error, never a panic, never an entry
		full := out[len(pre):]
		for i := 0; i < len(full) && i < 400; i++ {
			if p := vhPanics(func() { g, _, err = ReadTileLeaf(full[:i:i]) }); p != nil {
				info("panic on a truncated leaf")
			}
			if err == nil && len(e.ChainFp) > 0 {
				info("truncated leaf accepted")
			}
			if err == nil && g == nil {
				info("nil entry without error")
			}
		}
	})
	// arbitrary bytes never panic
	r := vhRand()
	for i := 0; i < 20000; i++ {
		b := c05Bytes(r, r.Intn(120))
		if r.Intn(2) == 0 && len(b) > 10 {
			b[8] = 0
			b[9] = byte(r.Intn(3))
			for j := 10; j < len(b) && r.Intn(4) > 0; j++ {
				b[j] = byte(r.Intn(3))
			}
		}
		vhCase("ReadTileLeaf(%x)", b)
		var e *LogEntry
		var err error
		if p := vhPanics(func() { e, _, err = ReadTileLeaf(b) }); p != nil {
			vhFail(t, "ReadTileLeaf(%x) panics: %v", b, p)
		} else if (e == nil) != (err != nil) {
			vhFail(t, "ReadTileLeaf(%x): entry nil=%v, error %v", b, e == nil, err)
		}
	}
	vhDone()
}

func TestVerifC06(t *testing.T) {
	c05Each(func(d string, e *LogEntry, r *rand.Rand) {
		var m []byte
		p := vhPanics(func() { m = e.MerkleTreeLeaf() })
		want := append([]byte{0, 0}, c05Timestamped(e)...)
		if p != nil || !bytes.Equal(m, want) {
			n := len(m)
			if n > 200 {
				n = 200
			}
			vhFail(t, "MerkleTreeLeaf differs from the RFC 6962 layout for precert=%v cert=%d bytes ts=%d leafindex=%d (panic %v), got %x...", e.IsPrecert, len(e.Certificate), e.Timestamp, e.LeafIndex, p, m[:n])
		}
		m2 := e.MerkleTreeLeaf()
		if p == nil && !bytes.Equal(m, m2) {
			vhFail(t, "MerkleTreeLeaf is not deterministic")
		}
	})
	vhDone()
}
