package PKG

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"strconv"
	"strings"
	"testing"

	"golang.org/x/mod/sumdb/note"
	"golang.org/x/mod/sumdb/tlog"
)

// c10Parse is the specification of ParseCheckpoint
func c10Parse(s string) (origin string, n int64, h []byte, ext string, ok bool) {
	if len(s) > 1e6 {
		return
	}
	var l [3]string
	for i := range l {
		j := strings.IndexByte(s, '\n')
		if j < 0 {
			return
		}
		l[i], s = s[:j], s[j+1:]
	}
	n, err := strconv.ParseInt(l[1], 10, 64)
	if err != nil || n < 0 || fmt.Sprint(n) != l[1] {
		return
	}
	h, err = base64.StdEncoding.Strict().DecodeString(l[2])
	if err != nil || len(h) != 32 || strings.ContainsAny(l[2], "\r\n") {
		return
	}
	ext = s
	for s != "" {
		j := strings.IndexByte(s, '\n')
		if j < 1 {
			return
		}
		s = s[j+1:]
	}
	return l[0], n, h, ext, true
}

func c10Sth(ts uint64, size uint64, root []byte) []byte {
	b := binary.BigEndian.AppendUint64([]byte{0, 1}, ts)
	b = binary.BigEndian.AppendUint64(b, size)
	return append(b, root...)
}

func c10Sig(ts uint64, ha, sa byte, sig []byte) []byte {
	b := binary.BigEndian.AppendUint64(nil, ts)
	b = append(b, ha, sa, byte(len(sig)>>8), byte(len(sig)))
	return append(b, sig...)
}

func c10KeyHash(name string, pub crypto.PublicKey) uint32 {
	p, err := x509.MarshalPKIXPublicKey(pub)
	if err != nil {
		panic(err)
	}
	id := sha256.Sum256(p)
	s := sha256.Sum256(append([]byte(name+"\n\x05"), id[:]...))
	return binary.BigEndian.Uint32(s[:4])
}

func TestVerifC10(t *testing.T) {
	r := vhRand()
	try := func(text string) {
		vhCase("ParseCheckpoint(%q)", text)
		o, n, h, e, ok := c10Parse(text)
		var c Checkpoint
		var err error
		if p := vhPanics(func() { c, err = ParseCheckpoint(text) }); p != nil {
			vhFail(t, "ParseCheckpoint(%q) panics: %v", text, p)
			return
		}
		if ok != (err == nil) {
			vhFail(t, "ParseCheckpoint(%q): error %v, canonical checkpoint: %v", text, err, ok)
			return
		}
		if ok && (c.Origin != o || c.N != n || !bytes.Equal(c.Hash[:], h) || c.Extension != e) {
			vhFail(t, "ParseCheckpoint(%q) = %+v", text, c)
		}
		if ok && FormatCheckpoint(c) != text {
			vhFail(t, "ParseCheckpoint accepts %q, whose canonical form is %q", text, FormatCheckpoint(c))
		}
	}
	var hashes []tlog.Hash
	for i := 0; i < 6; i++ {
		var h tlog.Hash
		r.Read(h[:])
		switch i {
		case 0:
			h = tlog.Hash{}
		case 1:
			for j := range h {
				h[j] = 0xff
			}
		case 2:
			for j := range h {
				h[j] = 0xfb
			}
		}
		hashes = append(hashes, h)
	}
	exts := []string{"", "a\n", "a\nb\n", "1\n2\n3\n", " \n", "x: y\nlonger extension line\n", strings.Repeat("e\n", 50), "\r\n"}
	origins := []string{"example.com/log", "", "a", "log with space", "öö", strings.Repeat("o", 3000)}
	sizes := []int64{0, 1, 9, 10, 255, 256, 65536, 1<<31 - 1, 1 << 31, 1<<32 + 7, 1<<53 + 1, 1<<62 + 12345, 1<<63 - 1}
	for _, o := range origins {
		for i, n := range sizes {
			for j, e := range exts {
				c := Checkpoint{o, tlog.Tree{N: n, Hash: hashes[(i+j)%len(hashes)]}, e}
				want := o + "\n" + strconv.FormatInt(n, 10) + "\n" + base64.StdEncoding.EncodeToString(c.Hash[:]) + "\n" + e
				vhCase("FormatCheckpoint(%+v)", c)
				if got := FormatCheckpoint(c); got != want {
					vhFail(t, "FormatCheckpoint(%+v) = %q, want %q", c, got, want)
				}
				got, err := ParseCheckpoint(want)
				if err != nil || got != c {
					vhFail(t, "ParseCheckpoint(FormatCheckpoint(%+v)) = %+v, %v", c, got, err)
				}
			}
		}
	}
	// texts near canonical ones
	h := hashes[3]
	hb := base64.StdEncoding.EncodeToString(h[:])
	base := "o/x\n123\n" + hb + "\n"
	for _, s := range []string{"", "\n", "\n\n", "\n\n\n", "a\n1\n", "a\n1\n" + hb, base, base + "e", base + "e\n", base + "\n", base + "e\n\n", base + "\ne\n", base + "e\nf",
		"o\n0\n" + hb + "\n", "o\n00\n" + hb + "\n", "o\n-0\n" + hb + "\n", "o\n-1\n" + hb + "\n", "o\n+1\n" + hb + "\n", "o\n01\n" + hb + "\n", "o\n\n" + hb + "\n",
		"o\n 1\n" + hb + "\n", "o\n1 \n" + hb + "\n", "o\n1_0\n" + hb + "\n", "o\n0x1\n" + hb + "\n", "o\n9223372036854775807\n" + hb + "\n", "o\n9223372036854775808\n" + hb + "\n",
		"o\n1\n\n", "o\n1\n" + hb[:len(hb)-1] + "\n", "o\n1\n" + hb + "=\n", "o\n1\n" + base64.RawStdEncoding.EncodeToString(h[:]) + "\n", "o\n1\n" + hb + "\r\n", "o\n1\r\n" + hb + "\n",
		"o\n1\n" + base64.StdEncoding.EncodeToString(h[:31]) + "\n", "o\n1\n" + base64.StdEncoding.EncodeToString(append(h[:], 0)) + "\n", "o\n1\n" + base64.StdEncoding.EncodeToString(nil) + "\n",
		"o\n1\n" + base64.URLEncoding.EncodeToString(bytes.Repeat([]byte{0xfb}, 32)) + "\n", "o\n1\n" + base64.StdEncoding.EncodeToString(append(append([]byte{}, h[:]...), h[:]...)) + "\n",
		"o\n1\n" + hb + "\n" + strings.Repeat("x", 1e6-len("o\n1\n"+hb+"\n")-1) + "\n", "o\n1\n" + hb + "\n" + strings.Repeat("x", 1e6-len("o\n1\n"+hb+"\n")) + "\n"} {
		try(s)
	}
	// the unused bits of the last base64 character
	for c := 0; c < 64; c++ {
		const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
		try("o\n1\n" + hb[:42] + string(al[c]) + "=\n")
	}
	for _, b := range []string{base, base + "ext\n", base + "e\nf\n"} {
		for i := 0; i <= len(b); i++ {
			for _, c := range []string{"\n", "0", "1", "a", "=", "\r", " ", "+", "-", "\x00"} {
				try(b[:i] + c + b[i:])
				if i < len(b) {
					try(b[:i] + c + b[i+1:])
				}
			}
			if i < len(b) {
				try(b[:i] + b[i+1:])
				try(b[:i])
			}
		}
	}

	// signatures
	ek, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	ek2, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	rk, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		t.Fatal(err)
	}
	ecsign := func(k *ecdsa.PrivateKey, m []byte) []byte {
		d := sha256.Sum256(m)
		s, err := ecdsa.SignASN1(rand.Reader, k, d[:])
		if err != nil {
			panic(err)
		}
		return s
	}
	rsasign := func(m []byte) []byte {
		d := sha256.Sum256(m)
		s, err := rsa.SignPKCS1v15(nil, rk, crypto.SHA256, d[:])
		if err != nil {
			panic(err)
		}
		return s
	}
	for _, n := range []string{"", "a b", "a+b", "a\u00a0b", "\xff", "tab\t", "x\n", "+", "a\u2003"} {
		vhCase("NewRFC6962Verifier(%q)", n)
		if _, err := NewRFC6962Verifier(n, &ek.PublicKey, nil); err == nil {
			vhFail(t, "NewRFC6962Verifier accepts the name %q", n)
		}
	}
	if _, err := NewRFC6962Verifier("x", "not a key", nil); err == nil {
		vhFail(t, "NewRFC6962Verifier accepts a string as key")
	}
	type vkey struct {
		what string
		pub  crypto.PublicKey
		alg  byte
		sign func([]byte) []byte
	}
	for _, k := range []vkey{{"ECDSA", &ek.PublicKey, 3, func(m []byte) []byte { return ecsign(ek, m) }}, {"RSA", &rk.PublicKey, 1, rsasign}} {
		for _, name := range []string{"example.com/log", "ö", "a"} {
			var seen []uint64
			v, err := NewRFC6962Verifier(name, k.pub, func(ts uint64) { seen = append(seen, ts) })
			if err != nil {
				vhFail(t, "NewRFC6962Verifier(%q, %s): %v", name, k.what, err)
				continue
			}
			vq, _ := NewRFC6962Verifier(name, k.pub, nil)
			if v.Name() != name || v.KeyHash() != c10KeyHash(name, k.pub) {
				vhFail(t, "verifier of %q, %s: name %q, key hash %08x, want %08x", name, k.what, v.Name(), v.KeyHash(), c10KeyHash(name, k.pub))
			}
			one := func(what string, msg string, sig []byte, want bool, ts uint64) {
				vhCase("%s verifier, %s: Verify(%q, %x)", k.what, what, msg, sig)
				seen = nil
				var got, gotq bool
				if p := vhPanics(func() { got = v.Verify([]byte(msg), sig); gotq = vq.Verify([]byte(msg), sig) }); p != nil {
					vhFail(t, "%s verifier, %s: Verify(%q, %x) panics: %v", k.what, what, msg, sig, p)
					return
				}
				if got != want || gotq != want {
					vhFail(t, "%s verifier, %s: Verify(%q, %x) = %v, without callback %v, want %v", k.what, what, msg, sig, got, gotq, want)
				}
				if want && (len(seen) != 1 || seen[0] != ts) || !want && len(seen) != 0 {
					vhFail(t, "%s verifier, %s: the callback saw %v (valid %v, timestamp %d)", k.what, what, seen, want, ts)
				}
			}
			for i, n := range sizes {
				root := hashes[i%len(hashes)]
				ts := uint64(1700000000000 + i)
				if i == 1 {
					ts = 1<<64 - 1
				}
				if i == 2 {
					ts = 0
				}
				rb := base64.StdEncoding.EncodeToString(root[:])
				msg := fmt.Sprintf("%s\n%d\n%s\n", name, n, rb)
				raw := k.sign(c10Sth(ts, uint64(n), root[:]))
				good := c10Sig(ts, 4, k.alg, raw)
				one("good", msg, good, true, ts)
				if n < 1<<62 {
					one("other size", fmt.Sprintf("%s\n%d\n%s\n", name, n+1, rb), good, false, 0)
				}
				other := hashes[(i+1)%len(hashes)]
				one("other root", fmt.Sprintf("%s\n%d\n%s\n", name, n, base64.StdEncoding.EncodeToString(other[:])), good, false, 0)
				one("other timestamp", msg, c10Sig(ts+1, 4, k.alg, raw), false, 0)
				one("timestamp with a high bit", msg, c10Sig(ts^1<<63, 4, k.alg, raw), false, 0)
				one("extension line", msg+"ext\n", good, false, 0)
				one("trailing byte", msg, append(append([]byte{}, good...), 0), false, 0)
				one("cut short", msg, good[:len(good)-1], false, 0)
				one("no signature", msg, nil, false, 0)
				one("only a header", msg, good[:12], false, 0)
				for a := 0; a < 8; a++ {
					if byte(a) != 4 {
						one("hash algorithm", msg, c10Sig(ts, byte(a), k.alg, raw), false, 0)
					}
					if byte(a) != k.alg {
						one("signature algorithm", msg, c10Sig(ts, 4, byte(a), raw), false, 0)
					}
				}
				one("inner length", msg, c10Sig(ts, 4, k.alg, append(append([]byte{}, raw...), 1)), false, 0)
				one("other key", msg, c10Sig(ts, 4, k.alg, ecsign(ek2, c10Sth(ts, uint64(n), root[:]))), false, 0)
				one("the other key type", msg, c10Sig(ts, 4, 4-k.alg, map[byte]func([]byte) []byte{1: rsasign, 3: func(m []byte) []byte { return ecsign(ek, m) }}[4-k.alg](c10Sth(ts, uint64(n), root[:]))), false, 0)
				one("signature of the text", msg, c10Sig(ts, 4, k.alg, k.sign([]byte(msg))), false, 0)
				one("version or type", msg, c10Sig(ts, 4, k.alg, k.sign(append([]byte{0, 0}, c10Sth(ts, uint64(n), root[:])[2:]...))), false, 0)
				one("empty message", "", good, false, 0)
				one("not canonical", fmt.Sprintf("%s\n0%d\n%s\n", name, n, rb), good, false, 0)
				for j := 0; j < 12; j++ {
					m := append([]byte{}, good...)
					m[j] ^= 1
					one("flipped header bit", msg, m, false, 0)
				}
			}
		}
	}

	// signing
	for _, o := range []string{"example.com/log", "ö", "a", "", "a b", "a+b", "a\nb"} {
		for i, n := range sizes {
			root, ts := hashes[i%len(hashes)], int64(1600000000000+i)
			if i == 1 {
				ts = 0
			}
			vhCase("SignTreeHeadCheckpoint(%q, size %d, timestamp %d, root %x)", o, n, ts, root)
			var out, out2 []byte
			var err error
			if p := vhPanics(func() {
				out, err = SignTreeHeadCheckpoint(o, ek, n, ts, root)
				out2, _ = SignTreeHeadCheckpoint(o, ek, n, ts, root)
			}); p != nil {
				vhFail(t, "SignTreeHeadCheckpoint(%q, size %d, timestamp %d) panics: %v", o, n, ts, p)
				continue
			}
			if o == "" || strings.ContainsAny(o, " +\n") {
				if err == nil {
					vhFail(t, "SignTreeHeadCheckpoint(%q) succeeds", o)
				}
				continue
			}
			if err != nil || !bytes.Equal(out, out2) {
				vhFail(t, "SignTreeHeadCheckpoint(%q, size %d, timestamp %d): %v, repeated the same: %v", o, n, ts, err, bytes.Equal(out, out2))
				continue
			}
			var seen []uint64
			v, _ := NewRFC6962Verifier(o, &ek.PublicKey, func(x uint64) { seen = append(seen, x) })
			nt, err := note.Open(out, note.VerifierList(v))
			if err != nil || len(nt.Sigs) != 1 || len(seen) != 1 || seen[0] != uint64(ts) {
				vhFail(t, "the signed note of %q, size %d, timestamp %d does not open: %v %v\n%s", o, n, ts, err, seen, out)
				continue
			}
			want := fmt.Sprintf("%s\n%d\n%s\n", o, n, base64.StdEncoding.EncodeToString(root[:]))
			raw, _ := base64.StdEncoding.DecodeString(nt.Sigs[0].Base64)
			hd := sha256.Sum256(c10Sth(uint64(ts), uint64(n), root[:]))
			if nt.Text != want || len(raw) < 16 || binary.BigEndian.Uint64(raw[4:]) != uint64(ts) || raw[12] != 4 || raw[13] != 3 ||
				int(raw[14])<<8|int(raw[15]) != len(raw)-16 || !ecdsa.VerifyASN1(&ek.PublicKey, hd[:], raw[16:]) || nt.Sigs[0].Hash != c10KeyHash(o, &ek.PublicKey) {
				vhFail(t, "SignTreeHeadCheckpoint(%q, size %d, timestamp %d, root %x) =\n%s", o, n, ts, root, out)
			}
		}
	}
	vhDone()
}
