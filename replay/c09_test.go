package PKG

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	_ "crypto/sha1"
	_ "crypto/sha256"
	_ "crypto/sha512"
	"encoding/asn1"
	"math/big"
	"testing"
)

// RFC 6979 written from its text, with math/big

func c09bits2int(b []byte, qlen int) *big.Int {
	v := new(big.Int).SetBytes(b)
	if n := len(b)*8 - qlen; n > 0 {
		v.Rsh(v, uint(n))
	}
	return v
}

func c09mac(h crypto.Hash, k []byte, ms ...[]byte) []byte {
	m := hmac.New(h.New, k)
	for _, x := range ms {
		m.Write(x)
	}
	return m.Sum(nil)
}

// c09nonces yields the candidates T of section 3.2, before bits2int
func c09candidates(q, x, e *big.Int, h crypto.Hash) func() []byte {
	rlen := (q.BitLen() + 7) / 8
	xo := x.FillBytes(make([]byte, rlen))
	ho := e.FillBytes(make([]byte, rlen))
	V, K := bytes.Repeat([]byte{1}, h.Size()), make([]byte, h.Size())
	K = c09mac(h, K, V, []byte{0}, xo, ho)
	V = c09mac(h, K, V)
	K = c09mac(h, K, V, []byte{1}, xo, ho)
	V = c09mac(h, K, V)
	return func() []byte {
		var T []byte
		for len(T)*8 < q.BitLen() {
			V = c09mac(h, K, V)
			T = append(T, V...)
		}
		K = c09mac(h, K, V, []byte{0})
		V = c09mac(h, K, V)
		return T
	}
}

func c09sig(c elliptic.Curve, x *big.Int, digest []byte, h crypto.Hash) []byte {
	q := c.Params().N
	e := c09bits2int(digest, q.BitLen())
	e.Mod(e, q)
	next := c09candidates(q, x, e, h)
	for {
		k := c09bits2int(next(), q.BitLen())
		if k.Sign() == 0 || k.Cmp(q) >= 0 {
			continue
		}
		r, _ := c.ScalarBaseMult(k.Bytes())
		r = new(big.Int).Mod(r, q)
		s := new(big.Int).Mul(r, x)
		s.Add(s, e)
		s.Mul(s, new(big.Int).ModInverse(k, q))
		s.Mod(s, q)
		b, _ := asn1.Marshal(struct{ R, S *big.Int }{r, s})
		return b
	}
}

var c09curves = []elliptic.Curve{elliptic.P256(), elliptic.P384(), elliptic.P521()}

func c09key(c elliptic.Curve, d *big.Int) *ecdsa.PrivateKey {
	k := &ecdsa.PrivateKey{D: d}
	k.Curve = c
	k.X, k.Y = c.ScalarBaseMult(d.Bytes())
	return k
}

func TestVerifC09(t *testing.T) {
	r := vhRand()
	rounds := 12
	if vhThorough() {
		rounds = 400
	}
	for _, c := range c09curves {
		q := c.Params().N
		nb := (q.BitLen() + 7) / 8
		var ds []*big.Int
		for _, v := range []int64{1, 2, 255, 256, 65535} {
			ds = append(ds, big.NewInt(v), new(big.Int).Sub(q, big.NewInt(v)))
		}
		for i := 0; i < rounds; i++ {
			b := make([]byte, nb)
			r.Read(b)
			d := new(big.Int).SetBytes(b)
			d.Mod(d, q)
			if i%3 == 0 { // leading zero bytes
				d.Rsh(d, uint(8*(1+r.Intn(nb-1))))
			}
			if d.Sign() > 0 {
				ds = append(ds, d)
			}
		}
		for _, h := range []crypto.Hash{crypto.SHA256, crypto.SHA384, crypto.SHA512, crypto.SHA1} {
			for _, d := range ds {
				key := c09key(c, d)
				for i := 0; i < 6; i++ {
					n := h.Size()
					if i == 5 {
						n = []int{0, 1, 31, 33, 47, 49, 65, 66, 67, 100}[r.Intn(10)]
					}
					g := make([]byte, n)
					r.Read(g)
					switch i {
					case 1:
						g = bytes.Repeat([]byte{0xff}, n)
					case 2:
						g = make([]byte, n)
					case 3:
						copy(g, make([]byte, 5))
					}
					vhCase("curve %s key D=%x digest %x hash %v", c.Params().Name, d, g, h)
					before := bytes.Clone(g)
					sig, err := Sign(key, g, h)
					want := c09sig(c, d, before, h)
					if err != nil {
						vhFail(t, "Sign on %s with D=%x, digest %x, %v: error %v", c.Params().Name, d, before, h, err)
						continue
					}
					if !bytes.Equal(sig, want) {
						vhFail(t, "Sign on %s with D=%x, digest %x, %v: got %x, RFC 6979 with minimal DER gives %x", c.Params().Name, d, before, h, sig, want)
					}
					if !bytes.Equal(g, before) {
						vhFail(t, "Sign on %s with D=%x changed the digest %x to %x", c.Params().Name, d, before, g)
					}
					if again, _ := Sign(key, before, h); !bytes.Equal(again, sig) {
						vhFail(t, "Sign on %s with D=%x, digest %x, %v: first %x, then %x", c.Params().Name, d, before, h, sig, again)
					}
				}
			}
		}
	}
	p := elliptic.P224()
	vhCase("curve P-224")
	if sig, err := Sign(c09key(p, big.NewInt(5)), make([]byte, 32), crypto.SHA256); err == nil {
		vhFail(t, "Sign with a P-224 key succeeded: %x", sig)
	}
	vhDone()
}
