package PKG

import (
	"bytes"
	"crypto"
	"crypto/elliptic"
	"encoding/asn1"
	"errors"
	"math/big"
	"testing"

	"filippo.io/bigmod"
)

// what black-box signing meets too rarely: rejected candidates and odd numbers to encode

func c09inner[P nistPoint[P]](t *testing.T, c *nistCurve[P], ec elliptic.Curve) {
	r := vhRand()
	q := ec.Params().N
	nb := (q.BitLen() + 7) / 8
	name := ec.Params().Name
	num := func(s func() []byte) *big.Int { return new(big.Int).SetBytes(s()) }
	shl := func(v *big.Int) []byte { // the candidate bits2int makes v
		x := new(big.Int).Lsh(v, uint(nb*8-q.BitLen()))
		return x.FillBytes(make([]byte, nb))
	}
	one := big.NewInt(1)
	max := new(big.Int).Sub(new(big.Int).Lsh(one, uint(q.BitLen())), one)
	for i := 0; i < 40; i++ {
		k := num(func() []byte { b := make([]byte, nb); r.Read(b); return b })
		k.Mod(k, q)
		switch i {
		case 0:
			k.Set(one)
		case 1:
			k.Sub(q, one)
		case 2:
			k.Rsh(k, uint(q.BitLen()/2))
		case 3:
			k.Rsh(k, 9)
		}
		if k.Sign() == 0 {
			continue
		}
		var cs [][]byte
		for n := i % 5; n > 0; n-- {
			cs = append(cs, [][]byte{make([]byte, nb), shl(q), shl(max), shl(new(big.Int).Add(q, one))}[r.Intn(4)])
		}
		cs = append(cs, shl(k), shl(one), shl(one))
		vhCase("randomPoint on %s with candidates %x", name, cs)
		j, lens := 0, true
		got, p, err := randomPoint(c, func(b []byte) error {
			if j == len(cs) {
				return errors.New("no more candidates")
			}
			lens = lens && len(b) == nb
			copy(b, cs[j])
			j++
			return nil
		})
		if err != nil || !lens {
			vhFail(t, "randomPoint on %s with candidates %x: error %v, candidates of the right length %v", name, cs, err, lens)
			continue
		}
		g := new(big.Int).SetBytes(got.Bytes(c.N))
		if g.Cmp(k) != 0 {
			vhFail(t, "randomPoint on %s with candidates %x: k = %x, the first in 1..N-1 is %x", name, cs, g, k)
		}
		x, err := p.BytesX()
		wx, _ := ec.ScalarBaseMult(k.Bytes())
		if err != nil || new(big.Int).SetBytes(x).Cmp(wx) != 0 {
			vhFail(t, "randomPoint on %s with candidates %x: point with x = %x (%v), k*G has %x", name, cs, x, err, wx)
		}
	}
	boom := errors.New("boom")
	for at := 0; at < 3; at++ {
		j := 0
		_, _, err := randomPoint(c, func(b []byte) error {
			j++
			if j > at {
				return boom
			}
			return nil
		})
		if err == nil {
			vhFail(t, "randomPoint on %s: call %d of the source failed, no error", name, at)
		}
	}
	for _, h := range []crypto.Hash{crypto.SHA256, crypto.SHA384, crypto.SHA512, crypto.SHA1} {
		for i := 0; i < 6; i++ {
			d := num(func() []byte { b := make([]byte, nb); r.Read(b); return b })
			d.Mod(d, q)
			if i == 1 {
				d.Rsh(d, 80)
			}
			g := make([]byte, h.Size())
			r.Read(g)
			if i == 2 {
				copy(g, make([]byte, 9))
			}
			e := bigmod.NewNat()
			vhCase("candidates on %s for D=%x digest %x hash %v", name, d, g, h)
			hashToNat(c, e, g)
			we := c09bits2int(g, q.BitLen())
			we.Mod(we, q)
			if x := new(big.Int).SetBytes(e.Bytes(c.N)); x.Cmp(we) != 0 {
				vhFail(t, "hashToNat on %s of %x: %x, must be %x", name, g, x, we)
				continue
			}
			f := rfc6979DRBG(c, c09key(ec, d), e, h)
			ref := c09candidates(q, d, we, h)
			for n := 1; n <= 5; n++ {
				b := make([]byte, nb)
				r.Read(b)
				err := f(b)
				if w := ref()[:nb]; err != nil || !bytes.Equal(b, w) {
					vhFail(t, "candidate %d on %s for D=%x, digest %x, %v: %x (%v), RFC 6979 gives %x", n, name, d, g, h, b, err, w)
					break
				}
			}
		}
	}
	// numbers to encode
	for i := 0; i < 200; i++ {
		rb, sb := make([]byte, nb), make([]byte, nb)
		for _, b := range [][]byte{rb, sb} {
			z := r.Intn(nb)
			if i%2 == 0 {
				z = r.Intn(3)
			}
			r.Read(b[z:])
			b[z] |= []byte{0, 0x80, 1, 0x7f}[r.Intn(4)]
			b[nb-1] |= 1
		}
		vhCase("encodeSignature of %x and %x", rb, sb)
		got, err := encodeSignature(bytes.Clone(rb), bytes.Clone(sb))
		want, _ := asn1.Marshal(struct{ R, S *big.Int }{new(big.Int).SetBytes(rb), new(big.Int).SetBytes(sb)})
		if err != nil || !bytes.Equal(got, want) {
			vhFail(t, "encodeSignature of r=%x s=%x: %x (%v), minimal DER is %x", rb, sb, got, err, want)
		}
	}
	if b, err := encodeSignature(make([]byte, nb), shl(one)); err == nil {
		vhFail(t, "encodeSignature with r=0 gives %x and no error", b)
	}
}

func TestVerifC09Inner(t *testing.T) {
	c09inner(t, p256(), elliptic.P256())
	c09inner(t, p384(), elliptic.P384())
	c09inner(t, p521(), elliptic.P521())
	vhDone()
}
