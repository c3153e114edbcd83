package PKG

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/sha256"
	"math/big"
	"testing"

	"itko.dev/internal/rfc6979"
)

func TestVerifC09TLS(t *testing.T) {
	r := vhRand()
	for _, c := range []elliptic.Curve{elliptic.P256(), elliptic.P384(), elliptic.P521()} {
		for i := 0; i < 60; i++ {
			b := make([]byte, 60)
			r.Read(b)
			d := new(big.Int).SetBytes(b)
			d.Mod(d, c.Params().N)
			k := &ecdsa.PrivateKey{D: d}
			k.Curve = c
			k.X, k.Y = c.ScalarBaseMult(d.Bytes())
			msg := make([]byte, []int{0, 1, 55, 64, 300, 5000}[r.Intn(6)])
			r.Read(msg)
			vhCase("DigitallySign %s D=%x message %x", c.Params().Name, d, msg)
			h := sha256.Sum256(msg)
			want, err := rfc6979.Sign(k, h[:], crypto.SHA256)
			if err != nil {
				vhFail(t, "rfc6979.Sign D=%x: %v", d, err)
				continue
			}
			want = append([]byte{4, 3, byte(len(want) >> 8), byte(len(want))}, want...)
			for n := 0; n < 2; n++ {
				got, err := DigitallySign(k, msg)
				if err != nil || !bytes.Equal(got, want) {
					vhFail(t, "DigitallySign (call %d) with %s D=%x of message %x: %x (%v), must be %x", n+1, c.Params().Name, d, msg, got, err, want)
				}
			}
		}
	}
	k := &ecdsa.PrivateKey{D: big.NewInt(7)}
	k.Curve = elliptic.P224()
	k.X, k.Y = k.Curve.ScalarBaseMult(k.D.Bytes())
	vhCase("DigitallySign P-224")
	if b, err := DigitallySign(k, []byte("x")); err == nil {
		vhFail(t, "DigitallySign with a P-224 key gives %x and no error", b)
	}
	vhDone()
}
