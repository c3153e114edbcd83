package PKG

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"testing"
	"time"

	"itko.dev/internal/sunlight"
)

// bad submissions of every kind
func vhBad(p *vhPKI, r *rand.Rand) []*vhSub {
	k := vhKeyPair()
	g0, g1, g2 := p.good(0, 5001, false), p.good(1, 5002, false), p.good(2, 5003, false)
	x := func(name string, pre bool, chain ...[]byte) *vhSub { return &vhSub{name: name, pre: pre, chain: chain} }
	flip := bytes.Clone(g0.chain[0])
	flip[len(flip)-5] ^= 1
	in := vhStart.AddDate(0, 5, 0)
	return []*vhSub{
		x("certificate at the precertificate endpoint", true, g0.chain...),
		x("precertificate at the certificate endpoint", false, g1.chain...),
		x("precertificate by a precert-signing issuer at the certificate endpoint", false, g2.chain...),
		x("empty chain", false), x("empty chain", true),
		x("empty certificate", false, []byte{}),
		x("garbage certificate", false, []byte("garbage"), p.inter.der),
		x("truncated", false, g0.chain[0][:len(g0.chain[0])-1], p.inter.der),
		x("trailing bytes", false, append(bytes.Clone(g0.chain[0]), 0), p.inter.der),
		x("bad signature", false, flip, p.inter.der),
		x("missing intermediate", false, g0.chain[0]),
		x("missing intermediate, precertificate", true, g1.chain[0]),
		x("missing intermediate of the precert-signing issuer", true, g2.chain[0], p.preis.der),
		x("wrong order", false, p.inter.der, g0.chain[0]),
		x("unaccepted root", false, p.leaf(p.alien, 5004, in, false, k).Raw, p.alien.der),
		x("unaccepted root, precertificate", true, p.leaf(p.alien, 5005, in, true, k).Raw, p.alien.der),
		x("expires before the window", false, p.leaf(p.inter, 5006, vhStart.Add(-time.Second), false, k).Raw, p.inter.der),
		x("expires at the end of the window", false, p.leaf(p.inter, 5007, vhLimit, false, k).Raw, p.inter.der),
		x("expires after the window", true, p.leaf(p.inter, 5008, vhLimit.AddDate(1, 0, 0), true, k).Raw, p.inter.der),
		x("the accepted root at the precertificate endpoint", true, p.root.der),
	}
}

func vhOffer(t *testing.T, d *stageZeroData, ch chan UnsequencedEntryWithReturnPath, name string, pre bool, body []byte, answer func(sunlight.UnsequencedEntry) sunlight.LogEntry) (code int, resp []byte, got []UnsequencedEntryWithReturnPath) {
	done := make(chan bool)
	stop := make(chan bool)
	go func() {
		defer close(done)
		for {
			select {
			case e := <-ch:
				got = append(got, e)
				select {
				case e.returnPath <- answer(e.entry):
				case <-time.After(time.Second):
				}
			case <-stop:
				return
			}
		}
	}()
	if p := vhPanics(func() { code, resp, _ = vhPost(d, pre, body) }); p != nil {
		vhFail(t, "%s: panic %v for body %.2000q", name, p, body)
		code = -1
	}
	close(stop)
	<-done
	return
}

func vhLogged(e sunlight.UnsequencedEntry, ix uint64, ts int64) sunlight.LogEntry {
	return sunlight.LogEntry{Certificate: e.Certificate, IsPrecert: e.IsPrecert, IssuerKeyHash: e.IssuerKeyHash, PreCertificate: e.PreCertificate,
		CertificateFp: e.CertificateFp, ChainFp: e.ChainFp, Chain: e.Chain, Timestamp: ts, LeafIndex: ix}
}

// TestVerifSigned: the SCT signatures are over the leaf of their entry
func TestVerifSigned(t *testing.T) { vhOnly = []string{"not over the leaf"}; TestVerifAdmission(t) }

func TestVerifAdmission(t *testing.T) {
	defer vhDone()
	r := vhRand()
	p := vhNewPKI()
	s := vhNewStore()
	d, ch := vhStage(p, s, 4)
	n := 20
	if vhThorough() {
		n = 250
	}
	ix, ts := uint64(0), int64(0)
	answer := func(e sunlight.UnsequencedEntry) sunlight.LogEntry { return vhLogged(e, ix, ts) }
	var bodies [][]byte
	for i := 0; i < n; i++ {
		ix, ts = uint64(r.Int63n(1<<40)), r.Int63n(1<<50)
		g := p.good(i%3, int64(1000+i), i%2 == 0)
		vhCase("admit %s body %.1500q", g.name, g.body())
		bodies = append(bodies, g.body())
		code, resp, got := vhOffer(t, d, ch, g.name, g.pre, g.body(), answer)
		if code != 200 || len(got) != 1 {
			vhFail(t, "acceptable submission (%s): status %d, %d entries sequenced: %.300q body %.1500q", g.name, code, len(got), resp, g.body())
			continue
		}
		if pr := vhLeafProblem(g, &got[0].entry); pr != "" {
			vhFail(t, "%s: %s", g.name, pr)
		}
		e := *g.want
		e.Idx, e.TS = ix, ts
		if _, pr := vhCheckSCT(d, resp, e); pr != "" {
			vhFail(t, "%s: %s", g.name, pr)
		}
	}
	reject := func(name string, pre bool, body []byte) {
		vhCase("reject %s pre=%v body %.1500q", name, pre, body)
		code, resp, got := vhOffer(t, d, ch, name, pre, body, answer)
		if code < 400 || code > 599 || len(got) != 0 {
			vhFail(t, "%s: status %d, %d entries sequenced: %.300q for body %.1500q", name, code, len(got), resp, body)
		}
	}
	for _, b := range vhBad(p, r) {
		reject(b.name, b.pre, b.body())
	}
	for _, b := range []string{"", "{", "null", "[]", "{}", `{"chain":null}`, `{"chain":[]}`, `{"chain":"x"}`, `{"chain":["!!"]}`, `{"chain":[""]}`, `{"chain":[null]}`,
		`{"chain":[["a"]]}`, `{"chain":[1]}`, "\x00", `{"chains":["AAAA"]}`} {
		for _, pre := range []bool{false, true} {
			reject(fmt.Sprintf("body %q", b), pre, []byte(b))
		}
	}
	for i := 0; i < 10*n; i++ {
		g := p.good(i%3, int64(3000+i), false)
		b := g.body()
		for k := 0; k <= r.Intn(2); k++ {
			b[10+r.Intn(len(b)-12)] = "ABCDEFGHabcdef0123+/="[r.Intn(21)]
		}
		vhCase("mutated %s body %.1500q", g.name, b)
		code, _, got := vhOffer(t, d, ch, "mutated", g.pre, b, answer)
		if !(code == 200 && len(got) == 1) && !(code >= 400 && code <= 599 && len(got) == 0) {
			vhFail(t, "mutated body: status %d with %d entries sequenced: %.1500q", code, len(got), b)
		}
	}
	// the kinds again with a recorded duplicate: the leaf of the answer is the same
	for i := 0; i < 6; i++ {
		g := p.good(i%3, int64(9000+i), false)
		ix, ts = uint64(r.Int63n(1<<40)), r.Int63n(1<<50)
		h := [16]byte(g.fp[:16])
		if err := d.bucket.PutDedupeEntries(context.Background(), []DedupeUpload{{hash: h, leafIndex: ix, timestamp: ts}}, 4); err != nil {
			t.Fatal(err)
		}
		vhCase("duplicate %s", g.name)
		code, resp, got := vhOffer(t, d, ch, g.name, g.pre, g.body(), answer)
		e := *g.want
		e.Idx, e.TS = ix, ts
		if code != 200 || len(got) != 0 {
			vhFail(t, "duplicate %s: status %d, %d entries sequenced", g.name, code, len(got))
		} else if _, pr := vhCheckSCT(d, resp, e); pr != "" {
			vhFail(t, "duplicate %s: %s", g.name, pr)
		}
		bad := g
		bad.pre = !g.pre
		reject("duplicate at the other endpoint", bad.pre, bad.body())
	}
}
