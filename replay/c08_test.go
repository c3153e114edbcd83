package PKG

import (
	"context"
	"testing"

	"itko.dev/internal/sunlight"
)

func TestVerifDedupeIndex(t *testing.T) {
	defer vhDone()
	vhIndexTest(t, vhKinds["dedupe"])
}

// resubmissions over a history of recorded certificates
func TestVerifResubmit(t *testing.T) {
	defer vhDone()
	r := vhRand()
	p := vhNewPKI()
	rounds := 3
	if vhThorough() {
		rounds = 15
	}
	for i := 0; i < rounds; i++ {
		mask := r.Intn(5)
		s := vhNewStore()
		d, ch := vhStage(p, s, mask)
		var subs []*vhSub
		var es []vhEntry
		for k := 0; k < 8; k++ {
			g := p.good(r.Intn(3), int64(i*100+k), r.Intn(2) == 0)
			e := *g.want
			e.Idx, e.TS = uint64(r.Int63n(1<<40)), r.Int63n(1<<60)
			subs, es = append(subs, g), append(es, e)
			var b []DedupeUpload
			b = append(b, DedupeUpload{hash: [16]byte(g.fp[:16]), leafIndex: e.Idx, timestamp: e.TS})
			for n := 0; n < r.Intn(4); n++ { // later records of the same and of other certificates
				o := r.Intn(len(subs))
				h := [16]byte(subs[o].fp[:16])
				if r.Intn(2) == 0 {
					h[15-r.Intn(3)] ^= byte(1 + r.Intn(255))
				}
				b = append(b, DedupeUpload{hash: h, leafIndex: uint64(r.Int63n(1 << 40)), timestamp: r.Int63()})
			}
			if err := d.bucket.PutDedupeEntries(context.Background(), b, mask); err != nil {
				vhFail(t, "PutDedupeEntries: %v", err)
			}
			for x := range subs {
				vhCase("resubmit %s mask %d after %d records", subs[x].name, mask, k+1)
				code, resp, got := vhOffer(t, d, ch, subs[x].name, subs[x].pre, subs[x].body(), func(u sunlight.UnsequencedEntry) sunlight.LogEntry { return vhLogged(u, 77, 88) })
				if code != 200 || len(got) != 0 {
					vhFail(t, "recorded certificate (%s): status %d, sequenced %d times", subs[x].name, code, len(got))
				} else if _, pr := vhCheckSCT(d, resp, es[x]); pr != "" {
					vhFail(t, "recorded certificate (%s): %s", subs[x].name, pr)
				}
			}
			n := p.good(r.Intn(3), int64(i*100+50+k), false)
			code, resp, got := vhOffer(t, d, ch, n.name, n.pre, n.body(), func(u sunlight.UnsequencedEntry) sunlight.LogEntry { return vhLogged(u, 77, 88) })
			e = *n.want
			e.Idx, e.TS = 77, 88
			if code != 200 || len(got) != 1 {
				vhFail(t, "new certificate: status %d, sequenced %d times", code, len(got))
			} else if _, pr := vhCheckSCT(d, resp, e); pr != "" {
				vhFail(t, "new certificate: %s", pr)
			}
		}
	}
}
