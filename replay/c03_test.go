package PKG

import (
	"context"
	"fmt"
	"math/rand"
	"reflect"
	"testing"
	"time"

	"itko.dev/internal/sunlight"
)

// TestVerifStageOne feeds the sequencer arrival patterns of every kind and checks the batches it hands on
func TestVerifStageOne(t *testing.T) {
	defer vhDone()
	r := vhRand()
	rounds := 24
	if vhThorough() {
		rounds = 160
	}
	type res struct {
		name string
		bad  []string
	}
	results := make(chan res, rounds)
	for i := 0; i < rounds; i++ {
		seed := r.Int63()
		vhCase("stageOne seed %d", seed)
		go func() {
			name, bad := vhStageOneRun(seed)
			results <- res{name, bad}
		}()
	}
	for i := 0; i < rounds; i++ {
		x := <-results
		for _, b := range x.bad {
			vhFail(t, "%s: %s", x.name, b)
		}
	}
}

func vhStageOneRun(seed int64) (name string, bad []string) {
	r := rand.New(rand.NewSource(seed))
	start := uint64(r.Int63n(1 << 39))
	if r.Intn(3) == 0 {
		start = 0
	}
	flush := []int{3, 20, 60, 400}[r.Intn(4)]
	total := []int{1, 10, 254, 255, 256, 300, 700, 1100}[r.Intn(8)]
	style := r.Intn(4)
	name = fmt.Sprintf("stageOne start %d flush %dms submissions %d style %d", start, flush, total, style)
	fail := func(f string, a ...any) {
		if len(bad) < 5 {
			bad = append(bad, fmt.Sprintf(f, a...))
		}
	}
	rx := make(chan UnsequencedEntryWithReturnPath, []int{0, 1, 200}[r.Intn(3)])
	tx := make(chan []LogEntryWithReturnPath, []int{0, 2}[r.Intn(2)])
	d := &stageOneData{stageOneRx: rx, stageTwoTx: tx, startingSequence: start, flushMs: flush}
	ctx, cancel := context.WithCancel(context.Background())
	ret := make(chan error, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				ret <- fmt.Errorf("panic: %v", p)
			}
		}()
		ret <- d.stageOne(ctx)
	}()
	var sent []UnsequencedEntryWithReturnPath
	for i := 0; i < total; i++ {
		e := sunlight.UnsequencedEntry{Certificate: []byte(fmt.Sprintf("certificate %d", i)), IsPrecert: r.Intn(2) == 0, PreCertificate: []byte(fmt.Sprintf("pre %d", i))}
		r.Read(e.IssuerKeyHash[:])
		r.Read(e.CertificateFp[:])
		for k := 0; k < r.Intn(3); k++ {
			var f [32]byte
			r.Read(f[:])
			e.ChainFp = append(e.ChainFp, f)
		}
		sent = append(sent, UnsequencedEntryWithReturnPath{e, make(chan sunlight.LogEntry, 1)})
	}
	before := time.Now().UnixMilli()
	pauses := make([]time.Duration, total)
	for i := range pauses {
		switch style {
		case 1:
			if r.Intn(40) == 0 {
				pauses[i] = time.Duration(r.Intn(2*flush+1)) * time.Millisecond / 2
			}
		case 2:
			if i%100 == 99 {
				pauses[i] = time.Duration(flush+5) * time.Millisecond
			}
		case 3:
			pauses[i] = time.Duration(r.Intn(200)) * time.Microsecond
		}
	}
	go func() {
		for i, s := range sent {
			time.Sleep(pauses[i])
			select {
			case rx <- s:
			case <-ctx.Done():
				return
			}
		}
	}()
	var batches, copies [][]LogEntryWithReturnPath
	got := 0
	deadline := time.After(20 * time.Second)
	slow := r.Intn(2) == 0
	for quiet := 0; got < total || quiet < 2; {
		select {
		case b := <-tx:
			batches = append(batches, b)
			copies = append(copies, append([]LogEntryWithReturnPath{}, b...))
			got += len(b)
			if got >= total {
				quiet++
			}
			if slow {
				time.Sleep(time.Duration(r.Intn(4)) * time.Millisecond)
			}
		case err := <-ret:
			fail("stopped by itself: %v", err)
			cancel()
			return
		case <-deadline:
			fail("after 20 s %d of %d submissions were handed on", got, total)
			cancel()
			return
		}
	}
	after := time.Now().UnixMilli()
	n := 0
	for k, b := range batches {
		if len(b) > 256 {
			fail("batch %d has %d entries", k, len(b))
		}
		if !reflect.DeepEqual(b, copies[k]) {
			fail("batch %d was altered after it was handed on", k)
		}
		for _, x := range copies[k] {
			if n >= total {
				fail("more entries handed on than submitted: index %d", x.entry.LeafIndex)
				break
			}
			s := sent[n]
			if x.entry.LeafIndex != start+uint64(n) {
				fail("submission %d got leaf index %d, expected %d", n, x.entry.LeafIndex, start+uint64(n))
			}
			if x.entry.Timestamp < before || x.entry.Timestamp > after {
				fail("submission %d got timestamp %d outside %d..%d", n, x.entry.Timestamp, before, after)
			}
			want := vhLogged1(s.entry, x.entry.LeafIndex, x.entry.Timestamp)
			if !reflect.DeepEqual(x.entry, want) {
				fail("submission %d was handed on altered (or out of order): %.300q, expected %.300q", n, fmt.Sprint(x.entry), fmt.Sprint(want))
			}
			if reflect.ValueOf(x.returnPath).Pointer() != reflect.ValueOf(s.returnPath).Pointer() {
				fail("submission %d was handed on with another answer slot", n)
			}
			n++
		}
	}
	if r.Intn(2) == 0 {
		cancel()
	} else {
		close(rx)
	}
	for end := time.After(5 * time.Second); ; {
		select {
		case <-tx:
			continue
		case err := <-ret:
			if err == nil {
				fail("stopped without an error")
			}
		case <-end:
			fail("does not stop")
		}
		cancel()
		return
	}
}

func vhLogged1(e sunlight.UnsequencedEntry, ix uint64, ts int64) sunlight.LogEntry {
	return sunlight.LogEntry{Certificate: e.Certificate, IsPrecert: e.IsPrecert, IssuerKeyHash: e.IssuerKeyHash, PreCertificate: e.PreCertificate,
		CertificateFp: e.CertificateFp, ChainFp: e.ChainFp, Chain: e.Chain, Timestamp: ts, LeafIndex: ix}
}
