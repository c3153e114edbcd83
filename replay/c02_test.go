package PKG

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"

	"golang.org/x/mod/sumdb/tlog"
	"itko.dev/internal/sunlight"
)

// vhPipe is a whole log: stage zero over the store, and both sequencing stages running
type vhPipe struct {
	p    *vhPKI
	st   *vhStore
	z    *stageZeroData
	mask int
	stop func()
	errs chan error
}

func vhNewPipe(r *rand.Rand, p *vhPKI, flush int) *vhPipe {
	w := &vhPipe{p: p, st: vhNewStore(), mask: r.Intn(5), errs: make(chan error, 2)}
	w.st.nf = r.Intn(4)
	z, rx := vhStage(p, w.st, w.mask)
	w.z = z
	two := make(chan []LogEntryWithReturnPath, r.Intn(3))
	ctx, cancel := context.WithCancel(context.Background())
	w.stop = cancel
	one := &stageOneData{stageOneRx: rx, stageTwoTx: two, flushMs: flush}
	s2 := &stageTwoData{stageTwoRx: two, bucket: Bucket{S: w.st}, edgeTiles: map[int]tileWithBytes{-1: {tlog.Tile{H: 8, L: -1}, nil}}, maskSize: w.mask,
		checkpointOrigin: vhOrigin, signingKey: z.signingKey}
	run := func(f func(context.Context) error) {
		defer func() {
			if e := recover(); e != nil {
				w.errs <- fmt.Errorf("panic: %v", e)
			}
		}()
		w.errs <- f(ctx)
	}
	go run(one.stageOne)
	go run(s2.stageTwo)
	return w
}

// vhSubmit posts a submission and, when it is answered with an SCT, checks that the entry is in the log by then
func (w *vhPipe) submit(s *vhSub) (code int, idx int, problem string) {
	code, resp, _ := vhPost(w.z, s.pre, s.body())
	m := w.st.snap()
	idx = -1
	if code != 200 {
		if bytes.Contains(resp, []byte("\"signature\"")) {
			return code, idx, fmt.Sprintf("an answer with status %d holds an SCT: %q", code, resp)
		}
		return code, idx, ""
	}
	var i uint64
	e := *s.want
	e.TS = -1
	for i = 0; i < 4096; i++ {
		e.Idx = i
		if _, p := vhCheckSCT(w.z, resp, e); !strings.HasPrefix(p, "SCT extensions") {
			break
		}
	}
	sct, p := vhCheckSCT(w.z, resp, e)
	if p != "" {
		return code, idx, p
	}
	idx = int(i)
	e.TS = int64(sct.TS)
	for _, h := range []string{"ct/v1/get-sth", "checkpoint"} {
		if n := vhHeadSize(h, m[h]); n <= idx {
			return code, idx, fmt.Sprintf("SCT for index %d answered while the stored %s has size %d", idx, h, n)
		}
	}
	if o := "int/dedupe/" + vhMaskPath(s.fp[:], w.mask); !vhHasRecord(m[o], 29, vhCat(s.fp[:16], vhLE(5, i), vhLE(8, sct.TS))) {
		return code, idx, fmt.Sprintf("SCT for index %d time %d answered without a deduplication record of it in %s", idx, sct.TS, o)
	}
	// the stored entry: in some data tile of that number
	found := false
	for k, v := range m {
		if !strings.HasPrefix(k, strings.TrimSuffix(vhTilePath(-1, int64(idx/256), 1), ".p/1")) {
			continue
		}
		for j := idx / 256 * 256; len(v) > 0; j++ {
			le, rest, err := sunlight.ReadTileLeaf(v)
			if err != nil {
				break
			}
			if j == idx {
				found = true
				if le.LeafIndex != i || le.Timestamp != e.TS || !bytes.Equal(le.Certificate, e.Cert) || le.IsPrecert != e.IsPre || !bytes.Equal(le.PreCertificate, e.Pre) {
					return code, idx, fmt.Sprintf("the entry stored at index %d has time %d index %d, the SCT says %d; or it is another entry", idx, le.Timestamp, le.LeafIndex, e.TS)
				}
			}
			v = rest
		}
	}
	if !found {
		return code, idx, fmt.Sprintf("SCT for index %d answered while no stored data tile holds it", idx)
	}
	return code, idx, ""
}

func vhHeadSize(key string, data []byte) int {
	var n int
	if key == "checkpoint" {
		if ls := strings.Split(string(data), "\n"); len(ls) > 1 {
			fmt.Sscanf(ls[1], "%d", &n)
		}
		return n
	}
	if i := bytes.Index(data, []byte(`"tree_size":`)); i >= 0 {
		fmt.Sscanf(string(data[i+12:]), "%d", &n)
	}
	return n
}

// TestVerifSCT submits to whole logs whose storage is slow or fails, and checks every SCT handed out
func TestVerifSCT(t *testing.T) {
	defer vhDone()
	r := vhRand()
	p := vhNewPKI()
	var subs []*vhSub
	for i := 0; i < 36; i++ {
		subs = append(subs, p.good(i%3, int64(1000+i), r.Intn(2) == 0))
	}
	classes := []string{"", "", "", "", "tile/data", "tile/", "int/hashes/", "int/dedupe/", "issuer/", "ct/v1/get-sth", "checkpoint"}
	if vhThorough() {
		classes = append(append(append([]string{}, classes...), classes...), classes...)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for n, class := range classes {
		seed := r.Int63()
		vhCase("whole log, failing %q, seed %d", class, seed)
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			w := vhNewPipe(r, p, 20)
			defer w.stop()
			after := r.Intn(20)
			seen := map[string]int{}
			failed := false
			w.st.fail = func(op, key string) error {
				mu.Lock()
				defer mu.Unlock()
				c := vhClassOf(key)
				seen[c]++
				if class == "" || c != class || (c == "int/dedupe/" && op == "get") || (seen[c] <= after && !failed) {
					return nil
				}
				failed = true
				return vhReadErr(r)
			}
			w.st.delay = func(op, key string) time.Duration {
				if n%2 == 0 {
					return 0
				}
				return time.Duration(rand.Intn(4)) * time.Millisecond
			}
			idx := map[int]string{}
			for k := 0; k < len(subs); k += 12 {
				var g sync.WaitGroup
				for _, s := range subs[k:min(k+12, len(subs))] {
					g.Add(1)
					go func() {
						defer g.Done()
						code, i, prob := w.submit(s)
						mu.Lock()
						defer mu.Unlock()
						if prob != "" {
							vhFail(t, "whole log, failing %q, seed %d, %s: %s", class, seed, s.name, prob)
						}
						if i >= 0 {
							if o, ok := idx[i]; ok {
								vhFail(t, "whole log, failing %q, seed %d: index %d was answered to %s and %s", class, seed, i, o, s.name)
							}
							idx[i] = s.name
						}
						if class == "" && code != 200 {
							vhFail(t, "whole log, seed %d, %s: status %d", seed, s.name, code)
						}
					}()
				}
				g.Wait()
				mu.Lock()
				f := failed
				mu.Unlock()
				if f {
					break
				}
			}
		}()
	}
	wg.Wait()
}

// TestVerifClients: clients that are not answered, or do not wait for the answer
func TestVerifClients(t *testing.T) {
	defer vhDone()
	r := vhRand()
	p := vhNewPKI()
	var wg sync.WaitGroup
	var mu sync.Mutex
	fail := func(f string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		vhFail(t, f, a...)
	}
	post := func(z *stageZeroData, s *vhSub, what string) {
		t0 := time.Now()
		done := make(chan int, 1)
		go func() {
			code, _, _ := vhPost(z, s.pre, s.body())
			done <- code
		}()
		select {
		case c := <-done:
			if c != 503 {
				fail("%s: status %d after %v, expected 503", what, c, time.Since(t0))
			}
		case <-time.After(40 * time.Second):
			fail("%s: no answer to the client in 40 seconds", what)
		}
	}
	subs := []*vhSub{p.good(0, 1, true), p.good(1, 2, true), p.good(2, 3, false), p.good(0, 4, true)}
	// no sequencer takes the submission
	vhCase("no sequencer")
	wg.Add(1)
	go func() {
		defer wg.Done()
		z, _ := vhStage(p, vhNewStore(), 2)
		z.stageOneTx = make(chan UnsequencedEntryWithReturnPath)
		post(z, subs[0], "the submission is never taken")
	}()
	// the sequencer takes them and answers when the client has gone
	vhCase("answers when the clients have gone")
	wg.Add(1)
	go func() {
		defer wg.Done()
		z, ch := vhStage(p, vhNewStore(), 2)
		var g sync.WaitGroup
		for _, s := range subs {
			g.Add(1)
			go func() {
				defer g.Done()
				post(z, s, "the submission is never answered")
			}()
		}
		var got []UnsequencedEntryWithReturnPath
		seen := map[any]bool{}
		for range subs {
			select {
			case e := <-ch:
				got = append(got, e)
				if seen[e.returnPath] {
					fail("two submissions share an answer slot")
				}
				seen[e.returnPath] = true
			case <-time.After(40 * time.Second):
				fail("a submission was not handed to the sequencer")
				return
			}
		}
		g.Wait()
		for _, e := range got {
			ok := make(chan any, 1)
			go func() {
				defer func() { ok <- recover() }()
				e.returnPath <- e.entry.Sequence(1, 2)
			}()
			select {
			case v := <-ok:
				if v != nil {
					fail("answering a client that has gone crashes the sequencer: %v", v)
				}
			case <-time.After(3 * time.Second):
				fail("answering a client that has gone blocks the sequencer")
			}
		}
	}()
	// a whole log: the storage of the first batch takes longer than the clients wait; the next ones must be served
	vhCase("whole log with slow storage")
	wg.Add(1)
	go func() {
		defer wg.Done()
		w := vhNewPipe(r, p, 20)
		defer w.stop()
		var once sync.Once
		w.st.delay = func(op, key string) (d time.Duration) {
			if op == "set" && key == "checkpoint" {
				w.st.mu.Lock()
				n := vhHeadSize("ct/v1/get-sth", w.st.m["ct/v1/get-sth"])
				w.st.mu.Unlock()
				if n > 0 {
					once.Do(func() { d = 7 * time.Second })
				}
			}
			return
		}
		var g sync.WaitGroup
		for _, s := range subs[:3] {
			g.Add(1)
			go func() {
				defer g.Done()
				post(w.z, s, "storage is slow")
			}()
		}
		g.Wait()
		time.Sleep(3 * time.Second)
		ok := make(chan string, 1)
		go func() {
			code, _, prob := w.submit(subs[3])
			if code != 200 {
				prob = fmt.Sprintf("status %d", code)
			}
			ok <- prob
		}()
		select {
		case p := <-ok:
			if p != "" {
				fail("the log does not recover from clients that gave up: %s", p)
			}
		case <-time.After(40 * time.Second):
			fail("the log does not recover from clients that gave up: no answer")
		}
		select {
		case err := <-w.errs:
			fail("the sequencer stopped: %v", err)
		default:
		}
	}()
	wg.Wait()
}
