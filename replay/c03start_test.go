package PKG

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net/http/httptest"
	"sort"
	"sync"
	"testing"

	"golang.org/x/mod/sumdb/tlog"
)

// TestVerifStart runs whole logs through the handler Start returns: many submitters at once get the consecutive indexes
// from the starting size, each under its own endpoint only
func TestVerifStart(t *testing.T) {
	defer vhDone()
	log.SetOutput(io.Discard)
	r := vhRand()
	p := vhNewPKI()
	rounds := 3
	if vhThorough() {
		rounds = 12
	}
	for k := 0; k < rounds; k++ {
		n := 20 + r.Intn(60)
		mask := r.Intn(4)
		vhCase("whole log, round %d: %d submitters at once", k, n)
		st := vhNewStore()
		z, rx := vhStage(p, st, mask)
		two := make(chan []LogEntryWithReturnPath, 2)
		l := &Log{stageZeroData: *z, stageOneData: stageOneData{stageOneRx: rx, stageTwoTx: two, flushMs: 20},
			stageTwoData: stageTwoData{stageTwoRx: two, bucket: Bucket{S: st}, edgeTiles: map[int]tileWithBytes{-1: {tlog.Tile{H: 8, L: -1}, nil}}, maskSize: mask,
				checkpointOrigin: vhOrigin, signingKey: z.signingKey}}
		h, err := l.Start(context.Background())
		if err != nil {
			vhFail(t, "Start: %v", err)
			return
		}
		post := func(pre bool, body []byte) (int, []byte) {
			path := "/ct/v1/add-chain"
			if pre {
				path = "/ct/v1/add-pre-chain"
			}
			w := httptest.NewRecorder()
			h.ServeHTTP(w, httptest.NewRequest("POST", path, bytes.NewReader(body)))
			return w.Code, w.Body.Bytes()
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		var ix []int
		var bad []string
		for i := 0; i < n; i++ {
			s := p.good(i%3, int64(1000*k+i+1), i%2 == 0)
			wg.Add(1)
			go func() {
				defer wg.Done()
				wrong := ""
				if i%5 == 0 {
					if code, _ := post(!s.pre, s.body()); code < 400 || code > 499 {
						wrong = fmt.Sprintf("%s offered to the other endpoint: status %d", s.name, code)
					}
				}
				code, resp := post(s.pre, s.body())
				var sct vhSCT
				mu.Lock()
				defer mu.Unlock()
				if wrong != "" {
					bad = append(bad, wrong)
				}
				ext := []byte(nil)
				if code == 200 && json.Unmarshal(resp, &sct) == nil {
					ext, _ = base64.StdEncoding.DecodeString(sct.Ext)
				}
				if len(ext) != 8 {
					bad = append(bad, fmt.Sprintf("%s: status %d %.200q", s.name, code, resp))
					return
				}
				ix = append(ix, int(binary.BigEndian.Uint64(append([]byte{0, 0, 0}, ext[3:]...))))
			}()
		}
		wg.Wait()
		for _, b := range bad {
			vhFail(t, "whole log with %d submitters: %s", n, b)
		}
		sort.Ints(ix)
		for i, v := range ix {
			if v != i {
				vhFail(t, "whole log with %d submitters: the indexes answered are %v, not 0..%d", n, ix, n-1)
				break
			}
		}
		if code, _ := post(false, bytes.Repeat([]byte("x"), 200<<10)); code < 400 {
			vhFail(t, "a body of 200 KiB: status %d", code)
		}
	}
}
