package PKG

import (
	"context"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/mod/sumdb/tlog"
)

// an in-memory storage of the monitor that serves a published log and records the keys requested
type vhMem struct {
	mu     sync.Mutex
	m      map[string][]byte
	keys   []string
	budget int            // requests left; < 0: unlimited
	fail   map[string]int // 1: not found although there, 2: another error
}

func (s *vhMem) Get(ctx context.Context, key string) ([]byte, bool, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.keys = append(s.keys, key)
	if s.budget > 0 {
		s.budget--
	}
	if f := s.fail[key]; f == 1 {
		return nil, true, errors.New("not found")
	} else if f == 2 {
		return nil, false, errors.New("failed")
	}
	b, ok := s.m[key]
	if !ok {
		return nil, true, errors.New("not found")
	}
	return append([]byte{}, b...), false, nil
}

func (s *vhMem) AvailableReqs() int {
	if s.budget < 0 {
		return 1
	}
	return s.budget
}

// checkKeys: a partial data tile is asked for only after the full one was missing, and exists
func (s *vhMem) checkKeys() string {
	last := ""
	for _, k := range s.keys {
		if i := strings.Index(k, ".p/"); i >= 0 {
			if last != k[:i] {
				return "partial tile " + k + " requested without the full tile having been missing right before"
			}
			if _, ok := s.m[k]; !ok {
				return "partial tile " + k + " requested that was never published"
			}
		}
		last = k
	}
	return ""
}

// checkFail: after a read of the full tile failed for another reason than being missing, no partial one is asked for
func (s *vhMem) checkFail(key string) string {
	for n, k := range s.keys {
		if n > 0 && s.keys[n-1] == key && s.fail[key] == 2 && strings.HasPrefix(k, key+".p/") {
			return "partial tile " + k + " requested although the full one was not reported missing"
		}
	}
	return ""
}

var vhHandler = func(s Storage, mask int) http.Handler {
	f := newFetch(s, mask, 1024)
	mux := http.NewServeMux()
	mux.HandleFunc("/ct/v1/get-sth", wrapper(f.get_sth))
	mux.HandleFunc("/ct/v1/get-sth-consistency", wrapper(f.get_sth_consistency))
	mux.HandleFunc("/ct/v1/get-proof-by-hash", wrapper(f.get_proof_by_hash))
	mux.HandleFunc("/ct/v1/get-entries", wrapper(f.get_entries))
	mux.HandleFunc("/ct/v1/get-roots", wrapper(f.get_roots))
	mux.HandleFunc("/ct/v1/get-entry-and-proof", wrapper(f.get_entry_and_proof))
	return mux
}

// vhAsk performs a request against the handlers; code -1 is a panic
func vhAsk(h http.Handler, path string, q url.Values) (code int, body []byte) {
	r := httptest.NewRequest("GET", "/ct/v1/"+path+"?"+q.Encode(), nil)
	w := httptest.NewRecorder()
	if p := vhPanics(func() { h.ServeHTTP(w, r) }); p != nil {
		return -1, []byte(fmt.Sprint(p))
	}
	return w.Code, w.Body.Bytes()
}

func vhQ(kv ...string) url.Values {
	v := url.Values{}
	for i := 0; i < len(kv); i += 2 {
		v.Set(kv[i], kv[i+1])
	}
	return v
}

// vhHistory publishes a log of n random entries in batches of at most 255, keeping every intermediate partial tile
func vhHistory(r *rand.Rand, n int, big bool) (*vhLog, []int) {
	var issuers [][]byte
	for i := 0; i < 5; i++ {
		b := make([]byte, 3+r.Intn(40))
		r.Read(b)
		issuers = append(issuers, b)
	}
	l := &vhLog{}
	for i := 0; i < n; i++ {
		l.add(vhRandEntry(r, i, issuers))
	}
	var sizes []int
	for s := 0; s < n; {
		s = min(n, s+1+r.Intn(255))
		sizes = append(sizes, s)
	}
	return l, sizes
}

// vhPublished is the store after publishing the sizes in turn
func vhPublished(l *vhLog, sizes []int) map[string][]byte {
	m := map[string][]byte{}
	prev := 0
	for _, n := range sizes {
		for L, cnt := 0, int64(n); cnt > 0; L, cnt = L+1, cnt>>8 {
			for N := max(0, int64(prev)>>(8*L)>>8-1); N*256 < cnt; N++ {
				W := int(min(256, cnt-N*256))
				m[vhTilePath(L, N, W)] = l.hashTile(L, N, W)
				if L == 0 {
					m[vhTilePath(-1, N, W)] = l.dataTile(N, W)
				}
			}
		}
		prev = n
	}
	if prev > 0 {
		for _, e := range l.E[:prev] {
			for _, c := range e.Chain {
				m[fmt.Sprintf("issuer/%x", sha256.Sum256(c))] = c
			}
		}
	}
	m["ct/v1/get-sth"] = l.sth(prev)
	m["ct/v1/get-roots"] = []byte(`{"certificates":["AAAA"]}`)
	return m
}

// vhIndexObjects is the hash index of the first n leaves at a mask size
func vhIndexObjects(l *vhLog, n, mask int) map[string][]byte {
	type rec struct {
		h [32]byte
		i int
	}
	b := map[string][]rec{}
	seen := map[string]bool{}
	for i, e := range l.E[:n] {
		h := [32]byte(tlog.RecordHash(e.leaf()))
		if seen[string(h[:16])] {
			continue
		}
		seen[string(h[:16])] = true
		b[vhIndexKey(h[:], mask)] = append(b[vhIndexKey(h[:], mask)], rec{h, i})
	}
	m := map[string][]byte{}
	for k, rs := range b {
		sort.Slice(rs, func(i, j int) bool { return string(rs[i].h[:16]) < string(rs[j].h[:16]) })
		var o []byte
		for _, x := range rs {
			o = append(o, x.h[:16]...)
			for s := 0; s < 5; s++ {
				o = append(o, byte(x.i>>(8*s)))
			}
		}
		m[k] = o
	}
	return m
}

func vhIndexKey(h []byte, mask int) string {
	x := fmt.Sprintf("%x", h[:16])[:mask]
	p := ""
	for i := 0; i < len(x); i += 2 {
		if i > 0 {
			p += "/"
		}
		p += x[i:min(i+2, len(x))]
	}
	return "int/hashes/" + p
}

func vhWriteFS(dir string, m map[string][]byte) {
	for k, v := range m {
		os.MkdirAll(filepath.Dir(filepath.Join(dir, k)), 0o755)
		if err := os.WriteFile(filepath.Join(dir, k), v, 0o644); err != nil {
			panic(err)
		}
	}
}

func vhJSON(b []byte, v any) bool { return json.Unmarshal(b, v) == nil }
