package PKG

import (
	"bytes"
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"testing"

	"golang.org/x/mod/sumdb/tlog"
)

type c14Resp struct {
	LeafInput []byte   `json:"leaf_input"`
	ExtraData []byte   `json:"extra_data"`
	AuditPath [][]byte `json:"audit_path"`
}

func c14Check(l *vhLog, n, i int, code int, body []byte) string {
	if code != 200 {
		return fmt.Sprintf("status %d %.200s", code, body)
	}
	var r c14Resp
	if !vhJSON(body, &r) {
		return fmt.Sprintf("body %.200q", body)
	}
	if !bytes.Equal(r.LeafInput, l.E[i].leaf()) {
		return fmt.Sprintf("leaf_input %x, want %x", r.LeafInput, l.E[i].leaf())
	}
	if !bytes.Equal(r.ExtraData, l.E[i].extraData()) {
		return fmt.Sprintf("extra_data %x, want %x", r.ExtraData, l.E[i].extraData())
	}
	var p tlog.RecordProof
	for _, h := range r.AuditPath {
		if len(h) != 32 {
			return "audit path hash of wrong length"
		}
		p = append(p, tlog.Hash(h))
	}
	if err := tlog.CheckRecord(p, int64(n), l.root(n), int64(i), tlog.RecordHash(l.E[i].leaf())); err != nil {
		return fmt.Sprintf("audit path of %d hashes does not verify: %v", len(p), err)
	}
	return ""
}

func TestVerifC14(t *testing.T) {
	r := vhRand()
	sizes := []int{1, 2, 3, 7, 255, 256, 257, 258, 300, 511, 512, 513, 700, 768, 1025}
	if vhThorough() {
		for i := 0; i < 12; i++ {
			sizes = append(sizes, 1+r.Intn(3000))
		}
		sizes = append(sizes, 65535, 65536, 65537, 66100)
	}
	for _, n := range sizes {
		l, hist := vhHistory(r, n, false)
		m := vhPublished(l, hist)
		s := &vhMem{m: m, budget: -1}
		h := vhHandler(s, 2)
		var leaves []int
		if n <= 600 || vhThorough() && n < 3500 {
			for i := 0; i < n; i++ {
				leaves = append(leaves, i)
			}
		} else {
			for _, i := range []int{0, 1, 254, 255, 256, 257, 511, 512, n / 2, n - 257, n - 256, n - 255, n - 2, n - 1, n - 1 - (n-1)%256, n - 2 - (n-1)%256, 65535, 65536} {
				if i >= 0 && i < n {
					leaves = append(leaves, i)
				}
			}
			for i := 0; i < 100; i++ {
				leaves = append(leaves, r.Intn(n))
			}
		}
		for _, i := range leaves {
			vhCase("published size %d, get-entry-and-proof leaf_index=%d tree_size=%d", n, i, n)
			s.keys = nil
			code, body := vhAsk(h, "get-entry-and-proof", vhQ("leaf_index", fmt.Sprint(i), "tree_size", fmt.Sprint(n)))
			if e := c14Check(l, n, i, code, body); e != "" {
				vhFail(t, "published tree of size %d (batches end at %v): get-entry-and-proof?leaf_index=%d&tree_size=%d: %s; requested %q", n, hist, i, n, e, s.keys)
			} else if e := s.checkKeys(); e != "" {
				vhFail(t, "published tree of size %d: get-entry-and-proof?leaf_index=%d&tree_size=%d: %s; requested %q", n, i, n, e, s.keys)
			}
		}
		if n <= 600 {
			// every tree size that was published: right or an error, never a wrong answer
			for k := 0; k < 60; k++ {
				ts := hist[r.Intn(len(hist))]
				if k%2 == 1 {
					ts = 1 + r.Intn(n)
				}
				i := r.Intn(ts)
				s.keys = nil
				vhCase("published size %d, get-entry-and-proof leaf_index=%d tree_size=%d", n, i, ts)
				code, body := vhAsk(h, "get-entry-and-proof", vhQ("leaf_index", fmt.Sprint(i), "tree_size", fmt.Sprint(ts)))
				if e := c14Check(l, ts, i, code, body); e != "" && (code < 400 || code == -1) {
					vhFail(t, "published tree of size %d: get-entry-and-proof?leaf_index=%d&tree_size=%d: %s", n, i, ts, e)
				}
				for _, q := range s.keys {
					if strings.HasPrefix(q, "tile/data/") && strings.Contains(q, ".p/") && !strings.HasSuffix(q, fmt.Sprintf(".p/%d", n%256)) {
						vhFail(t, "published tree of size %d: get-entry-and-proof?leaf_index=%d&tree_size=%d requests %s, not the published width %d; requested %q", n, i, ts, q, n%256, s.keys)
					}
				}
				// one failing or missing object
				if len(s.keys) > 0 {
					s.keys = nil
					vhAsk(h, "get-entry-and-proof", vhQ("leaf_index", fmt.Sprint(i), "tree_size", fmt.Sprint(n)))
					f := s.keys[r.Intn(len(s.keys))]
					s.fail, s.keys = map[string]int{f: 1 + r.Intn(2)}, nil
					code, body := vhAsk(h, "get-entry-and-proof", vhQ("leaf_index", fmt.Sprint(i), "tree_size", fmt.Sprint(n)))
					if e := c14Check(l, n, i, code, body); e != "" && (code < 400 || code == -1) {
						vhFail(t, "published tree of size %d, reading %s fails: get-entry-and-proof?leaf_index=%d&tree_size=%d: %s", n, f, i, n, e)
					}
					if q := s.checkFail(f); q != "" {
						vhFail(t, "published tree of size %d, reading %s fails (%d: 1 not found, 2 another error): get-entry-and-proof?leaf_index=%d&tree_size=%d: %s", n, f, s.fail[f], i, n, q)
					}
					s.fail = nil
				}
			}
		}
		for _, q := range [][2]string{{"-1", fmt.Sprint(n)}, {fmt.Sprint(n), fmt.Sprint(n)}, {"0", fmt.Sprint(n + 1)}, {"0", "0"}, {"", "1"}, {"0", ""}, {"x", "1"}, {"0", "-5"}, {"9223372036854775807", "9223372036854775807"}, {"0", "9223372036854775808"}} {
			code, _ := vhAsk(h, "get-entry-and-proof", vhQ("leaf_index", q[0], "tree_size", q[1]))
			if code < 400 || code >= 500 {
				vhFail(t, "published tree of size %d: get-entry-and-proof?leaf_index=%s&tree_size=%s: status %d, want 4xx", n, q[0], q[1], code)
			}
		}
	}
	// the storages of a deployment behind the real routes
	l, hist := vhHistory(r, 300, false)
	m := vhPublished(l, hist)
	d, err := os.MkdirTemp("", "c14")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	vhWriteFS(d, m)
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		b, ok := m[q.URL.Path[1:]]
		if !ok {
			w.WriteHeader(404)
			return
		}
		w.Write(b)
	}))
	defer srv.Close()
	for name, a := range map[string][2]string{"file": {d, ""}, "url": {"", srv.URL + "/"}} {
		h, err := Start(context.Background(), a[0], a[1], 2)
		if err != nil {
			vhFail(t, "Start with %s storage: %v", name, err)
			continue
		}
		for _, i := range []int{0, 255, 256, 299} {
			vhCase("%s storage, published size 300, get-entry-and-proof leaf_index=%d", name, i)
			code, body := vhAsk(h, "get-entry-and-proof", vhQ("leaf_index", fmt.Sprint(i), "tree_size", "300"))
			if e := c14Check(l, 300, i, code, body); e != "" {
				vhFail(t, "%s storage, published tree of size 300: get-entry-and-proof?leaf_index=%d&tree_size=300: %s", name, i, e)
			}
		}
	}
	vhDone()
}
