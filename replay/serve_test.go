package ctmonitor

import (
	"bytes"
	"context"
	"encoding/base64"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"strings"
	"testing"

	"github.com/fastly/compute-sdk-go/cache/simple"
	"github.com/fastly/compute-sdk-go/configstore"
	"github.com/fastly/compute-sdk-go/fsthttp"
	"golang.org/x/mod/sumdb/tlog"
)

// fastlyRW records what reaches the client
type fastlyRW struct {
	h    fsthttp.Header
	code int
	buf  bytes.Buffer
}

func (w *fastlyRW) Header() fsthttp.Header { return w.h }
func (w *fastlyRW) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}
func (w *fastlyRW) Write(p []byte) (int, error) {
	w.WriteHeader(200)
	return w.buf.Write(p)
}
func (w *fastlyRW) Close() error                    { return nil }
func (w *fastlyRW) SetManualFramingMode(bool)       {}
func (w *fastlyRW) Append(other io.ReadCloser) error { return nil }

// TestVerifServe asks the servers of the monitor (Start, FastlyServe) for every endpoint over published trees
func TestVerifServe(t *testing.T) {
	r := vhRand()
	dirs := 0
	type asker func(path string, q url.Values) (int, []byte)
	for _, n := range []int{1, 3, 255, 256, 300, 600} {
		l, hist := vhHistory(r, n, false)
		// what the hosts serve: the log, and another one behind another host
		other, ohist := vhHistory(r, n+5, false)
		for _, mask := range []int{1, 2, 5} {
			m, om := vhPublished(l, hist), vhPublished(other, ohist)
			for k, v := range vhIndexObjects(l, n, mask) {
				m[k] = v
			}
			dirs++
			d, err := os.MkdirTemp("", "serve"+strings.Repeat("x", dirs%9))
			if err != nil {
				t.Fatal(err)
			}
			vhWriteFS(d, m)
			srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
				b, ok := m[q.URL.Path[1:]]
				if !ok {
					w.WriteHeader(404)
					return
				}
				w.Write(b)
			}))
			as := map[string]asker{}
			for name, a := range map[string][2]string{"file": {d, ""}, "url": {"", srv.URL + "/"}} {
				h, err := Start(context.Background(), a[0], a[1], mask)
				if err != nil {
					vhFail(t, "Start with %s storage: %v", name, err)
					continue
				}
				as["Start over "+name+" storage"] = func(path string, q url.Values) (int, []byte) { return vhAsk(h, path, q) }
			}
			if mask == 5 {
				configstore.VerifGet = func(key string) (string, error) {
					switch key {
					case "log.example":
						return "backend-a", nil
					case "other.example":
						return "backend-b", nil
					}
					return "", configstore.ErrKeyNotFound
				}
				fsthttp.VerifSend = func(req *fsthttp.Request, backend string) (*fsthttp.Response, error) {
					src := m
					if backend == "backend-b" {
						src = om
					}
					b, ok := src[req.URL.Path[1:]]
					h := fsthttp.NewHeader()
					h.Set("cache-control", "max-age=5")
					if !ok || req.URL.Host != backend {
						return &fsthttp.Response{StatusCode: 404, Header: h, Body: io.NopCloser(bytes.NewReader(nil))}, nil
					}
					return &fsthttp.Response{StatusCode: 200, Header: h, Body: io.NopCloser(bytes.NewReader(b))}, nil
				}
				simple.VerifGetOrSet = func(key []byte, fn func() (simple.CacheEntry, error)) (io.ReadCloser, error) {
					e, err := fn()
					if err != nil {
						return nil, err
					}
					return io.NopCloser(e.Body), nil
				}
				as["FastlyServe"] = func(path string, q url.Values) (code int, body []byte) {
					req, err := fsthttp.NewRequest("GET", "https://edge.example/ct/v1/"+path+"?"+q.Encode(), nil)
					if err != nil {
						t.Fatal(err)
					}
					req.Host = "log.example"
					w := &fastlyRW{h: fsthttp.NewHeader()}
					if p := vhPanics(func() { FastlyServe(context.Background(), w, req) }); p != nil {
						return -1, []byte(fmt.Sprint(p))
					}
					return w.code, w.buf.Bytes()
				}
			}
			for name, ask := range as {
				must := name != "FastlyServe" // a request budget may end the list of entries early
				for _, p := range [][2]int{{0, n - 1}, {0, 0}, {n - 1, n - 1}, {n / 2, n}, {n, n}, {1, 0}, {n / 3, n / 2}} {
					vhCase("%s, published size %d: get-entries %v", name, n, p)
					code, body := ask("get-entries", vhQ("start", fmt.Sprint(p[0]), "end", fmt.Sprint(p[1])))
					if e := c12Check(l, n, fmt.Sprint(p[0]), fmt.Sprint(p[1]), must, code, body); e != "" {
						vhFail(t, "%s, published tree of size %d: get-entries?start=%d&end=%d: %s", name, n, p[0], p[1], e)
					}
				}
				// missing and malformed parameters
				for _, p := range [][2]string{{"", "0"}, {"0", ""}, {"", ""}, {"x", "0"}, {"-1", "0"}} {
					vhCase("%s, published size %d: parameters %q", name, n, p)
					code, body := ask("get-entries", vhQ("start", p[0], "end", p[1]))
					if e := c12Check(l, n, p[0], p[1], false, code, body); e != "" {
						vhFail(t, "%s, published tree of size %d: get-entries?start=%s&end=%s: %s", name, n, p[0], p[1], e)
					}
					code, body = ask("get-sth-consistency", vhQ("first", p[0], "second", p[1]))
					if e := c13Cons(l, n, p[0], p[1], false, code, body); e != "" {
						vhFail(t, "%s, published tree of size %d: get-sth-consistency?first=%s&second=%s: %s", name, n, p[0], p[1], e)
					}
					code, body = ask("get-entry-and-proof", vhQ("leaf_index", p[0], "tree_size", p[1]))
					if e := c13Both(l, n, p[0], p[1], code, body); e != "" {
						vhFail(t, "%s, published tree of size %d: get-entry-and-proof?leaf_index=%s&tree_size=%s: %s", name, n, p[0], p[1], e)
					}
					code, body = ask("get-proof-by-hash", vhQ("hash", p[0], "tree_size", p[1]))
					if e := c13Hash(l, n, p[0], p[1], -1, false, code, body); e != "" {
						vhFail(t, "%s, published tree of size %d: get-proof-by-hash?hash=%s&tree_size=%s: %s", name, n, p[0], p[1], e)
					}
				}
				for _, p := range [][2]int{{0, n}, {1, n}, {n, n}, {n, n + 1}, {n, n - 1}} {
					a, b := fmt.Sprint(p[0]), fmt.Sprint(p[1])
					vhCase("%s, published size %d: get-sth-consistency %v", name, n, p)
					code, body := ask("get-sth-consistency", vhQ("first", a, "second", b))
					if e := c13Cons(l, n, a, b, true, code, body); e != "" {
						vhFail(t, "%s, published tree of size %d: get-sth-consistency?first=%s&second=%s: %s", name, n, a, b, e)
					}
				}
				for _, i := range []int{0, n / 2, n - 1, n} {
					vhCase("%s, published size %d: get-entry-and-proof %d", name, n, i)
					code, body := ask("get-entry-and-proof", vhQ("leaf_index", fmt.Sprint(i), "tree_size", fmt.Sprint(n)))
					if i < n {
						if e := c14Check(l, n, i, code, body); e != "" {
							vhFail(t, "%s, published tree of size %d: get-entry-and-proof?leaf_index=%d&tree_size=%d: %s", name, n, i, n, e)
						}
						lh := tlog.RecordHash(l.E[i].leaf())
						hs := base64.StdEncoding.EncodeToString(lh[:])
						code, body = ask("get-proof-by-hash", vhQ("hash", hs, "tree_size", fmt.Sprint(n)))
						if e := c13Hash(l, n, hs, fmt.Sprint(n), i, true, code, body); e != "" {
							vhFail(t, "%s, mask %d, published tree of size %d: get-proof-by-hash of leaf %d: %s", name, mask, n, i, e)
						}
					} else if e := c13Both(l, n, fmt.Sprint(i), fmt.Sprint(n), code, body); e != "" {
						vhFail(t, "%s, published tree of size %d: get-entry-and-proof?leaf_index=%d&tree_size=%d: %s", name, n, i, n, e)
					}
				}
			}
			srv.Close()
			os.RemoveAll(d)
		}
	}
	vhDone()
}
