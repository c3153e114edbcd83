package ctmonitor

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"testing"
	"time"
)

// c21Store hands out what it read before it failed
type c21Store struct{ *vhMem }

func (s *c21Store) Get(ctx context.Context, key string) ([]byte, bool, error) {
	b, nf, err := s.vhMem.Get(ctx, key)
	if err != nil {
		b = []byte("partial")
	}
	return b, nf, err
}

// TestVerifC21: get-sth and get-roots answer the published objects, byte for byte
func TestVerifC21(t *testing.T) {
	r := vhRand()
	objs := map[string]string{"get-sth": "ct/v1/get-sth", "get-roots": "ct/v1/get-roots"}
	for j := 0; j < 40; j++ {
		m := map[string][]byte{}
		for _, k := range objs {
			b := make([]byte, []int{0, 1, 2, 300, 5000, 100000}[r.Intn(6)])
			r.Read(b)
			switch r.Intn(4) {
			case 0:
				b = []byte([]string{"{\"certificates\": [ ]}\n", " {}", "{\"a\":1, \"a\" :2}\r\n", "\ufeff{\"tree_size\":  3}"}[r.Intn(4)])
			case 1:
				b = []byte("{\"certificates\": [\"PDw+\", \"\\u003c\"],\n \"x\": 1.0}\n")
			}
			if r.Intn(6) > 0 {
				m[k] = b
			}
		}
		m["checkpoint"] = []byte("not this")
		m["tile/0/000"] = []byte("nor this")
		d, err := os.MkdirTemp("", "c21")
		if err != nil {
			t.Fatal(err)
		}
		vhWriteFS(d, m)
		ask := map[string]func(ep string) (int, []byte){}
		mem := &vhMem{m: m, budget: -1}
		hm := vhHandler(&c21Store{mem}, 2)
		ask["handler"] = func(ep string) (int, []byte) { return vhAsk(hm, ep, url.Values{}) }
		if h, err := Start(context.Background(), d, "", 2); err == nil {
			ask["Start over file storage"] = func(ep string) (int, []byte) { return vhAsk(h, ep, url.Values{}) }
		} else {
			vhFail(t, "Start: %v", err)
		}
		if j == 0 {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err == nil {
				c := make(chan struct{}, 1)
				go MainMain(l, d, "", 2, c)
				select {
				case <-c:
				case <-time.After(5 * time.Second):
					vhFail(t, "MainMain does not start")
				}
				ask["MainMain"] = func(ep string) (int, []byte) {
					cl := http.Client{Timeout: 5 * time.Second}
					q, err := cl.Get("http://" + l.Addr().String() + "/ct/v1/" + ep)
					if err != nil {
						return -1, []byte(err.Error())
					}
					defer q.Body.Close()
					b, _ := io.ReadAll(q.Body)
					return q.StatusCode, b
				}
			}
		}
		for name, f := range ask {
			for ep, k := range objs {
				want, ok := m[k]
				desc := fmt.Sprintf("%s: %s with %d bytes stored (present=%v)", name, ep, len(want), ok)
				vhCase("%s", desc)
				code, body := f(ep)
				if ok && (code != 200 || !bytes.Equal(body, want)) {
					vhFail(t, "%s: status %d, %d bytes %.60q", desc, code, len(body), body)
				}
				if !ok && (code < 500 || code > 599) {
					vhFail(t, "%s: status %d %.60q, want an error", desc, code, body)
				}
			}
		}
		os.RemoveAll(d)
	}
	vhDone()
}
