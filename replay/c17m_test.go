package PKG

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strconv"
	"testing"

	"github.com/fastly/compute-sdk-go/cache/simple"
	"github.com/fastly/compute-sdk-go/fsthttp"
)

type c17Body struct {
	r    io.Reader
	fail bool
}

func (b *c17Body) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.fail {
		return n, errors.New("connection reset")
	}
	return n, err
}
func (b *c17Body) Close() error { return nil }

func TestVerifC17Monitor(t *testing.T) {
	r := vhRand()
	ctx := context.Background()
	keys := []string{"checkpoint", "ct/v1/get-sth", "tile/0/000", "tile/0/000.p/12", "int/hashes/0a/b1/c", "a"}
	datas := [][]byte{{}, {0}, []byte("hello\n"), bytes.Repeat([]byte{0xff, 0}, 5000), make([]byte, 1<<20)}
	r.Read(datas[4])
	base, err := os.MkdirTemp("", "c17")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(base)
	for n, k := range keys {
		vhCase("FsStorage.Get(%q)", k)
		s := &FsStorage{root: base}
		if b, nf, err := s.Get(ctx, k); err == nil || !nf {
			vhFail(t, "FsStorage.Get(%q) of a missing object: %q notfound=%v %v", k, b, nf, err)
		}
		os.MkdirAll(filepath.Dir(base+"/"+k), 0755)
		os.WriteFile(base+"/"+k, datas[n%len(datas)], 0644)
		if b, nf, err := s.Get(ctx, k); err != nil || nf || !bytes.Equal(b, datas[n%len(datas)]) {
			vhFail(t, "FsStorage.Get(%q): %d bytes notfound=%v %v", k, len(b), nf, err)
		}
		if b, nf, err := s.Get(ctx, k+"/below"); err == nil || nf {
			vhFail(t, "FsStorage.Get(%q) below a plain file: %q notfound=%v %v", k+"/below", b, nf, err)
		}
	}
	if b, nf, err := (&FsStorage{root: base}).Get(ctx, "tile"); err == nil || nf {
		vhFail(t, "FsStorage.Get of a directory: %q notfound=%v %v", b, nf, err)
	}
	// URL storage
	var path, method string
	var status int
	var body []byte
	var truncate bool
	hs := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		path, method = r.URL.Path, r.Method
		if truncate {
			w.Header().Set("Content-Length", strconv.Itoa(len(body)+5))
		}
		w.WriteHeader(status)
		w.Write(body)
	}))
	for n, k := range keys {
		for _, pre := range []string{"/", "/some/prefix/"} {
			u := &UrlStorage{urlPrefix: hs.URL + pre}
			for _, st := range []int{200, 404, 403, 500, 503, 204, 206, 410} {
				for _, tr := range []bool{false, true} {
					if tr && st != 200 {
						continue
					}
					truncate, status, body = tr, st, datas[n%len(datas)]
					if st == 204 {
						body = nil
					}
					vhCase("UrlStorage.Get(%q) status %d truncated=%v", k, st, tr)
					b, nf, err := u.Get(ctx, k)
					if path != pre+k || method != "GET" {
						vhFail(t, "UrlStorage.Get(%q) with prefix %q requested %s %s", k, pre, method, path)
					}
					if st == 200 && !tr && (err != nil || nf || !bytes.Equal(b, body)) {
						vhFail(t, "UrlStorage.Get(%q) answered 200 with %d bytes: %d bytes notfound=%v %v", k, len(body), len(b), nf, err)
					}
					if (st != 200 || tr) && (err == nil || nf != (st == 404)) {
						vhFail(t, "UrlStorage.Get(%q) answered %d (truncated=%v): %d bytes notfound=%v %v", k, st, tr, len(b), nf, err)
					}
				}
			}
		}
	}
	hs.Close()
	if _, nf, err := (&UrlStorage{urlPrefix: hs.URL + "/"}).Get(ctx, "a"); err == nil || nf {
		vhFail(t, "UrlStorage.Get with the server gone: notfound=%v %v", nf, err)
	}
	// fastly storage, with the request and the edge cache replaced
	for _, local := range []bool{false, true} {
		if local {
			os.Setenv("FASTLY_HOSTNAME", "localhost")
		} else {
			os.Setenv("FASTLY_HOSTNAME", "cache-xyz")
		}
		os.Setenv("FASTLY_SERVICE_VERSION", "17")
		for n, k := range keys {
			for _, st := range []int{200, 404, 403, 500, 204, 206} {
				for _, how := range []string{"", "senderr", "readerr", "cacheerr", "hit"} {
					if (how == "cacheerr" || how == "hit") && local {
						continue
					}
					for _, cc := range []string{"", "max-age=60", "public, max-age=5", "no-store", "max-age=", "max-age=x", "max-age"} {
						data := datas[n%len(datas)]
						sends := 0
						var surl, sback string
						fsthttp.VerifSend = func(req *fsthttp.Request, backend string) (*fsthttp.Response, error) {
							sends++
							surl, sback = req.Method+" "+req.URL.String(), backend
							if how == "senderr" {
								return nil, errors.New("send failed")
							}
							h := fsthttp.NewHeader()
							if cc != "" {
								h.Set("cache-control", cc)
							}
							return &fsthttp.Response{StatusCode: st, Header: h, Body: &c17Body{bytes.NewReader(data), how == "readerr"}}, nil
						}
						var ckey string
						simple.VerifGetOrSet = func(key []byte, fn func() (simple.CacheEntry, error)) (io.ReadCloser, error) {
							ckey = string(key)
							if how == "hit" {
								return io.NopCloser(bytes.NewReader(data)), nil
							}
							e, err := fn()
							if err != nil {
								return nil, err
							}
							if how == "cacheerr" {
								return nil, errors.New("cache broken")
							}
							return io.NopCloser(e.Body), nil
						}
						s := &FastlyStorage{backend: "bucket.example", cache: map[string]*CacheEntry{}}
						want := "https://bucket.example/" + k
						desc := fmt.Sprintf("FastlyStorage.Get(%q) local=%v response %d fault=%q cache-control=%q", k, local, st, how, cc)
						vhCase("%s", desc)
						for round := 0; round < 2; round++ {
							d := fmt.Sprintf("%s read #%d", desc, round+1)
							b, nf, err := s.Get(ctx, k)
							if sends > 0 && (surl != "GET "+want || sback != "bucket.example") {
								vhFail(t, "%s: sent %s to %s", d, surl, sback)
							}
							if !local && round == 0 && ckey != "17"+want {
								vhFail(t, "%s: edge cache key %q", d, ckey)
							}
							ok := how == "hit" || st == 200 && how != "senderr" && how != "readerr" && how != "cacheerr"
							if round == 1 && how == "cacheerr" && st == 200 {
								// the object itself was read completely
								ok = err == nil
							}
							if ok && (err != nil || nf || !bytes.Equal(b, data)) {
								vhFail(t, "%s: %d bytes notfound=%v %v, want %d bytes", d, len(b), nf, err, len(data))
							}
							wantnf := st == 404 && how != "senderr" && how != "hit"
							if !ok && (err == nil || nf != wantnf) {
								vhFail(t, "%s: %d bytes notfound=%v %v, want an error and notfound=%v", d, len(b), nf, err, wantnf)
							}
						}
					}
				}
			}
		}
	}
	// an unusable URL is an error, not a panic
	vhCase("FastlyStorage.Get with an unusable key")
	s := &FastlyStorage{backend: "bucket.example", cache: map[string]*CacheEntry{}}
	if p := vhPanics(func() {
		if _, nf, err := s.Get(ctx, "%zz\x7f"); err == nil || nf {
			vhFail(t, "FastlyStorage.Get with an unusable key: notfound=%v %v", nf, err)
		}
	}); p != nil {
		vhFail(t, "FastlyStorage.Get with an unusable key panics: %v", p)
	}
	vhDone()
}
