package PKG

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"
	"sync"
)

// vhS3Server is an S3-like object store whose next answers can be scripted
type vhS3Server struct {
	mu    sync.Mutex
	objs  map[string][]byte
	fail  string // "", "403", "404bucket", "truncate"
	reqs  []string
	auths []string
}

func (s *vhS3Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.reqs = append(s.reqs, r.Method+" "+r.URL.Path)
	s.auths = append(s.auths, r.Header.Get("Authorization"))
	body, _ := io.ReadAll(r.Body)
	xml := func(code int, c string) {
		w.Header().Set("Content-Type", "application/xml")
		w.WriteHeader(code)
		if r.Method != "HEAD" {
			fmt.Fprintf(w, "<?xml version=\"1.0\"?><Error><Code>%s</Code><Message>m</Message></Error>", c)
		}
	}
	if s.fail == "403" {
		xml(403, "AccessDenied")
		return
	}
	if s.fail == "404bucket" {
		xml(404, "NoSuchBucket")
		return
	}
	if strings.Contains(r.Header.Get("X-Amz-Content-Sha256"), "STREAMING") {
		body = vhUnchunk(body)
	}
	switch r.Method {
	case "GET", "HEAD":
		b, ok := s.objs[r.URL.Path]
		if !ok {
			xml(404, "NoSuchKey")
			return
		}
		if rg := r.Header.Get("Range"); rg != "" && len(b) > 0 {
			b = b[:1]
		}
		if r.Method == "GET" && s.fail == "truncate" {
			w.Header().Set("Content-Length", strconv.Itoa(len(b)+7))
			w.WriteHeader(200)
			w.Write(b)
			return
		}
		w.Header().Set("Content-Length", strconv.Itoa(len(b)))
		w.WriteHeader(200)
		if r.Method == "GET" {
			w.Write(b)
		}
	case "PUT":
		s.objs[r.URL.Path] = body
		w.WriteHeader(200)
	default:
		xml(405, "MethodNotAllowed")
	}
}

func vhUnchunk(b []byte) []byte {
	var out []byte
	for {
		i := bytes.Index(b, []byte("\r\n"))
		if i < 0 {
			return out
		}
		h := string(b[:i])
		if j := strings.IndexByte(h, ';'); j >= 0 {
			h = h[:j]
		}
		n, err := strconv.ParseInt(h, 16, 64)
		if err != nil || n == 0 {
			return out
		}
		b = b[i+2:]
		out = append(out, b[:n]...)
		b = b[n+2:]
	}
}
