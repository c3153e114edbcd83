package PKG

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"strconv"
	"testing"

	"golang.org/x/mod/sumdb/tlog"
)

func c13Hashes(hs [][]byte) ([]tlog.Hash, bool) {
	var p []tlog.Hash
	for _, h := range hs {
		if len(h) != 32 {
			return nil, false
		}
		p = append(p, tlog.Hash(h))
	}
	return p, true
}

// what a consistency answer must be
func c13Cons(l *vhLog, T int, first, second string, must bool, code int, body []byte) string {
	m, e1 := strconv.ParseInt(first, 10, 64)
	n, e2 := strconv.ParseInt(second, 10, 64)
	if code == -1 {
		return "panics: " + string(body)
	}
	if e1 != nil || e2 != nil || m < 0 || n < m || n > int64(T) {
		if code < 400 || code > 499 {
			return fmt.Sprintf("status %d %.100q, want 4xx", code, body)
		}
		return ""
	}
	if code != 200 {
		if must || code < 400 {
			return fmt.Sprintf("status %d %.100q", code, body)
		}
		return ""
	}
	var r struct {
		C *[][]byte `json:"consistency"`
	}
	if !vhJSON(body, &r) || r.C == nil {
		return fmt.Sprintf("body %.100q", body)
	}
	p, ok := c13Hashes(*r.C)
	if !ok {
		return fmt.Sprintf("body %.100q", body)
	}
	if m == 0 {
		if len(p) != 0 {
			return fmt.Sprintf("proof from size 0 of %d hashes", len(p))
		}
		return ""
	}
	if err := tlog.CheckTree(p, n, l.root(int(n)), m, l.root(int(m))); err != nil {
		return fmt.Sprintf("proof of %d hashes does not verify: %v", len(p), err)
	}
	return ""
}

func c13Hash(l *vhLog, T int, hash, size string, idx int, must bool, code int, body []byte) string {
	n, e2 := strconv.ParseInt(size, 10, 64)
	h, e1 := base64.StdEncoding.DecodeString(hash)
	if code == -1 {
		return "panics: " + string(body)
	}
	if e1 != nil || len(h) != 32 || e2 != nil || n > int64(T) || idx < 0 || int64(idx) >= n {
		if code < 400 || code > 499 {
			return fmt.Sprintf("status %d %.100q, want 4xx", code, body)
		}
		return ""
	}
	if code != 200 {
		if must || code < 400 {
			return fmt.Sprintf("status %d %.100q", code, body)
		}
		return ""
	}
	var r struct {
		I *int64   `json:"leaf_index"`
		P [][]byte `json:"audit_path"`
	}
	if !vhJSON(body, &r) || r.I == nil {
		return fmt.Sprintf("body %.100q", body)
	}
	p, ok := c13Hashes(r.P)
	if !ok || *r.I != int64(idx) {
		return fmt.Sprintf("body %.100q, want leaf_index %d", body, idx)
	}
	if err := tlog.CheckRecord(p, n, l.root(int(n)), int64(idx), tlog.Hash(h)); err != nil {
		return fmt.Sprintf("audit path of %d hashes does not verify: %v", len(p), err)
	}
	return ""
}

func c13Both(l *vhLog, T int, leaf, size string, code int, body []byte) string {
	i, e1 := strconv.ParseInt(leaf, 10, 64)
	n, e2 := strconv.ParseInt(size, 10, 64)
	if code == -1 {
		return "panics: " + string(body)
	}
	if (e1 != nil || e2 != nil || i < 0 || i >= n || n > int64(T)) && (code < 400 || code > 499) {
		return fmt.Sprintf("status %d %.100q, want 4xx", code, body)
	}
	if code == 200 {
		var r struct {
			P [][]byte `json:"audit_path"`
		}
		if !vhJSON(body, &r) {
			return fmt.Sprintf("body %.100q", body)
		}
		p, ok := c13Hashes(r.P)
		if !ok {
			return fmt.Sprintf("body %.100q", body)
		}
		if err := tlog.CheckRecord(p, n, l.root(int(n)), i, tlog.RecordHash(l.E[i].leaf())); err != nil {
			return fmt.Sprintf("audit path of %d hashes does not verify: %v", len(p), err)
		}
	}
	return ""
}

var c13Odd = []string{"", "-1", "-0", "+1", "00", "x", "1e2", " 1", "1 ", "0x1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "4611686018427387904", "1099511627776", "1.0", "１"}

func TestVerifC13(t *testing.T) {
	r := vhRand()
	sizes := []int{1, 2, 5, 8, 13, 255, 256, 257, 300, 512, 600, 1030}
	if vhThorough() {
		for i := 0; i < 10; i++ {
			sizes = append(sizes, 1+r.Intn(2500))
		}
		sizes = append(sizes, 65535, 65536, 65537, 66000)
	}
	for _, T := range sizes {
		l, hist := vhHistory(r, T, false)
		m := vhPublished(l, hist)
		mask := r.Intn(5)
		for k, v := range vhIndexObjects(l, T, mask) {
			m[k] = v
		}
		s := &vhMem{m: m, budget: -1}
		h := vhHandler(s, mask)
		in := map[int]bool{}
		for _, x := range hist {
			in[x] = true
		}
		pick := func() string {
			switch r.Intn(8) {
			case 0:
				return c13Odd[r.Intn(len(c13Odd))]
			case 1:
				return fmt.Sprint(T + r.Intn(3))
			case 2:
				return fmt.Sprint(hist[r.Intn(len(hist))])
			case 3:
				return fmt.Sprint(256 * r.Intn(T/256+2))
			}
			return fmt.Sprint(r.Intn(T + 2))
		}
		cons := func(a, b string) {
			n, _ := strconv.Atoi(b)
			code, body := vhAsk(h, "get-sth-consistency", vhQ("first", a, "second", b))
			vhCase("published size %d, get-sth-consistency first=%q second=%q", T, a, b)
			if e := c13Cons(l, T, a, b, n == T || in[n], code, body); e != "" {
				vhFail(t, "published tree of size %d (batches end at %v): get-sth-consistency?first=%s&second=%s: %s", T, hist, a, b, e)
			}
		}
		if T <= 13 {
			for a := -1; a <= T+1; a++ {
				for b := -1; b <= T+1; b++ {
					cons(fmt.Sprint(a), fmt.Sprint(b))
				}
			}
		}
		for a := 0; a <= T && T < 2000; a += 1 + a/40 {
			cons(fmt.Sprint(a), fmt.Sprint(T))
		}
		for i := 0; i < 300; i++ {
			cons(pick(), pick())
		}
		for _, a := range c13Odd {
			cons(a, fmt.Sprint(T))
			cons("1", a)
			cons(a, a)
		}
		c13ByHash(t, r, l, T, h0{h: func(q ...string) (int, []byte) { return vhAsk(h, "get-proof-by-hash", vhQ(q...)) }}, in, pick)
		for i := 0; i < 200; i++ {
			a, b := pick(), pick()
			code, body := vhAsk(h, "get-entry-and-proof", vhQ("leaf_index", a, "tree_size", b))
			if e := c13Both(l, T, a, b, code, body); e != "" {
				vhFail(t, "published tree of size %d: get-entry-and-proof?leaf_index=%s&tree_size=%s: %s", T, a, b, e)
			}
		}
		// failures and corrupted objects: right or an error, never a panic or a wrong proof
		if T <= 600 {
			for i := 0; i < 100; i++ {
				a, b := pick(), fmt.Sprint(T)
				s.keys = nil
				vhAsk(h, "get-sth-consistency", vhQ("first", a, "second", b))
				if len(s.keys) == 0 {
					continue
				}
				k := s.keys[r.Intn(len(s.keys))]
				if i%2 == 0 || k == "ct/v1/get-sth" {
					s.fail = map[string]int{k: 1 + r.Intn(2)}
				} else {
					s.m = map[string][]byte{}
					for x, y := range m {
						s.m[x] = y
					}
					if b, ok := m[k]; ok {
						s.m[k] = b[:r.Intn(len(b))]
					}
				}
				vhCase("published size %d, reading %s fails or is cut short, get-sth-consistency first=%s second=%s", T, k, a, b)
				code, body := vhAsk(h, "get-sth-consistency", vhQ("first", a, "second", b))
				s.fail, s.m = nil, m
				if e := c13Cons(l, T, a, b, false, code, body); e != "" && (code < 500 || code == -1) {
					vhFail(t, "published tree of size %d, reading %s fails or is cut short: get-sth-consistency?first=%s&second=%s: %s", T, k, a, b, e)
				}
			}
		}
	}
	vhDone()
}

type h0 struct {
	h func(q ...string) (int, []byte)
}

func c13ByHash(t *testing.T, r *rand.Rand, l *vhLog, T int, h h0, in map[int]bool, pick func() string) {
	ask := func(hash, size string, idx int, must bool) {
		vhCase("published size %d, get-proof-by-hash hash=%s tree_size=%s", T, hash, size)
		code, body := h.h("hash", hash, "tree_size", size)
		if e := c13Hash(l, T, hash, size, idx, must, code, body); e != "" {
			vhFail(t, "published tree of size %d: get-proof-by-hash?hash=%s&tree_size=%s (leaf %d): %s", T, hash, size, idx, e)
		}
	}
	for j := 0; j < 400; j++ {
		i := r.Intn(T)
		if j < T && T < 400 {
			i = j
		}
		lh := tlog.RecordHash(l.E[i].leaf())
		hs := base64.StdEncoding.EncodeToString(lh[:])
		ask(hs, fmt.Sprint(T), i, true)
		sz := pick()
		n, _ := strconv.Atoi(sz)
		ask(hs, sz, i, in[n] || n == T)
		if j%8 == 0 {
			ask(hs[:len(hs)-1], fmt.Sprint(T), -1, false)
			ask(base64.StdEncoding.EncodeToString(lh[:r.Intn(32)]), fmt.Sprint(T), -1, false)
			ask(base64.StdEncoding.EncodeToString(append(lh[:], byte(j))), fmt.Sprint(T), -1, false)
			lh[r.Intn(16)] ^= byte(1 << r.Intn(8))
			ask(base64.StdEncoding.EncodeToString(lh[:]), fmt.Sprint(T), -1, false)
			ask("", fmt.Sprint(T), -1, false)
			ask("%%%", fmt.Sprint(T), -1, false)
		}
	}
	for _, o := range c13Odd {
		lh := tlog.RecordHash(l.E[0].leaf())
		ask(base64.StdEncoding.EncodeToString(lh[:]), o, 0, false)
	}
}
