package PKG

import (
	"bytes"
	"fmt"
	"strconv"
	"testing"
)

// c12Check judges one answer: entries must be the true ones from start on, contiguous, within the range asked for and the tree
func c12Check(l *vhLog, T int, start, end string, must bool, code int, body []byte) string {
	s, e1 := strconv.ParseInt(start, 10, 64)
	e, e2 := strconv.ParseInt(end, 10, 64)
	if code == -1 {
		return "panics: " + string(body)
	}
	if e1 != nil || e2 != nil || s < 0 || e < s || s >= int64(T) {
		if code < 400 || code > 499 {
			return fmt.Sprintf("status %d %.100q, want 4xx", code, body)
		}
		return ""
	}
	if code != 200 {
		if must || code < 400 {
			return fmt.Sprintf("status %d %.100q", code, body)
		}
		return ""
	}
	var r struct {
		Entries []struct {
			LeafInput []byte `json:"leaf_input"`
			ExtraData []byte `json:"extra_data"`
		} `json:"entries"`
	}
	if !vhJSON(body, &r) {
		return fmt.Sprintf("body %.100q", body)
	}
	e = min(e, int64(T)-1)
	if int64(len(r.Entries)) > e-s+1 {
		return fmt.Sprintf("%d entries, but only %d were asked for", len(r.Entries), e-s+1)
	}
	if must && len(r.Entries) == 0 {
		return "no entries"
	}
	if must && e-s < 1024 && int64(len(r.Entries)) != e-s+1 {
		return fmt.Sprintf("%d entries, want %d", len(r.Entries), e-s+1)
	}
	for i, x := range r.Entries {
		w := l.E[int(s)+i]
		if !bytes.Equal(x.LeafInput, w.leaf()) {
			return fmt.Sprintf("entry %d of the answer: leaf_input %x, want leaf %d: %x", i, x.LeafInput, int(s)+i, w.leaf())
		}
		if !bytes.Equal(x.ExtraData, w.extraData()) {
			return fmt.Sprintf("entry %d of the answer: extra_data %x, want that of leaf %d: %x", i, x.ExtraData, int(s)+i, w.extraData())
		}
	}
	return ""
}

func TestVerifC12(t *testing.T) {
	r := vhRand()
	sizes := []int{1, 2, 3, 7, 20, 255, 256, 257, 300, 511, 512, 513, 700, 768, 1025, 1400}
	if vhThorough() {
		for i := 0; i < 10; i++ {
			sizes = append(sizes, 1+r.Intn(3000))
		}
	}
	for _, n := range sizes {
		l, hist := vhHistory(r, n, false)
		m := vhPublished(l, hist)
		s := &vhMem{m: m, budget: -1}
		h := vhHandler(s, 2)
		ask := func(start, end string, must bool, what string) {
			vhCase("published size %d, %sget-entries start=%s end=%s", n, what, start, end)
			s.keys = nil
			code, body := vhAsk(h, "get-entries", vhQ("start", start, "end", end))
			if e := c12Check(l, n, start, end, must, code, body); e != "" {
				vhFail(t, "published tree of size %d (batches end at %v), %sget-entries?start=%s&end=%s: %s", n, hist, what, start, end, e)
			} else if e := s.checkKeys(); e != "" && what == "" {
				vhFail(t, "published tree of size %d: get-entries?start=%s&end=%s: %s", n, start, end, e)
			}
		}
		var pairs [][2]int
		if n <= 20 {
			for i := 0; i <= n; i++ {
				for j := -1; j <= n+1; j++ {
					pairs = append(pairs, [2]int{i, j})
				}
			}
		} else {
			at := []int{0, 1, 2, 254, 255, 256, 257, 510, 511, 512, 513, 767, 768, n / 2, n - 2, n - 1, n, n + 1}
			for _, i := range at {
				for _, j := range at {
					if i <= n && j <= n+1 && (j-i < 40 || r.Intn(3) == 0) {
						pairs = append(pairs, [2]int{i, j})
					}
				}
			}
			for k := 0; k < 20; k++ {
				i := r.Intn(n)
				pairs = append(pairs, [2]int{i, i + r.Intn(n-i+10)})
			}
		}
		for _, p := range pairs {
			ask(fmt.Sprint(p[0]), fmt.Sprint(p[1]), true, "")
		}
		odd := []string{"", "-1", "x", "1.5", "0x1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", " 0", "+0", "00", fmt.Sprint(n), fmt.Sprint(n - 1), "0"}
		for _, a := range odd {
			for _, b := range odd {
				ask(a, b, false, "")
			}
		}
		// a bounded number of requests, one failing or missing object, one damaged object
		for k := 0; k < 40; k++ {
			i := r.Intn(n)
			a, b := fmt.Sprint(i), fmt.Sprint(i+r.Intn(min(n-i, 30)+3))
			if k%2 == 0 {
				s.budget = 1 + r.Intn(40)
				ask(a, b, false, fmt.Sprintf("%d storage requests left, ", s.budget))
				s.budget = -1
			} else {
				if k%4 == 1 {
					b = fmt.Sprint(n - 1)
				}
				ask(a, b, true, "")
				f := s.keys[r.Intn(len(s.keys))]
				s.fail = map[string]int{f: 1 + r.Intn(2)}
				ask(a, b, false, "reading "+f+" fails, ")
				if code, body := vhAsk(h, "get-entries", vhQ("start", a, "end", b)); code == 200 && !bytes.Contains(body, []byte("leaf_input")) {
					vhFail(t, "published tree of size %d (batches end at %v), reading %s fails (%d: 1 not found, 2 another error), get-entries?start=%s&end=%s: status 200 and no entries", n, hist, f, s.fail[f], a, b)
				}
				s.fail = nil
				if o := s.m[f]; len(o) > 0 {
					// nothing is promised about a damaged object but that the answer is an HTTP one
					x := append([]byte{}, o[:r.Intn(len(o)+1)]...)
					if len(x) > 0 && r.Intn(2) == 0 {
						x[r.Intn(len(x))] ^= byte(1 + r.Intn(255))
					}
					s.m[f] = x
					vhCase("published size %d, object %s is %d bytes %.40x..., get-entries start=%s end=%s", n, f, len(x), x, a, b)
					code, body := vhAsk(h, "get-entries", vhQ("start", a, "end", b))
					if code == -1 {
						vhFail(t, "published tree of size %d, object %s is %x: get-entries?start=%s&end=%s panics: %s", n, f, x, a, b, body)
					}
					s.m[f] = o
				}
			}
		}
	}
	vhDone()
}
