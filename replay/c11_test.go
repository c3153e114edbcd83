package PKG

import (
	"fmt"
	"strings"
	"testing"

	"golang.org/x/mod/sumdb/tlog"
)

func c11Path(t tlog.Tile) string {
	d := fmt.Sprintf("%d", t.N)
	for len(d)%3 != 0 {
		d = "0" + d
	}
	var gs []string
	for i := 0; i < len(d); i += 3 {
		g := d[i : i+3]
		if i+3 < len(d) {
			g = "x" + g
		}
		gs = append(gs, g)
	}
	l := "data"
	if t.L != -1 {
		l = fmt.Sprint(t.L)
	}
	s := "tile/" + l + "/" + strings.Join(gs, "/")
	if t.W != 256 {
		s += ".p/" + fmt.Sprint(t.W)
	}
	return s
}

func TestVerifC11(t *testing.T) {
	r := vhRand()
	ns := []int64{0, 1, 9, 10, 99, 100, 255, 256, 998, 999, 1000, 1001, 9999, 10000, 99999, 100000, 999000, 999999, 1000000, 1000001, 1001000, 999999999, 1000000000, 1000001000, 1<<31 - 1, 1 << 31, 1<<32 + 17, 999999999999, 1000000000000, 1<<40 - 1, 999999999999999, 1000000000000000, 1<<55 + 1, 999999999999999999, 1000000000000000000, 1<<63 - 1}
	for i := int64(0); i < 3000; i++ {
		ns = append(ns, i)
	}
	for i := 0; i < 3000; i++ {
		ns = append(ns, int64(r.Uint64()>>uint(1+r.Intn(62))))
	}
	seen := map[string]tlog.Tile{}
	for _, n := range ns {
		for _, l := range []int{-1, 0, 1, 2, 3, 4, 5, 7, 10, 63} {
			for _, w := range []int{256, 1, 2, 9, 10, 99, 100, 128, 255, 1 + r.Intn(256)} {
				tl := tlog.Tile{H: 8, L: l, N: n, W: w}
				if vhN%1000 == 0 {
					vhCase("Path(%+v)", tl)
				} else {
					vhN++
				}
				var p string
				if e := vhPanics(func() { p = Path(tl) }); e != nil {
					vhFail(t, "Path(%+v) panics: %v", tl, e)
					continue
				}
				if p != c11Path(tl) {
					vhFail(t, "Path(%+v) = %q, want %q", tl, p, c11Path(tl))
				}
				if o, ok := seen[p]; ok && o != tl {
					vhFail(t, "Path(%+v) = Path(%+v) = %q", tl, o, p)
				}
				if len(seen) < 400000 {
					seen[p] = tl
				}
			}
		}
	}
	for i := 0; i < 3000; i++ {
		h := make([]byte, 16)
		r.Read(h)
		if i < 256 {
			h[0], h[1] = byte(i), byte(255-i)
		}
		hx := fmt.Sprintf("%x", h)
		for m := 0; m <= 32; m++ {
			vhN++
			want := ""
			for j := 0; j < m; j++ {
				if j > 0 && j%2 == 0 {
					want += "/"
				}
				want += hx[j : j+1]
			}
			var p string
			if e := vhPanics(func() { p = KAnonHashPath(h, m) }); e != nil || p != want {
				vhFail(t, "KAnonHashPath(%x, %d) = %q (panic %v), want %q", h, m, p, e, want)
			}
		}
	}
	vhDone()
}
