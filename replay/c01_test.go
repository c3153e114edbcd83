package PKG

import (
	"testing"
)

// vhPublish publishes batches of many shapes, without and with a failing storage operation of every kind
func vhPublish(t *testing.T) {
	defer vhDone()
	r := vhRand()
	type job struct {
		seed  int64
		size  int
		sizes []int
		fail  string
		slow  bool
	}
	var js []job
	add := func(size int, fail string, slow bool, sizes ...int) {
		js = append(js, job{r.Int63(), size, sizes, fail, slow})
	}
	for _, size := range []int{0, 1, 2, 254, 255, 256, 257, 511, 512, 513, 3 * 256, 1000} {
		add(size, "", false, 1, 0, 2, 255)
		add(size, "", true, 255, 255, 255, 0)
		add(size, "", true, 3, 1, 1, 1+r.Intn(254))
	}
	for _, n := range []int{255, 128, 7} {
		var s []int
		for k := 0; k < 800/n; k++ {
			s = append(s, n)
		}
		add(r.Intn(300), "", false, s...)
	}
	add(65536-300, "", false, 200, 99, 1, 1, 255)
	add(65536-1, "", false, 1, 0, 1)
	add(65536, "", false, 1, 255, 5)
	add(2*65536-255, "", false, 255, 1)
	for _, f := range []string{"tile/data", "tile/", "int/hashes/", "int/dedupe/", "issuer/", "ct/v1/get-sth", "checkpoint"} {
		for _, size := range []int{0, 1, 254, 255, 256, 510} {
			add(size, f, true, 3, 255)
			add(size, f, false, 1)
			add(size, f, true, 1, 2+r.Intn(200))
		}
	}
	for _, size := range []int{0, 255, 300} {
		for k := 0; k < 4; k++ {
			add(size, "shutdown", k%2 == 0, 5, 200)
			add(size, "shutdown", false, 255)
		}
	}
	if vhThorough() {
		for k := 0; k < 600; k++ {
			f := ""
			if r.Intn(3) == 0 {
				f = []string{"tile/data", "tile/", "int/hashes/", "int/dedupe/", "issuer/", "ct/v1/get-sth", "checkpoint"}[r.Intn(7)]
			}
			var s []int
			for n := 1 + r.Intn(12); n > 0; n-- {
				s = append(s, r.Intn(256))
			}
			add(r.Intn(3000), f, r.Intn(2) == 0, s...)
		}
	}
	type res struct {
		name string
		bad  []string
	}
	out := make(chan res, len(js))
	sem := make(chan int, 16)
	for _, j := range js {
		vhCase("publish %+v", j)
		go func() {
			sem <- 1
			n, b := vhPublishRun(j.seed, j.size, j.sizes, j.fail, j.slow)
			<-sem
			out <- res{n, b}
		}()
	}
	for range js {
		x := <-out
		for _, b := range x.bad {
			vhFail(t, "%s: %s", x.name, b)
		}
	}
}

func TestVerifPublishC01(t *testing.T) { vhOnly = []string{"[C01]"}; vhPublish(t) }
func TestVerifPublishC02(t *testing.T) { vhOnly = []string{"[C02]"}; vhPublish(t) }
func TestVerifPublishC04(t *testing.T) { vhOnly = []string{"[C04]"}; vhPublish(t) }
func TestVerifPublishC06(t *testing.T) { vhOnly = []string{"int/hashes/", "tile/0/"}; vhPublish(t) }
func TestVerifPublishC11(t *testing.T) { vhOnly = []string{"is not stored", "is not in"}; vhPublish(t) }
func TestVerifPublishC07(t *testing.T) { vhOnly = []string{"int/hashes/"}; vhPublish(t) }
func TestVerifPublishC08(t *testing.T) { vhOnly = []string{"[C08]"}; vhPublish(t) }
func TestVerifPublishC18(t *testing.T) { vhOnly = []string{"[C18]"}; vhPublish(t) }
