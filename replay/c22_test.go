package PKG

import (
	"bufio"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	consul "github.com/hashicorp/consul/api"
)

// a stored log of n entries and the consul that configures it
func c22World(dir string, kv string, n int) (*vhConsul, *httptest.Server) {
	r := vhRand()
	l := &vhLog{}
	for i := 0; i < n; i++ {
		l.add(vhRandEntry(r, i, nil))
	}
	key, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	d, _ := x509.MarshalECPrivateKey(key)
	os.WriteFile(filepath.Join(dir, "key"), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: d}), 0600)
	pub, _ := x509.MarshalPKIXPublicKey(&key.PublicKey)
	id := sha256.Sum256(pub)
	roots, _ := json.Marshal(map[string]any{"certificates": [][]byte{c16Cert(1)}})
	N := int64(n-1) / 256
	W := n - 256*int(N)
	objs := map[string][]byte{"ct/v1/get-sth": l.sth(n), "ct/v1/get-roots": roots, vhTilePath(0, N, W): l.hashTile(0, N, W), vhTilePath(-1, N, W): l.dataTile(N, W)}
	root := filepath.Join(dir, "log")
	for k, v := range objs {
		os.MkdirAll(filepath.Dir(root+"/"+k), 0755)
		os.WriteFile(root+"/"+k, v, 0600)
	}
	gc, _ := json.Marshal(GlobalConfig{Name: "log", KeyPath: filepath.Join(dir, "key"), LogID: base64.StdEncoding.EncodeToString(id[:]), MaskSize: 5, FlushMs: 50,
		NotAfterStart: "2020-01-02T03:04:05Z", NotAfterLimit: "2030-01-02T03:04:05Z", RootDirectory: root})
	c := &vhConsul{kv: map[string][]byte{kv + "/config": gc}, locked: map[string]string{}, lost: make(chan struct{})}
	return c, httptest.NewServer(c)
}

type c22Child struct {
	c    *exec.Cmd
	addr chan string
	done chan struct{}
}

func c22Run(test string, env ...string) *c22Child {
	x := &c22Child{exec.Command(os.Args[0], "-test.run", "^"+test+"$"), make(chan string, 1), make(chan struct{})}
	x.c.Env = append(append(os.Environ(), "VERIF_CASE_FILE="), env...)
	out, err := x.c.StdoutPipe()
	if err != nil || x.c.Start() != nil {
		close(x.done)
		return x
	}
	go func() {
		sc := bufio.NewScanner(out)
		for sc.Scan() {
			if a, ok := strings.CutPrefix(sc.Text(), "VERIF-ADDR "); ok {
				x.addr <- a
			}
		}
		x.c.Wait()
		close(x.done)
	}()
	return x
}

// whether the child answers requests within d; it stops waiting when the child ends
func (x *c22Child) serves(d time.Duration) bool {
	end := time.After(d)
	var a string
	select {
	case a = <-x.addr:
	case <-x.done:
		return false
	case <-end:
		return false
	}
	cl := http.Client{Timeout: time.Second}
	for {
		if q, err := cl.Get("http://" + a + "/ct/v1/nothing"); err == nil {
			q.Body.Close()
			return true
		}
		select {
		case <-x.done:
			return false
		case <-end:
			return false
		case <-time.After(50 * time.Millisecond):
		}
	}
}

func (x *c22Child) ends(d time.Duration) bool {
	select {
	case <-x.done:
		return true
	case <-time.After(d):
		return false
	}
}

// TestVerifC22: a log server against a consul that gives, refuses or takes away the lock
func TestVerifC22(t *testing.T) {
	defer vhDone()
	base, err := os.MkdirTemp("", "c22")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(base)
	var mu sync.Mutex
	var wg sync.WaitGroup
	bad := map[string]string{}
	run := func(name string, f func(kv string, c *vhConsul, addr string) string) {
		dir := filepath.Join(base, fmt.Sprint(len(name), name[:3]))
		os.MkdirAll(dir, 0755)
		kv := "logs/" + fmt.Sprint(len(name))
		c, srv := c22World(dir, kv, 5)
		vhCase("%s", name)
		wg.Add(1)
		go func() {
			defer wg.Done()
			if m := f(kv, c, strings.TrimPrefix(srv.URL, "http://")); m != "" {
				mu.Lock()
				bad[name] = m
				mu.Unlock()
			}
		}()
	}
	asked := func(c *vhConsul) []string {
		c.mu.Lock()
		defer c.mu.Unlock()
		return append([]string{}, c.asked...)
	}
	// the lock is acquired under its key before anything else is read
	ordered := func(kv string, c *vhConsul) string {
		a := asked(c)
		if len(a) == 0 || a[0] != "acquire "+kv+"/lock" {
			return fmt.Sprintf("asks consul for %q: the first must be to acquire %s/lock", a, kv)
		}
		return ""
	}
	run("lock given, then taken away", func(kv string, c *vhConsul, addr string) string {
		x := c22Run("TestVerifMainChild", "VERIF_MAIN_KV="+kv, "VERIF_MAIN_CONSUL="+addr)
		defer x.c.Process.Kill()
		if !x.serves(8 * time.Second) {
			a := asked(c)
			if len(a) == 0 {
				return "the server never asks the configured consul for the lock"
			}
			for _, q := range a {
				if strings.HasPrefix(q, "release") {
					return fmt.Sprintf("the server gives up the lock it needs: %q", a)
				}
			}
			return "" // C16
		}
		c.mu.Lock()
		s := c.locked[kv+"/lock"]
		c.mu.Unlock()
		if s != "s1" {
			return fmt.Sprintf("the server answers requests while the lock is held by session %q", s)
		}
		if m := ordered(kv, c); m != "" {
			return m
		}
		if x.ends(300 * time.Millisecond) {
			return "the server ends while it holds the lock"
		}
		close(c.lost)
		if !x.ends(4 * time.Second) {
			return fmt.Sprintf("the server is still running 4 s after it lost the lock, answering requests: %v", x.serves(2*time.Second))
		}
		return ""
	})
	run("lock held by another process all the time", func(kv string, c *vhConsul, addr string) string {
		c.other = "s2"
		x := c22Run("TestVerifMainChild", "VERIF_MAIN_KV="+kv, "VERIF_MAIN_CONSUL="+addr)
		defer x.c.Process.Kill()
		if x.serves(20 * time.Second) {
			return "the server answers requests without the lock"
		}
		if !x.ends(0) {
			if a := asked(c); len(a) > 0 && strings.HasPrefix(a[0], "get ") {
				return fmt.Sprintf("asks consul for %q without the lock", a)
			}
		}
		return ""
	})
	run("lock held by another process, and the context ends", func(kv string, c *vhConsul, addr string) string {
		c.other = "s2"
		x := c22Run("TestVerifCtxChild", "VERIF_CTX=1", "VERIF_MAIN_KV="+kv, "VERIF_MAIN_CONSUL="+addr)
		defer x.c.Process.Kill()
		select {
		case <-x.addr:
			return "LoadLog returns a log without the lock"
		case <-x.done:
		case <-time.After(19 * time.Second):
		}
		return ""
	})
	run("lock given, the context ends, then the lock is taken away", func(kv string, c *vhConsul, addr string) string {
		x := c22Run("TestVerifCtxChild", "VERIF_CTX=1", "VERIF_MAIN_KV="+kv, "VERIF_MAIN_CONSUL="+addr)
		defer x.c.Process.Kill()
		select {
		case a := <-x.addr:
			if a != "loaded" {
				return "the log LoadLog returns has " + a
			}
		case <-x.done:
			return ""
		case <-time.After(8 * time.Second):
			return ""
		}
		time.Sleep(1500 * time.Millisecond)
		close(c.lost)
		if !x.ends(4 * time.Second) {
			return "the process is still running 4 s after the lock was lost"
		}
		return ""
	})
	for _, stage := range []string{"one", "two"} {
		run(map[string]string{"one": "stage one stops", "two": "the second stage stops"}[stage], func(kv string, c *vhConsul, addr string) string {
			x := c22Run("TestVerifStageChild", "VERIF_STAGE="+stage, "VERIF_MAIN_KV="+kv, "VERIF_MAIN_CONSUL="+addr)
			defer x.c.Process.Kill()
			select {
			case <-x.addr:
			case <-x.done:
			case <-time.After(8 * time.Second):
			}
			for i := 0; i < 60; i++ {
				for _, a := range asked(c) {
					if a == "release "+kv+"/lock" {
						return ""
					}
				}
				if x.ends(50 * time.Millisecond) {
					return ""
				}
			}
			return fmt.Sprintf("the lock is not released when the stage stops, and the process goes on (consul was asked for %q)", asked(c))
		})
	}
	wg.Wait()
	for name, m := range bad {
		vhFail(t, "%s: %s", name, m)
	}
}

// the process for the stages: a log whose stage stops while the server runs
func TestVerifStageChild(t *testing.T) {
	kv, addr := os.Getenv("VERIF_MAIN_KV"), os.Getenv("VERIF_MAIN_CONSUL")
	if os.Getenv("VERIF_STAGE") == "" {
		return
	}
	cl, err := consul.NewClient(&consul.Config{Address: addr})
	if err != nil {
		return
	}
	lock, err := cl.LockKey(kv + "/lock")
	if err != nil {
		return
	}
	if _, err = lock.Lock(nil); err != nil {
		return
	}
	one, two := make(chan UnsequencedEntryWithReturnPath), make(chan []LogEntryWithReturnPath)
	l := &Log{eStop: lock, stageZeroData: stageZeroData{stageOneTx: one}, stageOneData: stageOneData{stageOneRx: one, stageTwoTx: two, flushMs: 3600000},
		stageTwoData: stageTwoData{stageTwoRx: two}}
	if _, err = l.Start(context.Background()); err != nil {
		return
	}
	fmt.Println("VERIF-ADDR none")
	if os.Getenv("VERIF_STAGE") == "one" {
		close(one)
	} else {
		close(two)
	}
	time.Sleep(20 * time.Second)
}

// the process for contexts that end: the one LoadLog is given ends after a second
func TestVerifCtxChild(t *testing.T) {
	if os.Getenv("VERIF_CTX") == "" {
		return
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	lg, err := LoadLog(ctx, os.Getenv("VERIF_MAIN_KV"), os.Getenv("VERIF_MAIN_CONSUL"))
	switch {
	case err != nil:
		return
	case lg.eStop == nil:
		fmt.Println("VERIF-ADDR no lock to release")
	default:
		fmt.Println("VERIF-ADDR loaded")
	}
	time.Sleep(20 * time.Second)
}
