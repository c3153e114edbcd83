package PKG

import (
	"bufio"
	"net"
	"os/exec"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"golang.org/x/mod/sumdb/tlog"
)

// vhConsul answers what a consul client needs to take a lock and read a key
type vhConsul struct {
	mu     sync.Mutex
	kv     map[string][]byte
	locked map[string]string
	fail   bool
	lost   chan struct{} // closed when the lock is taken away
	other  string        // the session of another process that holds every lock
	asked  []string      // what was asked of it, in order
}

func (c *vhConsul) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	p := r.URL.Path
	q := r.URL.Query()
	if q.Get("index") != "" && q.Get("index") != "0" {
		// a blocking query
		wait, err := time.ParseDuration(q.Get("wait"))
		if err != nil || wait <= 0 {
			wait = 5 * time.Minute
		}
		select {
		case <-r.Context().Done():
			return
		case <-c.lost:
		case <-time.After(wait):
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	k := strings.TrimPrefix(p, "/v1/kv/")
	switch {
	case k == p:
	case q.Get("acquire") != "":
		c.asked = append(c.asked, "acquire "+k)
	case q.Get("release") != "":
		c.asked = append(c.asked, "release "+k)
	case r.Method == "GET" && !strings.HasSuffix(k, "/lock"):
		c.asked = append(c.asked, "get "+k)
	}
	w.Header().Set("X-Consul-Index", "7")
	switch {
	case c.fail && strings.HasSuffix(p, "/config"):
		w.WriteHeader(500)
	case p == "/v1/session/create":
		io.WriteString(w, `{"ID":"s1"}`)
	case strings.HasPrefix(p, "/v1/session/"):
		io.WriteString(w, `[{"ID":"s1"}]`)
	case r.Method == "PUT" && q.Get("acquire") != "" && c.other != "":
		io.WriteString(w, "false")
	case r.Method == "PUT" && q.Get("release") != "":
		delete(c.locked, k)
		io.WriteString(w, "true")
	case r.Method == "PUT" && q.Get("acquire") != "":
		c.locked[strings.TrimPrefix(p, "/v1/kv/")] = q.Get("acquire")
		io.WriteString(w, "true")
	case r.Method == "PUT":
		io.WriteString(w, "true")
	case strings.HasPrefix(p, "/v1/kv/"):
		type pair struct {
			Key, Session string
			Flags        uint64
			Value        []byte
		}
		if c.lost != nil && strings.HasSuffix(k, "/lock") {
			select {
			case <-c.lost:
				json.NewEncoder(w).Encode([]pair{{k, "", 0x2ddccbc058a50c18, nil}})
				return
			default:
			}
		}
		if c.other != "" && strings.HasSuffix(k, "/lock") {
			json.NewEncoder(w).Encode([]pair{{k, c.other, 0x2ddccbc058a50c18, nil}})
		} else if s, ok := c.locked[k]; ok {
			json.NewEncoder(w).Encode([]pair{{k, s, 0x2ddccbc058a50c18, nil}})
		} else if v, ok := c.kv[k]; ok {
			json.NewEncoder(w).Encode([]pair{{k, "", 0, v}})
		} else {
			w.WriteHeader(404)
		}
	default:
		w.WriteHeader(404)
	}
}

func c16Cert(n int64) []byte {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(n), Subject: pkix.Name{CommonName: fmt.Sprint("root", n)}, NotBefore: time.Now(),
		NotAfter: time.Now().Add(time.Hour), IsCA: true, BasicConstraintsValid: true}
	der, err := x509.CreateCertificate(crand.Reader, tpl, tpl, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	return der
}

// the part of it that admission rests on
func TestVerifC16Window(t *testing.T) {
	vhOnly = []string{"expiry window", "accepted roots"}
	TestVerifC16(t)
}

func TestVerifC16(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vhRand()
	ctx := context.Background()
	base, err := os.MkdirTemp("", "c16")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(base)
	cons := &vhConsul{kv: map[string][]byte{}, locked: map[string]string{}}
	csrv := httptest.NewServer(cons)
	s3 := &vhS3Server{objs: map[string][]byte{}}
	ssrv := httptest.NewServer(s3)
	key, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	key2, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	wf := func(n string, b []byte) string {
		p := filepath.Join(base, n)
		os.WriteFile(p, b, 0600)
		return p
	}
	pemOf := func(k *ecdsa.PrivateKey) []byte {
		d, _ := x509.MarshalECPrivateKey(k)
		return pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: d})
	}
	idOf := func(k *ecdsa.PrivateKey) [32]byte {
		d, _ := x509.MarshalPKIXPublicKey(&k.PublicKey)
		return sha256.Sum256(d)
	}
	good := wf("key", pemOf(key))
	id := idOf(key)
	id64 := base64.StdEncoding.EncodeToString(id[:])
	var certs [][]byte
	for i := 0; i < 3; i++ {
		certs = append(certs, c16Cert(int64(i+1)))
	}
	rootsJSON, _ := json.Marshal(map[string]any{"certificates": certs})
	sizes := []int{0, 1, 2, 255, 256, 257, 511, 512, 600, 65535, 65536, 65537, 65536 + 255, 65536 + 256, 65536 + 300}
	if vhThorough() {
		sizes = append(sizes, 3, 7, 8, 128, 254, 1000, 1023, 1024, 65280, 65281, 65000, 65536+512, 66000)
	}
	l := &vhLog{}
	for i := 0; i < 66100; i++ {
		l.add(vhRandEntry(r, i, nil))
	}
	num := 0
	prep := func(kind string, objs map[string][]byte, mod func(gc *GlobalConfig)) (kv string, gc GlobalConfig) {
		num++
		gc = GlobalConfig{Name: fmt.Sprint("log", num), KeyPath: good, LogID: id64, MaskSize: 5, FlushMs: 17 + num, NotAfterStart: "2020-01-02T03:04:05Z",
			NotAfterLimit: "2030-01-02T03:04:05+01:00", S3Bucket: "bkt", S3Region: "us-east-1", S3EndpointUrl: ssrv.URL, S3StaticCredentialUserName: "u", S3StaticCredentialPassword: "p"}
		if kind == "fs" {
			gc.RootDirectory = filepath.Join(base, fmt.Sprint("d", num))
			for k, v := range objs {
				os.MkdirAll(filepath.Dir(gc.RootDirectory+"/"+k), 0755)
				os.WriteFile(gc.RootDirectory+"/"+k, v, 0600)
			}
			s3.mu.Lock()
			s3.objs = map[string][]byte{}
			s3.mu.Unlock()
		} else {
			m := map[string][]byte{}
			for k, v := range objs {
				m["/bkt/"+k] = v
			}
			s3.mu.Lock()
			s3.objs = m
			s3.mu.Unlock()
		}
		if mod != nil {
			mod(&gc)
		}
		b, _ := json.Marshal(gc)
		kv = fmt.Sprint("kv", num)
		cons.mu.Lock()
		cons.kv[kv+"/config"] = b
		cons.mu.Unlock()
		return
	}
	load := func(kind string, objs map[string][]byte, mod func(gc *GlobalConfig)) (lg *Log, p any, err error, gc GlobalConfig) {
		kv, gc := prep(kind, objs, mod)
		p = vhPanics(func() { lg, err = LoadLog(ctx, kv, strings.TrimPrefix(csrv.URL, "http://")) })
		return lg, p, err, gc
	}
	// the objects of the right edge of size n
	edge := func(n int) map[string][]byte {
		m := map[string][]byte{}
		for L, cnt := 0, int64(n); cnt > 0; L, cnt = L+1, cnt>>8 {
			N := (cnt - 1) / 256
			W := int(cnt - N*256)
			m[vhTilePath(L, N, W)] = l.hashTile(L, N, W)
			if L == 0 {
				m[vhTilePath(-1, N, W)] = l.dataTile(N, W)
			}
		}
		m["ct/v1/get-sth"] = l.sth(n)
		m["ct/v1/get-roots"] = rootsJSON
		return m
	}
	for i, n := range sizes {
		kind := []string{"fs", "s3"}[i%2]
		what := fmt.Sprintf("LoadLog of a published log of %d entries (%s)", n, kind)
		vhCase("%s", what)
		lg, p, err, gc := load(kind, edge(n), nil)
		if p != nil || err != nil || lg == nil {
			vhFail(t, "%s: %v %v", what, p, err)
			continue
		}
		if lg.startingSequence != uint64(n) || lg.treeSize != uint64(n) {
			vhFail(t, "%s continues at index %d with tree size %d", what, lg.startingSequence, lg.treeSize)
		}
		if lg.stageZeroData.logID != id || lg.stageZeroData.signingKey == nil || !lg.stageZeroData.signingKey.Equal(key) || !lg.stageTwoData.signingKey.Equal(key) {
			vhFail(t, "%s: log id or signing key differ from the configured ones", what)
		}
		if lg.checkpointOrigin != gc.Name || lg.flushMs != gc.FlushMs || lg.stageZeroData.maskSize != 5 || lg.stageTwoData.maskSize != 5 {
			vhFail(t, "%s: settings differ from the configuration", what)
		}
		if !lg.notAfterStart.Equal(time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)) || !lg.notAfterLimit.Equal(time.Date(2030, 1, 2, 2, 4, 5, 0, time.UTC)) {
			vhFail(t, "%s: expiry window %v..%v", what, lg.notAfterStart, lg.notAfterLimit)
		}
		rc := lg.roots.RawCertificates()
		if len(rc) != len(certs) {
			vhFail(t, "%s: %d accepted roots, stored were %d", what, len(rc), len(certs))
		} else {
			for j := range rc {
				if !bytes.Equal(rc[j].Raw, certs[j]) {
					vhFail(t, "%s: accepted root %d differs", what, j)
				}
			}
		}
		for _, b := range []Bucket{lg.stageZeroData.bucket, lg.stageTwoData.bucket} {
			if got, err := b.S.Get(ctx, "ct/v1/get-roots"); err != nil || !bytes.Equal(got, rootsJSON) {
				vhFail(t, "%s: the storage of the loaded log is not the configured one (%v)", what, err)
			}
		}
		// channels connect the stages
		rp := make(chan UnsequencedEntryWithReturnPath, 1)
		lg.stageOneTx <- UnsequencedEntryWithReturnPath{}
		select {
		case <-lg.stageOneRx:
		default:
			vhFail(t, "%s: stage zero does not feed stage one", what)
		}
		_ = rp
		lg.stageTwoTx <- nil
		select {
		case <-lg.stageTwoRx:
		default:
			vhFail(t, "%s: stage one does not feed stage two", what)
		}
		// edge tiles
		d, ok := lg.edgeTiles[-1]
		if !ok {
			vhFail(t, "%s: no data tile", what)
			continue
		}
		if n == 0 {
			if d.Tile != (tlog.Tile{H: 8, L: -1}) || len(d.Bytes) != 0 || len(lg.edgeTiles) != 1 {
				vhFail(t, "%s: edge tiles %v", what, lg.edgeTiles)
			}
			continue
		}
		N := int64((n - 1) / 256)
		W := n - 256*int(N)
		if d.Tile != (tlog.Tile{H: 8, L: -1, N: N, W: W}) || !bytes.Equal(d.Bytes, l.dataTile(N, W)) {
			vhFail(t, "%s: data tile %v with %d bytes, published is number %d of width %d", what, d.Tile, len(d.Bytes), N, W)
		}
		need := map[int]bool{0: true}
		for b := 0; n>>b > 0; b++ {
			if n>>b&1 == 1 {
				need[b/8] = true
			}
		}
		for L, cnt := 0, int64(n); cnt > 0; L, cnt = L+1, cnt>>8 {
			N := (cnt - 1) / 256
			W := int(cnt - N*256)
			e, ok := lg.edgeTiles[L]
			if !ok && need[L] {
				vhFail(t, "%s: no edge tile of level %d", what, L)
			}
			if ok && (e.Tile != (tlog.Tile{H: 8, L: L, N: N, W: W}) || !bytes.Equal(e.Bytes, l.hashTile(L, N, W))) {
				vhFail(t, "%s: edge tile of level %d is %v, rightmost is number %d of width %d", what, L, e.Tile, N, W)
			}
		}
	}
	// refusals
	type bad struct {
		name string
		n    int
		objs func(m map[string][]byte)
		gc   func(gc *GlobalConfig)
	}
	del := func(k string) func(map[string][]byte) { return func(m map[string][]byte) { delete(m, k) } }
	set := func(k, v string) func(map[string][]byte) { return func(m map[string][]byte) { m[k] = []byte(v) } }
	flip := func(k string) func(map[string][]byte) {
		return func(m map[string][]byte) {
			b := append([]byte{}, m[k]...)
			b[len(b)/2] ^= 1
			m[k] = b
		}
	}
	id2 := idOf(key2)
	bads := []bad{
		{"a key that does not match the log id", 5, nil, func(gc *GlobalConfig) { gc.KeyPath = wf("key2", pemOf(key2)) }},
		{"the log id of another key", 5, nil, func(gc *GlobalConfig) { gc.LogID = base64.StdEncoding.EncodeToString(id2[:]) }},
		{"a log id in another encoding", 5, nil, func(gc *GlobalConfig) { gc.LogID = base64.RawStdEncoding.EncodeToString(id[:]) }},
		{"an empty log id", 5, nil, func(gc *GlobalConfig) { gc.LogID = "" }},
		{"the log id in lower case", 5, nil, func(gc *GlobalConfig) { gc.LogID = strings.ToLower(gc.LogID) }},
		{"the log id with a line break", 5, nil, func(gc *GlobalConfig) { gc.LogID += "\n" }},
		{"a missing key", 5, nil, func(gc *GlobalConfig) { gc.KeyPath = base + "/none" }},
		{"a key file without PEM block", 5, nil, func(gc *GlobalConfig) { gc.KeyPath = wf("nopem", []byte("x")) }},
		{"a garbage key", 5, nil, func(gc *GlobalConfig) {
			gc.KeyPath = wf("badkey", pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: []byte{1}}))
		}},
		{"no tree head", 5, del("ct/v1/get-sth"), nil},
		{"a malformed tree head", 5, set("ct/v1/get-sth", "{"), nil},
		{"no roots", 5, del("ct/v1/get-roots"), nil},
		{"malformed roots", 5, set("ct/v1/get-roots", "[1]"), nil},
		{"garbage in the roots", 5, set("ct/v1/get-roots", `{"certificates":["AAAA"]}`), nil},
		{"a bad window start", 5, nil, func(gc *GlobalConfig) { gc.NotAfterStart = "yesterday" }},
		{"a bad window end", 5, nil, func(gc *GlobalConfig) { gc.NotAfterLimit = "" }},
		{"a missing level-0 tile", 300, del(vhTilePath(0, 1, 44)), nil},
		{"a missing level-1 tile", 300, del(vhTilePath(1, 0, 1)), nil},
		{"a missing data tile", 300, del(vhTilePath(-1, 1, 44)), nil},
		{"a tampered level-0 tile", 300, flip(vhTilePath(0, 1, 44)), nil},
		{"a tampered level-1 tile", 300, flip(vhTilePath(1, 0, 1)), nil},
		{"a tampered full level-0 tile", 512, flip(vhTilePath(0, 1, 256)), nil},
		{"a tampered level-1 tile", 65536, flip(vhTilePath(1, 0, 256)), nil},
		{"a truncated level-0 tile", 300, set(vhTilePath(0, 1, 44), "abc"), nil},
		{"a tree head of another root", 300, func(m map[string][]byte) {
			m["ct/v1/get-sth"] = []byte(strings.Replace(string(l.sth(301)), "301", "300", 1))
		}, nil},
		{"a tree head of another size", 300, func(m map[string][]byte) {
			m["ct/v1/get-sth"] = []byte(strings.Replace(string(l.sth(300)), "300", "299", 1))
		}, nil},
	}
	for _, b := range bads {
		for _, kind := range []string{"fs", "s3"} {
			what := fmt.Sprintf("LoadLog of %d entries with %s (%s)", b.n, b.name, kind)
			vhCase("%s", what)
			m := edge(b.n)
			if b.objs != nil {
				b.objs(m)
			}
			lg, p, err, _ := load(kind, m, b.gc)
			if p != nil {
				vhFail(t, "%s panics: %v", what, p)
			} else if err == nil {
				vhFail(t, "%s succeeds (tree size %d)", what, lg.treeSize)
			}
		}
	}
	// the server itself, in a process of its own: it serves a log that loads, and nothing otherwise
	serves := func(what string, want bool, kv string) {
		vhCase("%s", what)
		c := exec.Command(os.Args[0], "-test.run", "^TestVerifMainChild$")
		c.Env = append(os.Environ(), "VERIF_MAIN_KV="+kv, "VERIF_MAIN_CONSUL="+strings.TrimPrefix(csrv.URL, "http://"), "VERIF_CASE_FILE=")
		out, err := c.StdoutPipe()
		if err != nil || c.Start() != nil {
			return
		}
		done := make(chan bool)
		addr := make(chan string, 1)
		go func() {
			sc := bufio.NewScanner(out)
			for sc.Scan() {
				if a, ok := strings.CutPrefix(sc.Text(), "VERIF-ADDR "); ok {
					addr <- a
				}
			}
			c.Wait()
			close(done)
		}()
		served := false
		select {
		case a := <-addr:
			cl := http.Client{Timeout: 2 * time.Second}
			for i := 0; i < 6 && !served; i++ {
				select {
				case <-done:
					i = 6
				default:
					q, err := cl.Get("http://" + a + "/ct/v1/nothing")
					if err == nil {
						served = true
						q.Body.Close()
					} else {
						time.Sleep(50 * time.Millisecond)
					}
				}
			}
		case <-done:
		case <-time.After(10 * time.Second):
		}
		c.Process.Kill()
		<-done
		if served != want {
			vhFail(t, "%s: requests are answered: %v, want %v", what, served, want)
		}
	}
	kv, _ := prep("fs", edge(5), nil)
	serves("MainMain of a published log of 5 entries", true, kv)
	kv, _ = prep("s3", edge(300), nil)
	serves("MainMain of a published log of 300 entries in S3", true, kv)
	serves("MainMain without a path of the configuration", false, "")
	serves("MainMain of a log without configuration", false, "none")
	for _, i := range []int{0, 7, 16} {
		b := bads[i]
		m := edge(b.n)
		if b.objs != nil {
			b.objs(m)
		}
		kv, _ := prep("fs", m, b.gc)
		serves(fmt.Sprintf("MainMain of a log of %d entries with %s", b.n, b.name), false, kv)
	}
	vhDone()
	os.RemoveAll(base)
}

// the process TestVerifC16 starts
func TestVerifMainChild(t *testing.T) {
	kv, consul := os.Getenv("VERIF_MAIN_KV"), os.Getenv("VERIF_MAIN_CONSUL")
	if consul == "" {
		return
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return
	}
	fmt.Println("VERIF-ADDR " + l.Addr().String())
	MainMain(context.Background(), l, kv, consul, nil)
}

// the part of it that sequencing rests on
func TestVerifC16Start(t *testing.T) {
	vhOnly = []string{"continues at index", "does not feed"}
	TestVerifC16(t)
}
