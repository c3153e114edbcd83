package PKG

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"itko.dev/internal/ctsubmit"
)

type c20Args struct {
	Consul, Key, Roots, Signing string
	GC                          ctsubmit.GlobalConfig
}

func c20Cert(n int64) []byte {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(n), Subject: pkix.Name{CommonName: fmt.Sprint("root", n)}, NotBefore: time.Now(),
		NotAfter: time.Now().Add(time.Hour), IsCA: true, BasicConstraintsValid: true}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	return der
}

func c20CheckRoots(t *testing.T, what string, b []byte, want [][]byte) {
	var res map[string]json.RawMessage
	var certs [][]byte
	if err := json.Unmarshal(b, &res); err != nil || res["certificates"] == nil || json.Unmarshal(res["certificates"], &certs) != nil {
		vhFail(t, "%s: get-roots object is %.200q", what, b)
		return
	}
	if len(certs) != len(want) {
		vhFail(t, "%s: get-roots holds %d certificates, the bundle has %d", what, len(certs), len(want))
		return
	}
	for i := range want {
		if !bytes.Equal(certs[i], want[i]) {
			vhFail(t, "%s: certificate %d of get-roots differs from certificate %d of the bundle", what, i, i)
			return
		}
	}
}

func c20CheckSth(t *testing.T, what string, b []byte, key *ecdsa.PrivateKey, t0 int64) {
	var s struct {
		TreeSize  *uint64 `json:"tree_size"`
		Timestamp uint64  `json:"timestamp"`
		Root      []byte  `json:"sha256_root_hash"`
		Sig       []byte  `json:"tree_head_signature"`
	}
	if err := json.Unmarshal(b, &s); err != nil || s.TreeSize == nil {
		vhFail(t, "%s: get-sth object is %.200q", what, b)
		return
	}
	empty := sha256.Sum256(nil)
	if *s.TreeSize != 0 || !bytes.Equal(s.Root, empty[:]) {
		vhFail(t, "%s: tree head of size %d with root %x, want size 0 and the hash of the empty string", what, *s.TreeSize, s.Root)
	}
	if int64(s.Timestamp) < t0-1 || int64(s.Timestamp) > time.Now().UnixMilli()+1 {
		vhFail(t, "%s: timestamp %d is not the current time in milliseconds (%d)", what, s.Timestamp, t0)
	}
	msg := append([]byte{0, 1}, binary.BigEndian.AppendUint64(nil, s.Timestamp)...)
	msg = binary.BigEndian.AppendUint64(msg, *s.TreeSize)
	msg = append(msg, s.Root...)
	d := sha256.Sum256(msg)
	if len(s.Sig) < 4 || s.Sig[0] != 4 || s.Sig[1] != 3 || int(binary.BigEndian.Uint16(s.Sig[2:])) != len(s.Sig)-4 || !ecdsa.VerifyASN1(&key.PublicKey, d[:], s.Sig[4:]) {
		vhFail(t, "%s: the tree head signature %x does not verify with the given key", what, s.Sig)
	}
}

type c20Consul struct {
	mu   sync.Mutex
	fail bool
	puts map[string][]byte
}

func (c *c20Consul) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.fail {
		w.WriteHeader(500)
		return
	}
	b, _ := io.ReadAll(r.Body)
	c.puts[r.Method+" "+r.URL.Path] = b
	w.Write([]byte("true"))
}

// TestVerifC20Child runs MainMain in a child process (it may end the process)
func TestVerifC20Child(t *testing.T) {
	a := os.Getenv("C20_CHILD")
	if a == "" {
		t.Skip()
	}
	var x c20Args
	if err := json.Unmarshal([]byte(a), &x); err != nil {
		t.Fatal(err)
	}
	MainMain(context.Background(), x.Consul, x.Key, x.Roots, x.Signing, x.GC)
}

func c20Main(x c20Args) (int, string) {
	b, _ := json.Marshal(x)
	cmd := exec.Command(os.Args[0], "-test.run=^TestVerifC20Child$", "-test.timeout=60s")
	cmd.Env = append(os.Environ(), "C20_CHILD="+string(b), "VERIF_CASE_FILE=")
	out, err := cmd.CombinedOutput()
	if err == nil {
		return 0, string(out)
	}
	return 1, string(out)
}

func TestVerifC20(t *testing.T) {
	ctx := context.Background()
	base, err := os.MkdirTemp("", "c20")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(base)
	wf := func(n string, b []byte) string {
		p := filepath.Join(base, n)
		os.WriteFile(p, b, 0600)
		return p
	}
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	kd, _ := x509.MarshalECPrivateKey(key)
	good := wf("key.pem", pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kd}))
	badKeys := map[string]string{"missing": filepath.Join(base, "nokey"), "no PEM": wf("nopem", []byte("hello")), "empty": wf("emptykey", nil),
		"garbage DER": wf("badder", pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: []byte{1, 2, 3}}))}
	s3 := &vhS3Server{objs: map[string][]byte{}}
	srv := httptest.NewServer(s3)
	defer srv.Close()
	dirN := 0
	gcs := func() map[string]ctsubmit.GlobalConfig {
		dirN++
		s3.objs = map[string][]byte{}
		s3.fail = ""
		d := filepath.Join(base, fmt.Sprint("store", dirN))
		s := ctsubmit.GlobalConfig{Name: "n", S3Bucket: "bucket", S3Region: "us-east-1", S3EndpointUrl: srv.URL, S3StaticCredentialUserName: "u", S3StaticCredentialPassword: "p", MaskSize: 5, FlushMs: 3}
		f := s
		f.RootDirectory = d
		return map[string]ctsubmit.GlobalConfig{"directory": f, "s3": s}
	}
	objs := func(gc ctsubmit.GlobalConfig) map[string][]byte {
		if gc.RootDirectory == "" {
			m := map[string][]byte{}
			for k, v := range s3.objs {
				m[strings.TrimPrefix(k, "/bucket/")] = v
			}
			return m
		}
		m := map[string][]byte{}
		filepath.Walk(gc.RootDirectory, func(p string, i os.FileInfo, err error) error {
			if err == nil && !i.IsDir() {
				b, _ := os.ReadFile(p)
				m[strings.TrimPrefix(p, gc.RootDirectory+"/")] = b
			}
			return nil
		})
		return m
	}
	for _, n := range []int{1, 2, 3, 9} {
		var ders [][]byte
		var bundle []byte
		for i := 0; i < n; i++ {
			ders = append(ders, c20Cert(int64(n*100+50-i)))
			bundle = append(bundle, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: ders[i]})...)
		}
		rf := wf(fmt.Sprint("roots", n), bundle)
		for kind, gc := range gcs() {
			what := fmt.Sprintf("uploadRoots of %d certificates to %s", n, kind)
			vhCase("%s", what)
			s3.objs = map[string][]byte{}
			if err := uploadRoots(ctx, rf, gc); err != nil {
				vhFail(t, "%s: %v", what, err)
				continue
			}
			o := objs(gc)
			if len(o) != 1 {
				vhFail(t, "%s wrote %d objects", what, len(o))
			}
			c20CheckRoots(t, what, o["ct/v1/get-roots"], ders)
			if kind == "directory" && len(s3.objs) != 0 {
				vhFail(t, "%s wrote to S3", what)
			}
		}
		for kind, gc := range gcs() {
			what := fmt.Sprintf("uploadEmptySth to %s", kind)
			vhCase("%s", what)
			t0 := time.Now().UnixMilli()
			s3.objs = map[string][]byte{}
			if err := uploadEmptySth(ctx, good, gc); err != nil {
				vhFail(t, "%s: %v", what, err)
				continue
			}
			o := objs(gc)
			if len(o) != 1 {
				vhFail(t, "%s wrote %d objects", what, len(o))
			}
			c20CheckSth(t, what, o["ct/v1/get-sth"], key, t0)
			if kind == "directory" && len(s3.objs) != 0 {
				vhFail(t, "%s wrote to S3", what)
			}
		}
	}
	roots := filepath.Join(base, "roots2")
	// failing steps are reported and nothing is stored
	for kind, gc := range gcs() {
		for name, k := range badKeys {
			what := fmt.Sprintf("uploadEmptySth to %s with a key file that is %s", kind, name)
			vhCase("%s", what)
			var err error
			if p := vhPanics(func() { err = uploadEmptySth(ctx, k, gc) }); p != nil {
				vhFail(t, "%s panics: %v", what, p)
			} else if err == nil || len(objs(gc)) != 0 {
				vhFail(t, "%s: error %v, %d objects stored", what, err, len(objs(gc)))
			}
		}
		for name, k := range map[string]string{"missing": filepath.Join(base, "noroots"), "garbage": wf("badroots", pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: []byte("x")}))} {
			what := fmt.Sprintf("uploadRoots to %s with a bundle that is %s", kind, name)
			vhCase("%s", what)
			if err := uploadRoots(ctx, k, gc); err == nil || len(objs(gc)) != 0 {
				vhFail(t, "%s: error %v, %d objects stored", what, err, len(objs(gc)))
			}
		}
	}
	// storage failures
	for kind, gc := range gcs() {
		if kind == "s3" {
			s3.fail = "403"
		} else {
			gc.RootDirectory = good + "/sub" // below a file
		}
		what := "storage failure (" + kind + ")"
		vhCase("%s", what)
		if err := uploadRoots(ctx, roots, gc); err == nil {
			vhFail(t, "uploadRoots with %s reports success", what)
		}
		if err := uploadEmptySth(ctx, good, gc); err == nil {
			vhFail(t, "uploadEmptySth with %s reports success", what)
		}
		s3.fail = ""
	}
	// the whole set-up, with each step failing in turn
	cons := &c20Consul{puts: map[string][]byte{}}
	csrv := httptest.NewServer(cons)
	defer csrv.Close()
	for _, mode := range []string{"ok", "roots", "consul", "key", "roots-blocked", "sth-blocked"} {
		for kind, gc := range gcs() {
			if kind == "s3" && strings.HasSuffix(mode, "blocked") {
				continue
			}
			cons.mu.Lock()
			cons.fail = mode == "consul"
			cons.puts = map[string][]byte{}
			cons.mu.Unlock()
			a := c20Args{Consul: strings.TrimPrefix(csrv.URL, "http://"), Key: "mylog", Roots: roots, Signing: good, GC: gc}
			switch mode {
			case "roots":
				a.Roots = filepath.Join(base, "noroots")
			case "key":
				a.Signing = badKeys["missing"]
			case "roots-blocked":
				os.MkdirAll(gc.RootDirectory+"/ct/v1/get-roots/x", 0755)
			case "sth-blocked":
				os.MkdirAll(gc.RootDirectory+"/ct/v1/get-sth/x", 0755)
			}
			what := fmt.Sprintf("set-up to %s, failing step %q", kind, mode)
			vhCase("%s", what)
			t0 := time.Now().UnixMilli()
			rc, out := c20Main(a)
			o := objs(gc)
			if mode == "ok" {
				if rc != 0 {
					vhFail(t, "%s fails: %.300s", what, out)
					continue
				}
				c20CheckSth(t, what, o["ct/v1/get-sth"], key, t0)
				var ders [][]byte
				b, _ := os.ReadFile(roots)
				for blk, rest := pem.Decode(b); blk != nil; blk, rest = pem.Decode(rest) {
					ders = append(ders, blk.Bytes)
				}
				c20CheckRoots(t, what, o["ct/v1/get-roots"], ders)
				var got ctsubmit.GlobalConfig
				if err := json.Unmarshal(cons.puts["PUT /v1/kv/mylog/config"], &got); err != nil || got != gc {
					vhFail(t, "%s: the configuration was not stored under the given key (%v)", what, err)
				}
				continue
			}
			if rc == 0 || strings.Contains(out, "panic:") {
				vhFail(t, "%s is not reported as an error: exit %d %.200s", what, rc, out)
			}
			if o["ct/v1/get-sth"] != nil {
				vhFail(t, "%s: a tree head was stored all the same", what)
			}
		}
	}
	vhDone()
}
