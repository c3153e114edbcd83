package PKG

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"testing"

	s3types "github.com/aws/aws-sdk-go-v2/service/s3/types"
)

func c17NotFound(err error) bool {
	var nf *s3types.NoSuchKey
	return errors.As(err, &nf) || errors.Is(err, os.ErrNotExist)
}

func TestVerifC17Submit(t *testing.T) {
	r := vhRand()
	ctx := context.Background()
	keys := []string{"checkpoint", "ct/v1/get-sth", "tile/0/000", "tile/0/000.p/12", "tile/data/x001/234", "int/hashes/0a/b1/c", "issuer/" + hex.EncodeToString(make([]byte, 32)), "a"}
	datas := [][]byte{{}, {0}, []byte("hello\n"), bytes.Repeat([]byte{0xff, 0}, 5000), make([]byte, 1<<20)}
	r.Read(datas[4])
	// file system storage
	base, err := os.MkdirTemp("", "c17")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(base)
	for n, data := range datas {
		root := filepath.Join(base, fmt.Sprint("root", n))
		if n%2 == 0 {
			os.Mkdir(root, 0755)
		}
		s := NewFsStorage(root)
		for _, k := range keys {
			vhCase("FsStorage.Set/Get/Exists(%q) %d bytes", k, len(data))
			if _, err := s.Get(ctx, k); err == nil || !c17NotFound(err) {
				vhFail(t, "FsStorage.Get(%q) of a missing object: error %v is not \"not found\"", k, err)
			}
			if ok, err := s.Exists(ctx, k); ok || err != nil {
				vhFail(t, "FsStorage.Exists(%q) of a missing object: %v, %v", k, ok, err)
			}
			if err := s.Set(ctx, k, data); err != nil {
				vhFail(t, "FsStorage.Set(%q): %v", k, err)
				continue
			}
			if b, err := os.ReadFile(root + "/" + k); err != nil || !bytes.Equal(b, data) {
				vhFail(t, "FsStorage.Set(%q) reported success; the file holds %d bytes, %v instead of %d bytes", k, len(b), err, len(data))
			}
			if b, err := s.Get(ctx, k); err != nil || !bytes.Equal(b, data) {
				vhFail(t, "FsStorage.Get(%q) returns %d bytes, %v, stored were %d bytes", k, len(b), err, len(data))
			}
			if ok, err := s.Exists(ctx, k); !ok || err != nil {
				vhFail(t, "FsStorage.Exists(%q) of a stored object: %v, %v", k, ok, err)
			}
			// overwrite with something shorter
			if err := s.Set(ctx, k, []byte("x")); err != nil {
				vhFail(t, "FsStorage.Set(%q) overwriting: %v", k, err)
			}
			if b, err := s.Get(ctx, k); err != nil || string(b) != "x" {
				vhFail(t, "FsStorage.Get(%q) after overwriting with \"x\": %q, %v", k, b, err)
			}
		}
		// a failure that is not "not found"
		for _, bad := range []string{"checkpoint/sub", "a/b/c", "a/x"} {
			vhCase("FsStorage failing %q", bad)
			if b, err := s.Get(ctx, bad); err == nil || c17NotFound(err) {
				vhFail(t, "FsStorage.Get(%q) below a plain file: %q, %v, want an error that is not \"not found\"", bad, b, err)
			}
			if ok, err := s.Exists(ctx, bad); err == nil {
				vhFail(t, "FsStorage.Exists(%q) below a plain file: %v, no error", bad, ok)
			}
			if err := s.Set(ctx, bad, []byte("y")); err == nil {
				vhFail(t, "FsStorage.Set(%q) below a plain file reports success", bad)
			}
		}
		if err := s.Set(ctx, "tile/0", []byte("y")); err == nil {
			vhFail(t, "FsStorage.Set over a directory reports success")
		}
		if _, err := s.Get(ctx, "tile/0"); err == nil || c17NotFound(err) {
			vhFail(t, "FsStorage.Get of a directory: %v", err)
		}
	}
	// a parent directory that cannot be created
	os.WriteFile(filepath.Join(base, "plain"), []byte("p"), 0644)
	os.Symlink(filepath.Join(base, "nowhere", "x"), filepath.Join(base, "dangling"))
	ds := NewFsStorage(base)
	vhCase("FsStorage.Set through a dangling symlink")
	if err := ds.Set(ctx, "dangling", []byte("z")); err == nil {
		vhFail(t, "FsStorage.Set through a dangling symlink reports success")
	}
	// S3
	for bi, bucket := range []string{"bkt", "other-bucket"} {
		srv := &vhS3Server{objs: map[string][]byte{}}
		hs := httptest.NewServer(srv)
		user := []string{"userone", "usertwo"}[bi]
		s := NewS3Storage("us-east-7", bucket, hs.URL, user, "pw")
		for n, k := range keys {
			data := datas[(n+bi)%len(datas)]
			vhCase("S3Storage %s %q %d bytes", bucket, k, len(data))
			srv.fail = ""
			if b, err := s.Get(ctx, k); err == nil || !c17NotFound(err) {
				vhFail(t, "S3Storage.Get(%q) of a missing object: %q, error %v is not \"not found\"", k, b, err)
			}
			if ok, err := s.Exists(ctx, k); ok || err != nil {
				vhFail(t, "S3Storage.Exists(%q) of a missing object: %v, %v", k, ok, err)
			}
			srv.fail = "403"
			if ok, err := s.Exists(ctx, k); err == nil {
				vhFail(t, "S3Storage.Exists(%q) answered 403: %v without error", k, ok)
			}
			if b, err := s.Get(ctx, k); err == nil || c17NotFound(err) {
				vhFail(t, "S3Storage.Get(%q) answered 403: %q, %v, want an error that is not \"not found\"", k, b, err)
			}
			if err := s.Set(ctx, k, data); err == nil {
				vhFail(t, "S3Storage.Set(%q) answered 403 reports success", k)
			}
			srv.fail = "404bucket"
			if err := s.Set(ctx, k, data); err == nil {
				vhFail(t, "S3Storage.Set(%q) answered 404 NoSuchBucket reports success", k)
			}
			if b, err := s.Get(ctx, k); err == nil || c17NotFound(err) {
				vhFail(t, "S3Storage.Get(%q) answered NoSuchBucket: %q, %v, want an error that is not \"not found\"", k, b, err)
			}
			srv.fail = ""
			if err := s.Set(ctx, k, data); err != nil {
				vhFail(t, "S3Storage.Set(%q): %v", k, err)
				continue
			}
			srv.mu.Lock()
			got, ok := srv.objs["/"+bucket+"/"+k]
			a := srv.auths[len(srv.auths)-1]
			srv.mu.Unlock()
			if !ok || !bytes.Equal(got, data) {
				vhFail(t, "S3Storage.Set(%q) reported success; object /%s/%s: present=%v %d bytes, want %d bytes", k, bucket, k, ok, len(got), len(data))
			}
			if !strings.Contains(a, "Credential="+user+"/") || !strings.Contains(a, "us-east-7") {
				vhFail(t, "S3Storage requests are not signed with the configured credentials and region: %s", a)
			}
			if b, err := s.Get(ctx, k); err != nil || !bytes.Equal(b, data) {
				vhFail(t, "S3Storage.Get(%q) returns %d bytes, %v, stored were %d bytes", k, len(b), err, len(data))
			}
			if ok, err := s.Exists(ctx, k); !ok || err != nil {
				vhFail(t, "S3Storage.Exists(%q) of a stored object: %v, %v", k, ok, err)
			}
			srv.fail = "truncate"
			if b, err := s.Get(ctx, k); err == nil || c17NotFound(err) {
				vhFail(t, "S3Storage.Get(%q) of a truncated response returns %d bytes, %v, want an error that is not \"not found\"", k, len(b), err)
			}
			srv.fail = ""
		}
		hs.Close()
		vhCase("S3Storage with the server gone")
	}
	vhDone()
}
