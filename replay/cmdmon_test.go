package main

import (
	"bytes"
	"flag"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"testing"
	"time"
)

// TestVerifCommand runs the monitor command over a directory and over a URL, and reads the two published objects
func TestVerifCommand(t *testing.T) {
	r := vhRand()
	for _, kind := range []string{"directory", "address"} {
		d, err := os.MkdirTemp("", "cmdmon")
		if err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(d)
		objs := map[string][]byte{}
		os.MkdirAll(filepath.Join(d, "ct/v1"), 0700)
		for _, k := range []string{"get-sth", "get-roots"} {
			b := make([]byte, 200)
			r.Read(b)
			objs[k] = b
			if err := os.WriteFile(filepath.Join(d, "ct/v1", k), b, 0600); err != nil {
				t.Fatal(err)
			}
		}
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Fatal(err)
		}
		addr := l.Addr().String()
		l.Close()
		args := []string{"itko-monitor", "-listen-address", addr, "-mask-size", "3"}
		if kind == "directory" {
			args = append(args, "-store-directory", d)
		} else {
			sl, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				t.Fatal(err)
			}
			go http.Serve(sl, http.FileServer(http.Dir(d)))
			args = append(args, "-store-address", "http://"+sl.Addr().String()+"/")
		}
		vhCase("%v", args)
		os.Args = args
		flag.CommandLine = flag.NewFlagSet("itko-monitor", flag.PanicOnError)
		done := make(chan any, 1)
		go func() {
			defer func() { done <- recover() }()
			main()
		}()
		for k, want := range objs {
			var got []byte
			var last string
			for try := 0; try < 40; try++ {
				resp, err := http.Get("http://" + addr + "/ct/v1/" + k)
				if err != nil {
					last = err.Error()
					time.Sleep(100 * time.Millisecond)
					continue
				}
				got, _ = io.ReadAll(resp.Body)
				resp.Body.Close()
				last = fmt.Sprintf("status %d, %d bytes", resp.StatusCode, len(got))
				break
			}
			if !bytes.Equal(got, want) {
				select {
				case p := <-done:
					last += fmt.Sprintf(" (the command ended: %v)", p)
				default:
				}
				vhFail(t, "%v: /ct/v1/%s does not answer the stored object: %s", args, k, last)
			}
		}
	}
	vhDone()
}
