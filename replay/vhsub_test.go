package PKG

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"sync"
	"time"

	s3types "github.com/aws/aws-sdk-go-v2/service/s3/types"
)

// vhStore is an in-memory object store of the submission side with injected failures and a log of the operations
type vhStore struct {
	mu    sync.Mutex
	m     map[string][]byte
	log   []string // "get k", "set k", "exists k"; a failed one is followed by "!"
	nf    int      // form of "not found"
	fail  func(op, key string) error
	delay func(op, key string) time.Duration
	onset func(key string, data []byte)
}

func vhNewStore() *vhStore { return &vhStore{m: map[string][]byte{}} }

func (s *vhStore) notFound(key string) error {
	switch s.nf % 4 {
	case 0:
		return &s3types.NoSuchKey{}
	case 1:
		return fmt.Errorf("unable to fetch file from S3: %w", &s3types.NoSuchKey{})
	case 2:
		return &fs.PathError{Op: "open", Path: key, Err: fs.ErrNotExist}
	}
	return fmt.Errorf("wrapped: %w", os.ErrNotExist)
}

func (s *vhStore) op(op, key string) error {
	if s.delay != nil {
		time.Sleep(s.delay(op, key))
	}
	var err error
	if s.fail != nil {
		err = s.fail(op, key)
	}
	l := op + " " + key
	if err != nil {
		l += "!"
	}
	s.mu.Lock()
	s.log = append(s.log, l)
	s.mu.Unlock()
	return err
}

func (s *vhStore) Get(ctx context.Context, key string) ([]byte, error) {
	if err := s.op("get", key); err != nil {
		return nil, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	b, ok := s.m[key]
	if !ok {
		return nil, s.notFound(key)
	}
	return bytes.Clone(b), nil
}

func (s *vhStore) Set(ctx context.Context, key string, data []byte) error {
	if err := s.op("set", key); err != nil {
		return err
	}
	// the bytes are read while the upload runs, not when it is started
	data = bytes.Clone(data)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.m[key] = data
	if s.onset != nil {
		s.onset(key, data)
	}
	return nil
}

func (s *vhStore) Exists(ctx context.Context, key string) (bool, error) {
	if err := s.op("exists", key); err != nil {
		return false, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	_, ok := s.m[key]
	return ok, nil
}

func (s *vhStore) snap() map[string][]byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := map[string][]byte{}
	for k, v := range s.m {
		r[k] = v
	}
	return r
}

// errors that are not "not found"
func vhReadErr(r *rand.Rand) error {
	return []error{errors.New("connection reset"), errors.New("404 not found"), &fs.PathError{Op: "open", Path: "x", Err: fs.ErrPermission},
		context.DeadlineExceeded, &s3types.NoSuchBucket{}, errors.New("NoSuchKey: the key does not exist")}[r.Intn(6)]
}
