package main

import (
	"encoding/json"
	"errors"
	"io"
	"os"
)

// Seq marshals as [] when empty.
type Seq[T any] []T

func (s Seq[T]) MarshalJSON() ([]byte, error) {
	if len(s) == 0 {
		return []byte("[]"), nil
	}
	return json.Marshal([]T(s))
}

type Ints = Seq[int]

func u32b(x uint32) Ints { return le(uint64(x), 4) }
func le(x uint64, n int) Ints {
	r := make(Ints, n)
	for i := range r {
		r[i] = int(x >> (8 * i) & 0xff)
	}
	return r
}
func ule(n Ints) uint64 {
	var x uint64
	for i, b := range n {
		x |= uint64(b&0xff) << (8 * i)
	}
	return x
}

func byteInts(b []byte) Ints {
	r := make(Ints, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func intBytes(n Ints) []byte {
	r := make([]byte, len(n))
	for i, x := range n {
		r[i] = byte(x)
	}
	return r
}

func must(err error) {
	if err != nil {
		fail(err)
	}
}

// broken is what a reader fails with behind n bytes.
func broken(n int) error {
	errs := []error{errors.New("broken reader"), io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, os.ErrClosed}
	return errs[n%len(errs)]
}

// names has names for constants, of which some may be the same by mistake.
type names[K comparable] []struct {
	k    K
	name string
}

func (n names[K]) of(k K) string {
	for _, x := range n {
		if x.k == k {
			return x.name
		}
	}
	return ""
}
