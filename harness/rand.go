package main

import (
	stdcontext "context"
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"
)

// Rand is a splitmix64 generator: small, seedable and independent of the Go version
type Rand struct{ s uint64 }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0,n)
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [lo,hi]
func (r *Rand) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }

// Pct is true in p percent of the calls
func (r *Rand) Pct(p int) bool { return r.N(100) < p }

// anErr is any error that a reader, writer or callback may fail with
func (r *Rand) anErr(what string) error {
	switch r.N(13) {
	case 8:
		return io.EOF
	case 0:
		return io.ErrUnexpectedEOF
	case 1:
		return io.ErrShortWrite
	case 2:
		return io.ErrClosedPipe
	case 3:
		return os.ErrDeadlineExceeded
	case 4:
		return stdcontext.Canceled
	case 5:
		return &os.PathError{Op: what, Path: "file", Err: syscall.EPIPE}
	case 6:
		return fmt.Errorf("%s: %w", what, io.ErrUnexpectedEOF)
	case 7:
		return errors.Join(errors.New(what), io.ErrNoProgress)
	}
	return errors.New(what + " failed")
}

func (r *Rand) Pick(s ...string) string { return s[r.N(len(s))] }

// few is a number in [0,n), now and then a much larger one
func (r *Rand) few(n int) int {
	if r.Pct(4) {
		return r.N(4*n + 4)
	}
	return r.N(n)
}

func (r *Rand) Fork() *Rand { return &Rand{s: r.U64()} }

func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
