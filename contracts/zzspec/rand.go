package zzspec

import (
	"crypto/rand"
	"errors"
	"io"
)

// Recording stand-in for the system's random source at run time.
type randRec struct {
	real  io.Reader
	log   []byte
	fail  bool
	force []byte
}

func (r *randRec) Read(p []byte) (int, error) {
	if r.fail && Rng.Intn(3) == 0 {
		return 0, errors.New("random source failed")
	}
	n, err := r.real.Read(p)
	if len(p) == 4 && r.force != nil {
		copy(p, r.force)
		r.force = nil
	}
	r.log = append(r.log, p[:n]...)
	if len(r.log) > 1<<16 {
		r.log = append([]byte(nil), r.log[len(r.log)-4096:]...)
	}
	return n, err
}

var recorder = &randRec{real: rand.Reader}

func init() { rand.Reader = recorder }

// RandMayFail: the system's random source may fail from here on.
func RandMayFail() { recorder.fail = true }

// Drawn returns the last n bytes the system's random source delivered.
func Drawn(n int) []byte {
	if len(recorder.log) < n {
		return nil
	}
	return Clone(recorder.log[len(recorder.log)-n:])
}

// DrawnTotal is how many bytes were drawn since the contract started.
func DrawnTotal() int { return len(recorder.log) }

func resetRand() { recorder.fail, recorder.log, recorder.force = false, nil, nil }

// ForceRand makes the next four random bytes the big-endian n (execution only).
func ForceRand(n uint32) {
	recorder.force = []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
}
