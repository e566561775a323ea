package main

import (
	cryptorand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"math/rand"
	"sync"
)

// seededReader is a deterministic stand-in for the system's random source.
type seededReader struct {
	mx   sync.Mutex
	seed [32]byte
	n    uint64
	buf  []byte
}

func newSeededReader(seed int64) *seededReader {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], uint64(seed))
	return &seededReader{seed: sha256.Sum256(b[:])}
}

func (s *seededReader) Read(p []byte) (int, error) {
	s.mx.Lock()
	defer s.mx.Unlock()
	for len(s.buf) < len(p) {
		var b [40]byte
		copy(b[:], s.seed[:])
		binary.BigEndian.PutUint64(b[32:], s.n)
		s.n++
		h := sha256.Sum256(b[:])
		s.buf = append(s.buf, h[:]...)
	}
	copy(p, s.buf)
	s.buf = s.buf[len(p):]
	return len(p), nil
}

func useSeededSource(seed int64) { cryptorand.Reader = newSeededReader(seed) }

func newRng(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }
