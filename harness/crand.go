package main

import (
	"bytes"
	cryptorand "crypto/rand"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sa6mwa/krypto431/crand"
)

// wordSource gives a stream of 32 bit words that tell their number, and notices
// when it is read by two goroutines at once.
type wordSource struct {
	inside   int32
	overlaps int32
	mx       sync.Mutex
	pos      uint64 // bytes given
	salt     uint32
	short    int // give at most this many bytes at a time, 0: all
	failAt   int // fail at this read, from 1; 0: never
	partial  bool
	reads    int
	failed   bool
	slow     bool
	log      []byte
	logging  bool
	constant bool
}

func mix(i, salt uint32) uint32 { return (i*2654435761 + 12345) ^ salt }
func unmix(w, salt uint32) uint32 {
	// Inverse of 2654435761 modulo 2^32.
	return ((w ^ salt) - 12345) * 244002641
}

func (s *wordSource) byteAt(p uint64) byte {
	if s.constant {
		return byte(s.salt)
	}
	w := mix(uint32(p/4)+1, s.salt)
	return byte(w >> (24 - 8*(p%4)))
}

func (s *wordSource) Read(p []byte) (int, error) {
	if atomic.AddInt32(&s.inside, 1) > 1 {
		atomic.AddInt32(&s.overlaps, 1)
	}
	defer atomic.AddInt32(&s.inside, -1)
	s.mx.Lock()
	s.reads++
	n := s.reads
	s.mx.Unlock()
	if s.slow {
		if n%7 == 0 {
			time.Sleep(30 * time.Microsecond)
		} else {
			runtime.Gosched()
		}
	}
	s.mx.Lock()
	defer s.mx.Unlock()
	c := len(p)
	if s.short > 0 && c > s.short {
		c = s.short
	}
	if s.failAt > 0 && n >= s.failAt {
		s.failed = true
		if !s.partial {
			return 0, errors.New("the random source is broken")
		}
		c = c / 2
	}
	for i := 0; i < c; i++ {
		p[i] = s.byteAt(s.pos)
		s.pos++
	}
	if s.logging {
		s.log = append(s.log, p[:c]...)
	}
	if s.failed {
		return c, errors.New("the random source is broken")
	}
	return c, nil
}

func words(b []byte, salt uint32, issued uint64) []int {
	res := []int{}
	for i := 0; i+4 <= len(b); i += 4 {
		w := unmix(binary.BigEndian.Uint32(b[i:]), salt)
		if w < 1 || uint64(w) > issued {
			w = unmix(binary.LittleEndian.Uint32(b[i:]), salt)
		}
		if w < 1 || uint64(w) > issued {
			res = append(res, -1)
		} else {
			res = append(res, int(w))
		}
	}
	return res
}

func runeBytes(r []rune) []byte {
	var b []byte
	for _, c := range r {
		b = binary.BigEndian.AppendUint32(b, uint32(c))
	}
	return b
}

// The functions of the package, with the least bits a value needs.
type rfunc struct {
	name string
	bits int
	f    func() string
}

func rfuncs() []rfunc {
	return []rfunc{
		{"Int63", 63, func() string { return fmt.Sprint(crand.Int63()) }},
		{"Uint32", 32, func() string { return fmt.Sprint(crand.Uint32()) }},
		{"Uint64", 64, func() string { return fmt.Sprint(crand.Uint64()) }},
		{"Int31", 31, func() string { return fmt.Sprint(crand.Int31()) }},
		{"Int", 31, func() string { return fmt.Sprint(crand.Int()) }},
		{"Int63n", 40, func() string { return fmt.Sprint(crand.Int63n(1 << 40)) }},
		{"Int31n", 30, func() string { return fmt.Sprint(crand.Int31n(1000000007)) }},
		{"Intn", 4, func() string { return fmt.Sprint(crand.Intn(26)) }},
		{"Float64", 50, func() string { return fmt.Sprint(crand.Float64()) }},
		{"Float32", 20, func() string { return fmt.Sprint(crand.Float32()) }},
		{"Perm", 15, func() string { return fmt.Sprint(crand.Perm(8)) }},
		{"Shuffle", 15, func() string {
			a := []int{1, 2, 3, 4, 5, 6, 7, 8}
			crand.Shuffle(8, func(i, j int) { a[i], a[j] = a[j], a[i] })
			return fmt.Sprint(a)
		}},
		{"NormFloat64", 24, func() string { return fmt.Sprint(crand.NormFloat64()) }},
		{"ExpFloat64", 24, func() string { return fmt.Sprint(crand.ExpFloat64()) }},
		{"Read", 64, func() string {
			b := make([]byte, 8)
			n, err := crand.Read(b)
			if err != nil {
				return "error"
			}
			return fmt.Sprint(n, b)
		}},
		{"ReadRunes", 64, func() string {
			b := make([]rune, 2)
			n, err := crand.ReadRunes(b)
			if err != nil {
				return "error"
			}
			return fmt.Sprint(n, b)
		}},
	}
}

// childCrand: driver child-crand FUNCTION FAILAT PARTIAL SHORT. The source fails at
// a read; tells the outcome by its exit status.
func childCrand() {
	var failAt, partial, short int
	fmt.Sscan(os.Args[3], &failAt)
	fmt.Sscan(os.Args[4], &partial)
	fmt.Sscan(os.Args[5], &short)
	src := &wordSource{salt: 77, failAt: failAt, partial: partial == 1, short: short}
	cryptorand.Reader = src
	for _, f := range rfuncs() {
		if f.name != os.Args[2] {
			continue
		}
		out := ""
		call := func() string {
			c := make(chan string, 1)
			go func() {
				defer func() {
					if e := recover(); e != nil {
						c <- "panic"
					}
				}()
				r := f.f()
				if r == "error" {
					c <- "error"
				} else {
					c <- "ok"
				}
			}()
			select {
			case s := <-c:
				return s
			case <-time.After(4 * time.Second):
				return "hang"
			}
		}
		out = call()
		failed := src.failed
		src.mx.Lock()
		src.failAt, src.failed = 0, false
		src.mx.Unlock()
		after := "good"
		switch call() {
		case "hang":
			after = "hang"
		case "ok":
		default:
			after = "bad"
		}
		fmt.Printf("CHILD %s %v %s\n", out, failed, after)
		os.Exit(0)
	}
	os.Exit(9)
}

type crnd struct {
	hangs int
	rec   *Recorder
	rng   *rand.Rand
	tr    Trace
}

func (c *crnd) emit(op string, a, r M) {
	c.tr.Events = append(c.tr.Events, Event{Op: op, S: 1, A: a, R: r, Post: []int{}})
}

func (c *crnd) concurrent(goroutines, calls int) {
	src := &wordSource{salt: c.rng.Uint32(), slow: true}
	if c.rng.Intn(2) == 0 {
		src.short = 1 + c.rng.Intn(6)
	}
	old := cryptorand.Reader
	cryptorand.Reader = src
	defer func() { cryptorand.Reader = old }()
	var mx sync.Mutex
	var out [][]byte
	expect := 0
	kinds := make([][]int, goroutines)
	for g := range kinds {
		for i := 0; i < calls; i++ {
			k := c.rng.Intn(8)
			if k == 7 {
				k += c.rng.Intn(6)
			}
			kinds[g] = append(kinds[g], k)
			switch {
			case k < 2:
				expect += 2
			case k < 5:
				expect += 3
			case k < 7:
				expect += 4
			}
		}
	}
	p, what := guarded(func() {
		var wg sync.WaitGroup
		errs := make(chan string, goroutines)
		start := make(chan bool)
		for g := 0; g < goroutines; g++ {
			wg.Add(1)
			go func(ks []int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						errs <- fmt.Sprint(e)
					}
				}()
				<-start
				for _, k := range ks {
					var b []byte
					switch {
					case k < 2:
						b = binary.BigEndian.AppendUint64(nil, crand.Uint64())
					case k < 5:
						b = make([]byte, 12)
						if _, err := crand.Read(b); err != nil {
							panic(err)
						}
					case k < 7:
						r := make([]rune, 4)
						if _, err := crand.ReadRunes(r); err != nil {
							panic(err)
						}
						b = runeBytes(r)
					case k == 7:
						crand.Intn(26)
					case k == 8:
						crand.Int63n(1000)
					case k == 9:
						crand.Perm(4)
					case k == 10:
						crand.NormFloat64()
					case k == 11:
						crand.Float64()
					default:
						crand.Uint32()
					}
					mx.Lock()
					out = append(out, b)
					mx.Unlock()
				}
			}(kinds[g])
		}
		close(start)
		wg.Wait()
		select {
		case e := <-errs:
			panic(e)
		default:
		}
	})
	r := M{"panic": p, "overlaps": int(src.overlaps), "issued": int(src.pos / 4), "words": []int{}}
	if p {
		r["what"] = what
	}
	var w []int
	if !p {
		// Uint64 may be made in either byte order; its words then come swapped.
		for _, b := range out {
			x := words(b, src.salt, src.pos/4)
			w = append(w, x...)
		}
		if w == nil {
			w = []int{}
		}
		r["words"] = w
	}
	c.emit("concurrent", M{"goroutines": goroutines, "calls": calls, "expect": expect, "short": src.short}, r)
}

func toInts(b []byte) []int {
	x := make([]int, len(b))
	for i := range b {
		x[i] = int(b[i])
	}
	return x
}

func (c *crnd) one(fn string, n int) {
	src := &wordSource{salt: c.rng.Uint32(), logging: true, pos: uint64(c.rng.Intn(9))}
	if c.rng.Intn(2) == 0 {
		src.short = 1 + c.rng.Intn(9)
	}
	old := cryptorand.Reader
	cryptorand.Reader = src
	defer func() { cryptorand.Reader = old }()
	var err error
	var outs [][]byte
	got := n
	given := func() []byte { return src.log }
	p, what := guarded(func() {
		switch fn {
		case "Read":
			b := make([]byte, n, n+c.rng.Intn(5))
			got, err = crand.Read(b)
			outs = append(outs, b)
		case "ReadRunes":
			r := make([]rune, n)
			got, err = crand.ReadRunes(r)
			le := []byte{}
			for _, x := range r {
				le = binary.LittleEndian.AppendUint32(le, uint32(x))
			}
			outs = append(outs, runeBytes(r), le)
		case "Uint64":
			v := crand.Uint64()
			outs = append(outs, binary.BigEndian.AppendUint64(nil, v), binary.LittleEndian.AppendUint64(nil, v))
		case "Int63":
			v := uint64(crand.Int63())
			given = func() []byte {
				// The sign bit is not used: take it from the value.
				return src.log
			}
			for _, top := range []uint64{0, 1 << 63} {
				outs = append(outs, binary.BigEndian.AppendUint64(nil, v|top), binary.LittleEndian.AppendUint64(nil, v|top))
			}
			// Or the lowest bit is dropped.
			for _, low := range []uint64{0, 1} {
				outs = append(outs, binary.BigEndian.AppendUint64(nil, v<<1|low), binary.LittleEndian.AppendUint64(nil, v<<1|low))
			}
		}
	})
	r := M{"panic": p, "err": err != nil, "n": got}
	if p {
		r["what"] = what
	}
	o := [][]int{}
	for i := range outs {
		o = append(o, toInts(outs[i]))
	}
	r["outs"], r["given"] = o, toInts(given())
	c.emit("one", M{"fn": fn, "len": n, "short": src.short}, r)
}

func (c *crnd) fail(fn string, at, partial, short int) {
	if c.hangs > 2 {
		return
	}
	self, err := os.Executable()
	check(err)
	cmd := exec.Command(self, "child-crand", fn, fmt.Sprint(at), fmt.Sprint(partial), fmt.Sprint(short))
	out, err := cmd.Output()
	if bytes.Contains(out, []byte("hang")) {
		c.hangs++
	}
	r := M{"outcome": "exit", "failed": true, "after": "good"}
	var oc, af string
	var fl bool
	if n, _ := fmt.Sscanf(string(out), "CHILD %s %t %s", &oc, &fl, &af); n == 3 {
		r["outcome"], r["failed"], r["after"] = oc, fl, af
	} else if err == nil {
		check(errors.New("child-crand gave nothing"))
	}
	c.emit("fail", M{"fn": fn, "at": at, "partial": partial, "short": short}, r)
}

func (c *crnd) source(f rfunc) {
	draw := func(salt uint32, constant bool) (string, uint64) {
		src := &wordSource{salt: salt, constant: constant}
		old := cryptorand.Reader
		cryptorand.Reader = src
		defer func() { cryptorand.Reader = old }()
		s := ""
		for i := 0; i < 20; i++ {
			s += f.f() + " "
		}
		return s, src.pos
	}
	a, b := c.rng.Uint32(), c.rng.Uint32()
	var x, y, z string
	var used uint64
	p, what := guarded(func() {
		x, used = draw(a, false)
		time.Sleep(time.Millisecond)
		y, _ = draw(a, false)
		z, _ = draw(b, false)
	})
	r := M{"panic": p, "x": c.rec.Str(x), "y": c.rec.Str(y), "z": c.rec.Str(z), "used": int(used)}
	if p {
		r["what"] = what
	}
	c.emit("source", M{"fn": f.name, "bits": f.bits * 20}, r)
}

func (c *crnd) ranges(fn string, n int64, bins, draws int, seed int64) {
	old := cryptorand.Reader
	cryptorand.Reader = newSeededReader(seed)
	defer func() { cryptorand.Reader = old }()
	counts := make([]int, bins)
	in := true
	add := func(v int64) {
		if v < 0 || v >= n {
			in = false
			return
		}
		b := new(big.Int).Mul(big.NewInt(v), big.NewInt(int64(bins)))
		counts[b.Div(b, big.NewInt(n)).Int64()]++
	}
	perm := func(a []int) int64 {
		// The number of the permutation.
		seen := map[int]bool{}
		k := int64(0)
		for i := range a {
			if a[i] < 0 || a[i] >= len(a) || seen[a[i]] {
				return -1
			}
			seen[a[i]] = true
			less := 0
			for j := i + 1; j < len(a); j++ {
				if a[j] < a[i] {
					less++
				}
			}
			k = k*int64(len(a)-i) + int64(less)
		}
		return k
	}
	p, what := guarded(func() {
		for i := 0; i < draws; i++ {
			switch fn {
			case "Intn":
				add(int64(crand.Intn(int(n))))
			case "Int31n":
				add(int64(crand.Int31n(int32(n))))
			case "Int63n":
				add(crand.Int63n(n))
			case "Int63":
				add(crand.Int63())
			case "Int31":
				add(int64(crand.Int31()))
			case "Uint32":
				add(int64(crand.Uint32()))
			case "Uint64":
				add(int64(crand.Uint64() >> 1))
			case "Int":
				add(int64(crand.Int()))
			case "Float64":
				f := crand.Float64()
				if f < 0 || f >= 1 {
					in = false
				} else {
					add(int64(f * 1024))
				}
			case "Float32":
				f := crand.Float32()
				if f < 0 || f >= 1 {
					in = false
				} else {
					add(int64(f * 1024))
				}
			case "Perm":
				add(perm(crand.Perm(4)))
			case "Shuffle":
				a := []int{0, 1, 2, 3}
				crand.Shuffle(4, func(i, j int) { a[i], a[j] = a[j], a[i] })
				add(perm(a))
			}
		}
	})
	r := M{"panic": p, "inrange": in, "counts": counts}
	if p {
		r["what"] = what
	}
	c.emit("range", M{"fn": fn, "n": fmt.Sprint(n), "draws": draws}, r)
}

func runCrand(rec *Recorder, seed int64, num int) {
	c := &crnd{rec: rec, rng: newRng(seed)}
	flush := func(name string) {
		rec.Traces = append(rec.Traces, c.tr)
		c.tr = Trace{Name: name, Init: []int{}, Events: []Event{}}
	}
	c.tr = Trace{Name: "concurrent", Init: []int{}, Events: []Event{}}
	for i := 0; i < num; i++ {
		c.concurrent(2+c.rng.Intn(15), 5+c.rng.Intn(30))
	}
	flush("single calls")
	for i := 0; i < 4*num; i++ {
		switch c.rng.Intn(5) {
		case 0:
			c.one("Uint64", 8)
		case 1:
			c.one("Int63", 8)
		case 2:
			c.one("ReadRunes", []int{0, 1, 2, 5, 33, 400}[c.rng.Intn(6)])
		default:
			c.one("Read", []int{0, 1, 2, 3, 7, 8, 9, 16, 31, 32, 100, 1025}[c.rng.Intn(12)])
		}
	}
	flush("failing source")
	for _, f := range rfuncs() {
		for i := 0; i < 1+num/10; i++ {
			c.fail(f.name, 1+c.rng.Intn(1+i%3), c.rng.Intn(2), []int{0, 0, 1, 3, 5}[c.rng.Intn(5)])
		}
	}
	flush("values and source")
	for _, f := range rfuncs() {
		for i := 0; i < 1+num/10; i++ {
			c.source(f)
		}
	}
	flush("ranges")
	const third31, third63 = 3 << 29, 3 << 61
	for _, t := range []struct {
		fn   string
		n    int64
		bins int
	}{{"Intn", 26, 26}, {"Intn", 62, 62}, {"Intn", 10, 10}, {"Intn", 2, 2}, {"Intn", third31, 12}, {"Intn", third63, 12}, {"Int31n", third31, 12}, {"Int31n", 26, 26}, {"Int31n", 64, 64},
		{"Int63n", third63, 12}, {"Int63n", third31, 12}, {"Int63n", 26, 26}, {"Int63n", 1 << 62, 16}, {"Int63", 1<<63 - 1, 16}, {"Int31", 1 << 31, 16}, {"Uint32", 1 << 32, 16}, {"Uint64", 1<<63 - 1, 16}, {"Int", 1<<63 - 1, 16},
		{"Float64", 1024, 16}, {"Float32", 1024, 16}, {"Perm", 24, 24}, {"Shuffle", 24, 24}, {"Intn", 1, 1}, {"Intn", 1000, 100}, {"Intn", 100, 100}} {
		c.ranges(t.fn, t.n, t.bins, 250*t.bins*(1+num/20), seed)
	}
	flush("")
}
