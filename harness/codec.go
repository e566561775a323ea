package main

import (
	"encoding/json"
	"math/rand"
	"os"
	"strings"
	"time"

	"github.com/sa6mwa/krypto431"
	"github.com/sa6mwa/krypto431/diana"
)

// batch collects independent events in traces of limited size.
type batch struct {
	rec  *Recorder
	name string
	tr   Trace
	size int
}

func newBatch(rec *Recorder, name string, size int) *batch {
	return &batch{rec: rec, name: name, size: size, tr: Trace{Name: name, Init: []int{}, Events: []Event{}}}
}

func (b *batch) add(op string, a, r M) {
	if a == nil {
		a = M{}
	}
	b.tr.Events = append(b.tr.Events, Event{Op: op, S: 1, A: a, R: r, Post: []int{}})
	if len(b.tr.Events) >= b.size {
		b.flush()
	}
}

func (b *batch) flush() {
	if len(b.tr.Events) > 0 {
		b.rec.Traces = append(b.rec.Traces, b.tr)
	}
	b.tr = Trace{Name: b.name, Init: []int{}, Events: []Event{}}
}

type testKey struct{ id, runes string }

func randomLetters(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('A' + r.Intn(26))
	}
	return string(b)
}

func randomKeys(r *rand.Rand, n, gs, kl int) (ks []testKey) {
	seen := map[string]bool{}
	for len(ks) < n {
		id := randomLetters(r, gs)
		if !seen[id] {
			seen[id] = true
			ks = append(ks, testKey{id, randomLetters(r, kl)})
		}
		if gs == 1 && len(ks) == 26 {
			return
		}
	}
	return
}

func stationWith(call string, gs, kl int, ks []testKey, keepers ...string) *krypto431.Krypto431 {
	k := krypto431.New(krypto431.WithGroupSize(gs), krypto431.WithKeyLength(kl), krypto431.WithCallSign(call), krypto431.WithPFK(pfk()))
	for _, x := range ks {
		key := krypto431.Key{Id: []rune(x.id), Runes: []rune(x.runes), Created: dtgOf(time.Now()), Expires: dtgOf(time.Now().AddDate(1, 0, 0))}
		for _, c := range keepers {
			key.Keepers = append(key.Keepers, []rune(c))
		}
		key.SetInstance(&k)
		k.Keys = append(k.Keys, key)
	}
	return &k
}

func (b *batch) keyRefs(ks []testKey) []M {
	l := []M{}
	for _, k := range ks {
		l = append(l, M{"id": b.rec.Str(k.id), "runes": b.rec.Str(k.runes)})
	}
	return l
}

func usedMarks(k *krypto431.Krypto431) []bool {
	u := []bool{}
	for i := range k.Keys {
		u = append(u, k.Keys[i].Used)
	}
	return u
}

// roundTrip enciphers text with the keys and deciphers it elsewhere.
func (b *batch) roundTrip(text []rune, gs, kl int, ks []testKey) {
	var keep []string
	if len(text)%2 == 0 {
		keep = []string{"BB"}
	}
	st := stationWith("AA", gs, kl, ks, keep...)
	m := krypto431.Message{PlainText: append([]rune{}, text...), From: []rune("AA")}
	for _, c := range keep {
		m.AddRecipient([]rune(c))
	}
	m.SetInstance(st)
	var err, berr error
	p, w := guarded(func() { err = m.Encipher() })
	r := M{"err": err != nil, "panic": p, "what": w, "kid": b.rec.Runes(m.KeyId), "ct": b.rec.Runes(m.CipherText), "kept": b.rec.Runes(m.PlainText),
		"used": usedMarks(st), "back": 0, "berr": true, "bused": []bool{}}
	if !p && err == nil {
		other := stationWith("BB", gs, kl, ks)
		m2 := krypto431.Message{KeyId: append([]rune{}, m.KeyId...), CipherText: append([]rune{}, m.CipherText...)}
		m2.SetInstance(other)
		p, w = guarded(func() { berr = m2.Decipher() })
		r["panic"], r["what"] = p, w
		r["berr"], r["back"], r["bused"] = berr != nil, b.rec.Runes(m2.PlainText), usedMarks(other)
	}
	b.add("rt", M{"text": b.rec.Runes(text), "gs": gs, "keys": b.keyRefs(ks)}, r)
}

// One or two characters of every kind the encoder tells apart.
var kinds = []string{"AY", "ay", "09?", "ÅZÖQ", "åzöq", " ", ".,:+/-"}

func runRoundTrips(rec *Recorder, seed int64, n int, exhaustive bool) {
	r := newRng(seed)
	useSeededSource(seed)
	b := newBatch(rec, "round trips", 60)
	all := []rune(upperPlain + lowerPlain + otherPlain)
	// Every ordered pair of characters.
	for i := range all {
		var t []rune
		for j := range all {
			t = append(t, all[i], all[j])
		}
		if exhaustive || i%4 == int(seed)%4 {
			b.roundTrip(t, 5, 350, randomKeys(r, 4, 5, 350))
		}
	}
	// Every single character.
	for _, c := range all {
		b.roundTrip([]rune{c}, 5, 25, randomKeys(r, 1, 5, 25))
	}
	// Three characters of every combination of kinds where a key ends.
	for _, gk := range [][2]int{{5, 20}, {1, 20}, {3, 21}, {4, 24}, {13, 26}} {
		gs, kl := gk[0], gk[1]
		if !exhaustive && gs != 5 && r.Intn(3) > 0 {
			continue
		}
		for a := 0; a < len(kinds); a++ {
			for bb := 0; bb < len(kinds); bb++ {
				for c := 0; c < len(kinds); c++ {
					for p := kl - gs - 12; p <= kl-gs+1; p++ {
						if p < 0 || (!exhaustive && r.Intn(12) > 0) {
							continue
						}
						x := pick(r, "Aå7")
						t := []rune(strings.Repeat(string(x), p))
						t = append(t, pick(r, kinds[a]), pick(r, kinds[bb]), pick(r, kinds[c]))
						if r.Intn(2) == 0 {
							t = append(t, pick(r, kinds[r.Intn(len(kinds))]))
						}
						b.roundTrip(t, gs, kl, randomKeys(r, 5, gs, kl))
					}
				}
			}
		}
	}
	// Random texts, group sizes, key lengths and numbers of keys.
	for i := 0; i < n; i++ {
		gs := []int{5, 5, 1, 2, 3, 4, 6, 7, 8, 10, 12, 17, 25}[r.Intn(13)]
		kl := []int{20, 21, 22, 24, 25, 27, 30, 33, 40, 50, 60, 100, 200, 350}[r.Intn(14)]
		kl = (kl + gs - 1) / gs * gs
		c := kl - gs - 2
		if c < 1 {
			c = 1
		}
		w := 1 + r.Intn(5)
		want := w*c - r.Intn(c)
		if r.Intn(2) == 0 {
			want = w*c + r.Intn(12) - 8
		}
		if want < 1 {
			want = 1
		}
		t := randomText(r, want)
		if r.Intn(8) == 0 {
			t = append(t, 0)
			x := r.Intn(len(t))
			copy(t[x+1:], t[x:])
			t[x] = unsupportedRunes[r.Intn(len(unsupportedRunes))]
		}
		b.roundTrip(t, gs, kl, randomKeys(r, w+r.Intn(4), gs, kl))
	}
	if exhaustive {
		b.roundTrip(randomText(r, 20000), 5, 350, randomKeys(r, 70, 5, 350))
		b.roundTrip(randomText(r, 3000), 5, 20, randomKeys(r, 320, 5, 20))
	} else {
		b.roundTrip(randomText(r, 4000), 5, 350, randomKeys(r, 16, 5, 350))
	}
	// No text.
	b.roundTrip(nil, 5, 25, randomKeys(r, 2, 5, 25))
	b.flush()
}

func tri(x, y byte) byte { return byte('A' + (25-int(x-'A')-int(y-'A')+52)%26) }

// traffic enciphers letters (with the ids of keys after a key change in them)
// with a chain of keys, each change taking effect after its id.
type segment struct {
	letters string // without the id of the next key
	key     testKey
}

func encipherSegments(segs []segment) (ct string) {
	for i, s := range segs {
		l := s.letters
		if i+1 < len(segs) {
			l += segs[i+1].key.id
		}
		for j := 0; j < len(l); j++ {
			k := byte('A')
			if j < len(s.key.runes) {
				k = s.key.runes[j]
			}
			ct += string(rune(tri(k, l[j])))
		}
	}
	return
}

func (b *batch) decipher(gs, kl int, ks []testKey, kid, ct string, variant int) {
	st := stationWith("AA", gs, kl, ks)
	before := "BEFORE"
	m := krypto431.Message{}
	var err error
	var p bool
	var w string
	switch variant {
	case 0:
		m = krypto431.Message{KeyId: []rune(kid), CipherText: []rune(ct), PlainText: []rune(before)}
		m.SetInstance(st)
		p, w = guarded(func() { err = m.Decipher() })
	default:
		before = kid + " " + groupsOf(ct, gs)
		m.PlainText = []rune(before)
		m.SetInstance(st)
		p, w = guarded(func() { err = m.TryDecipherPlainText() })
	}
	b.add("dec", M{"gs": gs, "keys": b.keyRefs(ks), "kid": b.rec.Str(kid), "ct": b.rec.Str(ct), "before": b.rec.Str(before)},
		M{"err": err != nil, "panic": p, "what": w, "out": b.rec.Runes(m.PlainText), "used": usedMarks(st)})
}

func runLegend(rec *Recorder, seed int64, n int, exhaustive bool, lettersFile string) {
	r := newRng(seed)
	useSeededSource(seed)
	b := newBatch(rec, "traffic by the legend", 200)
	// Every sequence of two letters (all: three) in every coding state.
	ks := randomKeys(r, 3, 1, 20)
	var seqs func(l int) []string
	seqs = func(l int) []string {
		if l == 0 {
			return []string{""}
		}
		var out []string
		for _, s := range seqs(l - 1) {
			for c := 'A'; c <= 'Z'; c++ {
				out = append(out, s+string(c))
			}
		}
		return out
	}
	depth := 2
	if exhaustive {
		depth = 3
	}
	for _, s := range seqs(depth) {
		for _, pre := range []string{"", "Z", "ZX", "ZXZ"} {
			if exhaustive && pre != "" && r.Intn(3) > 0 {
				continue
			}
			b.decipher(1, 20, ks, ks[0].id, encipherSegments([]segment{{pre + s, ks[0]}}), r.Intn(2))
		}
	}
	// Sequences made by TLC from the model of the codec.
	if lettersFile != "" {
		f, err := os.ReadFile(lettersFile)
		check(err)
		var ls []string
		check(json.Unmarshal(f, &ls))
		for _, l := range ls {
			gs := 1 + r.Intn(5)
			kl := (len(l)/gs + 5) * gs
			k := randomKeys(r, 1, gs, kl)
			for len(l)%gs != 0 || len(l) < gs {
				l += "Z"
			}
			b.decipher(gs, kl, k, k[0].id, encipherSegments([]segment{{l, k[0]}}), r.Intn(2))
		}
	}
	// Random sequences with key changes.
	for i := 0; i < n; i++ {
		gs := 1 + r.Intn(6)
		kl := 20 + r.Intn(40)
		ks := randomKeys(r, 1+r.Intn(5), gs, kl)
		var segs []segment
		cur := ks[0]
		seen := 1 + r.Intn(4)
		for s := 0; s < seen; s++ {
			l := ""
			tb := 1
			ln := r.Intn(kl - gs - 1)
			if r.Intn(6) == 0 {
				ln = r.Intn(kl + 3)
			}
			for len(l) < ln {
				c := byte('A' + r.Intn(26))
				if tb == 2 && (c == 'Y' || (c == 'W' && r.Intn(10) > 0)) {
					c = 'Z'
				}
				if c == 'Z' {
					tb = 3 - tb
				} else if r.Intn(4) == 0 && tb == 1 { // more of the secondary table
					c = 'Z'
					tb = 2
				}
				l += string(rune(c))
			}
			if s+1 < seen {
				if tb == 1 {
					l += "Z"
				}
				l += "Y"
			}
			segs = append(segs, segment{l, cur})
			cur = ks[r.Intn(len(ks))]
			if r.Intn(15) == 0 {
				cur = testKey{randomLetters(r, gs), randomLetters(r, kl)} // not held
			}
		}
		ct := encipherSegments(segs)
		switch r.Intn(12) {
		case 0:
			if len(ct) > 0 {
				ct = ct[:r.Intn(len(ct))]
			}
		case 1:
			x := []rune(ct)
			if len(x) > 0 {
				x[r.Intn(len(x))] = pick(r, "a1 Å{@[")
			}
			b.decipher(gs, kl, ks, ks[0].id, string(x), 0)
			continue
		}
		v := r.Intn(2)
		if len(ct) < gs {
			v = 0
		}
		b.decipher(gs, kl, ks, ks[0].id, ct, v)
	}
	// The printed legend.
	idx, ct1, ct2 := []int{}, []int{}, []int{}
	for _, line := range strings.Split(krypto431.KeyFooter, "\n") {
		l := []rune(strings.TrimSuffix(line, "\r"))
		var to *[]int
		switch {
		case strings.HasPrefix(string(l), "IDX "):
			to = &idx
		case strings.HasPrefix(string(l), "CT1 "):
			to = &ct1
		case strings.HasPrefix(string(l), "CT2 "):
			to = &ct2
		default:
			continue
		}
		for j := 0; j < 26 && 4+2*j < len(l); j++ {
			*to = append(*to, int(l[4+2*j]))
		}
	}
	b.add("legend", nil, M{"idx": idx, "ct1": ct1, "ct2": ct2})
	b.flush()
}

func runDiana(rec *Recorder, seed int64, n int) {
	r := newRng(seed)
	b := newBatch(rec, "trigraph", 60)
	bytesRow := func(x byte, f func(w, x, y *byte) error) (ys, row []int) {
		for y := 0; y < 256; y++ {
			xx, yy := x, byte(y)
			w := byte(1)
			err := f(&w, &xx, &yy)
			switch {
			case err != nil && w == 1 && xx == x && yy == byte(y):
				row = append(row, -1)
			case err != nil:
				row = append(row, -2)
			default:
				row = append(row, int(w))
			}
			ys = append(ys, y)
		}
		return
	}
	runesRow := func(x rune, cand []rune, f func(w, x, y *rune) error) (ys, row []int) {
		for _, y := range cand {
			xx, yy := x, y
			w := rune(1)
			err := f(&w, &xx, &yy)
			switch {
			case err != nil && w == 1 && xx == x && yy == y:
				row = append(row, -1)
			case err != nil:
				row = append(row, -2)
			default:
				row = append(row, int(w))
			}
			ys = append(ys, int(y))
		}
		return
	}
	for x := 0; x < 256; x++ {
		if x > 100 && x < 250 && r.Intn(4) > 0 {
			continue
		}
		ys, row := bytesRow(byte(x), diana.TrigraphByte)
		b.add("tri", M{"x": x, "ys": ys}, M{"row": row})
	}
	// Results written over an argument, and in either order of arguments.
	for x := byte('A'); x <= 'Z'; x++ {
		ys, row, row2 := []int{}, []int{}, []int{}
		for y := byte('A'); y <= 'Z'; y++ {
			xx, yy := x, y
			if diana.TrigraphByte(&xx, &xx, &yy) != nil {
				xx = 0
			}
			row = append(row, int(xx))
			xr, yr := rune(x), rune(y)
			if diana.TrigraphRune(&yr, &xr, &yr) != nil {
				yr = 0
			}
			row2 = append(row2, int(yr))
			ys = append(ys, int(y))
		}
		b.add("tri", M{"x": int(x), "ys": ys}, M{"row": row})
		b.add("tri", M{"x": int(x), "ys": ys}, M{"row": row2})
	}
	cand := []rune{-1, -65, 0, 64, 91, 'a', 'z', 'Å', 'A' + 256, 'Z' + 256, 'A' + 65536, 0x10FFFF, 0x7FFFFFFF, -0x7FFFFFFF, 'A' - 26, 'Z' + 26, 'A' + 26*4}
	for c := 'A'; c <= 'Z'; c++ {
		cand = append(cand, c)
	}
	for _, x := range cand {
		ys, row := runesRow(x, cand, diana.TrigraphRune)
		b.add("tri", M{"x": int(x), "ys": ys}, M{"row": row})
	}
	ys, row := bytesRow(0, func(w, x, y *byte) error { return diana.ZeroKeyByte(w, y) })
	b.add("zero", M{"ys": ys}, M{"row": row})
	ys, row = runesRow(0, cand, func(w, x, y *rune) error { return diana.ZeroKeyRune(w, y) })
	b.add("zero", M{"ys": ys}, M{"row": row})
	// Nil arguments.
	for mask := 0; mask < 7; mask++ {
		w, x, y := byte(1), byte('A'), byte('B')
		var pw, px, py *byte
		if mask&1 != 0 {
			pw = &w
		}
		if mask&2 != 0 {
			px = &x
		}
		if mask&4 != 0 {
			py = &y
		}
		var err error
		p, _ := guarded(func() { err = diana.TrigraphByte(pw, px, py) })
		b.add("nil", M{"mask": mask}, M{"panic": p, "err": err != nil, "wrote": w != 1})
		wr, xr, yr := rune(1), 'A', 'B'
		var qw, qx, qy *rune
		if mask&1 != 0 {
			qw = &wr
		}
		if mask&2 != 0 {
			qx = &xr
		}
		if mask&4 != 0 {
			qy = &yr
		}
		p, _ = guarded(func() { err = diana.TrigraphRune(qw, qx, qy) })
		b.add("nil", M{"mask": mask}, M{"panic": p, "err": err != nil, "wrote": wr != 1})
		if mask < 3 {
			p, _ = guarded(func() { err = diana.ZeroKeyByte(pw, px) })
			b.add("nil", M{"mask": mask}, M{"panic": p, "err": err != nil, "wrote": w != 1})
			p, _ = guarded(func() { err = diana.ZeroKeyRune(qw, qx) })
			b.add("nil", M{"mask": mask}, M{"panic": p, "err": err != nil, "wrote": wr != 1})
		}
	}
	for mask := 0; mask < 15; mask++ {
		out, ch, key, idx := []byte("AB"), byte('C'), []byte("DEF"), 2
		po, pc, pk, pi := &out, &ch, &key, &idx
		if mask&1 == 0 {
			po = nil
		}
		if mask&2 == 0 {
			pc = nil
		}
		if mask&4 == 0 {
			pk = nil
		}
		if mask&8 == 0 {
			pi = nil
		}
		var err error
		p, _ := guarded(func() { err = diana.AppendTrigraphByteByKey(po, pc, pk, pi) })
		b.add("nil", M{"mask": mask}, M{"panic": p, "err": err != nil, "wrote": string(out) != "AB" || idx != 2})
	}
	// The stream helper.
	for i := 0; i < n; i++ {
		kl := r.Intn(8)
		key := []byte(randomLetters(r, kl))
		if r.Intn(8) == 0 && kl > 0 {
			key[r.Intn(kl)] = []byte("a@[ 0")[r.Intn(5)]
		}
		out := make([]byte, 0, 16)
		out = append(out, randomLetters(r, r.Intn(9))...)
		idx := r.Intn(kl+4) - 1
		if r.Intn(10) == 0 {
			idx = []int{-1, -2, 1 << 30, -1 << 31, kl}[r.Intn(5)]
		}
		if r.Intn(3) == 0 {
			idx = len(out)
		}
		ch := byte('A' + r.Intn(26))
		if r.Intn(8) == 0 {
			ch = byte(r.Intn(256))
		}
		a := M{"out": ints(out), "key": ints(key), "idx": idx, "ch": int(ch)}
		var err error
		p, w := guarded(func() { err = diana.AppendTrigraphByteByKey(&out, &ch, &key, &idx) })
		b.add("stream", a, M{"panic": p, "what": w, "err": err != nil, "out": ints(out), "idx": idx})
	}
	// The printed table.
	lines := [][]int{}
	for _, l := range strings.Split(strings.TrimRight(diana.ReciprocalTable, "\r\n"), "\n") {
		lines = append(lines, rec.StrList(strings.Fields(l)))
	}
	b.add("table", nil, M{"lines": lines})
	b.flush()
}

func ints(b []byte) []int {
	l := []int{}
	for _, x := range b {
		l = append(l, int(x))
	}
	return l
}
