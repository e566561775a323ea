package main

import (
	cryptorand "crypto/rand"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"time"

	"github.com/sa6mwa/krypto431"
)

// The same history is run this many times, with different random sources: a
// cell that holds what it held in all of them was not overwritten.
const wipeRuns = 8

// moodySource is a random source that can be slow, constant or broken.
type moodySource struct {
	r        *seededReader
	short    int
	failAt   int // bytes until it fails, -1: never
	constant int // -1: not
}

func (s *moodySource) Read(p []byte) (int, error) {
	n := len(p)
	if s.short > 0 && n > s.short {
		n = s.short
	}
	var err error
	if s.failAt >= 0 && n > s.failAt {
		n, err = s.failAt, errors.New("the random source is broken")
	}
	if s.failAt >= 0 {
		s.failAt -= n
	}
	if s.constant >= 0 {
		for i := 0; i < n; i++ {
			p[i] = byte(s.constant)
		}
		return n, err
	}
	s.r.Read(p[:n])
	return n, err
}

type mood struct {
	short, failAt, constant int
}

func (w *wiper) mood() mood {
	m := mood{failAt: -1, constant: -1}
	switch w.rng.Intn(8) {
	case 0, 1:
		m.failAt = 0
	case 2, 3:
		m.failAt = w.rng.Intn(3000)
	case 4:
		m.constant = 1
	}
	if w.rng.Intn(3) == 0 {
		m.short = 1 + w.rng.Intn(9)
	}
	return m
}

func (m mood) source(seed int64, run int) *moodySource {
	s := &moodySource{r: newSeededReader(seed*100 + int64(run)), short: m.short, failAt: m.failAt, constant: m.constant}
	if m.constant >= 0 {
		s.constant = 0x81 + 9*run
	}
	return s
}

// cells is memory that held something.
type cells struct {
	runes []rune
	bytes []byte
	was   string // fmt of the original
	origr []rune
	origb []byte
}

func runeCells(r []rune) cells {
	return cells{runes: r, origr: append([]rune{}, r...)}
}
func byteCells(b []byte) cells {
	return cells{bytes: b, origb: append([]byte{}, b...)}
}
func (c *cells) len() int { return len(c.runes) + len(c.bytes) }

// same tells for every cell if it holds what it held.
func (c *cells) same() []bool {
	out := make([]bool, 0, c.len())
	for i := range c.runes {
		out = append(out, c.runes[i] == c.origr[i])
	}
	for i := range c.bytes {
		out = append(out, c.bytes[i] == c.origb[i])
	}
	return out
}

type object struct {
	id     string // of a key or message
	key    bool
	fields map[string][]cells
}

// store is one run of a history.
type wstore struct {
	k    *krypto431.Krypto431
	objs []object // 0 is the instance itself
}

type wiper struct {
	rec *Recorder
	rng *rand.Rand
	tr  Trace
}

func (w *wiper) emit(op string, a, r M) {
	w.tr.Events = append(w.tr.Events, Event{Op: op, S: 1, A: a, R: r, Post: []int{}})
}

func randLetters(rng *rand.Rand, n int) []rune {
	r := make([]rune, n)
	for i := range r {
		r[i] = rune('A' + rng.Intn(26))
	}
	return r
}

func anyRunes(rng *rand.Rand, n int) []rune {
	r := make([]rune, n)
	for i := range r {
		r[i] = []rune("ABCÅÄÖ 0123.?xyz\n")[rng.Intn(17)]
	}
	return r
}

func someBytes(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(1 + rng.Intn(127))
	}
	return b
}

func newWiperStore(seed int64) *wstore {
	rng := newRng(seed)
	size := func() int {
		return []int{0, 1, 2, 5, 20, 100, 350, 1023, 4096, 5001}[rng.Intn(10)]
	}
	key, salt := someBytes(rng, 32), someBytes(rng, 32+rng.Intn(3)*16)
	s := &wstore{}
	k := krypto431.New(krypto431.WithPersistence("none.gob"), krypto431.WithPFK(&key), krypto431.WithSalt(&salt),
		krypto431.WithCallSign("AA"), krypto431.WithKeyLength(20+rng.Intn(400)))
	s.k = &k
	pfk := key
	if g := k.GetPFK(); g != nil {
		pfk = *g
	}
	s.objs = append(s.objs, object{id: "", fields: map[string][]cells{"pfk": {byteCells(pfk)}, "salt": {byteCells(salt)}}})
	made := rng.Intn(3)
	if made > 0 {
		check(k.GenerateKeys(made, nil, "BB", "CC,DD"))
	}
	for n := rng.Intn(4); n >= 0; n-- {
		y := krypto431.Key{Id: randLetters(rng, 5), Runes: randLetters(rng, size()), Comment: anyRunes(rng, size())}
		y.Created, y.Expires = dtgOf(time.Now()), dtgOf(time.Now())
		for j := rng.Intn(4); j > 0; j-- {
			y.Keepers = append(y.Keepers, randLetters(rng, 1+rng.Intn(8)))
		}
		y.SetInstance(&k)
		k.Keys = append(k.Keys, y)
	}
	for n := rng.Intn(4); n >= 0; n-- {
		m := krypto431.Message{Id: randLetters(rng, 4), PlainText: anyRunes(rng, size()), CipherText: randLetters(rng, size()), KeyId: randLetters(rng, 5),
			Radiogram: anyRunes(rng, size()), Binary: someBytes(rng, size()), From: []rune("BB"), Recipients: [][]rune{[]rune("AA")}}
		m.SetInstance(&k)
		k.Messages = append(k.Messages, m)
	}
	for i := range k.Keys {
		y := &k.Keys[i]
		o := object{id: string(y.Id), key: true, fields: map[string][]cells{
			"letters": {runeCells(y.Runes)}, "id": {runeCells(y.Id)}, "comment": {runeCells(y.Comment)}}}
		for j := range y.Keepers {
			o.fields["keepers"] = append(o.fields["keepers"], runeCells(y.Keepers[j]))
		}
		s.objs = append(s.objs, o)
	}
	for i := range k.Messages {
		m := &k.Messages[i]
		s.objs = append(s.objs, object{id: string(m.Id), fields: map[string][]cells{
			"text": {runeCells(m.PlainText)}, "cipher": {runeCells(m.CipherText)}, "keyid": {runeCells(m.KeyId)},
			"radiogram": {runeCells(m.Radiogram)}, "binary": {byteCells(m.Binary)}}})
	}
	return s
}

// mem compares the memory of all runs.
func mem(runs []*wstore) []M {
	out := []M{}
	for o := range runs[0].objs {
		for _, f := range []string{"letters", "id", "comment", "keepers", "text", "cipher", "keyid", "radiogram", "binary", "pfk", "salt"} {
			cs, ok := runs[0].objs[o].fields[f]
			if !ok {
				continue
			}
			n, kept, lost := 0, 0, 0
			for x := range cs {
				all := cs[x].same()
				n += len(all)
				never := append([]bool{}, all...)
				for _, r := range runs[1:] {
					for j, b := range r.objs[o].fields[f][x].same() {
						all[j] = all[j] && b
						never[j] = never[j] && b
					}
				}
				for j := range all {
					if all[j] {
						kept++
					}
					if !never[j] {
						lost++
					}
				}
			}
			out = append(out, M{"o": o, "f": f, "n": n, "kept": kept, "lost": lost})
		}
	}
	return out
}

// WipeCmd is an operation of a history. J picks an object.
type WipeCmd struct {
	Op string `json:"op"`
	J  int    `json:"j"`
	X  int    `json:"x"`
}

func (s *wstore) place(id string, key bool) int {
	if key {
		for i := range s.k.Keys {
			if string(s.k.Keys[i].Id) == id {
				return i
			}
		}
		return -1
	}
	for i := range s.k.Messages {
		if string(s.k.Messages[i].Id) == id {
			return i
		}
	}
	return -1
}

func (w *wiper) history(seed int64, cmds []WipeCmd) {
	runs := make([]*wstore, wipeRuns)
	for i := range runs {
		useSeededSource(seed)
		runs[i] = newWiperStore(seed)
	}
	w.tr = Trace{Name: "wiping", Init: []int{}, Events: []Event{}}
	md := w.mood()
	for step, c := range cmds {
		if w.rng.Intn(3) == 0 {
			md = w.mood()
		}
		// Objects of the store now.
		var live []int
		for o := 1; o < len(runs[0].objs); o++ {
			if ob := runs[0].objs[o]; runs[0].place(ob.id, ob.key) >= 0 {
				live = append(live, o)
			}
		}
		if c.Op != "close" && len(live) == 0 {
			continue
		}
		a := M{"how": c.X, "mood": fmt.Sprintf("%+v", md)}
		var do func(s *wstore)
		switch c.Op {
		case "close":
			objs := []int{}
			for o := 1; o < len(runs[0].objs); o++ {
				objs = append(objs, o)
			}
			a["objs"] = objs
			do = func(s *wstore) {
				if c.X%2 == 0 {
					s.k.Close()
				} else {
					s.k.Wipe()
				}
			}
		case "wipe":
			o := live[c.J%len(live)]
			ob := runs[0].objs[o]
			a["obj"] = o
			do = func(s *wstore) {
				p := s.place(ob.id, ob.key)
				switch {
				case ob.key && c.X%3 == 0:
					s.k.Keys[p].Wipe()
				case ob.key && c.X%3 == 1:
					s.k.Keys[p].RandomWipe()
				case ob.key:
					s.k.Keys[p].ZeroWipe()
				case c.X%3 == 0:
					s.k.Messages[p].Wipe()
				case c.X%3 == 1:
					s.k.Messages[p].RandomWipe()
				default:
					s.k.Messages[p].ZeroWipe()
				}
			}
		case "delete":
			o := live[c.J%len(live)]
			ob := runs[0].objs[o]
			ids, objs := []string{ob.id}, []int{o}
			for _, x := range live {
				if b := runs[0].objs[x]; x != o && b.key == ob.key && c.X%4 == 3 && w.rng.Intn(2) == 0 {
					ids, objs = append(ids, b.id), append(objs, x)
				}
			}
			a["objs"] = objs
			do = func(s *wstore) {
				var rr [][]rune
				for _, x := range ids {
					rr = append(rr, []rune(x))
				}
				switch {
				case ob.key && c.X%4 == 0:
					s.k.DeleteKey(rr...)
				case ob.key && c.X%4 == 1:
					s.k.DeleteKeysBySummaryString(ids[0] + " x y")
				case ob.key:
					s.k.DeleteKeyByString(strings.ToLower(strings.Join(ids, ",")))
				case c.X%4 == 0:
					s.k.DeleteMessage(rr...)
				case c.X%4 == 1:
					s.k.DeleteMessagesBySummaryString(ids[0] + " x y")
				default:
					s.k.DeleteMessageByString(strings.Join(ids, " "))
				}
			}
		default:
			continue
		}
		panicked, text := false, ""
		for i, s := range runs {
			cryptorand.Reader = md.source(seed+int64(step)*7919, i)
			p, what := guarded(func() { do(s) })
			if p {
				panicked, text = true, what
			}
		}
		useSeededSource(seed)
		r := M{"panic": panicked, "mem": mem(runs)}
		if panicked {
			r["what"] = text
		}
		w.emit(c.Op, a, r)
		if c.Op == "close" {
			break
		}
	}
	w.rec.Traces = append(w.rec.Traces, w.tr)
}

var wipeSizes = []int{0, 1, 2, 3, 7, 64, 255, 256, 1000, 1024, 4097, 20000}

// slice wipes one slice inside a larger array.
func (w *wiper) slice() {
	n := wipeSizes[w.rng.Intn(len(wipeSizes))]
	fn := w.rng.Intn(6)
	md := w.mood()
	seed := w.rng.Int63()
	same, spill := make([]bool, n), 0
	for i := range same {
		same[i] = true
	}
	panicked := false
	for run := 0; run < wipeRuns; run++ {
		rng := newRng(seed)
		pre, post := rng.Intn(9), rng.Intn(9)
		r, b := anyRunes(rng, pre+n+post), someBytes(rng, pre+n+post)
		rc, bc := runeCells(r), byteCells(b)
		rs, bs := r[pre:pre+n], b[pre:pre+n]
		cryptorand.Reader = md.source(seed, run)
		p, _ := guarded(func() {
			switch fn {
			case 0:
				krypto431.Wipe(&rs)
			case 1:
				krypto431.RandomWipe(&rs)
			case 2:
				krypto431.ZeroWipe(&rs)
			case 3:
				krypto431.WipeBytes(&bs)
			case 4:
				krypto431.RandomWipeBytes(&bs)
			case 5:
				krypto431.ZeroWipeBytes(&bs)
			}
		})
		panicked = panicked || p
		s := rc.same()
		if fn >= 3 {
			s = bc.same()
		}
		for i := range s {
			if i >= pre && i < pre+n {
				same[i-pre] = same[i-pre] && s[i]
			} else if !s[i] {
				spill++
			}
		}
	}
	useSeededSource(seed)
	kept := 0
	for _, x := range same {
		if x {
			kept++
		}
	}
	w.emit("slice", M{"fn": []string{"Wipe", "RandomWipe", "ZeroWipe", "WipeBytes", "RandomWipeBytes", "ZeroWipeBytes"}[fn], "n": n, "mood": fmt.Sprintf("%+v", md)},
		M{"panic": panicked, "kept": kept, "spill": spill})
}

// password derives a key from a password, successfully or not.
func (w *wiper) password(full bool) {
	n := []int{0, 1, 8, 12, 64, 300}[w.rng.Intn(6)]
	way := w.rng.Intn(2)
	kind := 0
	if full {
		kind = 1
	} else if w.rng.Intn(2) == 0 {
		kind, way, n = 2, 1, w.rng.Intn(4) // too weak
	}
	md := w.mood()
	seed := w.rng.Int63()
	same := make([]bool, n)
	for i := range same {
		same[i] = true
	}
	panicked, failed := false, false
	runs := wipeRuns
	if full {
		runs = 4
	}
	for run := 0; run < runs; run++ {
		rng := newRng(seed)
		pwd := someBytes(rng, n)
		c := byteCells(pwd)
		salt := someBytes(rng, 32)
		k := krypto431.New()
		switch kind {
		case 0:
			k = krypto431.New(krypto431.WithSalt(nil))
		default:
			k = krypto431.New(krypto431.WithSalt(&salt))
		}
		arg := pwd
		cryptorand.Reader = md.source(seed, run)
		p, _ := guarded(func() {
			var err error
			if way == 0 {
				err = k.DerivePFKFromPassword(&arg)
			} else {
				err = k.DerivePFKFromPasswordWithValidation(&arg)
			}
			failed = failed || err != nil
		})
		panicked = panicked || p
		for i, b := range c.same() {
			same[i] = same[i] && b
		}
	}
	useSeededSource(seed)
	kept := 0
	for _, x := range same {
		if x {
			kept++
		}
	}
	w.emit("password", M{"way": way, "kind": kind, "n": n}, M{"panic": panicked, "kept": kept, "err": failed})
}

// fail sends a message that can not be sent.
func (w *wiper) fail() {
	gs, kl := []int{5, 4, 6}[w.rng.Intn(3)], 20+w.rng.Intn(30)
	k := genInstance(gs, kl, "AA")
	check(k.GenerateKeys(w.rng.Intn(4), nil, "BB"))
	text := randomText(w.rng, w.rng.Intn(200))
	kind := "long"
	if w.rng.Intn(3) == 0 {
		text = append(text, unsupportedRunes[w.rng.Intn(len(unsupportedRunes))])
		kind = "unsupported"
	}
	m := krypto431.Message{From: []rune("AA"), Recipients: [][]rune{[]rune("BB")}, PlainText: text}
	if w.rng.Intn(2) == 0 && len(k.Keys) > 0 {
		m.KeyId = append([]rune{}, k.Keys[w.rng.Intn(len(k.Keys))].Id...)
	}
	named := len(m.KeyId) > 0
	m.SetInstance(k)
	var err error
	p, what := guarded(func() {
		err = m.Encipher()
	})
	r := M{"panic": p, "err": err != nil, "ct": len(m.CipherText), "kid": len(m.KeyId)}
	if p {
		r["what"] = what
	}
	w.emit("fail", M{"kind": kind, "named": named, "n": len(text)}, r)
}

func runWipe(rec *Recorder, seed int64, num, ops int, file string) {
	w := &wiper{rec: rec, rng: newRng(seed)}
	if file != "" {
		b, err := os.ReadFile(file)
		check(err)
		var given [][]WipeCmd
		check(json.Unmarshal(b, &given))
		for i, cs := range given {
			w.history(seed*1000+int64(i), cs)
		}
	}
	for i := 0; i < num; i++ {
		var cs []WipeCmd
		for j := 0; j < ops; j++ {
			op := []string{"delete", "delete", "delete", "wipe", "wipe"}[w.rng.Intn(5)]
			if w.rng.Intn(ops) == 0 || j == ops-1 {
				op = "close"
			}
			cs = append(cs, WipeCmd{Op: op, J: w.rng.Intn(100), X: w.rng.Intn(12)})
		}
		w.history(seed*1000+int64(i)+500, cs)
	}
	w.tr = Trace{Name: "slices and passwords", Init: []int{}, Events: []Event{}}
	for i := 0; i < num*2; i++ {
		w.slice()
		w.password(i%20 == 0)
		w.fail()
	}
	rec.Traces = append(rec.Traces, w.tr)
}
