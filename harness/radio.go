package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"time"

	"github.com/sa6mwa/krypto431"
)

type radio struct {
	rec  *Recorder
	rng  *rand.Rand
	tr   Trace
	call string
	k    *krypto431.Krypto431
}

var radioPool = []string{"AA", "BB", "SA", "B/1", "SA6MWA", "CC/P", "7S0X", "K", "AR"}

func (n *radio) station(gs int) {
	k := krypto431.New(krypto431.WithPersistence("none.gob"), krypto431.WithPFK(pfk()),
		krypto431.WithGroupSize(gs), krypto431.WithKeyLength(600), krypto431.WithKeyColumns(30+gs), krypto431.WithCallSign(n.call))
	var all []string
	for _, c := range radioPool {
		if c != n.call {
			all = append(all, c)
		}
	}
	// Anonymous keys first: only messages without recipients use them.
	check(k.GenerateKeys(14, nil))
	check(k.GenerateKeys(12, nil, all...))
	for i := 14; i < len(k.Keys); i++ {
		k.Keys[i].Keepers = append(k.Keys[i].Keepers, []rune(n.call))
	}
	n.k = &k
}

func nowRec() []int {
	t := time.Now().UTC()
	return []int{t.Year(), int(t.Month()), minutes(t), t.Day()}
}

func (n *radio) fields(r M, m *krypto431.Message) {
	r["rcpt"] = n.rec.RuneList(m.Recipients)
	r["from"] = n.rec.Runes(m.From)
	r["dtgm"] = minutes(m.DTG.Time)
	r["pt"] = n.rec.Runes(m.PlainText)
	r["rg"] = n.rec.Runes(m.Radiogram)
	r["ct"] = n.rec.Runes(m.CipherText)
	r["kid"] = n.rec.Runes(m.KeyId)
	r["id"] = n.rec.Runes(m.Id)
}

func (n *radio) emit(op string, a, r M) {
	n.tr.Events = append(n.tr.Events, Event{Op: op, S: 1, A: a, R: r, Post: []int{}})
}

func (n *radio) parse(raw string) {
	a := M{"raw": n.rec.Str(raw)}
	r := M{"now0": nowRec()}
	var m *krypto431.Message
	var err error
	p, what := guarded(func() { m, err = n.k.ParseRadiogram(raw) })
	r["now1"], r["panic"], r["err"], r["got"] = nowRec(), p, err != nil, m != nil
	if p {
		r["what"] = what
	}
	if !p && err == nil {
		n.fields(r, m)
	}
	n.emit("parse", a, r)
}

func (n *radio) marks() int {
	c := 0
	for i := range n.k.Keys {
		if n.k.Keys[i].Used {
			c++
		}
	}
	return c
}

type failReader struct{ left string }

func (f *failReader) Read(p []byte) (int, error) {
	if f.left == "" {
		return 0, errors.New("broken")
	}
	c := copy(p, f.left)
	f.left = f.left[c:]
	return c, nil
}

// enter enters a radiogram as a new message, in one of the ways there are.
func (n *radio) enter(raw string, way int) {
	if n.marks() > 10 || len(n.k.Messages) > 30 {
		n.station([]int{5, 5, 4, 6}[n.rng.Intn(4)])
	}
	a := M{"raw": n.rec.Str(raw), "call": n.rec.Str(n.call), "pool": n.rec.StrList(radioPool), "way": way}
	before := n.rec.State(n.k)
	n0, u0 := len(n.k.Messages), n.marks()
	msgs := append([]int{}, n.rec.States[before-1].Msgs...)
	r := M{"now0": nowRec(), "n0": n0}
	var m *krypto431.Message
	var err error
	p, what := guarded(func() {
		switch way {
		case 1:
			m, err = n.k.NewTextMessageFromReader(strings.NewReader(raw))
		case 2:
			m, err = n.k.NewTextMessage()
		case 3:
			m, err = n.k.NewTextMessageFromReader(&failReader{raw})
		default:
			m, err = n.k.NewTextMessage(raw)
		}
	})
	after := n.rec.State(n.k)
	r["now1"], r["panic"], r["err"], r["got"] = nowRec(), p, err != nil, m != nil
	r["n1"], r["same"], r["marked"] = len(n.k.Messages), after == before, n.marks()-u0
	if p {
		r["what"] = what
	}
	if way >= 2 {
		n.emit("none", a, r)
		return
	}
	if !p && err == nil {
		n.fields(r, m)
		now := n.rec.States[after-1].Msgs
		r["others"] = len(now) == n0+1 && fmt.Sprint(now[:n0]) == fmt.Sprint(msgs)
		r["stored"] = len(now) == n0+1 && now[n0] == n.rec.Msg(m)
		uniq := true
		for i := 0; i < n0 && i < len(n.k.Messages); i++ {
			if string(n.k.Messages[i].Id) == string(m.Id) {
				uniq = false
			}
		}
		r["unique"] = uniq
	}
	n.emit("new", a, r)
}

// compose writes a radiogram in a documented form, or nearly.
func (n *radio) compose() string {
	r := n.rng
	sep := func() string { return []string{" ", " ", " ", "  ", "\n", "\r\n", " \n", "\n\n", "\r"}[r.Intn(9)] }
	call := func() string {
		c := radioPool[r.Intn(len(radioPool))]
		if r.Intn(4) == 0 {
			c = strings.ToLower(c)
		}
		if r.Intn(8) == 0 {
			c = fmt.Sprintf("%c%dX/%d", 'A'+r.Intn(26), r.Intn(10), r.Intn(10))
		}
		return c
	}
	var b strings.Builder
	if r.Intn(10) == 0 {
		b.WriteString(sep())
	}
	for i := r.Intn(5); i > 0; i-- {
		b.WriteString(call())
		b.WriteString([]string{" ", " ", ",", ", ", "  ", "\n"}[r.Intn(6)])
	}
	if s := b.String(); s != "" && strings.HasSuffix(s, ",") {
		b.WriteString(sep())
	}
	b.WriteString([]string{"DE", "DE", "DE", "de", "De"}[r.Intn(5)])
	b.WriteString(sep())
	if r.Intn(2) == 0 {
		c := n.call
		if r.Intn(3) == 0 {
			c = strings.ToLower(c)
		}
		b.WriteString(c)
	} else {
		b.WriteString(call())
	}
	if r.Intn(3) > 0 {
		b.WriteString(sep())
		d := fmt.Sprintf("%02d%02d%02d", 1+r.Intn(28), r.Intn(24), r.Intn(60))
		if r.Intn(12) == 0 {
			d = fmt.Sprintf("%02d%02d%02d", r.Intn(40), r.Intn(30), r.Intn(70))
		}
		if v := r.Intn(4); v > 0 {
			d += string(rune('A' + r.Intn(26)))
			if v > 1 {
				d += []string{"JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC", "MAJ", "OKT"}[r.Intn(14)]
				if v > 2 {
					d += fmt.Sprintf("%02d", r.Intn(100))
				}
			}
		}
		if r.Intn(5) == 0 {
			d = strings.ToLower(d)
		}
		b.WriteString(d)
	}
	b.WriteString(sep())
	instr := func() string {
		return []string{"COL", "MBS", "C", "COL MBS", "col", "Z", "STAFFETT", "ÅÄÖ"}[r.Intn(8)]
	}
	count := func() string { return fmt.Sprint([]int{1, 3, 20, 999, 9999, 10000, 123456}[r.Intn(7)]) }
	maybe := func(f func() string) {
		if r.Intn(2) == 0 {
			b.WriteString(f())
			b.WriteString(sep())
		}
	}
	switch r.Intn(5) {
	case 0:
		b.WriteString("==" + sep())
		for i := r.Intn(3); i >= 0; i-- {
			b.WriteString(call() + sep())
		}
		b.WriteString("==" + sep())
		maybe(instr)
		maybe(count)
		b.WriteString("=")
	case 1:
		b.WriteString("==" + sep())
		for i := r.Intn(3); i >= 0; i-- {
			b.WriteString(call() + sep())
		}
		maybe(count)
		b.WriteString("=")
	case 2:
		maybe(instr)
		maybe(count)
		b.WriteString("=")
	}
	if r.Intn(8) > 0 {
		b.WriteString(sep())
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		if r.Intn(3) == 0 {
			b.WriteString([]string{"DE", "K", "+", "A+", "AR", "HELLO", "de", "QSL", "=", "[AR]", "HELLO. ", "123456", "012345Z"}[r.Intn(13)])
		} else {
			t := randomText(r, 1+r.Intn(60))
			if r.Intn(10) == 0 {
				t = append(t, unsupportedRunes[r.Intn(len(unsupportedRunes))])
			}
			b.WriteString(string(t))
		}
		if i > 1 {
			b.WriteString(sep())
		}
	}
	b.WriteString([]string{"", "", " = K", "= K", " K", " +", " = +", "\n= K\n", " = k", " [AR]", " = AR", "=K", " = K ", "\r\n+"}[r.Intn(14)])
	return b.String()
}

func (n *radio) spoil(s string) string {
	b := []rune(s)
	for i := 1 + n.rng.Intn(2); i > 0 && len(b) > 0; i-- {
		p := n.rng.Intn(len(b))
		switch n.rng.Intn(3) {
		case 0:
			b = append(b[:p], b[p+1:]...)
		case 1:
			c := []rune("=K+ DE,/A1\n.!å")[n.rng.Intn(14)]
			b = append(b[:p], append([]rune{c}, b[p:]...)...)
		case 2:
			q := n.rng.Intn(len(b))
			b[p], b[q] = b[q], b[p]
		}
	}
	return string(b)
}

func runRadio(rec *Recorder, seed int64, num int, file string) {
	rng := newRng(seed)
	useSeededSource(seed)
	var given []string
	if file != "" {
		b, err := os.ReadFile(file)
		check(err)
		check(json.Unmarshal(b, &given))
	}
	n := &radio{rec: rec, rng: rng}
	for i := 0; i < num+len(given); i++ {
		if i%25 == 0 {
			if i > 0 {
				rec.Traces = append(rec.Traces, n.tr)
			}
			n.tr = Trace{Name: "radiograms", Init: []int{}, Events: []Event{}}
			n.call = radioPool[rng.Intn(6)]
			n.station([]int{5, 5, 4, 6, 5}[rng.Intn(5)])
		}
		var raw string
		if i < len(given) {
			raw = given[i]
		} else {
			raw = n.compose()
			if rng.Intn(4) == 0 {
				raw = n.spoil(raw)
			}
			if rng.Intn(60) == 0 {
				raw = []string{"", "DE", "DE ", " ", "HELLO", "SADE AA HELLO", "AA DEBB HELLO", "=", "DE = K", "\xff\xfe DE AA x"}[rng.Intn(10)]
			}
		}
		n.parse(raw)
		n.enter(raw, rng.Intn(2))
		if rng.Intn(40) == 0 {
			n.enter(raw, 2+rng.Intn(2))
		}
	}
	rec.Traces = append(rec.Traces, n.tr)
}
