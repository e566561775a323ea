package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"time"

	"github.com/sa6mwa/krypto431"
)

// lister lists the keys and messages of a store, and deletes what lines of a
// listing stand for.
type lister struct{ *printer }

func (l *lister) refs(head []rune, ls [][]rune) M {
	out := []int{}
	for _, x := range ls {
		out = append(out, l.rec.Str(string(x)))
	}
	return M{"head": l.rec.Str(string(head)), "ls": out}
}

func (l *lister) keyRefs() (items []int) {
	items = []int{}
	for i := range l.k.Keys {
		items = append(items, l.rec.Key(&l.k.Keys[i]))
	}
	return
}

func (l *lister) msgRefs() (items []int) {
	items = []int{}
	for i := range l.k.Messages {
		items = append(items, l.rec.Msg(&l.k.Messages[i]))
	}
	return
}

// comments and other things that printer.store does not make.
func (l *lister) vary() {
	r, k := l.rng, l.k
	for i := range k.Keys {
		if r.Intn(2) == 0 {
			k.Keys[i].Comment = l.text([]int{1, 3, 10, 40, 200}[r.Intn(5)])
		}
	}
	for i := range k.Messages {
		m := &k.Messages[i]
		switch r.Intn(8) {
		case 0:
			m.From = nil
		case 1:
			m.PlainText = l.text([]int{33, 34, 35, 36, 37}[r.Intn(5)])
			m.CipherText, m.KeyId = nil, nil
		case 2:
			m.PlainText = []rune("FIRST LINE\r\nSECOND" + []string{"", "\r", "\n"}[r.Intn(3)])
		case 3:
			m.PlainText, m.CipherText, m.KeyId = nil, nil, nil
		}
	}
	// Messages that can be read.
	for n := r.Intn(3); n > 0 && len(k.Keys) > 0; n-- {
		t := string(l.text(1 + r.Intn(60)))
		m, err := k.NewTextMessage("AA\r\n" + t)
		if err == nil && r.Intn(3) > 0 {
			for i := range k.Messages {
				if string(k.Messages[i].Id) == string(m.Id) {
					k.Messages[i].PlainText = nil
				}
			}
		}
	}
}

func (l *lister) list() {
	k := l.k
	sel := l.pick(len(k.Keys), l.rng.Intn(4)%3)
	items, crem := []int{}, []int{}
	for i := range k.Keys {
		if sel[i] {
			items = append(items, l.rec.Key(&k.Keys[i]))
			crem = append(crem, minutes(k.Keys[i].Created.Time))
		}
	}
	var head []rune
	var ls [][]rune
	pn, what := guarded(func() {
		head, ls = k.SummaryOfKeys(func(x *krypto431.Key) bool {
			for i := range k.Keys {
				if string(x.Id) == string(k.Keys[i].Id) {
					return sel[i]
				}
			}
			return false
		})
	})
	r := l.refs(head, ls)
	r["panic"] = pn
	if pn {
		r["what"] = what
	}
	l.emit("klist", M{"items": items, "crem": crem}, r)

	sel = l.pick(len(k.Messages), l.rng.Intn(4)%3)
	var mls [][]rune
	pn, what = guarded(func() {
		head, mls = k.SummaryOfMessages(func(x *krypto431.Message) bool {
			for i := range k.Messages {
				if string(x.Id) == string(k.Messages[i].Id) {
					return sel[i]
				}
			}
			return false
		})
	})
	items = []int{}
	for i := range k.Messages { // some have become readable
		if sel[i] {
			items = append(items, l.rec.Msg(&k.Messages[i]))
		}
	}
	r = l.refs(head, mls)
	r["panic"] = pn
	if pn {
		r["what"] = what
	}
	l.emit("mlist", M{"items": items}, r)

	l.remove("kdelsum", ls, l.keyRefs, k.DeleteKeysBySummaryString)
	l.remove("mdelsum", mls, l.msgRefs, k.DeleteMessagesBySummaryString)
}

func (l *lister) remove(op string, ls [][]rune, refs func() []int, del func(...string) (int, error)) {
	chosen, args := []int{}, []string{}
	p := l.rng.Intn(4)
	for i := range ls {
		if l.rng.Intn(4) < p {
			chosen = append(chosen, i+1)
			args = append(args, string(ls[i]))
		}
	}
	l.rng.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
	lines := []int{}
	for _, x := range args {
		lines = append(lines, l.rec.Str(x))
	}
	a := M{"before": refs(), "lines": lines}
	n := 0
	var err error
	pn, what := guarded(func() { n, err = del(args...) })
	r := M{"panic": pn, "err": err != nil, "n": n, "after": refs()}
	if pn {
		r["what"] = what
	}
	l.emit(op, a, r)
}

// shaped makes keys and messages with the given lengths of keepers, recipients
// and texts.
func (l *lister) shaped(rows [][]int) {
	k := krypto431.New(krypto431.WithPersistence("none.gob"), krypto431.WithPFK(pfk()), krypto431.WithCallSign("SA6MWA"),
		krypto431.WithGroupSize([]int{5, 5, 2, 3, 10}[l.rng.Intn(5)]), krypto431.WithKeyLength(20))
	check(k.Assert())
	l.k = &k
	call := func(n int) string { return string(randLetters(l.rng, n)) }
	for i, row := range rows {
		var kp []string
		for n := row[0]; n > 0; {
			c := 1 + l.rng.Intn(n)
			if c == n-1 { // the comma needs a place too
				c = n
			}
			kp = append(kp, call(c))
			n -= c + 1
		}
		k.NewKey(someTime(l.rng), kp...)
		k.Keys[i].Keepers = nil
		for _, s := range kp {
			k.Keys[i].Keepers = append(k.Keys[i].Keepers, []rune(s))
		}
		k.Keys[i].Comment = randLetters(l.rng, row[1])
		var m krypto431.Message
		m.SetInstance(&k)
		m.Id, m.DTG = []rune(fmt.Sprintf("%c%03d", 'A'+l.rng.Intn(26), i)), dtgOf(someTime(l.rng))
		for _, s := range kp {
			m.Recipients = append(m.Recipients, []rune(s))
		}
		m.From = randLetters(l.rng, row[1])
		m.PlainText = randLetters(l.rng, []int{row[0], row[1], 34, 35, 36}[l.rng.Intn(5)])
		k.Messages = append(k.Messages, m)
	}
	for i := range k.Keys {
		k.Keys[i].SetInstance(&k)
	}
}

func runList(rec *Recorder, seed int64, num int, scen string) {
	useSeededSource(seed)
	l := &lister{&printer{rec: rec, rng: newRng(seed)}}
	do := func(name string) {
		l.tr = Trace{Name: name, Init: []int{}, Events: []Event{}}
		l.list()
		rec.Traces = append(rec.Traces, l.tr)
	}
	if scen != "" {
		b, err := os.ReadFile(scen)
		check(err)
		var shapes [][][]int
		check(json.Unmarshal(b, &shapes))
		for _, s := range shapes {
			l.shaped(s)
			do(fmt.Sprintf("listing %v", s))
		}
	}
	for i := 0; i < num; i++ {
		l.store(l.rng.Intn(8), l.rng.Intn(9), false)
		l.vary()
		do("listing")
	}
}

func someTime(r *rand.Rand) time.Time {
	return time.Date(2000+r.Intn(60), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), 0, 0, time.UTC)
}
