package main

import (
	cryptorand "crypto/rand"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/sa6mwa/krypto431"
)

type gen struct {
	rec *Recorder
	rng *rand.Rand
	tr  Trace
}

func (g *gen) emit(op string, a, r M) {
	g.tr.Events = append(g.tr.Events, Event{Op: op, S: 1, A: a, R: r, Post: []int{}})
}

func genInstance(gs, kl int, call string) *krypto431.Krypto431 {
	o := []krypto431.Option{krypto431.WithPersistence("none.gob"), krypto431.WithPFK(pfk()),
		krypto431.WithGroupSize(gs), krypto431.WithKeyLength(kl), krypto431.WithKeyColumns(30 + gs)}
	if call != "" {
		o = append(o, krypto431.WithCallSign(call))
	}
	k := krypto431.New(o...)
	return &k
}

func (g *gen) callSign() string {
	r := g.rng
	switch r.Intn(6) {
	case 0:
		return fmt.Sprintf("%c%d%c/%d", 'A'+r.Intn(26), r.Intn(10), 'A'+r.Intn(26), r.Intn(10))
	case 1:
		return []string{"ÅÄÖ", "K", "7S0X", "A-B", "DE", "X.Y"}[r.Intn(6)]
	}
	return []string{"AA", "BB", "SA6MWA", "AAA", "B/1", "SA6MW", "A"}[r.Intn(7)]
}

func (g *gen) flip(s string) string {
	b := []rune(s)
	for i, c := range b {
		if g.rng.Intn(2) == 0 && c < 128 {
			b[i] = []rune(strings.ToLower(string(c)))[0]
		}
	}
	return string(b)
}

// keeperArgs are lists of call-signs as users may write them.
func (g *gen) keeperArgs(own string) []string {
	args := []string{}
	for i := g.rng.Intn(4); i > 0; i-- {
		var b strings.Builder
		for j := g.rng.Intn(4); j >= 0; j-- {
			for x := g.rng.Intn(3); x > 0 && g.rng.Intn(3) == 0; x-- {
				b.WriteString([]string{" ", ",", ", ", "  "}[g.rng.Intn(4)])
			}
			c := g.callSign()
			if own != "" && g.rng.Intn(4) == 0 {
				c = own
			}
			if g.rng.Intn(3) == 0 {
				c = g.flip(c)
			}
			b.WriteString(c)
			if j > 0 || g.rng.Intn(5) == 0 {
				b.WriteString([]string{" ", ",", ", ", ",,", " , "}[g.rng.Intn(5)])
			}
		}
		args = append(args, b.String())
	}
	if g.rng.Intn(6) == 0 {
		args = append(args, []string{"", " ", ",", " ,, "}[g.rng.Intn(4)])
	}
	return args
}

func (g *gen) expiry() string {
	r := g.rng
	d := fmt.Sprintf("%02d%02d%02d", 1+r.Intn(28), r.Intn(24), r.Intn(60))
	if v := r.Intn(5); v > 0 {
		d += string([]rune("ZABCJKMNYIXZZ")[r.Intn(13)])
		if v > 1 {
			d += []string{"JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC", "MAJ", "OKT"}[r.Intn(14)]
			if v > 2 {
				d += fmt.Sprintf("%02d", r.Intn(100))
			}
		}
	}
	switch r.Intn(9) {
	case 0:
		d = strings.ToLower(d)
	case 1:
		d = fmt.Sprintf("%02d%02d%02dZ%s%02d", r.Intn(40), r.Intn(30), r.Intn(70), []string{"FEB", "APR", "DEC", "XYZ", "Jan"}[r.Intn(5)], r.Intn(100))
	case 2:
		d = []string{"", "NONSENSE", "1", "010000", "0100000", "010000ZJAN", "010000ZJAN2030", "310000ZNOV30", "290200ZFEB27", "290200ZFEB28", "310000ZSEP30", "2030-01-01", "DDHHMM", "012400ZJAN30", "010060ZJAN30", "000000ZJAN30"}[r.Intn(16)]
	}
	return d
}

// one generates keys in a station that may have keys already.
func (g *gen) one(k *krypto431.Krypto431, n int, own string) {
	args := g.keeperArgs(own)
	var exp *string
	if g.rng.Intn(2) == 0 {
		e := g.expiry()
		exp = &e
	}
	a := M{"pre": g.rec.State(k), "n": n, "args": g.rec.StrList(args), "exp": 0}
	if exp != nil {
		a["exp"] = g.rec.Str(*exp)
	}
	r := M{"now0": nowRec()}
	var err error
	p, what := guarded(func() { err = k.GenerateKeys(n, exp, args...) })
	r["now1"], r["panic"], r["err"], r["post"] = nowRec(), p, err != nil, g.rec.State(k)
	if p {
		r["what"] = what
	}
	g.emit("one", a, r)
}

func (g *gen) newKey(k *krypto431.Krypto431) {
	args := g.keeperArgs(string(k.CallSign))
	d := time.Date(2027+g.rng.Intn(30), time.Month(1+g.rng.Intn(12)), 1+g.rng.Intn(28), g.rng.Intn(24), g.rng.Intn(60), 0, 0, time.UTC)
	e := strings.ToUpper(d.Format("021504ZJan06"))
	a := M{"pre": g.rec.State(k), "n": 1, "args": g.rec.StrList(args), "exp": g.rec.Str(e)}
	r := M{"now0": nowRec()}
	p, what := guarded(func() { k.NewKey(d, args...) })
	r["now1"], r["panic"], r["err"], r["post"] = nowRec(), p, false, g.rec.State(k)
	if p {
		r["what"] = what
	}
	g.emit("one", a, r)
}

func (g *gen) source(f func(), src interface{ Read([]byte) (int, error) }) (bool, string) {
	old := cryptorand.Reader
	cryptorand.Reader = src
	defer func() { cryptorand.Reader = old }()
	return guarded(f)
}

func idx(r rune) int {
	if r < 'A' || r > 'Z' {
		return 0
	}
	return int(r - 'A')
}

// counts generates many keys and counts.
func (g *gen) counts(gs, kl, n int) {
	k := genInstance(gs, kl, "AA")
	p, _ := guarded(func() { check(k.GenerateKeys(n, nil)) })
	all, first, last, ids, id1 := make([]int, 26), make([]int, 26), make([]int, 26), make([]int, 26), make([]int, 26)
	// Equal letters: next to each other, one group apart, same place in the
	// next key, first half and second half, key and id, mirrored.
	names := []string{"next", "group", "nextkey", "half", "id", "mirror", "two", "nextid"}
	eq, tot := make([]int, len(names)), make([]int, len(names))
	pair := func(w int, x, y rune) {
		tot[w]++
		if x == y {
			eq[w]++
		}
	}
	for i := range k.Keys {
		r, id := k.Keys[i].Runes, k.Keys[i].Id
		if len(r) == 0 || len(id) == 0 {
			continue
		}
		for j := range r {
			all[idx(r[j])]++
			if j > 0 {
				pair(0, r[j-1], r[j])
			}
			if j >= gs {
				pair(1, r[j-gs], r[j])
			}
			if j > 1 {
				pair(6, r[j-2], r[j])
			}
			if h := len(r) / 2; j < h {
				pair(3, r[j], r[j+h])
				if j != len(r)-1-j {
					pair(5, r[j], r[len(r)-1-j])
				}
			}
			if i > 0 && j < len(k.Keys[i-1].Runes) {
				pair(2, r[j], k.Keys[i-1].Runes[j])
			}
			if j < len(id) {
				pair(4, r[j], id[j])
			}
		}
		if i > 0 && gs >= 4 {
			for j := range id {
				if j < len(k.Keys[i-1].Id) {
					pair(7, id[j], k.Keys[i-1].Id[j])
				}
			}
		}
		first[idx(r[0])]++
		last[idx(r[len(r)-1])]++
		id1[idx(id[0])]++
		for _, c := range id {
			ids[idx(c)]++
		}
	}
	kinds := map[string][]int{"all": all, "first": first, "last": last}
	if gs >= 4 {
		kinds["ids"], kinds["id1"] = ids, id1
	}
	for _, name := range []string{"all", "first", "last", "ids", "id1"} {
		if c, ok := kinds[name]; ok {
			g.emit("count", M{"kind": name, "gs": gs, "kl": kl, "n": n}, M{"panic": p, "counts": c})
		}
	}
	g.emit("pair", M{"kinds": names, "gs": gs, "kl": kl, "n": n}, M{"panic": p, "equal": eq, "pairs": tot})
}

type countingReader struct {
	r interface{ Read([]byte) (int, error) }
	n int
}

func (c *countingReader) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	c.n += n
	return n, err
}

func (g *gen) stream(gs, kl, n int) {
	s1, s2 := g.rng.Int63(), g.rng.Int63()
	run := func(s int64) (string, int, bool, int) {
		k := genInstance(gs, kl, "AA")
		src := &countingReader{r: newSeededReader(s)}
		p, _ := g.source(func() { check(k.GenerateKeys(n, nil)) }, src)
		out, letters := "", 0
		for i := range k.Keys {
			out += string(k.Keys[i].Id) + " " + string(k.Keys[i].Runes) + " "
			letters += len(k.Keys[i].Id) + len(k.Keys[i].Runes)
		}
		return out, src.n, p, letters
	}
	x, used, p1, letters := run(s1)
	y, _, p2, _ := run(s1)
	z, _, p3, _ := run(s2)
	g.emit("stream", M{"gs": gs, "kl": kl, "n": n}, M{"panic": p1 || p2 || p3, "x": g.rec.Str(x), "y": g.rec.Str(y), "z": g.rec.Str(z), "used": used, "letters": letters})
}

type deadReader struct {
	r    *seededReader
	left int
	hit  bool
}

func (d *deadReader) Read(p []byte) (int, error) {
	if d.left <= 0 {
		d.hit = true
		return 0, errors.New("broken")
	}
	d.left -= len(p)
	return d.r.Read(p)
}

// fail generates one key with a source that fails before it is complete.
func (g *gen) fail(gs, kl int) {
	k := genInstance(gs, kl, "AA")
	d := &deadReader{r: newSeededReader(g.rng.Int63()), left: g.rng.Intn(gs + kl)}
	p, _ := g.source(func() { k.GenerateKeys(1, nil) }, d)
	g.emit("fail", M{"gs": gs, "kl": kl}, M{"panic": p, "n": len(k.Keys), "failed": d.hit})
}

func runGen(rec *Recorder, seed int64, num int, big bool) {
	rng := newRng(seed)
	useSeededSource(seed)
	g := &gen{rec: rec, rng: rng}
	start := func(name string) {
		if len(g.tr.Events) > 0 {
			rec.Traces = append(rec.Traces, g.tr)
		}
		g.tr = Trace{Name: name, Init: []int{}, Events: []Event{}}
	}
	for i := 0; i < num; i++ {
		start("generating keys")
		gs := []int{5, 5, 4, 3, 2, 1, 6, 10, 17}[rng.Intn(9)]
		kl := []int{20, 21, 24, 25, 33, 50, 350}[rng.Intn(7)]
		own := ""
		if rng.Intn(4) > 0 {
			own = []string{"AA", "SA6MWA", "B/1", "ÅÄÖ"}[rng.Intn(4)]
		}
		k := genInstance(gs, kl, own)
		room := 60
		if gs == 1 {
			room = 26
		}
		for j := 0; j < 8; j++ {
			n := []int{1, 1, 2, 3, 0, 7, 20}[rng.Intn(7)]
			if gs == 1 && rng.Intn(3) == 0 {
				n = room - len(k.Keys)
			}
			if len(k.Keys)+n > room || (len(k.Keys)+n)*kl > 6000 {
				break
			}
			if n == 1 && rng.Intn(2) == 0 {
				g.newKey(k)
			} else {
				g.one(k, n, own)
			}
			for x := range k.Keys {
				switch rng.Intn(6) {
				case 0:
					k.Keys[x].Used = true
				case 1:
					k.Keys[x].Compromised = true
				case 2:
					k.Keys[x].Expires = dtgOf(time.Now().Add(-time.Hour))
				}
			}
			if rng.Intn(4) == 0 && len(k.Keys) > 1 {
				guarded(func() { k.DeleteKey(append([]rune{}, k.Keys[rng.Intn(len(k.Keys))].Id...)) })
			}
		}
	}
	start("streams")
	for i := 0; i < 1+num/3; i++ {
		g.stream([]int{5, 4, 6}[rng.Intn(3)], 20+rng.Intn(200), 1+rng.Intn(4))
		g.fail([]int{5, 4, 6}[rng.Intn(3)], 20+rng.Intn(100))
	}
	start("counting letters")
	m := 4
	if big {
		m = 40
	}
	g.counts(5, 350, 60*m)
	g.counts([]int{4, 6, 7}[rng.Intn(3)], 20+rng.Intn(10), 500*m)
	g.counts(2, 100, 160)
	start("")
}
