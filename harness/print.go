package main

import (
	"bytes"
	"compress/zlib"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/sa6mwa/krypto431"
)

type printer struct {
	rec *Recorder
	rng *rand.Rand
	tr  Trace
	dir string
	k   *krypto431.Krypto431
}

func (p *printer) emit(op string, a, r M) {
	p.tr.Events = append(p.tr.Events, Event{Op: op, S: 1, A: a, R: r, Post: []int{}})
}

func (p *printer) lines(s string) []M {
	out := []M{}
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSuffix(l, "\r")
		out = append(out, M{"raw": p.rec.Str(l), "tok": p.rec.StrList(strings.Fields(l))})
	}
	return out
}

func (p *printer) toks(s string) []int { return p.rec.StrList(strings.Fields(s)) }

// store makes a station with keys and messages of all sizes.
func (p *printer) store(nk, nm int, big bool) {
	r := p.rng
	gs := []int{5, 5, 5, 1, 2, 3, 4, 7, 10, 25, 40}[r.Intn(11)]
	kl := []int{20, 25, 50, 100, 350, 349, 201}[r.Intn(7)]
	kc := gs + r.Intn(80)
	if r.Intn(3) == 0 {
		kc = []int{30, gs, gs + 1, 2*gs + 1, 2*gs + 2, 65}[r.Intn(6)]
		if kc < gs {
			kc = gs
		}
	}
	if big {
		kl = 1000 + r.Intn(5000)
	}
	k := krypto431.New(krypto431.WithPersistence("none.gob"), krypto431.WithPFK(pfk()), krypto431.WithCallSign("SA6MWA"),
		krypto431.WithGroupSize(gs), krypto431.WithKeyLength(kl), krypto431.WithKeyColumns(kc),
		krypto431.WithColumns([]int{85, 110, 111, 86, 140, 200, 100}[r.Intn(7)]))
	check(k.Assert())
	if gs == 1 && nk > 20 {
		nk = 20
	}
	for i := 0; i < nk; i++ {
		var keepers []string
		for j := []int{0, 1, 2, 5, 30}[r.Intn(5)] - r.Intn(2); j > 0; j-- {
			keepers = append(keepers, fmt.Sprintf("%c%d%cÅ/%d", 'A'+r.Intn(26), r.Intn(10), 'A'+r.Intn(26), j)[:[]int{2, 4, 7}[r.Intn(3)]])
		}
		for j := range keepers {
			keepers[j] = strings.ToValidUTF8(keepers[j], "X")
		}
		k.NewKey(time.Date(2020+r.Intn(48), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), 0, 0, time.UTC), keepers...)
	}
	for i := range k.Keys {
		k.Keys[i].SetInstance(&k)
		k.Keys[i].Used = r.Intn(3) == 0
		k.Keys[i].Compromised = r.Intn(5) == 0
		k.Keys[i].Created = dtgOf(time.Date(2000+r.Intn(60), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), 0, 0, time.UTC))
	}
	for i := 0; i < nm; i++ {
		var m krypto431.Message
		m.SetInstance(&k)
		m.Id = []rune(fmt.Sprintf("%c%03d", 'A'+r.Intn(26), i))
		for j := []int{0, 1, 2, 3, 12}[r.Intn(5)]; j > 0; j-- {
			m.Recipients = append(m.Recipients, []rune([]string{"AA", "SA6MWA", "Å/1", "B0B", "LONGCALLSIGN/P"}[r.Intn(5)]))
		}
		m.From = []rune([]string{"AA", "SA6MWA", "B/1", "ÅÄÖ"}[r.Intn(4)])
		m.DTG = dtgOf(time.Date(2000+r.Intn(60), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), 0, 0, time.UTC))
		if r.Intn(5) > 0 {
			n := []int{1, 10, 79, 80, 81, 95, 96, 300, 700}[r.Intn(9)]
			if big {
				n = 3000 + r.Intn(6000)
			}
			m.PlainText = p.text(n)
		}
		if r.Intn(4) > 0 {
			n := []int{1, 5, 15, 16, 60, 200, 500}[r.Intn(7)]
			if big {
				n = 500 + r.Intn(1000)
			}
			m.CipherText = randLetters(r, n*gs)
			m.KeyId = randLetters(r, gs)
		}
		k.Messages = append(k.Messages, m)
	}
	if r.Intn(8) == 0 {
		k.GroupSize = 1 + r.Intn(gs+2)
		if k.GroupSize > k.KeyColumns {
			k.GroupSize = k.KeyColumns
		}
	}
	p.k = &k
}

// text is words of supported characters.
func (p *printer) text(n int) []rune {
	t := randomText(p.rng, n)
	w := 0
	for i, c := range t {
		switch {
		case c == ' ':
			w = 0
		case p.rng.Intn(8) == 0 || (w > 60 && p.rng.Intn(40) > 0):
			t[i], w = ' ', 0
		default:
			w++
		}
	}
	// Not something that reads like another part of the sheet.
	s := strings.ReplaceAll(string(t), ":", ".")
	return []rune(strings.ReplaceAll(s, "--", "- "))
}

func (p *printer) pick(n, sel int) map[int]bool {
	m := map[int]bool{}
	for i := 0; i < n; i++ {
		if sel == 0 || (sel == 1 && p.rng.Intn(2) == 0) || (sel == 2 && p.rng.Intn(n) == 0) {
			m[i] = true
		}
	}
	return m
}

func hash(s string) string { return fmt.Sprintf("%x", sha256.Sum256([]byte(s)))[:20] }

func (p *printer) keys() {
	k := p.k
	sel := p.pick(len(k.Keys), p.rng.Intn(4)%3)
	items, crem := []int{}, []int{}
	filter := func(x *krypto431.Key) bool {
		for i := range k.Keys {
			if x == &k.Keys[i] || string(x.Id) == string(k.Keys[i].Id) {
				return sel[i]
			}
		}
		return false
	}
	sheets := [][]int{}
	for i := range k.Keys {
		if sel[i] {
			items = append(items, p.rec.Key(&k.Keys[i]))
			crem = append(crem, minutes(k.Keys[i].Created.Time))
		}
	}
	a := M{"items": items, "crem": crem, "gs": k.GroupSize, "kl": k.KeyLength, "cols": k.Columns, "kcols": k.KeyColumns}
	text := ""
	pn, what := guarded(func() { text = k.KeysAsText(filter) })
	r := M{"panic": pn, "lines": p.lines(text)}
	if pn {
		r["what"] = what
	}
	p.emit("keys", a, r)
	guarded(func() {
		for i := range k.Keys {
			if sel[i] {
				sheets = append(sheets, p.toks(k.Keys[i].String()))
			}
		}
	})
	p.file(items, text, func(f string) error { return k.KeysTextFile(filter, f) })
	p.pdf(sheets, func(f string) error { return k.KeysPDF(filter, f) })
}

func (p *printer) msgs() {
	k := p.k
	sel := p.pick(len(k.Messages), p.rng.Intn(4)%3)
	items, dtgm := []int{}, []int{}
	filter := func(x *krypto431.Message) bool {
		for i := range k.Messages {
			if string(x.Id) == string(k.Messages[i].Id) {
				return sel[i]
			}
		}
		return false
	}
	sheets := [][]int{}
	for i := range k.Messages {
		if sel[i] {
			items = append(items, p.rec.Msg(&k.Messages[i]))
			dtgm = append(dtgm, minutes(k.Messages[i].DTG.Time))
		}
	}
	a := M{"items": items, "dtgm": dtgm, "gs": k.GroupSize}
	text := ""
	pn, what := guarded(func() { text = k.MessagesAsText(filter) })
	r := M{"panic": pn, "lines": p.lines(text)}
	if pn {
		r["what"] = what
	}
	p.emit("msgs", a, r)
	// Other widths.
	w := []int{0, 1, 20, 40, 60, 95, 120, 300}[p.rng.Intn(8)]
	wide := ""
	pn, what = guarded(func() {
		for i := range k.Messages {
			if sel[i] {
				wide += k.Messages[i].String(w) + "\n"
				sheets = append(sheets, p.toks(k.Messages[i].String()))
			}
		}
	})
	a2 := M{"items": items, "dtgm": dtgm, "gs": k.GroupSize, "width": w}
	r = M{"panic": pn, "lines": p.lines(wide)}
	if pn {
		r["what"] = what
	}
	p.emit("msgs", a2, r)
	p.file(items, text, func(f string) error { return k.MessagesTextFile(filter, f) })
	p.pdf(sheets, func(f string) error { return k.MessagesPDF(filter, f) })
}

func (p *printer) file(items []int, text string, write func(string) error) {
	name := filepath.Join(p.dir, "out.txt")
	os.RemoveAll(name)
	writable := true
	switch p.rng.Intn(4) {
	case 0: // longer than what is written
		check(os.WriteFile(name, bytes.Repeat([]byte("OLD "), 20000), 0600))
	case 1:
		name = filepath.Join(p.dir, "nowhere", "out.txt")
		writable = false
	}
	var err error
	pn, _ := guarded(func() { err = write(name) })
	b, _ := os.ReadFile(name)
	p.emit("file", M{"items": items, "writable": writable}, M{"panic": pn, "err": err != nil, "file": p.rec.Str(hash(string(b))), "text": p.rec.Str(hash(text))})
	os.RemoveAll(name)
}

func (p *printer) pdf(sheets [][]int, write func(string) error) {
	name := filepath.Join(p.dir, "out.pdf")
	os.RemoveAll(name)
	var err error
	pn, what := guarded(func() { err = write(name) })
	r := M{"panic": pn, "err": err != nil, "toks": []int{}, "outside": 0, "overlap": 0, "noglyph": 0}
	if pn {
		r["what"] = what
	} else if err == nil && len(sheets) > 0 {
		t, ok := readPDF(name)
		if ok {
			r["toks"], r["outside"], r["overlap"], r["noglyph"] = p.toks(t.text), t.outside, t.overlap, t.noglyph
			r["pages"] = t.pages
		} else {
			r["err"] = true
		}
	}
	p.emit("pdf", M{"sheets": sheets}, r)
	os.RemoveAll(name)
}

type pdfText struct {
	text                             string
	pages, outside, overlap, noglyph int
}

var (
	reObj  = regexp.MustCompile(`(?s)(\d+) 0 obj\n(.*?)endobj`)
	reKids = regexp.MustCompile(`/Kids \[([^\]]*)\]`)
	reCont = regexp.MustCompile(`/Contents (\d+) 0 R`)
	reBox  = regexp.MustCompile(`/MediaBox \[0 0 ([0-9.]+) ([0-9.]+)\]`)
	reMap  = regexp.MustCompile(`/CIDToGIDMap (\d+) 0 R`)
)

func stream(obj []byte) []byte {
	i := bytes.Index(obj, []byte("stream\n"))
	j := bytes.LastIndex(obj, []byte("\nendstream"))
	if i < 0 || j < 0 {
		return nil
	}
	b := obj[i+7 : j]
	if bytes.Contains(obj[:i], []byte("/FlateDecode")) {
		z, err := zlib.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil
		}
		out, err := io.ReadAll(z)
		if err != nil {
			return nil
		}
		return out
	}
	return b
}

// readPDF reads the text of a PDF file written with gofpdf and a UTF-8 font.
func readPDF(name string) (t pdfText, ok bool) {
	b, err := os.ReadFile(name)
	if err != nil || !bytes.HasPrefix(b, []byte("%PDF")) {
		return
	}
	objs := map[string][]byte{}
	// Object boundaries from the cross reference would be exact; binary streams
	// may contain anything, so go by lengths.
	pos := 0
	reHead := regexp.MustCompile(`(?m)^(\d+) 0 obj\n`)
	reLen := regexp.MustCompile(`/Length (\d+)`)
	for {
		m := reHead.FindSubmatchIndex(b[pos:])
		if m == nil {
			break
		}
		num := string(b[pos+m[2] : pos+m[3]])
		start := pos + m[1]
		end := bytes.Index(b[start:], []byte("endobj"))
		if end < 0 {
			return
		}
		end += start
		if s := bytes.Index(b[start:end], []byte("stream\n")); s >= 0 {
			l := reLen.FindSubmatch(b[start : start+s])
			if l == nil {
				return
			}
			n, _ := strconv.Atoi(string(l[1]))
			from := start + s + 7 + n
			if from > len(b) {
				return
			}
			e := bytes.Index(b[from:], []byte("endobj"))
			if e < 0 {
				return
			}
			end = from + e
		}
		objs[num] = b[start:end]
		pos = end
	}
	kids := reKids.FindSubmatch(objs["1"])
	box := reBox.FindSubmatch(objs["1"])
	if kids == nil || box == nil {
		return
	}
	wd, _ := strconv.ParseFloat(string(box[1]), 64)
	ht, _ := strconv.ParseFloat(string(box[2]), 64)
	var gid []byte
	for _, o := range objs {
		if m := reMap.FindSubmatch(o); m != nil {
			gid = stream(objs[string(m[1])])
		}
	}
	var text strings.Builder
	for _, ref := range strings.Fields(strings.ReplaceAll(string(kids[1]), " 0 R", "")) {
		m := reCont.FindSubmatch(objs[ref])
		if m == nil {
			return
		}
		c := stream(objs[string(m[1])])
		if c == nil {
			return
		}
		t.pages++
		t.page(c, wd, ht, gid, &text)
	}
	t.text = text.String()
	return t, true
}

// page reads a content stream.
func (t *pdfText) page(c []byte, wd, ht float64, gid []byte, text *strings.Builder) {
	type span struct{ x0, x1, y float64 }
	var spans []span
	var stack []float64
	var strs []string // of the operator being read
	var adjust float64
	size, x, y := 8.0, 0.0, 0.0
	i := 0
	show := func() {
		n := 0
		s := strings.Join(strs, "")
		for _, r := range s {
			n++
			if r != ' ' && gid != nil && (int(r)*2+1 >= len(gid) || (gid[int(r)*2] == 0 && gid[int(r)*2+1] == 0)) {
				t.noglyph++
			}
		}
		trim := strings.TrimRight(s, " ")
		lead := len(s) - len(strings.TrimLeft(s, " "))
		nt := len([]rune(trim))
		if nt > lead {
			w := 0.6 * size
			x0, x1 := x+w*float64(lead), x+w*float64(nt)-adjust/1000*size
			if y < 0 || y > ht || x0 < 0 || x1 > wd+1 {
				t.outside++
			}
			for _, o := range spans {
				if d := o.y - y; d < size*0.7 && d > -size*0.7 && x0 < o.x1-0.1 && o.x0 < x1-0.1 {
					t.overlap++
				}
			}
			spans = append(spans, span{x0, x1, y})
		}
		text.WriteString(s + "\n")
		strs, adjust = nil, 0
	}
	for i < len(c) {
		switch ch := c[i]; {
		case ch == '(':
			i++
			var raw []byte
			for i < len(c) && c[i] != ')' {
				if c[i] == '\\' && i+1 < len(c) {
					i++
					switch c[i] {
					case 'r':
						raw = append(raw, '\r')
					case 'n':
						raw = append(raw, '\n')
					default:
						raw = append(raw, c[i])
					}
				} else {
					raw = append(raw, c[i])
				}
				i++
			}
			i++
			var rs []rune
			for j := 0; j+1 < len(raw); j += 2 {
				rs = append(rs, rune(raw[j])<<8|rune(raw[j+1]))
			}
			strs = append(strs, string(rs))
		case ch == ' ' || ch == '\n' || ch == '[' || ch == ']':
			i++
		default:
			j := i
			for j < len(c) && !bytes.ContainsRune([]byte(" \n[]()"), rune(c[j])) {
				j++
			}
			tok := string(c[i:j])
			i = j
			if f, err := strconv.ParseFloat(tok, 64); err == nil {
				stack = append(stack, f)
				if len(strs) > 0 {
					adjust += f
				}
				continue
			}
			switch tok {
			case "Td":
				if len(stack) >= 2 {
					x, y = stack[len(stack)-2], stack[len(stack)-1]
				}
			case "Tf":
				if len(stack) >= 1 {
					size = stack[len(stack)-1]
				}
			case "Tj", "TJ":
				show()
			}
			stack = nil
		}
	}
}

// pages makes items of given heights (in quarters of a page) and prints them.
func (p *printer) pages(heights []int) {
	r := p.rng
	k := krypto431.New(krypto431.WithPersistence("none.gob"), krypto431.WithPFK(pfk()), krypto431.WithCallSign("SA6MWA"),
		krypto431.WithGroupSize(5), krypto431.WithKeyLength(20), krypto431.WithKeyColumns([]int{5, 16, 17}[r.Intn(3)]))
	check(k.Assert())
	perLine := 1
	if k.KeyColumns == 17 {
		perLine = 2
	}
	for i, h := range heights {
		lines := h*87/4 + r.Intn(5) - 2 - 14
		if lines*5*perLine < 20 {
			lines = 4
		}
		k.KeyLength = lines * 5 * perLine
		k.NewKey(time.Date(2040, 1, 1+r.Intn(20), 0, 0, 0, 0, time.UTC), "AA")
		lines = h*65/4 + r.Intn(5) - 2 - 6
		if lines < 1 {
			lines = 1
		}
		var m krypto431.Message
		m.SetInstance(&k)
		m.Id, m.From, m.Recipients = []rune(fmt.Sprintf("M%03d", i)), []rune("AA"), [][]rune{[]rune("BB")}
		m.DTG = dtgOf(time.Date(2040, 1, 2, 3, 4, 0, 0, time.UTC))
		for j := 0; j < lines; j++ {
			w := fmt.Sprintf("W%dL%d", i, j)
			m.PlainText = append(m.PlainText, []rune(w+strings.Repeat("X", 60-len(w))+" ")...)
		}
		k.Messages = append(k.Messages, m)
	}
	for i := range k.Keys {
		k.Keys[i].SetInstance(&k)
	}
	p.k = &k
	all := func(n int) [][]int { return make([][]int, 0, n) }
	ks, ms := all(len(k.Keys)), all(len(k.Messages))
	for i := range k.Keys {
		ks = append(ks, p.toks(k.Keys[i].String()))
	}
	for i := range k.Messages {
		ms = append(ms, p.toks(k.Messages[i].String()))
	}
	p.pdf(ks, func(f string) error { return k.KeysPDF(func(*krypto431.Key) bool { return true }, f) })
	p.pdf(ms, func(f string) error { return k.MessagesPDF(func(*krypto431.Message) bool { return true }, f) })
}

func runPrint(rec *Recorder, seed int64, num int, dir, scen string) {
	useSeededSource(seed)
	p := &printer{rec: rec, rng: newRng(seed), dir: dir}
	if scen != "" {
		b, err := os.ReadFile(scen)
		check(err)
		var hs [][]int
		check(json.Unmarshal(b, &hs))
		for _, h := range hs {
			p.tr = Trace{Name: fmt.Sprintf("pages %v", h), Init: []int{}, Events: []Event{}}
			p.pages(h)
			rec.Traces = append(rec.Traces, p.tr)
		}
	}
	for i := 0; i < num; i++ {
		p.tr = Trace{Name: "printing", Init: []int{}, Events: []Event{}}
		nk, nm := p.rng.Intn(6), p.rng.Intn(9)
		if i%10 == 9 {
			nm = 25
		}
		p.store(nk, nm, p.rng.Intn(8) == 0)
		p.keys()
		p.msgs()
		if p.rng.Intn(3) == 0 {
			p.msgs()
		}
		rec.Traces = append(rec.Traces, p.tr)
	}
}
