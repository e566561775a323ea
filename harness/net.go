package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"
	"unicode"

	"github.com/sa6mwa/krypto431"
)

// Cmd is one step of a scenario: made at random here, or by TLC from the
// specification (MCNetwork). Indices are taken modulo what there is.
type Cmd struct {
	Op string `json:"op"`
	S  int    `json:"s"`  // station, from 0
	T  int    `json:"t"`  // other station
	N  int    `json:"n"`  // count
	J  int    `json:"j"`  // index of key, message, mail or file
	W  int    `json:"w"`  // weight of a text: the number of keys it needs
	X  int    `json:"x"`  // variant
	To []int  `json:"to"` // recipients or keepers, station numbers
}

type Scenario struct {
	Name     string `json:"name"`
	Stations int    `json:"stations"`
	Gs       int    `json:"gs"`
	Kl       int    `json:"kl"`
	Cmds     []Cmd  `json:"cmds"`
}

type mail struct {
	orig    int
	from    int
	chain   []int
	kid     string
	ct      string
	gs      int
	printed string
	count   int
	groups  int
	rcpt    [][]rune
	dtgs    string
}

type exportFile struct {
	f    int
	path string
	st   int // state reference
	ids  [][]rune
	from int
}

type station struct {
	k     *krypto431.Krypto431
	call  string
	path  string
	f     int
	saved bool
	dirty bool
}

type Net struct {
	rec   *Recorder
	rng   *rand.Rand
	dir   string
	st    []*station
	mails []mail
	exps  []exportFile
	nf    int
	tr    Trace
	dead  bool
	gs    int
	kl    int
	full  bool // every kind of operation
}

var stationCalls = []string{"AA", "BB", "CC/P", "SA6MWA"}

func pfk() *[]byte {
	b := []byte("0123456789abcdef0123456789ABCDEF")
	return &b
}

func (n *Net) newInstance(path, call string, gs, kl int) *krypto431.Krypto431 {
	k := krypto431.New(krypto431.WithPersistence(path), krypto431.WithPFK(pfk()),
		krypto431.WithGroupSize(gs), krypto431.WithKeyLength(kl),
		krypto431.WithKeyColumns(30+gs), krypto431.WithOverwritePersistenceIfExists(true),
		krypto431.WithCallSign(call))
	return &k
}

func newNet(rec *Recorder, rng *rand.Rand, dir string, stations, gs, kl int, name string) *Net {
	n := &Net{rec: rec, rng: rng, dir: dir, gs: gs, kl: kl}
	for i := 0; i < stations; i++ {
		n.nf++
		s := &station{call: stationCalls[i], path: filepath.Join(dir, fmt.Sprintf("s%d.gob", i)), f: n.nf}
		os.Remove(s.path)
		g := gs
		if i == 3 && rng.Intn(2) == 0 {
			g = gs + 1 // a station with another group size
		}
		s.k = n.newInstance(s.path, s.call, g, kl)
		n.st = append(n.st, s)
	}
	n.tr = Trace{Name: name, Init: n.post(), Events: []Event{}}
	return n
}

func (n *Net) post() []int {
	p := make([]int, len(n.st))
	for i := range n.st {
		p[i] = n.rec.State(n.st[i].k)
	}
	return p
}

func (n *Net) emit(op string, s int, a, r M, panicked bool, what string) {
	r["panic"] = panicked
	if panicked {
		r["what"] = what
	}
	if a == nil {
		a = M{}
	}
	p := n.post()
	n.tr.Events = append(n.tr.Events, Event{Op: op, S: s + 1, A: a, R: r, Post: p})
	if panicked {
		n.dead = true
	}
}

func (n *Net) finish() {
	n.rec.Traces = append(n.rec.Traces, n.tr)
	for _, s := range n.st {
		s.k.Close()
		os.Remove(s.path)
	}
	for _, e := range n.exps {
		os.Remove(e.path)
	}
}

func (n *Net) calls(to []int) (c []string) {
	seen := map[int]bool{}
	for _, t := range to {
		if t < 0 {
			c = append(c, "ZZ9")
			continue
		}
		t = t % len(n.st)
		if !seen[t] {
			seen[t] = true
			c = append(c, n.st[t].call)
		}
	}
	return
}

func (n *Net) flipCase(s string) string {
	switch n.rng.Intn(3) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	}
	return s
}

func (n *Net) do(c Cmd) {
	if n.dead {
		return
	}
	s := c.S % len(n.st)
	st := n.st[s]
	k := st.k
	switch c.Op {
	case "gen":
		n.gen(s, c)
	case "send":
		n.send(s, c)
	case "enc":
		n.enc(s, c)
	case "resend":
		n.resend(s, c)
	case "recv":
		n.recv(s, c)
	case "try":
		if len(k.Messages) == 0 {
			return
		}
		j := c.J % len(k.Messages)
		dry := c.X%3 == 1
		var err error
		p, w := guarded(func() {
			if dry {
				err = k.Messages[j].TryDecipherPlainText(true)
			} else {
				err = k.Messages[j].TryDecipherPlainText()
			}
		})
		st.dirty = true
		n.emit("try", s, M{"j": j + 1, "dry": dry}, M{"err": err != nil}, p, w)
	case "deciph":
		if len(k.Messages) == 0 {
			return
		}
		j := c.J % len(k.Messages)
		var err error
		p, w := guarded(func() { err = k.Messages[j].Decipher() })
		st.dirty = true
		n.emit("deciph", s, M{"j": j + 1}, M{"err": err != nil}, p, w)
	case "list":
		p, w := guarded(func() { k.SummaryOfMessages(func(m *krypto431.Message) bool { return true }) })
		st.dirty = true
		n.emit("list", s, nil, M{}, p, w)
	case "look":
		p, w := guarded(func() { n.look(k) })
		n.emit("look", s, nil, M{}, p, w)
	case "delkey":
		n.delKeys(s, c)
	case "delmsg":
		n.delMsgs(s, c)
	case "comp":
		if len(k.Keys) == 0 {
			return
		}
		j := c.J % len(k.Keys)
		k.Keys[j].Compromised = true
		n.emit("comp", s, M{"j": j + 1}, M{}, false, "")
	case "keeper":
		n.keeper(s, c)
	case "wipekey":
		if len(k.Keys) == 0 {
			return
		}
		j := c.J % len(k.Keys)
		p, w := guarded(func() {
			switch n.rng.Intn(3) {
			case 0:
				k.Keys[j].Wipe()
			case 1:
				k.Keys[j].ZeroWipe()
			default:
				k.Keys[j].RandomWipe()
			}
		})
		n.emit("wipekey", s, M{"j": j + 1}, M{}, p, w)
		if !n.dead && len(k.Keys) > 0 { // and get rid of it
			k.Keys = append(k.Keys[:j], k.Keys[j+1:]...)
			n.emit("put", s, nil, M{}, false, "")
		}
	case "wipemsg":
		if len(k.Messages) == 0 {
			return
		}
		j := c.J % len(k.Messages)
		p, w := guarded(func() {
			switch n.rng.Intn(3) {
			case 0:
				k.Messages[j].Wipe()
			case 1:
				k.Messages[j].ZeroWipe()
			default:
				k.Messages[j].RandomWipe()
			}
		})
		n.emit("wipemsg", s, M{"j": j + 1}, M{}, p, w)
	case "save":
		n.save(s)
	case "load":
		n.load(s, c)
	case "export":
		n.export(s, c)
	case "import":
		n.importKeys(s, c)
	case "xfer": // export all unused keys kept by t, import at t
		n.export(s, Cmd{X: 100 + c.X, T: c.T})
		n.importKeys(c.T%len(n.st), Cmd{J: len(n.exps) - 1, X: 100})
	default:
		check(fmt.Errorf("unknown command %q", c.Op))
	}
}

// again names a call-sign twice now and then.
func (n *Net) again(calls []string) []string {
	if len(calls) == 0 || n.rng.Intn(5) > 0 {
		return calls
	}
	i := n.rng.Intn(len(calls) + 1)
	x := append(append([]string{}, calls[:i]...), calls[n.rng.Intn(len(calls))])
	return append(x, calls[i:]...)
}

func (n *Net) gen(s int, c Cmd) {
	k := n.st[s].k
	room := 14 - len(k.Keys)
	if c.N < 1 {
		c.N = 1
	}
	if c.N > room {
		c.N = room
	}
	if c.N < 1 {
		return
	}
	calls := n.again(n.calls(c.To))
	var args []string
	switch n.rng.Intn(4) {
	case 0:
		args = append(args, calls...)
	case 1:
		if len(calls) > 0 {
			args = append(args, strings.Join(calls, ","))
		}
	case 2:
		if len(calls) > 0 {
			args = append(args, strings.ToLower(strings.Join(calls, " ")))
		}
	case 3:
		for _, x := range calls {
			args = append(args, " "+n.flipCase(x)+",")
		}
		args = append(args, "", " , ")
	}
	own := n.st[s].call
	if n.rng.Intn(3) == 0 { // own call-sign, to be removed
		args = append(args, n.flipCase(own))
	}
	var want []string
	for _, x := range calls {
		if x != own {
			want = append(want, x)
		}
	}
	var expire *string
	expm, bad := 0, false
	switch c.X % 5 {
	case 1:
		year := 2027 + n.rng.Intn(30)
		if n.rng.Intn(3) == 0 { // expired already
			year = 2005 + n.rng.Intn(20)
		}
		d := time.Date(year, time.Month(1+n.rng.Intn(12)), 1+n.rng.Intn(28), n.rng.Intn(24), n.rng.Intn(60), 0, 0, time.UTC)
		x := strings.ToUpper(d.Format("021504ZJan06"))
		expire, expm = &x, minutes(d)
	case 2:
		if n.full {
			x := []string{"NONSENSE", "320000ZJAN30", "", "12", "300000ZFEB30", "012545ZJAN30"}[n.rng.Intn(6)]
			expire, bad = &x, true
		}
	}
	a := M{"n": c.N, "keepers": n.rec.StrList(want), "now": minutes(time.Now()), "expm": expm, "bad": bad}
	var err error
	p, w := guarded(func() { err = k.GenerateKeys(c.N, expire, args...) })
	n.emit("gen", s, a, M{"err": err != nil}, p, w)
}

// want letters for a text that needs w keys, aiming at the boundaries.
func (n *Net) weight(w, kl, gs int) int {
	c := kl - gs - 2
	if c < 1 {
		c = 1
	}
	if w < 1 {
		w = 1
	}
	v := w*c - n.rng.Intn(c)
	if n.rng.Intn(3) == 0 {
		v = w*c + n.rng.Intn(9) - 6
	}
	if v < 1 {
		v = 1
	}
	return v
}

func (n *Net) realKl(k *krypto431.Krypto431) int {
	return (k.KeyLength + k.GroupSize - 1) / k.GroupSize * k.GroupSize
}

// named picks an explicit key id: its argument and the reference a.x.
func (n *Net) named(k *krypto431.Krypto431, c Cmd) (string, int) {
	switch c.X % 8 {
	case 1, 2:
		if len(k.Keys) > 0 {
			id := string(k.Keys[c.J%len(k.Keys)].Id)
			return n.flipCase(id), n.rec.Str(id)
		}
	case 3:
		if !n.full {
			return "", 0
		}
		if n.rng.Intn(3) == 0 { // wrong length
			id := strings.Repeat("A", []int{0, k.GroupSize + 1, k.GroupSize - 1}[n.rng.Intn(3)])
			return id, n.rec.Str(id)
		}
		id := make([]rune, k.GroupSize)
		for i := range id {
			id[i] = rune('A' + n.rng.Intn(26))
		}
		return string(id), n.rec.Runes(id)
	}
	return "", 0
}

func (n *Net) send(s int, c Cmd) {
	st := n.st[s]
	k := st.k
	text := radiogramText(n.rng, n.weight(c.W, n.realKl(k), k.GroupSize))
	if c.W == 0 { // unsupported character somewhere
		i := n.rng.Intn(len(text) + 1)
		u := unsupportedRunes[n.rng.Intn(len(unsupportedRunes))]
		if unicode.IsSpace(u) || u == '=' {
			u = '!'
		}
		t := append([]rune{}, text[:i]...)
		t = append(t, u)
		text = append(t, text[i:]...)
	}
	calls := n.again(n.calls(c.To))
	dtgs := fmt.Sprintf("%02d%02d%02d", 1+n.rng.Intn(28), n.rng.Intn(24), n.rng.Intn(60))
	switch n.rng.Intn(4) {
	case 0:
		dtgs = ""
	case 1:
		dtgs += "ZJAN24"
	}
	// Not a radiogram, or without text.
	rg := strings.TrimSpace(fmt.Sprintf("%s DE %s %s", strings.Join(calls, " "), st.call, dtgs)) + " = " + string(text) + " = K"
	if c.W < 0 {
		text = nil
		rg = fmt.Sprintf("%s DE %s %s = = K", strings.Join(calls, " "), st.call, dtgs)
		if n.rng.Intn(2) == 0 {
			rg = "NOT A RADIOGRAM"
		}
	}
	x, xr := n.named(k, c)
	a := M{"text": n.rec.Runes(text), "rcpt": n.rec.StrList(calls), "x": xr, "store": true}
	var m *krypto431.Message
	var err error
	p, w := guarded(func() {
		if xr != 0 {
			m, err = k.NewTextMessage(rg, x)
		} else {
			m, err = k.NewTextMessage(rg)
		}
	})
	r := M{"err": err != nil, "msg": 0, "has": false}
	if !p && err == nil {
		r["msg"], r["has"] = n.rec.Msg(m), true
		st.dirty = true
		n.addMail(s, m)
	}
	n.emit("ntm", s, a, r, p, w)
}

// addMail keeps what the station prints for a message.
func (n *Net) addMail(s int, m *krypto431.Message) {
	k := n.st[s].k
	ml := mail{orig: n.rec.Msg(m), from: s, kid: string(m.KeyId), ct: string(m.CipherText), gs: k.GroupSize, dtgs: m.DTG.String()}
	for _, r := range m.Recipients {
		ml.rcpt = append(ml.rcpt, append([]rune{}, r...))
	}
	if m.GetInstance() == nil || len(m.From) == 0 {
		return
	}
	var out string
	if p, _ := guarded(func() { out = m.String([]int{80, 40, 95, 120, 200}[n.rng.Intn(5)]) }); p {
		return
	}
	const head = "=TRAFFIC=EXAMPLE="
	if i := strings.Index(out, head); i >= 0 {
		ml.printed = out[i+len(head):]
		ml.count, ml.groups = countGroups(ml.printed)
	}
	ml.chain = n.chainRefs(k, m)
	n.mails = append(n.mails, ml)
}

// countGroups finds the group count in the header of traffic "TO DE FROM DTG
// COUNT = GROUPS = K" and counts the groups.
func countGroups(t string) (count, groups int) {
	parts := strings.Split(t, "=")
	if len(parts) < 2 {
		return -1, -2
	}
	h := strings.Fields(parts[0])
	if len(h) > 0 {
		fmt.Sscanf(h[len(h)-1], "%d", &count)
	}
	return count, len(strings.Fields(parts[1]))
}

// chainRefs returns the keys the message was enciphered with, found by
// deciphering with our own reader (see refdec.go).
func (n *Net) chainRefs(k *krypto431.Krypto431, m *krypto431.Message) (refs []int) {
	refs = []int{}
	for _, id := range refChain(k, string(m.KeyId), m.CipherText) {
		for i := range k.Keys {
			if string(k.Keys[i].Id) == id {
				refs = append(refs, n.rec.Key(&k.Keys[i]))
			}
		}
	}
	return
}

func (n *Net) enc(s int, c Cmd) {
	st := n.st[s]
	k := st.k
	text := randomText(n.rng, n.weight(c.W, n.realKl(k), k.GroupSize))
	switch {
	case c.W == 0:
		for b := 0; b <= n.rng.Intn(2); b++ {
			i := n.rng.Intn(len(text) + 1)
			t := append([]rune{}, text[:i]...)
			t = append(t, unsupportedRunes[n.rng.Intn(len(unsupportedRunes))])
			text = append(t, text[i:]...)
		}
	case c.W < 0:
		text = nil
	}
	calls := n.calls(c.To)
	m := krypto431.Message{PlainText: append([]rune{}, text...)}
	for _, x := range calls {
		m.AddRecipient([]rune(x))
	}
	m.SetInstance(k)
	x, xr := n.named(k, c)
	if xr != 0 {
		m.KeyId = []rune(strings.ToUpper(x))
		if len(m.KeyId) == 0 {
			xr = 0
		}
	}
	a := M{"text": n.rec.Runes(text), "rcpt": n.rec.StrList(calls), "x": xr, "store": false}
	var err error
	p, w := guarded(func() { err = m.Encipher() })
	r := M{"err": err != nil, "msg": n.rec.Msg(&m)}
	if !p && err == nil {
		st.dirty = true
	}
	n.emit("enc", s, a, r, p, w)
	if !p && err == nil {
		m.From = []rune(st.call)
		m.DTG = dtgOf(time.Now())
		k.Messages = append(k.Messages, m)
		n.addMail(s, &k.Messages[len(k.Messages)-1])
		n.emit("put", s, nil, M{}, false, "")
	}
}

// resend enciphers a message again that already has been enciphered.
func (n *Net) resend(s int, c Cmd) {
	k := n.st[s].k
	if len(k.Messages) == 0 {
		return
	}
	j := c.J % len(k.Messages)
	m := &k.Messages[j]
	if len(m.KeyId) == 0 || len(m.CipherText) == 0 {
		return
	}
	for i := range k.Keys {
		if string(k.Keys[i].Id) == string(m.KeyId) && !k.Keys[i].Used && !k.Keys[i].Compromised {
			return
		}
	}
	var err error
	p, w := guarded(func() { err = m.Encipher() })
	n.emit("resend", s, M{"j": j + 1}, M{"err": err != nil}, p, w)
	if err == nil {
		n.dead = true
	}
}

func (n *Net) recv(s int, c Cmd) {
	st := n.st[s]
	k := st.k
	var cand []int
	for i := range n.mails {
		if n.mails[i].from != s {
			cand = append(cand, i)
		}
	}
	x := c.X
	if len(cand) == 0 {
		if !n.full {
			return
		}
		x = 7
	}
	var ml mail
	if len(cand) > 0 {
		ml = n.mails[cand[c.J%len(cand)]]
	} else {
		ml = mail{from: (s + 1) % len(n.st), gs: k.GroupSize, dtgs: "010203ZJAN24"}
	}
	from := n.st[ml.from].call
	if from == st.call {
		from = "QQ1"
	}
	var calls []string
	for _, r := range ml.rcpt {
		calls = append(calls, string(r))
	}
	text := ml.kid + " " + groupsOf(ml.ct, ml.gs)
	printed := false
	var rg string
	rs := []rune(text)
	switch x {
	case 1: // a letter changed
		i := n.rng.Intn(len(rs))
		if rs[i] != ' ' {
			rs[i] = 'A' + (rs[i]-'A'+1+rune(n.rng.Intn(25)))%26
		}
	case 2: // lower case
		rs = []rune(strings.ToLower(text))
	case 3: // cut
		rs = []rune(strings.TrimSpace(string(rs[:1+n.rng.Intn(len(rs))])))
	case 4: // no spaces, or several
		if n.rng.Intn(2) == 0 {
			rs = []rune(strings.ReplaceAll(text, " ", ""))
		} else {
			rs = []rune(strings.ReplaceAll(text, " ", "  "))
		}
	case 5: // something that is not a letter
		i := n.rng.Intn(len(rs))
		if rs[i] != ' ' {
			rs[i] = pick(n.rng, "0123456789.?ÅÄÖ!")
		}
	case 6: // longer than what was sent
		for i := 0; i < 1+n.rng.Intn(3*ml.gs); i++ {
			rs = append(rs, rune('A'+n.rng.Intn(26)))
		}
	case 7: // clear text
		rs = radiogramText(n.rng, 1+n.rng.Intn(60))
	case 8: // traffic for a key chosen at random
		if len(k.Keys) > 0 {
			id := string(k.Keys[n.rng.Intn(len(k.Keys))].Id)
			rs = []rune(id + " ")
			for i := 0; i < k.GroupSize*(1+n.rng.Intn(4)); i++ {
				rs = append(rs, rune('A'+n.rng.Intn(26)))
			}
		}
	default:
		printed = ml.printed != ""
	}
	text = string(rs)
	if reDE.MatchString(text) || reTrail.MatchString(text) || strings.TrimSpace(text) == "" {
		if !printed {
			return
		}
	}
	rg = strings.TrimSpace(fmt.Sprintf("%s DE %s %s", strings.Join(calls, " "), from, ml.dtgs)) + " = " + text + " = K"
	if printed {
		rg = ml.printed
	}
	a := M{"text": n.rec.Str(text), "rcpt": n.rec.StrList(calls), "from": n.rec.Str(from), "empty": n.rec.Str(""),
		"printed": printed, "orig": ml.orig, "chain": ml.chain, "count": ml.count, "groups": ml.groups, "gs": ml.gs}
	if ml.chain == nil {
		a["chain"] = []int{}
	}
	var m *krypto431.Message
	var err error
	p, w := guarded(func() { m, err = k.NewTextMessage(rg) })
	r := M{"err": err != nil, "msg": 0, "has": false}
	if !p && err == nil {
		r["msg"], r["has"] = n.rec.Msg(m), true
	}
	st.dirty = true
	n.emit("recv", s, a, r, p, w)
}

func groupsOf(ct string, gs int) string {
	var g []string
	rs := []rune(ct)
	for len(rs) > 0 {
		e := gs
		if e > len(rs) {
			e = len(rs)
		}
		g = append(g, string(rs[:e]))
		rs = rs[e:]
	}
	return strings.Join(g, " ")
}

// look reads in every way that is not to change anything.
func (n *Net) look(k *krypto431.Krypto431) {
	all := func(*krypto431.Key) bool { return true }
	allm := func(*krypto431.Message) bool { return true }
	k.SummaryOfKeys(all)
	k.KeysAsText(all)
	k.MessagesAsText(allm)
	for i := range k.Keys {
		key := &k.Keys[i]
		key.Groups()
		key.GroupsBlock()
		key.IsExpired()
		key.IsValidOneDay()
		key.JoinKeepers(",")
		key.ContainsKeeper([]rune("AA"))
		k.ContainsKeyId(&key.Id)
		_ = fmt.Sprintf("%#v", *key)
		k.GetKey(key.Id)
	}
	for i := range k.Messages {
		m := &k.Messages[i]
		m.Groups()
		m.GroupsBlock()
		m.IsMyCall()
		m.ContainsRecipient([]rune("AA"))
		_ = fmt.Sprintf("%#v", *m)
	}
	k.FindKey()
	k.FindKey([]rune("AA"))
	k.FindKey([]rune("BB"), []rune("CC/P"))
	k.Assert()
	var pf = k.GetPFKString()
	_ = pf
	if len(k.Keys) > 0 {
		k.KeysPDF(all, filepath.Join(n.dir, "look.pdf"))
		k.KeysTextFile(all, filepath.Join(n.dir, "look.txt"))
	}
	if len(k.Messages) > 0 {
		k.MessagesTextFile(allm, filepath.Join(n.dir, "look.txt"))
	}
	os.Remove(filepath.Join(n.dir, "look.pdf"))
	os.Remove(filepath.Join(n.dir, "look.txt"))
}

func (n *Net) delKeys(s int, c Cmd) {
	k := n.st[s].k
	var ids []string
	for i := 0; i < c.N%4; i++ {
		if len(k.Keys) > 0 {
			ids = append(ids, n.flipCase(string(k.Keys[(c.J+i*(1+c.X%3))%len(k.Keys)].Id)))
		}
	}
	if n.rng.Intn(3) == 0 {
		ids = append(ids, strings.Repeat("Q", k.GroupSize))
	}
	if len(ids) > 0 && n.rng.Intn(4) == 0 {
		ids = append(ids, ids[0])
	}
	n.rng.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	var nd int
	var err error
	p, w := guarded(func() {
		switch n.rng.Intn(4) {
		case 0:
			nd, err = k.DeleteKeyByString(ids...)
		case 1:
			nd, err = k.DeleteKeyByString(strings.Join(ids, ","))
		case 2:
			var sum []string
			for _, id := range ids {
				sum = append(sum, id+" Anonymous 010203ZJAN24 No")
			}
			nd, err = k.DeleteKeysBySummaryString(sum...)
		default:
			var r [][]rune
			for _, id := range ids {
				r = append(r, []rune(id))
			}
			nd, err = k.DeleteKey(r...)
		}
	})
	n.emit("delkey", s, M{"ids": n.rec.StrList(ids)}, M{"err": err != nil, "n": nd}, p, w)
}

func (n *Net) delMsgs(s int, c Cmd) {
	k := n.st[s].k
	var ids []string
	for i := 0; i < c.N%4; i++ {
		if len(k.Messages) > 0 {
			id := string(k.Messages[(c.J+i*(1+c.X%3))%len(k.Messages)].Id)
			if n.rng.Intn(4) == 0 {
				id = n.flipCase(id)
			}
			ids = append(ids, id)
		}
	}
	if n.rng.Intn(3) == 0 {
		ids = append(ids, "0000")
	}
	if len(ids) > 0 && n.rng.Intn(4) == 0 {
		ids = append(ids, ids[0])
	}
	n.rng.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	var nd int
	var err error
	p, w := guarded(func() {
		switch n.rng.Intn(4) {
		case 0:
			nd, err = k.DeleteMessageByString(ids...)
		case 1:
			nd, err = k.DeleteMessageByString(strings.Join(ids, " "))
		case 2:
			var sum []string
			for _, id := range ids {
				sum = append(sum, id+" 010203ZJAN24 AA BB TEXT")
			}
			nd, err = k.DeleteMessagesBySummaryString(sum...)
		default:
			var r [][]rune
			for _, id := range ids {
				r = append(r, []rune(id))
			}
			nd, err = k.DeleteMessage(r...)
		}
	})
	n.emit("delmsg", s, M{"ids": n.rec.StrList(ids)}, M{"err": err != nil, "n": nd}, p, w)
}

func (n *Net) keeper(s int, c Cmd) {
	k := n.st[s].k
	if len(k.Keys) == 0 {
		return
	}
	j := c.J % len(k.Keys)
	calls := n.calls(c.To)
	add, del := []string{}, []string{}
	if c.X%2 == 0 {
		add = append(add, calls...)
	} else {
		del = append(del, calls...)
	}
	p, w := guarded(func() {
		for _, x := range add {
			k.Keys[j].AddKeeper([]rune(x))
		}
		for _, x := range del {
			k.Keys[j].RemoveKeeper([]rune(x))
		}
	})
	n.emit("keeper", s, M{"j": j + 1, "add": n.rec.StrList(add), "del": n.rec.StrList(del)}, M{}, p, w)
}

func (n *Net) save(s int) {
	st := n.st[s]
	var err error
	p, w := guarded(func() { err = st.k.Save() })
	if !p && err == nil {
		st.saved, st.dirty = true, false
	}
	n.emit("save", s, M{"f": st.f}, M{"err": err != nil}, p, w)
}

func (n *Net) load(s int, c Cmd) {
	st := n.st[s]
	// Going back to before traffic was sent is not what a station does: the
	// program saves before it shows cipher text (see C21).
	if !st.saved || st.dirty {
		n.save(s)
		if n.dead || st.dirty {
			return
		}
	}
	var err error
	old := st.k
	fresh := c.X%2 == 0
	p, w := guarded(func() {
		if fresh {
			k := krypto431.New(krypto431.WithPersistence(st.path), krypto431.WithPFK(pfk()))
			err = k.Load()
			st.k = &k
			if c.X%4 == 0 {
				old.Close()
			}
		} else {
			err = st.k.Load()
		}
	})
	n.emit("load", s, M{"f": st.f}, M{"err": err != nil}, p, w)
	if !p && err != nil {
		n.dead = true
	}
}

func (n *Net) export(s int, c Cmd) {
	st := n.st[s]
	k := st.k
	sel := map[string]bool{}
	var ids [][]rune
	for i := range k.Keys {
		take := false
		switch {
		case c.X >= 100: // keys that t keeps
			t := n.st[c.T%len(n.st)].call
			take = k.Keys[i].ContainsKeeper([]rune(t)) && (c.X != 100 || !k.Keys[i].Used)
			if len(k.Keys[i].Keepers) == 0 && c.X%3 == 1 {
				take = true
			}
		case c.X%4 == 0:
			take = true
		case c.X%4 == 1:
			take = !k.Keys[i].Used
		default:
			take = n.rng.Intn(2) == 0
		}
		if take {
			sel[string(k.Keys[i].Id)] = true
			ids = append(ids, append([]rune{}, k.Keys[i].Id...))
		}
	}
	n.nf++
	path := filepath.Join(n.dir, fmt.Sprintf("x%d.gob", n.nf))
	os.Remove(path)
	var err error
	file := 0
	p, w := guarded(func() {
		x := k.ExportKeys(func(key *krypto431.Key) bool { return sel[string(key.Id)] },
			krypto431.WithPersistence(path), krypto431.WithPFK(pfk()))
		err = x.Save()
		if err == nil {
			l := krypto431.New(krypto431.WithPersistence(path), krypto431.WithPFK(pfk()))
			err = l.Load()
			if err == nil {
				file = n.rec.State(&l)
			}
			l.Close()
		}
		if n.rng.Intn(3) > 0 {
			x.Close()
		}
	})
	n.emit("export", s, M{"f": n.nf, "ids": n.rec.RuneList(ids)}, M{"err": err != nil, "file": file, "has": file != 0}, p, w)
	if err == nil && !p {
		n.exps = append(n.exps, exportFile{f: n.nf, path: path, st: file, ids: ids, from: s})
	}
}

func (n *Net) importKeys(s int, c Cmd) {
	if len(n.exps) == 0 || n.dead {
		return
	}
	e := n.exps[((c.J%len(n.exps))+len(n.exps))%len(n.exps)]
	st := n.st[s]
	k := st.k
	if len(k.Keys) > 24 {
		return
	}
	var ids [][]rune
	sel := map[string]bool{}
	for _, id := range e.ids {
		if c.X >= 100 || c.X%3 != 2 || n.rng.Intn(2) == 0 {
			ids = append(ids, id)
			sel[string(id)] = true
		}
	}
	over := c.X < 100 && c.X%5 == 4
	var cnt int
	var err error
	p, w := guarded(func() {
		k.SetOverwriteExistingKeysOnImport(over)
		cnt, err = k.ImportKeys(func(key *krypto431.Key) bool { return sel[string(key.Id)] },
			krypto431.WithPersistence(e.path), krypto431.WithPFK(pfk()))
	})
	st.dirty = true
	n.emit("import", s, M{"f": e.f, "ids": n.rec.RuneList(ids), "over": over}, M{"err": err != nil, "n": cnt}, p, w)
}

// profile is the relative frequency of commands.
type profile map[string]int

var profiles = map[string]profile{
	"mixed": {"gen": 8, "send": 18, "enc": 12, "resend": 2, "recv": 18, "try": 6, "deciph": 6, "list": 2, "look": 2, "delkey": 4, "delmsg": 4,
		"comp": 4, "keeper": 3, "wipekey": 1, "wipemsg": 1, "save": 4, "load": 5, "export": 5, "import": 7, "xfer": 8},
	"send":    {"gen": 10, "send": 40, "enc": 40, "resend": 4, "comp": 6, "keeper": 3, "load": 4, "delkey": 2, "deciph": 3, "look": 1},
	"recv":    {"gen": 6, "send": 16, "enc": 6, "recv": 40, "try": 12, "deciph": 8, "list": 4, "xfer": 14, "delkey": 4, "load": 2, "delmsg": 1},
	"share":   {"gen": 12, "send": 8, "recv": 6, "export": 20, "import": 30, "delkey": 6, "comp": 6, "keeper": 6, "save": 2, "load": 6, "look": 1},
	"delete":  {"gen": 12, "send": 12, "enc": 4, "delkey": 30, "delmsg": 30, "load": 4, "recv": 4, "xfer": 4, "wipekey": 1, "wipemsg": 3},
	"network": {"gen": 7, "send": 22, "recv": 30, "xfer": 16, "load": 7, "list": 3, "try": 4, "import": 3, "export": 2, "delmsg": 1},
	"alias":   {"gen": 8, "send": 12, "enc": 10, "recv": 12, "wipekey": 8, "wipemsg": 8, "delkey": 8, "delmsg": 6, "export": 8, "import": 12, "keeper": 8, "load": 8, "comp": 3, "look": 3, "deciph": 4, "try": 3},
}

func (n *Net) randomCmd(p profile) Cmd {
	tot := 0
	for _, v := range p {
		tot += v
	}
	x := n.rng.Intn(tot)
	op := ""
	for _, name := range opNames {
		x -= p[name]
		if p[name] > 0 && x < 0 {
			op = name
			break
		}
	}
	r := n.rng
	c := Cmd{Op: op, S: r.Intn(len(n.st)), T: r.Intn(len(n.st)), N: 1 + r.Intn(5), J: r.Intn(1000), X: r.Intn(12)}
	if c.T == c.S && len(n.st) > 1 {
		c.T = (c.S + 1) % len(n.st)
	}
	nto := r.Intn(3)
	if len(n.st) == 1 {
		nto = r.Intn(2)
	}
	for i := 0; i < nto; i++ {
		t := r.Intn(len(n.st))
		if t == c.S && len(n.st) > 1 {
			t = (t + 1) % len(n.st)
		}
		c.To = append(c.To, t)
	}
	switch op {
	case "send", "enc":
		c.W = []int{1, 1, 1, 2, 2, 3, 4, 0, -1}[r.Intn(9)]
		if r.Intn(12) == 0 {
			c.To = append(c.To, -1)
		}
	case "recv":
		c.X = []int{0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8}[r.Intn(13)]
	}
	return c
}

var opNames = []string{"gen", "send", "enc", "resend", "recv", "try", "deciph", "list", "look", "delkey", "delmsg", "comp", "keeper",
	"wipekey", "wipemsg", "save", "load", "export", "import", "xfer"}

func runNet(rec *Recorder, seed int64, dir, prof string, traces, ops int) {
	for i := 0; i < traces; i++ {
		r := newRng(seed*100003 + int64(i))
		useSeededSource(seed*77777 + int64(i))
		gs := []int{5, 5, 5, 1, 2, 3, 4, 6, 8}[r.Intn(9)]
		kl := []int{20, 20, 23, 25, 30, 40, 50, 100}[r.Intn(8)]
		if r.Intn(25) == 0 {
			kl = 350
		}
		ns := 1 + r.Intn(4)
		if prof == "network" || prof == "share" || prof == "recv" {
			ns = 2 + r.Intn(3)
		}
		n := newNet(rec, r, dir, ns, gs, kl, fmt.Sprintf("%s seed=%d trace=%d", prof, seed, i))
		n.full = true
		// Begin with something to work with.
		for s := 0; s < ns; s++ {
			if r.Intn(4) > 0 {
				to := []int{}
				for x := 0; x < ns; x++ {
					if x != s && r.Intn(3) > 0 {
						to = append(to, x)
					}
				}
				if r.Intn(4) == 0 {
					to = nil
				}
				n.do(Cmd{Op: "gen", S: s, N: 2 + r.Intn(5), To: to})
				for _, x := range to {
					if r.Intn(2) == 0 {
						n.do(Cmd{Op: "xfer", S: s, T: x})
					}
				}
			}
		}
		for x := 0; x < ops && !n.dead; x++ {
			n.do(n.randomCmd(profiles[prof]))
		}
		n.finish()
	}
}

func runScenarios(rec *Recorder, seed int64, dir string, scs []Scenario) {
	for i, sc := range scs {
		r := newRng(seed*100003 + int64(i))
		useSeededSource(seed*88888 + int64(i))
		n := newNet(rec, r, dir, sc.Stations, sc.Gs, sc.Kl, sc.Name)
		for _, c := range sc.Cmds {
			n.do(c)
			if n.dead {
				break
			}
		}
		n.finish()
	}
}
