package main

import (
	"bytes"
	"compress/gzip"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/sa6mwa/krypto431"
)

// StoreCmd is one step of a history of instances and files (MCStore).
type StoreCmd struct {
	Op string `json:"op"`
	I  int    `json:"i"` // instance, from 1
	P  int    `json:"p"` // path, from 1
	X  int    `json:"x"`
}

type inst struct {
	k    *krypto431.Krypto431
	path int
	key  []byte // nil: none
}

type Store struct {
	rec   *Recorder
	rng   *rand.Rand
	dir   string
	in    []*inst
	paths []string
	keys  [][]byte
	big   bool
	tr    Trace
	good  map[int][]byte // last bytes saved to a path, to damage
	junk  map[int]bool
	older map[int][]byte // bytes of an earlier version
	olds  map[int]int
	conts map[string]int // content by the bytes of the file
	kdf   int
	dead  bool
}

// digest is what can be done with an instance's keys and messages: what their
// methods that need the instance say.
func digest(k *krypto431.Krypto431) string {
	var b strings.Builder
	p, w := guarded(func() {
		for i := range k.Keys {
			x := &k.Keys[i]
			fmt.Fprintf(&b, "%v|%s|%d|", x.GetInstance() == k, string(x.GetCallSign()), x.KeyLength())
			if g, err := x.Groups(); err == nil && g != nil {
				b.WriteString(string(*g))
			}
			if g, err := x.GroupsBlock(); err == nil && g != nil {
				b.WriteString("|" + string(*g))
			}
		}
		for i := range k.Messages {
			x := &k.Messages[i]
			fmt.Fprintf(&b, "%v|%v|", x.GetInstance() == k, x.IsMyCall())
			if g, err := x.Groups(); err == nil && g != nil {
				b.WriteString(string(*g))
			}
			if g, err := x.GroupsBlock(); err == nil && g != nil {
				b.WriteString("|" + string(*g))
			}
		}
	})
	if p {
		return "panic " + w
	}
	h := sha256.Sum256([]byte(b.String()))
	return hex.EncodeToString(h[:8])
}

// cont interns what an instance holds.
func (s *Store) cont(k *krypto431.Krypto431) int {
	return s.rec.Str(fmt.Sprintf("%d/%s", s.rec.State(k), digest(k)))
}

// bigCont is the same for large instances, without the single items.
func (s *Store) bigCont(k *krypto431.Krypto431) int { return s.rec.Str(contentHash(k)) }

func contentHash(k *krypto431.Krypto431) string {
	h := sha256.New()
	fmt.Fprintf(h, "%q %d %d %d %d\n", string(k.CallSign), k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns)
	for i := range k.Keys {
		x := &k.Keys[i]
		fmt.Fprintf(h, "%v %v %v %v %v %s %s %v\n", x.Id, x.Runes, x.Keepers, x.Used, x.Compromised, timeString(x.Created.Time), timeString(x.Expires.Time), x.Comment)
	}
	for i := range k.Messages {
		x := &k.Messages[i]
		fmt.Fprintf(h, "%v %v %v %s %v %v %v %v %v\n", x.Id, x.Recipients, x.From, timeString(x.DTG.Time), x.KeyId, x.PlainText, x.CipherText, x.Radiogram, x.Binary)
	}
	fmt.Fprint(h, digest(k))
	return hex.EncodeToString(h.Sum(nil)[:12])
}

func (s *Store) contOf(k *krypto431.Krypto431) int {
	if s.big {
		return s.bigCont(k)
	}
	return s.cont(k)
}

func (s *Store) fileRef(p int) int {
	b, err := os.ReadFile(s.paths[p-1])
	if err != nil {
		fi, e := os.Lstat(s.paths[p-1])
		if e != nil {
			return s.rec.Str("absent")
		}
		if fi.IsDir() {
			return s.rec.Str("dir")
		}
		return s.rec.Str("unreadable")
	}
	h := sha256.Sum256(b)
	return s.rec.Str(hex.EncodeToString(h[:12]))
}

func (s *Store) emit(op string, i, p int, a, r M, panicked bool, what string) {
	if a == nil {
		a = M{}
	}
	if r == nil {
		r = M{}
	}
	a["i"], a["p"] = i, p
	r["panic"], r["what"] = panicked, what
	if _, ok := r["err"]; !ok {
		r["err"] = false
	}
	post := []int{}
	pk := []int{}
	for _, x := range s.in {
		post = append(post, s.contOf(x.k))
		pk = append(pk, s.rec.Str(x.k.GetPFKString()))
	}
	files := []int{}
	for q := range s.paths {
		files = append(files, s.fileRef(q+1))
	}
	r["files"], r["keys"] = files, pk
	s.tr.Events = append(s.tr.Events, Event{Op: op, S: i, A: a, R: r, Post: post})
	if panicked {
		s.dead = true
	}
}

func (s *Store) keyRef(k []byte) int {
	if k == nil {
		return 0
	}
	return s.rec.Str(hex.EncodeToString(k))
}

func randomKey(r *rand.Rand) []byte {
	b := make([]byte, 32)
	r.Read(b)
	return b
}

func newStore(rec *Recorder, r *rand.Rand, dir, name string, insts, paths int, big bool) *Store {
	s := &Store{rec: rec, rng: r, dir: dir, big: big, good: map[int][]byte{}, junk: map[int]bool{}, older: map[int][]byte{}, olds: map[int]int{}, conts: map[string]int{}}
	rec.Str("")
	os.MkdirAll(dir, 0755)
	for p := 1; p <= paths; p++ {
		f := filepath.Join(dir, fmt.Sprintf("p%d.gob", p))
		os.RemoveAll(f)
		s.paths = append(s.paths, f)
	}
	for i := 0; i < 4; i++ {
		s.keys = append(s.keys, randomKey(r))
	}
	s.tr = Trace{Name: name, Init: []int{}, Events: []Event{}}
	for i := 1; i <= insts; i++ {
		s.in = append(s.in, &inst{})
		s.fresh(i, 1, false, true)
	}
	for _, x := range s.in {
		s.tr.Init = append(s.tr.Init, s.contOf(x.k))
	}
	s.tr.Init = append(s.tr.Init, s.keyRef(s.keys[0]))
	for p := range s.paths {
		s.tr.Init = append(s.tr.Init, s.fileRef(p+1))
	}
	return s
}

func (s *Store) path(p int) string {
	if p == 0 {
		return ""
	}
	return s.paths[p-1]
}

// fresh makes instance i anew. quiet: part of the initial state.
func (s *Store) fresh(i, p int, ow, quiet bool) {
	key := append([]byte{}, s.keys[0]...)
	opts := []krypto431.Option{krypto431.WithPersistence(s.path(p)), krypto431.WithOverwritePersistenceIfExists(ow)}
	if s.rng.Intn(2) == 0 {
		opts = append(opts, krypto431.WithPFK(&key))
	} else {
		opts = append(opts, krypto431.WithPFKString(hex.EncodeToString(key)))
	}
	if !quiet || s.rng.Intn(2) == 0 {
		gs := 1 + s.rng.Intn(7)
		opts = append(opts, krypto431.WithGroupSize(gs), krypto431.WithKeyLength(20+s.rng.Intn(40)), krypto431.WithColumns(85+s.rng.Intn(60)),
			krypto431.WithKeyColumns(gs+s.rng.Intn(40)))
		if s.rng.Intn(3) > 0 {
			opts = append(opts, krypto431.WithCallSign(stationCalls[s.rng.Intn(4)]))
		}
	}
	k := krypto431.New(opts...)
	s.in[i-1].k, s.in[i-1].path, s.in[i-1].key = &k, p, s.keys[0]
	if quiet {
		return
	}
	s.emit("new", i, p, M{"ow": ow, "key": s.keyRef(s.keys[0])}, M{}, false, "")
}

var zones = []*time.Location{time.UTC, time.FixedZone("", 3600), time.FixedZone("", -5*3600-1800), time.FixedZone("X", 12*3600)}

func randomTime(r *rand.Rand) time.Time {
	switch r.Intn(6) {
	case 0:
		return time.Time{}
	case 1:
		return time.Now()
	}
	return time.Unix(r.Int63n(4e9), r.Int63n(1e9)).In(zones[r.Intn(len(zones))])
}

func randomRunes(r *rand.Rand, n int) []rune {
	switch r.Intn(5) {
	case 0:
		return nil
	case 1:
		return []rune{}
	}
	x := make([]rune, n)
	for i := range x {
		switch r.Intn(6) {
		case 0:
			x[i] = unsupportedRunes[r.Intn(len(unsupportedRunes))]
		case 1:
			x[i] = rune(r.Int31()) // perhaps not a code point
			if r.Intn(2) == 0 {
				x[i] = -x[i]
			}
		default:
			x[i] = pick(r, upperPlain+lowerPlain+otherPlain)
		}
	}
	return x
}

// randomContent fills an instance with keys and messages of any kind.
func randomContent(r *rand.Rand, k *krypto431.Krypto431, size int) {
	if r.Intn(3) == 0 {
		k.GroupSize = 1 + r.Intn(9)
		k.KeyLength = 20 + r.Intn(400)
		k.Columns = 85 + r.Intn(100)
		k.KeyColumns = k.GroupSize + r.Intn(60)
	}
	switch r.Intn(4) {
	case 0:
		k.CallSign = []rune(stationCalls[r.Intn(4)])
	case 1:
		k.SetCallSign([]string{"sa6mwa", "ÅÄÖ1", "x/y", "日本"}[r.Intn(4)])
	}
	k.Keys = append([]krypto431.Key{}, k.Keys...)
	k.Messages = append([]krypto431.Message{}, k.Messages...)
	if r.Intn(4) == 0 {
		k.Keys = nil
	}
	if r.Intn(4) == 0 {
		k.Messages = nil
	}
	if len(k.Keys) > 2 && r.Intn(2) == 0 {
		x := r.Intn(len(k.Keys))
		k.Keys = append(k.Keys[:x], k.Keys[x+1:]...)
	}
	for n := r.Intn(3 + size); n > 0; n-- {
		key := krypto431.Key{Id: []rune(randomLetters(r, k.GroupSize)), Runes: []rune(randomLetters(r, k.KeyLength)),
			Used: r.Intn(2) == 0, Compromised: r.Intn(2) == 0, Created: dtgOf(randomTime(r)), Expires: dtgOf(randomTime(r)), Comment: randomRunes(r, r.Intn(30))}
		for x := r.Intn(4); x > 0; x-- {
			key.Keepers = append(key.Keepers, []rune(stationCalls[r.Intn(4)]))
		}
		if r.Intn(6) == 0 {
			key.Id, key.Runes = randomRunes(r, 5), randomRunes(r, 40)
		}
		key.SetInstance(k)
		k.Keys = append(k.Keys, key)
	}
	for n := r.Intn(3 + size); n > 0; n-- {
		m := krypto431.Message{Id: []rune(randomLetters(r, 5)), From: []rune(stationCalls[r.Intn(4)]), DTG: dtgOf(randomTime(r)),
			KeyId: []rune(randomLetters(r, k.GroupSize)), PlainText: randomRunes(r, r.Intn(200)), CipherText: []rune(randomLetters(r, r.Intn(10)*k.GroupSize)), Radiogram: randomRunes(r, r.Intn(60))}
		if r.Intn(3) == 0 {
			m.Binary = make([]byte, r.Intn(50))
			r.Read(m.Binary)
		}
		for x := r.Intn(4); x > 0; x-- {
			m.Recipients = append(m.Recipients, []rune(stationCalls[r.Intn(4)]))
		}
		if r.Intn(4) == 0 {
			m.KeyId, m.CipherText = nil, nil
		}
		m.SetInstance(k)
		k.Messages = append(k.Messages, m)
	}
	if len(k.Keys) > 0 && r.Intn(2) == 0 {
		x := r.Intn(len(k.Keys))
		k.Keys[x].Used = !k.Keys[x].Used
		k.Keys[r.Intn(len(k.Keys))].Compromised = true
	}
}

// bulk makes a store that is several encrypted blocks long.
func bulk(r *rand.Rand, k *krypto431.Krypto431, n int) {
	for i := 0; i < n; i++ {
		key := krypto431.Key{Id: []rune(randomLetters(r, k.GroupSize)), Runes: []rune(randomLetters(r, 1000)), Keepers: [][]rune{[]rune("BB")}}
		key.SetInstance(k)
		k.Keys = append(k.Keys, key)
	}
}

// opens tells which of the keys open the file and what they find.
func (s *Store) opens(p int) (ks, found []int) {
	ks, found = []int{}, []int{}
	seen := map[string]bool{}
	try := append([][]byte{}, s.keys...)
	for _, x := range s.in {
		if len(x.key) == 32 {
			try = append(try, x.key)
		}
	}
	for _, key := range try {
		if seen[string(key)] {
			continue
		}
		seen[string(key)] = true
		kk := append([]byte{}, key...)
		opts := []krypto431.Option{krypto431.WithPersistence(s.paths[p-1]), krypto431.WithPFK(&kk)}
		k := krypto431.New(opts...)
		var err error
		pn, _ := guarded(func() { err = k.Load() })
		ks = append(ks, s.keyRef(key))
		switch {
		case pn:
			found = append(found, -1)
		case err != nil:
			found = append(found, 0)
		default:
			found = append(found, s.contOf(&k))
		}
	}
	return
}

func pbkdf2Reference(pw, salt []byte) []byte {
	m := hmac.New(sha256.New, pw)
	m.Write(salt)
	m.Write([]byte{0, 0, 0, 1})
	u := m.Sum(nil)
	t := append([]byte{}, u...)
	for i := 1; i < 310000; i++ {
		m.Reset()
		m.Write(u)
		u = m.Sum(u[:0])
		for j := range t {
			t[j] ^= u[j]
		}
	}
	return t
}

var badHex = []string{"", "00", "zz", strings.Repeat("ab", 31), strings.Repeat("ab", 33), strings.Repeat("ab", 31) + "a", strings.Repeat("xy", 32), " " + strings.Repeat("ab", 32)}

func (s *Store) do(c StoreCmd) {
	if s.dead {
		return
	}
	var x *inst
	if c.I > 0 {
		c.I = (c.I-1)%len(s.in) + 1
		x = s.in[c.I-1]
	}
	if c.P > 0 {
		c.P = (c.P-1)%len(s.paths) + 1
	}
	switch c.Op {
	case "new":
		if c.P == 0 {
			c.P = 1
		}
		s.fresh(c.I, c.P, c.X%2 == 1, false)
	case "change":
		p, w := guarded(func() {
			if s.rng.Intn(3) == 0 && x.k.GroupSize > 1 {
				x.k.GenerateKeys(1+s.rng.Intn(3), nil, "BB")
				if len(x.k.CallSign) > 1 && s.rng.Intn(2) == 0 {
					x.k.NewTextMessage("BB DE " + string(x.k.CallSign) + " 010000ZJAN24 = HELLO " + randomLetters(s.rng, 5) + " = K")
				}
			} else {
				randomContent(s.rng, x.k, 2)
			}
			if s.big && len(x.k.Keys) < 200 {
				bulk(s.rng, x.k, 40+s.rng.Intn(120))
			}
		})
		s.emit("change", c.I, x.path, nil, nil, p, w)
	case "path":
		x.path = c.P
		x.k.SetPersistence(s.path(c.P))
		s.emit("path", c.I, c.P, nil, nil, false, "")
	case "key":
		s.key(c, x)
	case "pw":
		s.password(c, x)
	case "save":
		var err error
		p, w := guarded(func() { err = x.k.Save() })
		r := M{"err": err != nil, "open": []int{}, "found": []int{}, "msg": fmt.Sprint(err)}
		if !p && err == nil && x.path > 0 {
			r["open"], r["found"] = s.opens(x.path)
			if b, e := os.ReadFile(s.paths[x.path-1]); e == nil {
				if g, ok := s.good[x.path]; ok && !s.junk[x.path] {
					s.older[x.path] = g
					s.olds[x.path] = s.conts[string(g)]
				}
				s.good[x.path] = b
				s.junk[x.path] = false
				s.conts[string(b)] = s.contOf(x.k)
			}
		}
		s.emit("save", c.I, x.path, nil, r, p, w)
	case "load":
		var err error
		p, w := guarded(func() { err = x.k.Load() })
		s.emit("load", c.I, x.path, nil, M{"err": err != nil, "msg": fmt.Sprint(err)}, p, w)
	case "damage":
		s.damage(c)
	case "restore":
		if c.P == 0 {
			return
		}
		if b, ok := s.good[c.P]; ok && s.junk[c.P] {
			check(os.RemoveAll(s.paths[c.P-1]))
			check(os.WriteFile(s.paths[c.P-1], b, 0600))
			s.junk[c.P] = false
			ks, found := []int{}, []int{}
			if !s.big || s.rng.Intn(8) == 0 {
				ks, found = s.opens(c.P)
			}
			s.emit("restore", 0, c.P, nil, M{"open": ks, "found": found}, false, "")
		}
	case "export":
		s.export(c, x)
	case "assert":
		s.assert(c)
	}
}

func (s *Store) key(c StoreCmd, x *inst) {
	if c.X == 0 { // no key
		k := x.k
		// The only way to have none: an option.
		krypto431.WithPFK(nil)(k)
		x.key = nil
		s.emit("key", c.I, 0, M{"key": 0, "len": 0, "bad": false}, M{}, false, "")
		return
	}
	if c.X >= 100 && c.X < 200 { // malformed
		h := badHex[c.X%len(badHex)]
		var err error
		p, w := guarded(func() { err = x.k.SetPFKFromString(h) })
		s.emit("key", c.I, 0, M{"key": s.rec.Str(h), "len": 0, "bad": true}, M{"err": err != nil}, p, w)
		return
	}
	if c.X >= 200 && c.X < 300 { // a key of the wrong length, set through the pointer
		if x.key == nil {
			return
		}
		n := []int{0, 1, 16, 31, 33, 64}[c.X%6]
		b := make([]byte, n)
		s.rng.Read(b)
		*x.k.GetPFK() = b
		x.key = b
		s.emit("key", c.I, 0, M{"key": s.rec.Str(hex.EncodeToString(b)), "len": n, "bad": false}, M{}, false, "")
		return
	}
	var b []byte
	if c.X >= 300 { // generated
		h := ""
		p, w := guarded(func() { h = krypto431.GeneratePFK() })
		d, err := hex.DecodeString(h)
		if p || err != nil || len(d) != 32 {
			s.emit("genkey", c.I, 0, M{"key": s.rec.Str(h)}, M{"err": true}, p, w)
			return
		}
		s.keys = append(s.keys, d)
		b = d
	} else {
		b = s.keys[c.X%len(s.keys)]
	}
	var err error
	h := hex.EncodeToString(b)
	if s.rng.Intn(3) == 0 {
		h = strings.ToUpper(h)
	}
	p, w := guarded(func() { err = x.k.SetPFKFromString(h) })
	x.key = b
	s.emit("key", c.I, 0, M{"key": s.keyRef(b), "len": 32, "bad": false}, M{"err": err != nil}, p, w)
}

var passwords = []string{"a", "correct horse battery staple", "Pässwörd 漢字 with spaces ", "0123456789012345678901234567890123456789012345678901234567890123456789"}

func (s *Store) password(c StoreCmd, x *inst) {
	if s.kdf <= 0 {
		return
	}
	s.kdf--
	pw := passwords[c.X%len(passwords)]
	saltKind := c.X / 7 % 5
	var salt []byte
	bad := false
	switch saltKind {
	case 0, 1:
		salt, _ = hex.DecodeString(krypto431.DefaultSalt)
		krypto431.WithSalt(&salt)(x.k)
	case 2:
		h := krypto431.GenerateSalt()
		salt, _ = hex.DecodeString(h)
		bad = len(salt) != 32
		if err := x.k.SetSaltFromString(h); err != nil {
			bad = true
		}
	case 3: // refused salts leave none or the old one
		h := badHex[s.rng.Intn(4)]
		if s.rng.Intn(2) == 0 {
			krypto431.WithSaltString(h)(x.k)
			salt = nil
		} else {
			krypto431.WithSaltString(krypto431.DefaultSalt)(x.k)
			salt, _ = hex.DecodeString(krypto431.DefaultSalt)
			if x.k.SetSaltFromString(h) == nil {
				salt = []byte("the salt was accepted")
			}
		}
	case 4:
		salt = make([]byte, 40)
		s.rng.Read(salt)
		krypto431.WithSaltString(hex.EncodeToString(salt))(x.k)
	}
	var err error
	left := []byte(pw)
	alias := left
	p, w := guarded(func() {
		switch c.X % 3 {
		case 0:
			err = x.k.SetPFKFromPassword(pw)
			alias = nil
		case 1:
			err = x.k.DerivePFKFromPassword(&left)
		case 2:
			krypto431.SetMinimumPasswordEntropyBits(0)
			err = x.k.DerivePFKFromPasswordWithValidation(&left)
			krypto431.SetMinimumPasswordEntropyBits(krypto431.DefaultMinimumPasswordEntropyBits)
		}
	})
	kept := alias != nil && string(alias) == pw && len(pw) > 8
	a := M{"key": 0, "none": salt == nil, "bad": bad, "salt": s.rec.Bytes(salt), "pw": s.rec.Str(pw)}
	if salt != nil {
		ref := pbkdf2Reference([]byte(pw), salt)
		a["key"] = s.keyRef(ref)
		x.key = ref
		s.keys = append(s.keys, ref)
	}
	s.emit("pw", c.I, 0, a, M{"err": err != nil, "kept": kept}, p, w)
}

func (s *Store) export(c StoreCmd, x *inst) {
	if c.P == 0 {
		return
	}
	key := s.keys[c.X%len(s.keys)]
	own := c.X%3 == 0
	ow := c.X%5 == 0
	kk := append([]byte{}, key...)
	cont := 0
	var err error
	p, w := guarded(func() {
		opts := []krypto431.Option{krypto431.WithPersistence(s.paths[c.P-1])}
		if !own {
			opts = append(opts, krypto431.WithPFK(&kk))
		}
		if ow {
			opts = append(opts, krypto431.WithOverwritePersistenceIfExists(true))
		}
		n := x.k.ExportKeys(func(key *krypto431.Key) bool { return len(key.Id)%2 == c.X%2 }, opts...)
		for i := range n.Keys {
			n.Keys[i].SetInstance(&n) // the instance was returned by value
		}
		cont = s.contOf(&n)
		err = n.Save()
	})
	k := key
	if own {
		k = x.key
	}
	r := M{"err": err != nil, "open": []int{}, "found": []int{}, "msg": fmt.Sprint(err)}
	if !p && err == nil {
		r["open"], r["found"] = s.opens(c.P)
		if b, e := os.ReadFile(s.paths[c.P-1]); e == nil {
			delete(s.older, c.P)
			s.good[c.P], s.junk[c.P] = b, false
			s.conts[string(b)] = cont
		}
	}
	good := k == nil || len(k) == 32
	s.emit("export", c.I, c.P, M{"key": s.keyRef(k), "good": good, "ow": ow, "cont": cont}, r, p, w)
}

func (s *Store) assert(c StoreCmd) {
	gs := []int{1, 5, 0, -1, 7, 5}[c.X%6]
	kl := []int{20, 350, 19, 21, 0, -5, 20}[c.X/6%7]
	co := []int{85, 110, 84, 86, 0, -1}[c.X/42%6]
	kc := []int{gs, gs + 1, gs - 1, 30, 0}[c.X/252%5]
	name := []string{"x", "", "x"}[c.X%3]
	k := krypto431.New(krypto431.WithGroupSize(gs), krypto431.WithKeyLength(kl), krypto431.WithColumns(co), krypto431.WithKeyColumns(kc), krypto431.WithPersistence(name))
	var err error
	p, w := guarded(func() { err = k.Assert() })
	s.emit("assert", 0, 0, M{"gs": gs, "kl": kl, "cols": co, "kcols": kc, "named": name != ""}, M{"err": err != nil}, p, w)
}

// blocks splits a store in its encrypted blocks, each with its length.
func blocks(b []byte) (bs [][]byte) {
	for len(b) >= 4 {
		n := int(binary.LittleEndian.Uint32(b)) + 4
		if n > len(b) {
			break
		}
		bs = append(bs, b[:n])
		b = b[n:]
	}
	return
}

func cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

var damageKinds = []string{"truncate", "bit", "junk", "zeros", "byte", "delete", "double", "swap", "reverse", "mix", "whole", "cross", "empty",
	"random", "gzip", "huge", "short", "zeroblock", "zerofront", "initiator", "cutblock", "dir", "missing", "front", "length", "text"}

// damaged makes damaged bytes from good ones.
func damaged(r *rand.Rand, kind string, b, older []byte, at int) (d []byte) {
	bs := blocks(b)
	c := func(x ...[]byte) []byte { return cat(x...) }
	switch kind {
	case "truncate":
		return c(b[:at%len(b)])
	case "bit":
		d = c(b)
		d[at/8%len(d)] ^= 1 << (at % 8)
		return d
	case "junk":
		x := make([]byte, 1+at%200)
		r.Read(x)
		return c(b, x)
	case "zeros":
		return c(b, make([]byte, 1+at%3))
	case "byte":
		d = c(b)
		i := at % len(d)
		return c(d[:i], []byte{byte(r.Intn(256))}, d[i:])
	case "delete":
		i := at % len(bs)
		return c(append(append([][]byte{}, bs[:i]...), bs[i+1:]...)...)
	case "double":
		i := at % len(bs)
		return c(c(bs[:i+1]...), c(bs[i:]...))
	case "swap":
		x := append([][]byte{}, bs...)
		i, j := at%len(x), at/7%len(x)
		x[i], x[j] = x[j], x[i]
		return c(x...)
	case "reverse":
		x := [][]byte{}
		for i := len(bs) - 1; i >= 0; i-- {
			x = append(x, bs[i])
		}
		return c(x...)
	case "mix":
		o := blocks(older)
		if len(o) == 0 {
			o = bs
		}
		i := at % (len(bs) + 1)
		if at%2 == 0 && i < len(o) {
			return c(c(bs[:i]...), c(o[i:]...))
		}
		return c(c(bs[:i]...), o[at/3%len(o)])
	case "whole":
		return c(b, b)
	case "cross":
		return c(b, older)
	case "empty":
		return []byte{}
	case "random":
		d = make([]byte, at%5000)
		r.Read(d)
		return d
	case "gzip":
		var w bytes.Buffer
		z := gzip.NewWriter(&w)
		z.Write(b)
		z.Close()
		return w.Bytes()
	case "huge":
		d = c(b)
		i := 0
		for j := at % len(bs); j > 0; j-- {
			i += len(bs[j-1])
		}
		binary.LittleEndian.PutUint32(d[i:], []uint32{0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, 70000, 100000}[at%5])
		return d
	case "short":
		n := at % 24
		x := make([]byte, 4+n)
		binary.LittleEndian.PutUint32(x, uint32(n))
		return c(x, b)
	case "zeroblock":
		return c(b, []byte{0, 0, 0, 0})
	case "zerofront":
		return c([]byte{0, 0, 0, 0}, b)
	case "initiator":
		d = c(b)
		if len(d) > 4 {
			d[4] ^= 0x80
		}
		return d
	case "cutblock":
		i := at % len(bs)
		x := c(bs[i])
		n := len(x) - 4 - 1 - at%20
		if n < 0 {
			n = 0
		}
		binary.LittleEndian.PutUint32(x, uint32(n))
		return c(c(bs[:i]...), x[:4+n], c(bs[i+1:]...))
	case "front":
		return c([]byte{byte(at)}, b)
	case "length":
		d = c(b)
		i := 0
		for j := at % len(bs); j > 0; j-- {
			i += len(bs[j-1])
		}
		n := binary.LittleEndian.Uint32(d[i:])
		binary.LittleEndian.PutUint32(d[i:], n+uint32(at%5)-2)
		if at%5 == 2 {
			binary.LittleEndian.PutUint32(d[i:], 0)
		}
		return d
	case "text":
		return []byte("this is not a store\n")
	}
	return nil
}

func (s *Store) damage(c StoreCmd) {
	p := c.P
	b, ok := s.good[p]
	if !ok || s.junk[p] || p == 0 {
		return
	}
	kind := damageKinds[c.X%len(damageKinds)]
	allowed := []int{}
	what := "junk"
	switch kind {
	case "dir":
		check(os.Remove(s.paths[p-1]))
		check(os.Mkdir(s.paths[p-1], 0755))
		what = "dir"
	case "missing":
		check(os.Remove(s.paths[p-1]))
		what = "absent"
	default:
		d := damaged(s.rng, kind, b, s.older[p], c.X/len(damageKinds))
		if bytes.Equal(d, b) {
			return
		}
		// The complete older version is not damaged.
		if o, ok := s.older[p]; ok && bytes.Equal(d, o) {
			allowed = append(allowed, s.conts[string(o)])
		}
		check(os.WriteFile(s.paths[p-1], d, 0600))
	}
	s.junk[p] = true
	s.emit("damage", 0, p, M{"kind": kind, "what": what, "ok": allowed}, nil, false, "")
}

func (s *Store) finish() { s.rec.Traces = append(s.rec.Traces, s.tr) }

// runStore: random histories.
func runStore(rec *Recorder, seed int64, dir string, n, ops int, prof string) {
	r := newRng(seed)
	useSeededSource(seed)
	for t := 0; t < n; t++ {
		big := prof == "big" || (prof == "damage" && t%4 == 3)
		s := newStore(rec, r, filepath.Join(dir, fmt.Sprintf("s%d", t)), prof, 3, 3, big)
		s.kdf = 2
		if prof == "rekey" {
			s.kdf = 6
		}
		for o := 0; o < ops && !s.dead; o++ {
			s.do(s.randomCmd(prof))
		}
		s.finish()
		os.RemoveAll(s.dir)
	}
}

func (s *Store) randomCmd(prof string) StoreCmd {
	r := s.rng
	i, p := 1+r.Intn(len(s.in)), 1+r.Intn(len(s.paths))
	w := r.Intn(100)
	x := r.Intn(1 << 20)
	pickop := func(ws map[string]int, order []string) string {
		for _, o := range order {
			if w < ws[o] {
				return o
			}
			w -= ws[o]
		}
		return "change"
	}
	order := []string{"new", "change", "path", "key", "pw", "save", "load", "damage", "restore", "export", "assert"}
	ws := map[string]int{"new": 6, "change": 14, "path": 8, "key": 6, "pw": 1, "save": 26, "load": 20, "damage": 6, "restore": 4, "export": 4, "assert": 5}
	switch prof {
	case "damage":
		ws = map[string]int{"new": 1, "change": 6, "path": 2, "key": 4, "save": 12, "load": 35, "damage": 20, "restore": 20}
	case "guard":
		ws = map[string]int{"new": 14, "change": 8, "path": 12, "key": 8, "save": 34, "load": 10, "damage": 2, "restore": 1, "export": 6, "assert": 5}
	case "rekey":
		ws = map[string]int{"new": 4, "change": 8, "path": 6, "key": 22, "pw": 8, "save": 28, "load": 22, "export": 2}
	}
	op := pickop(ws, order)
	c := StoreCmd{Op: op, I: i, P: p, X: x}
	switch op {
	case "path":
		if r.Intn(8) == 0 {
			c.P = 0
		}
	case "key":
		switch r.Intn(8) {
		case 0:
			c.X = 0
		case 1:
			c.X = 100 + r.Intn(100)
		case 2:
			c.X = 200 + r.Intn(100)
		case 3:
			c.X = 300
		default:
			c.X = 1 + r.Intn(len(s.keys))
		}
	}
	return c
}

// runStoreScenarios replays behaviours of MCStore.
func runStoreScenarios(rec *Recorder, seed int64, dir string, scs [][]StoreCmd) {
	r := newRng(seed)
	useSeededSource(seed)
	for t, cmds := range scs {
		s := newStore(rec, r, filepath.Join(dir, fmt.Sprintf("s%d", t)), fmt.Sprintf("behaviour %d of MCStore", t), 3, 3, false)
		for _, c := range cmds {
			if c.Op == "damage" {
				c.X = r.Intn(1 << 20)
				for k := damageKinds[c.X%len(damageKinds)]; k == "dir" || k == "missing"; k = damageKinds[c.X%len(damageKinds)] {
					c.X++
				}
			}
			s.do(c)
		}
		s.finish()
		os.RemoveAll(s.dir)
	}
}

// runDamage damages one store in every way of a systematic enumeration: every
// truncation, every bit (or every stride-th).
func runDamage(rec *Recorder, seed int64, dir string, stride int, part, parts int) {
	r := newRng(seed)
	useSeededSource(seed)
	for round, big := range []bool{false, true} {
		s := newStore(rec, r, filepath.Join(dir, fmt.Sprintf("d%d", round)), "systematic damage", 2, 1, big)
		two := func() {
			s.do(StoreCmd{Op: "new", I: 1, P: 1, X: 1})
			s.do(StoreCmd{Op: "change", I: 1})
			s.do(StoreCmd{Op: "save", I: 1})
			s.do(StoreCmd{Op: "change", I: 1})
			s.do(StoreCmd{Op: "save", I: 1})
			s.do(StoreCmd{Op: "change", I: 2})
		}
		two()
		size := len(s.good[1])
		nb := len(blocks(s.good[1]))
		try := func(kind string, at int) {
			for x, k := range damageKinds {
				if k == kind {
					s.do(StoreCmd{Op: "damage", P: 1, X: at*len(damageKinds) + x})
				}
			}
			if s.junk[1] {
				s.do(StoreCmd{Op: "load", I: 2})
				s.do(StoreCmd{Op: "restore", P: 1})
			}
			if len(s.tr.Events) > 900 && !s.dead {
				s.finish()
				s = newStore(rec, r, s.dir, "systematic damage", 2, 1, big)
				two()
			}
		}
		st := stride
		if big {
			st = stride * (1 + size/700)
		}
		off := part + int(seed%97)
		for at := off % st; at < size; at += st * parts / 1 {
			try("truncate", at)
		}
		for at := off % (8 * st); at < size*8; at += 8 * st * parts {
			try("bit", at+r.Intn(8))
		}
		// The ends of the blocks exactly.
		pos := 0
		for i, b := range blocks(s.good[1]) {
			pos += len(b)
			if i >= 3 && i < nb-2 && r.Intn(nb) > 2 {
				continue
			}
			for _, d := range []int{-25, -24, -17, -16, -5, -4, -1, 0, 1, 4} {
				if pos+d > 0 && pos+d < size {
					try("truncate", pos+d)
				}
			}
		}
		for _, k := range damageKinds[2:] {
			for j := 0; j < 10; j++ {
				at := j + part*31
				if j > 4 {
					at = r.Intn(nb * 20)
				}
				try(k, at)
			}
		}
		s.finish()
		os.RemoveAll(s.dir)
	}
}
