package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/sa6mwa/krypto431"
)

// childExec limits the size of files and runs a program.
func childExec() {
	n, err := strconv.ParseUint(os.Args[2], 10, 64)
	check(err)
	signal.Ignore(syscall.SIGXFSZ)
	check(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}))
	check(syscall.Exec(os.Args[3], os.Args[3:], os.Environ()))
}

// The files of a trace.
const (
	fMain = iota
	fOther
	fNew
	fSlots
)

type auth struct{ key, pw, salt string } // key in hex; pw if it is derived

type cli struct {
	rec   *Recorder
	rng   *rand.Rand
	bin   string
	dir   string
	tr    Trace
	auth  [fSlots]auth
	seen  []string     // keys seen
	cache map[string]M // what the bytes of a file are
	kdf   map[string]string
	gen   []int // generated keys and salts
	files []M
	fault fault
	term  bool   // run it on a terminal
	ask   bool   // mostly stores with passwords
	steps []step // what it asks and what is answered
	late  bool   // it waited for an answer to something unforeseen
}

type fault struct {
	name    string
	limit   int // of the size of files, 0 none
	strace  []string
	uid     int
	replace string // what the store is replaced with while the program waits for its input
}

var peers = []string{"BB", "SA6MWA", "A1/P"}

const home = "HOME"

func newCli(rec *Recorder, rng *rand.Rand, bin, dir, name string) *cli {
	check(os.MkdirAll(dir, 0755))
	c := &cli{rec: rec, rng: rng, bin: bin, dir: dir, cache: map[string]M{}, kdf: map[string]string{}}
	rec.Str("")
	c.tr = Trace{Name: name, Init: []int{}, Events: []Event{}}
	return c
}

func (c *cli) path(f int) string {
	return filepath.Join(c.dir, []string{"s.gob", "b.gob", "x.gob"}[f])
}

func (c *cli) finish() {
	if len(c.tr.Events) > 1 {
		c.rec.Traces = append(c.rec.Traces, c.tr)
	}
	os.Chmod(c.dir, 0755)
	os.RemoveAll(c.dir)
}

func (c *cli) keyRef(h string) int {
	if h == "" {
		return 0
	}
	for _, s := range c.seen {
		if s == h {
			return c.rec.Str(h)
		}
	}
	c.seen = append(c.seen, h)
	return c.rec.Str(h)
}

func (c *cli) derive(pw, salt string) string {
	if salt == "" {
		salt = krypto431.DefaultSalt
	}
	k := pw + "|" + salt
	if h, ok := c.kdf[k]; ok {
		return h
	}
	s, err := hex.DecodeString(salt)
	check(err)
	h := hex.EncodeToString(pbkdf2Reference([]byte(pw), s))
	c.kdf[k] = h
	return h
}

// look tells what every file is.
func (c *cli) look() []M {
	out := []M{}
	for f := 0; f < fSlots; f++ {
		fi, err := os.Lstat(c.path(f))
		if err != nil {
			out = append(out, M{"k": "absent", "st": 0, "keys": []int{}, "by": 0})
			continue
		}
		if fi.IsDir() {
			out = append(out, M{"k": "dir", "st": 0, "keys": []int{}, "by": 0})
			continue
		}
		b, err := os.ReadFile(c.path(f))
		check(err)
		h := fmt.Sprintf("%x", sha256.Sum256(b))
		ck := fmt.Sprintf("%s%d", h, len(c.seen))
		m, ok := c.cache[ck]
		if !ok {
			m = M{"k": "junk", "st": 0, "keys": []int{}, "by": c.rec.Str(h)}
			keys := []int{}
			for _, s := range c.seen {
				if k := c.load(f, s); k != nil {
					keys = append(keys, c.rec.Str(s))
					m["k"], m["st"] = "store", c.rec.State(k)
				}
			}
			m["keys"] = keys
			c.cache[ck] = m
		}
		out = append(out, m)
	}
	c.files = out
	return out
}

func (c *cli) load(f int, key string) *krypto431.Krypto431 {
	k := krypto431.New(krypto431.WithPersistence(c.path(f)), krypto431.WithPFKString(key))
	var err error
	p, _ := guarded(func() { err = k.Load() })
	if p || err != nil {
		return nil
	}
	return &k
}

// peek is the content of a file.
func (c *cli) peek(f int) *krypto431.Krypto431 { return c.load(f, c.auth[f].key) }

func (c *cli) emit(op string, a, r M) {
	if a == nil {
		a = M{}
	}
	if c.late { // not judged
		c.late, op, a, r = false, "setup", M{}, M{}
	}
	r["files"] = c.look()
	c.tr.Events = append(c.tr.Events, Event{Op: op, S: 1, A: a, R: r, Post: []int{}})
}

func (c *cli) newAuth(pwToo bool) auth {
	if !pwToo {
		return auth{key: hex.EncodeToString(randomKey(c.rng))}
	}
	a := auth{pw: []string{"correct horse battery", "Ett långt lösenord 1!"}[c.rng.Intn(2)]}
	if c.rng.Intn(2) == 0 {
		a.salt = strings.Repeat([]string{"ab", "0f"}[c.rng.Intn(2)], 32)
	}
	a.key = c.derive(a.pw, a.salt)
	return a
}

// setup writes a store with keys of all kinds, and messages.
func (c *cli) setup(f int, a auth, call string, nk, nm int) {
	r := c.rng
	gs := []int{5, 5, 5, 6, 8, 7}[r.Intn(6)]
	if f == fOther {
		if k := c.peek(fMain); k != nil && r.Intn(6) > 0 {
			gs = k.GroupSize
		}
	}
	os.RemoveAll(c.path(f))
	c.auth[f] = a
	c.keyRef(a.key)
	k := krypto431.New(krypto431.WithPersistence(c.path(f)), krypto431.WithPFKString(a.key), krypto431.WithGroupSize(gs),
		krypto431.WithKeyLength(30+r.Intn(50)), krypto431.WithKeyColumns(40), krypto431.WithColumns(110+r.Intn(2)), krypto431.WithCallSign(call))
	now := time.Now()
	hours := []int{-400 * 24, -48, -2, 2, 22, 26, 29*24 + 20, 30*24 + 2, 400 * 24}
	for i := 0; i < nk; i++ {
		var keepers []string
		for _, p := range append([]string{home}, peers...) {
			if p != call && r.Intn(2) == 0 {
				keepers = append(keepers, p)
			}
		}
		if r.Intn(4) == 0 {
			keepers = nil
		}
		k.NewKey(now.Add(time.Duration(hours[r.Intn(len(hours))])*time.Hour).Truncate(time.Minute), keepers...)
	}
	if f == fOther && r.Intn(3) > 0 { // some that main has already
		if m := c.peek(fMain); m != nil {
			for i := range m.Keys {
				if r.Intn(3) == 0 && len(m.Keys[i].Id) == gs && len(k.Keys) > 0 {
					j := r.Intn(len(k.Keys))
					if !k.ContainsKeyId(&m.Keys[i].Id) {
						k.Keys[j].Id = append([]rune{}, m.Keys[i].Id...)
					}
				}
			}
		}
	}
	for i := range k.Keys {
		k.Keys[i].SetInstance(&k)
		k.Keys[i].Created = dtgOf(now.Add(-time.Duration(r.Intn(1000)) * time.Hour).Truncate(time.Minute))
		k.Keys[i].Comment = []rune([]string{"", "", "paper copy", "x"}[r.Intn(4)])
	}
	for i := 0; i < nm; i++ {
		switch r.Intn(4) {
		case 0, 1: // sent, if there are keys
			to := []string{}
			for _, p := range peers {
				if r.Intn(2) == 0 {
					to = append(to, p)
				}
			}
			guarded(func() {
				k.NewTextMessage(fmt.Sprintf("%s DE %s %02d1200 = %s = K", strings.Join(to, " "), call, 1+r.Intn(28), c.text(1+r.Intn(60))))
			})
		case 2: // received in clear
			guarded(func() {
				k.NewTextMessage(fmt.Sprintf("%s %s DE %s %02d1200 = %s = K", call, peers[r.Intn(3)], peers[r.Intn(3)], 1+r.Intn(28), c.text(1+r.Intn(60))))
			})
		case 3: // received before the key
			t, from := c.traffic(&k, r.Intn(3) > 0)
			if t == "" {
				continue
			}
			var m krypto431.Message
			m.SetInstance(&k)
			m.Id = k.NewUniqueMessageId()
			m.Recipients, m.From = [][]rune{[]rune(call)}, []rune(from)
			m.DTG = dtgOf(now.Truncate(time.Minute))
			m.PlainText = []rune(t)
			k.Messages = append(k.Messages, m)
		}
	}
	for i := range k.Keys {
		if r.Intn(3) == 0 {
			k.Keys[i].Used = true
		}
		k.Keys[i].Compromised = r.Intn(4) == 0
	}
	check(k.Save())
}

func (c *cli) text(n int) string { return strings.ToLower(string(radiogramText(c.rng, n))) }

// traffic is what a peer would send with a key of k (good), or cannot be read.
func (c *cli) traffic(k *krypto431.Krypto431, good bool) (text, from string) {
	from = peers[c.rng.Intn(3)]
	if len(k.Keys) == 0 {
		return "", from
	}
	p := krypto431.New(krypto431.WithPersistence("none.gob"), krypto431.WithPFK(pfk()), krypto431.WithGroupSize(k.GroupSize), krypto431.WithKeyLength(k.KeyLength), krypto431.WithCallSign(from))
	n := 1 + c.rng.Intn(2)
	for i := 0; i < n; i++ {
		o := k.Keys[c.rng.Intn(len(k.Keys))]
		if p.ContainsKeyId(&o.Id) {
			continue
		}
		x := krypto431.Key{Id: append([]rune{}, o.Id...), Runes: append([]rune{}, o.Runes...), Keepers: [][]rune{[]rune(home)}, Expires: o.Expires}
		x.SetInstance(&p)
		p.Keys = append(p.Keys, x)
	}
	want := 1 + c.rng.Intn(30)
	if n > 1 {
		want = len(k.Keys[0].Runes)
	}
	m, err := p.NewTextMessage(fmt.Sprintf("%s DE %s 011200 = %s = K", home, from, c.text(want)))
	if err != nil || len(m.CipherText) == 0 {
		return "", from
	}
	ct := []rune(string(m.CipherText))
	if !good {
		switch c.rng.Intn(3) {
		case 0:
			for i := range ct {
				ct[i] = rune('A' + c.rng.Intn(26))
			}
		case 1:
			ct[c.rng.Intn(len(ct))] = '7'
		case 2:
			return string(randLetters(c.rng, k.GroupSize)) + " " + groupsOf(string(ct), k.GroupSize), from
		}
	}
	return string(m.KeyId) + " " + groupsOf(string(ct), k.GroupSize), from
}

// ---------------------------------------------------------------------------
// Running the program.

func (c *cli) one(options ...string) string { return options[c.rng.Intn(len(options))] }

// open is how the program is told the file and its key: arguments and
// environment.
func (c *cli) open(f int) (args, env []string) { return c.openAs(c.path(f), c.auth[f]) }

func (c *cli) openAs(path string, a auth) (args, env []string) {
	if c.rng.Intn(4) == 0 {
		env = append(env, "KRYPTO_FILE="+path)
	} else {
		args = append(args, c.one("-f", "--file"), path)
	}
	e := c.rng.Intn(4) == 0
	add := func(flag, name, v string) {
		if e {
			env = append(env, name+"="+v)
		} else {
			args = append(args, flag, v)
		}
	}
	if a.pw != "" && c.rng.Intn(3) > 0 {
		if a.salt != "" {
			add(c.one("-S", "--salt"), "KRYPTO_SALT", a.salt)
		}
		if c.term && c.rng.Intn(3) > 0 { // it asks
			c.asksAtEnd(krypto431.DecryptionPrompt, a.pw+"\n")
			return
		}
		add(c.one("-P", "--password"), "KRYPTO_PASSWORD", a.pw)
	} else {
		add(c.one("-K", "--pfk"), "KRYPTO_PFK", a.key)
	}
	return
}

type result struct {
	res, out, err string
}

func (c *cli) cmd(args, env []string) *exec.Cmd {
	argv := append([]string{c.bin}, args...)
	if c.fault.limit > 0 {
		self, err := os.Executable()
		check(err)
		argv = append([]string{self, "child-exec", strconv.Itoa(c.fault.limit)}, argv...)
	}
	argv = append(append([]string{}, c.fault.strace...), argv...)
	x := exec.Command(argv[0], argv[1:]...)
	x.Dir = c.dir
	x.Env = append([]string{"HOME=" + c.dir, "TZ=UTC", "PATH=" + os.Getenv("PATH"), "GOMAXPROCS=2", "GOTRACEBACK=none"}, env...)
	if c.fault.uid > 0 {
		x.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uint32(c.fault.uid), Gid: uint32(c.fault.uid)}}
	}
	return x
}

func (c *cli) verdict(x *exec.Cmd, out, err string) result {
	st := x.ProcessState.Sys().(syscall.WaitStatus)
	res := "died"
	switch {
	case st.Exited() && st.ExitStatus() == 0:
		res = "ok"
	case st.Exited() && st.ExitStatus() == 1 && !strings.Contains(err, "goroutine ") && !strings.Contains(err, "panic: "):
		res = "fail"
	}
	return result{res, out, err}
}

// run runs the program with nothing but stdin as input.
func (c *cli) run(args, env []string, stdin string) result {
	if c.term {
		return c.runScript(args, env, stdin)
	}
	x := c.cmd(args, env)
	var out, e bytes.Buffer
	x.Stdout, x.Stderr = &out, &e
	pr, pw, err := os.Pipe()
	check(err)
	x.Stdin = pr
	check(x.Start())
	done := make(chan struct{})
	go func() {
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			syscall.Kill(x.Process.Pid, syscall.SIGKILL)
		}
	}()
	moved := false
	keep := c.path(fMain) + ".keep"
	if c.fault.replace != "" && stdin != "" {
		// Once it reads its input it has loaded the store.
		pw.WriteString(stdin[:1])
		for i := 0; i < 3000; i++ {
			var n int32
			syscall.Syscall(syscall.SYS_IOCTL, pr.Fd(), 0x541B, uintptr(unsafe.Pointer(&n)))
			if n == 0 {
				break
			}
			time.Sleep(time.Millisecond)
		}
		stdin = stdin[1:]
		moved = true
		switch c.fault.replace {
		case "dir":
			check(os.Rename(c.path(fMain), keep))
			check(os.MkdirAll(filepath.Join(c.path(fMain), "sub"), 0755))
		case "gone":
			check(os.Rename(c.dir, c.dir+".keep"))
		}
	}
	go func() { pw.WriteString(stdin); pw.Close() }()
	x.Wait()
	close(done)
	pr.Close()
	if moved {
		switch c.fault.replace {
		case "dir":
			if fi, err := os.Lstat(c.path(fMain)); err == nil && fi.IsDir() {
				os.RemoveAll(c.path(fMain))
			}
			if _, err := os.Lstat(c.path(fMain)); err != nil {
				check(os.Rename(keep, c.path(fMain)))
			}
		case "gone":
			os.RemoveAll(c.dir)
			check(os.Rename(c.dir+".keep", c.dir))
		}
	}
	return c.verdict(x, out.String(), e.String())
}

// talk is an expected prompt and the answer to it, any number of times for
// prompts that differ.
type talk struct {
	expect *regexp.Regexp
	answer string
}

// runTerminal runs the program on a terminal.
func (c *cli) runTerminal(args, env []string, talks []talk) (result, bool) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return result{}, false
	}
	defer m.Close()
	var n, z int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x40045431, uintptr(unsafe.Pointer(&z))); e != 0 {
		return result{}, false
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x80045430, uintptr(unsafe.Pointer(&n))); e != 0 {
		return result{}, false
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return result{}, false
	}
	ws := [4]uint16{60, 400, 0, 0}
	syscall.Syscall(syscall.SYS_IOCTL, s.Fd(), 0x5414, uintptr(unsafe.Pointer(&ws)))
	x := c.cmd(args, append(env, "TERM=xterm"))
	x.Stdin, x.Stdout, x.Stderr = s, s, s
	x.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	check(x.Start())
	s.Close()
	all := ""
	got := make(chan []byte)
	go func() {
		defer close(got)
		for {
			b := make([]byte, 4096)
			n, err := m.Read(b)
			if n > 0 {
				got <- b[:n]
			}
			if err != nil {
				return
			}
		}
	}()
	pos := 0
	answered := map[string]bool{}
	end := time.After(40 * time.Second)
	late := false
	quiet := time.NewTimer(time.Hour)
reading:
	for {
		select {
		case b, ok := <-got:
			if !ok {
				break reading
			}
			all += string(b)
			for strings.Contains(all[pos:], "\x1b[6n") { // where is the cursor
				pos += strings.Index(all[pos:], "\x1b[6n") + 4
				m.WriteString("\x1b[1;1R")
			}
			quiet.Reset(80 * time.Millisecond)
		case <-quiet.C: // it waits for an answer
			for _, t := range talks {
				for _, w := range t.expect.FindAllString(all, -1) {
					if !answered[w] {
						answered[w] = true
						m.WriteString(t.answer)
					}
				}
			}
			quiet.Reset(300 * time.Millisecond)
		case <-end:
			late = true
			syscall.Kill(x.Process.Pid, syscall.SIGKILL)
			end = nil
		}
	}
	x.Wait()
	if late {
		return result{}, false
	}
	return c.verdict(x, all, all), true
}

// ---------------------------------------------------------------------------
// Selections.

// sel is a selection made by the specification (MCSelect).
type sel struct {
	All     bool     `json:"all"`
	Ids     int      `json:"ids"`
	Keepers []string `json:"keepers"`
	Or      bool     `json:"or"`
	Used    bool     `json:"used"`
	Unused  bool     `json:"unused"`
	Comp    bool     `json:"comp"`
	Expired bool     `json:"expired"`
	Invalid bool     `json:"invalid"`
	Valid   int      `json:"valid"`
}

func (c *cli) randomSel() sel {
	r := c.rng
	s := sel{Valid: -1}
	few := func(n int) bool { return r.Intn(n) == 0 }
	s.All, s.Or, s.Used, s.Unused, s.Comp, s.Expired, s.Invalid = few(12), few(2), few(5), few(4), few(6), few(6), few(5)
	if few(4) {
		s.Ids = 1 + r.Intn(3)
	}
	if few(2) {
		s.Keepers = [][]string{{"AA"}, {"BB"}, {"CC"}, {"AA", "BB"}, {"AA", "CC"}, {"AA", "BB", "CC"}, {"X"}, {"AA", "X"}}[r.Intn(8)]
	}
	if few(4) {
		s.Valid = []int{0, 1, 30, 500}[r.Intn(4)]
	}
	return s
}

func (c *cli) flip(s string) string {
	switch c.rng.Intn(3) {
	case 0:
		return strings.ToLower(s)
	case 1:
		b := []rune(s)
		for i := range b {
			if c.rng.Intn(2) == 0 {
				b[i] = []rune(strings.ToLower(string(b[i])))[0]
			}
		}
		return string(b)
	}
	return s
}

// list writes values of a flag that may be repeated.
func (c *cli) list(flags []string, vals []string, fold bool) (args []string) {
	if len(vals) == 0 {
		return
	}
	v := append([]string{}, vals...)
	if fold {
		for i := range v {
			v[i] = c.flip(v[i])
		}
	}
	flag := flags[c.rng.Intn(len(flags))]
	switch c.rng.Intn(4) {
	case 0:
		return []string{flag, strings.Join(v, ",")}
	case 1:
		return []string{flag, strings.Join(v, " ")}
	case 2:
		return []string{flag, " " + strings.Join(v, ", ") + " "}
	}
	for _, x := range v {
		args = append(args, flag, x)
	}
	return
}

func (s sel) calls() (calls []string) {
	for _, x := range s.Keepers {
		switch x {
		case "AA":
			calls = append(calls, peers[0])
		case "BB":
			calls = append(calls, peers[1])
		case "CC":
			calls = append(calls, peers[2])
		default:
			calls = append(calls, "QQ9")
		}
	}
	return
}

func (c *cli) someIds(n int, have [][]rune, unknown string) (ids []string) {
	for i := 0; i < n; i++ {
		if len(have) == 0 || c.rng.Intn(6) == 0 {
			ids = append(ids, unknown)
			continue
		}
		x := string(have[c.rng.Intn(len(have))])
		ids = append(ids, x)
		if c.rng.Intn(8) == 0 && len(x) > 1 { // not an id
			ids[len(ids)-1] = x[:len(x)-1]
		}
	}
	return
}

// keySel makes the arguments and the record of a selection of keys.
func (c *cli) keySel(s sel, k *krypto431.Krypto431) (args []string, o M) {
	var have [][]rune
	if k != nil {
		for i := range k.Keys {
			have = append(have, k.Keys[i].Id)
		}
	}
	ids := []string{}
	if !s.All {
		ids = c.someIds(s.Ids, have, "ZZZZZ")
	}
	calls := s.calls()
	b := func(v bool, names ...string) {
		if v {
			args = append(args, c.one(names...))
		}
	}
	b(s.All, "--all")
	b(s.Or, "--or")
	b(s.Used, "-u", "--used")
	b(s.Unused, "-U", "--unused")
	b(s.Comp, "-C", "--compromised")
	b(s.Expired, "--expired")
	b(s.Invalid, "--invalid")
	if s.Valid >= 0 {
		args = append(args, "--valid", strconv.Itoa(s.Valid))
	}
	args = append(args, c.list([]string{"-i", "--id"}, ids, true)...)
	args = append(args, c.list([]string{"-k", "--keepers"}, calls, true)...)
	return args, M{"all": s.All, "or": s.Or, "used": s.Used, "unused": s.Unused, "comp": s.Comp, "expired": s.Expired, "invalid": s.Invalid,
		"valid": s.Valid, "ids": c.rec.StrList(ids), "keepers": c.rec.StrList(calls)}
}

func (c *cli) msgSel(s sel, k *krypto431.Krypto431) (args []string, o M) {
	var have [][]rune
	if k != nil {
		for i := range k.Messages {
			have = append(have, k.Messages[i].Id)
		}
	}
	ids := []string{}
	if !s.All {
		ids = c.someIds(s.Ids, have, "ZZZZ")
		for i := range ids {
			if c.rng.Intn(8) == 0 { // message ids are case-sensitive
				ids[i] = c.flip(ids[i])
			}
		}
	}
	calls := s.calls()
	from := []string{}
	if s.Used || s.Unused {
		for _, p := range append([]string{home}, peers...) {
			if c.rng.Intn(3) == 0 {
				from = append(from, p)
			}
		}
	}
	if s.All {
		args = append(args, "--all")
	}
	if s.Or {
		args = append(args, "--or")
	}
	args = append(args, c.list([]string{"-i", "--id"}, ids, false)...)
	args = append(args, c.list([]string{"-t", "--to"}, calls, true)...)
	args = append(args, c.list([]string{"-f", "--from"}, from, true)...)
	return args, M{"all": s.All, "or": s.Or, "ids": c.rec.StrList(ids), "to": c.rec.StrList(calls), "from": c.rec.StrList(from)}
}

// rows are the lines after the header, and their first words.
func (c *cli) rows(out string, r M) {
	rows, lines, head, sum := []int{}, []int{}, 0, M{"known": false}
	for _, l := range strings.Split(out, "\n") {
		w := strings.Fields(l)
		if head != 0 && len(w) > 0 {
			rows, lines = append(rows, c.rec.Str(w[0])), append(lines, c.rec.Str(strings.TrimRight(l, "\r")))
		}
		if len(w) > 1 && w[0] == "ID" && (w[1] == "KEEPERS" || w[1] == "DTG") {
			head = c.rec.Str(strings.TrimRight(l, "\r"))
		}
		if len(w) == 3 && head == 0 {
			keeper, ok1 := strings.CutPrefix(w[0], "KEEPER=")
			total, ok2 := strings.CutPrefix(w[1], "TOTALKEYS=")
			msgs, ok3 := strings.CutPrefix(w[2], "MESSAGES=")
			nk, err1 := strconv.Atoi(total)
			nm, err2 := strconv.Atoi(msgs)
			if ok1 && ok2 && ok3 && err1 == nil && err2 == nil {
				sum = M{"known": true, "keeper": c.rec.Str(keeper), "keys": nk, "msgs": nm}
			}
		}
	}
	r["sum"] = sum
	r["rows"], r["head"], r["ls"] = rows, head, lines
}

func (c *cli) shuffle(a []string) []string { // keep flags with their values
	return a
}

// ---------------------------------------------------------------------------
// Commands.

func (c *cli) base(f int) M {
	name := c.fault.name
	if name == "" {
		name = "none"
	}
	return M{"f": f + 1, "key": c.keyRef(c.auth[f].key), "fault": name, "now": minutes(time.Now())}
}

func (c *cli) res(x result) M {
	e := x.err
	if len(e) > 400 {
		e = e[len(e)-400:]
	}
	return M{"res": x.res, "stderr": e}
}

var reCount = regexp.MustCompile(`(?:Deleted|Imported|Exported|Generated) (\d+) `)

func count(s string) int {
	if m := reCount.FindStringSubmatch(s); m != nil {
		n, _ := strconv.Atoi(m[1])
		return n
	}
	return 0
}

func (c *cli) keysList(s sel) {
	args, env := c.open(fMain)
	k := c.peek(fMain)
	sa, o := c.keySel(s, k)
	args = append(args, c.one("keys", "k"))
	if c.rng.Intn(2) == 0 {
		args = append(append(args, c.one("-l", "--list")), sa...)
	} else {
		args = append(append(args, sa...), c.one("-l", "--list"))
	}
	a := c.base(fMain)
	a["o"], a["crem"] = o, created(k)
	x := c.run(args, env, "")
	r := c.res(x)
	c.rows(x.out, r)
	c.emit("klist", a, r)
}

func created(k *krypto431.Krypto431) []int {
	crem := []int{}
	if k != nil {
		for i := range k.Keys {
			crem = append(crem, minutes(k.Keys[i].Created.Time))
		}
	}
	return crem
}

func (c *cli) keysOut(s sel) {
	k := c.peek(fMain)
	args, env := c.open(fMain)
	sa, o := c.keySel(s, k)
	a := c.base(fMain)
	a["o"] = o
	pdf, out, ty := c.outFile()
	args = append(append(append(args, "keys"), sa...), c.one("-o", "--output"), out)
	args = append(args, ty...)
	crem, sheets := []int{}, [][]int{}
	if k != nil {
		for i := range k.Keys {
			crem = append(crem, minutes(k.Keys[i].Created.Time))
			sheets = append(sheets, c.rec.StrList(strings.Fields(k.Keys[i].String())))
		}
	}
	a["crem"], a["sheets"], a["pdf"] = crem, sheets, pdf
	x := c.run(args, env, "")
	r := c.res(x)
	c.readOut(pdf, out, r)
	c.emit("kout", a, r)
}

func (c *cli) outFile() (pdf bool, out string, ty []string) {
	pdf = c.rng.Intn(2) == 0
	ext := map[bool]string{true: "pdf", false: "txt"}[pdf]
	out = filepath.Join(c.dir, "out."+c.one(ext, strings.ToUpper(ext)))
	switch c.rng.Intn(4) {
	case 0:
		out = filepath.Join(c.dir, "out.xyz")
		ty = []string{"--type", ext}
	case 1:
		out = filepath.Join(c.dir, "out."+map[bool]string{true: "txt", false: "pdf"}[pdf])
		ty = []string{"--type", ext}
	}
	os.RemoveAll(out)
	return
}

func (c *cli) readOut(pdf bool, out string, r M) {
	r["has"], r["lines"], r["toks"] = false, []M{}, []int{}
	r["outside"], r["overlap"], r["noglyph"] = 0, 0, 0
	b, err := os.ReadFile(out)
	os.RemoveAll(out)
	if err != nil {
		return
	}
	r["has"] = true
	p := &printer{rec: c.rec}
	if !pdf {
		r["lines"] = p.lines(string(b))
		return
	}
	check(os.WriteFile(out, b, 0600))
	t, ok := readPDF(out)
	os.RemoveAll(out)
	r["has"] = ok
	if ok {
		r["toks"], r["outside"], r["overlap"], r["noglyph"] = p.toks(t.text), t.outside, t.overlap, t.noglyph
	}
}

func (c *cli) keysNew(n int) {
	args, env := c.open(fMain)
	a := c.base(fMain)
	var calls []string
	for _, p := range peers {
		if c.rng.Intn(3) == 0 {
			calls = append(calls, p)
		}
	}
	flags := append([]string{}, calls...)
	if c.rng.Intn(4) == 0 {
		flags = append(flags, home)
	}
	args = append(args, "keys", c.one("-n", "--new"), strconv.Itoa(n))
	args = append(args, c.list([]string{"-k", "--keepers"}, flags, true)...)
	a["n"], a["keepers"], a["expm"], a["bad"] = n, c.rec.StrList(flags), 0, false
	switch c.rng.Intn(6) {
	case 0, 1:
		d := time.Date(2027+c.rng.Intn(30), time.Month(1+c.rng.Intn(12)), 1+c.rng.Intn(28), c.rng.Intn(24), c.rng.Intn(60), 0, 0, time.UTC)
		args = append(args, c.one("-x", "--expire"), strings.ToUpper(d.Format("021504ZJan06")))
		a["expm"] = minutes(d)
	case 2:
		args = append(args, c.one("-x", "--expire"), []string{"NONSENSE", "320000ZJAN30", "12", "300000ZFEB30"}[c.rng.Intn(4)])
		a["bad"] = true
	}
	c.emit("kgen", a, c.res(c.run(args, env, "")))
}

func (c *cli) keysDelete(n int, yes bool) {
	k := c.peek(fMain)
	args, env := c.open(fMain)
	a := c.base(fMain)
	var have [][]rune
	if k != nil {
		for i := range k.Keys {
			have = append(have, k.Keys[i].Id)
		}
	}
	ids := c.someIds(n, have, "ZZZZZ")
	args = append(args, "keys", c.one("-d", "--delete"))
	if yes {
		args = append(args, c.one("-y", "--yes"))
	}
	args = append(args, c.list([]string{"-i", "--id"}, ids, true)...)
	if c.rng.Intn(4) == 0 { // only the ids named are deleted
		args = append(args, c.one("-u", "--unused", "--all", "--expired"))
	}
	a["ids"], a["yes"] = c.rec.StrList(ids), yes
	x := c.run(args, env, "")
	r := c.res(x)
	r["n"] = count(x.err)
	c.emit("kdel", a, r)
}

// deleteSome deletes interactively: the keys selected are offered, some taken.
func (c *cli) deleteSome(s sel, what string) {
	k := c.peek(fMain)
	if k == nil {
		return
	}
	c.term = false
	args, env := c.open(fMain)
	a := c.base(fMain)
	var sa []string
	var o M
	if what == "keys" {
		sa, o = c.keySel(s, k)
	} else {
		sa, o = c.msgSel(s, k)
	}
	args = append(append(args, what, "-d"), sa...)
	// Which of the offered are taken.
	keys := ""
	take := []bool{}
	for i := 0; i < 16; i++ {
		t := c.rng.Intn(3) == 0
		if t {
			keys += " "
		}
		take = append(take, t)
		keys += "\x1b[B"
	}
	a["o"], a["what"] = o, what
	x, ok := c.runTerminal(args, env, []talk{{regexp.MustCompile(`to delete`), keys + "\r"}})
	if !ok {
		c.emit("setup", nil, M{})
		return
	}
	r := c.res(x)
	r["n"] = count(x.err)
	c.emit("dsome", a, r)
}

func (c *cli) keysExport(s sel) {
	k := c.peek(fMain)
	args, env := c.open(fMain)
	sa, o := c.keySel(s, k)
	a := c.base(fMain)
	a["o"], a["to"], a["yes"] = o, fNew+1, c.rng.Intn(3) == 0
	args = append(append(append(args, "keys"), sa...), c.one("-E", "--export"), c.path(fNew))
	if a["yes"].(bool) {
		args = append(args, c.one("-y", "--yes"))
	} else if c.term {
		a["yes"] = c.confirm("Overwrite ")
	}
	x := c.run(args, env, "")
	r := c.res(x)
	r["n"] = count(x.err)
	c.auth[fNew] = c.auth[fMain]
	c.emit("kexp", a, r)
}

// keysImport imports from the other store, which is opened with a password
// asked for.
func (c *cli) keysImport(s sel) {
	if c.auth[fOther].pw == "" || c.auth[fOther].salt != "" {
		return
	}
	other := c.peek(fOther)
	c.term = false
	args, env := c.open(fMain)
	sa, o := c.keySel(s, other)
	a := c.base(fMain)
	a["o"], a["from"], a["fkey"] = o, fOther+1, c.keyRef(c.auth[fOther].key)
	over := c.rng.Intn(2) == 0
	a["over"] = over
	pw := c.auth[fOther].pw
	wrong := c.rng.Intn(8) == 0
	if wrong {
		pw = "not the password"
	}
	a["wrong"] = wrong
	args = append(append(append(args, "keys"), sa...), c.one("-I", "--import"), c.path(fOther))
	ans := "n\r"
	if over {
		ans = "y\r"
	}
	// (answered once for every key)
	x, ok := c.runTerminal(args, env, []talk{{regexp.MustCompile(`Enter decryption key`), pw + "\n"}, {regexp.MustCompile(`Key ID [A-Z]+ already exist, replace`), ans}})
	if !ok {
		c.emit("setup", nil, M{})
		return
	}
	r := c.res(x)
	r["n"] = count(x.err)
	c.emit("kimp", a, r)
}

func (c *cli) msgsList(s sel) {
	args, env := c.open(fMain)
	sa, o := c.msgSel(s, c.peek(fMain))
	args = append(append(append(args, c.one("messages", "m", "msg")), sa...), c.one("-l", "--list"))
	a := c.base(fMain)
	a["o"] = o
	x := c.run(args, env, "")
	r := c.res(x)
	c.rows(x.out, r)
	c.emit("mlist", a, r)
}

func (c *cli) msgsOut(s sel) {
	k := c.peek(fMain)
	args, env := c.open(fMain)
	sa, o := c.msgSel(s, k)
	a := c.base(fMain)
	a["o"] = o
	pdf, out, ty := c.outFile()
	args = append(append(append(args, "messages"), sa...), c.one("-o", "--output"), out)
	args = append(args, ty...)
	dtgm, sheets := []int{}, [][]int{}
	if k != nil {
		for i := range k.Messages {
			dtgm = append(dtgm, minutes(k.Messages[i].DTG.Time))
			sheets = append(sheets, c.rec.StrList(strings.Fields(k.Messages[i].String())))
		}
	}
	a["dtgm"], a["sheets"], a["pdf"] = dtgm, sheets, pdf
	x := c.run(args, env, "")
	r := c.res(x)
	c.readOut(pdf, out, r)
	c.emit("mout", a, r)
}

func (c *cli) msgsDelete(n int, yes bool) {
	k := c.peek(fMain)
	args, env := c.open(fMain)
	a := c.base(fMain)
	var have [][]rune
	if k != nil {
		for i := range k.Messages {
			have = append(have, k.Messages[i].Id)
		}
	}
	ids := c.someIds(n, have, "ZZZZ")
	args = append(args, "messages", c.one("-d", "--delete"))
	if yes {
		args = append(args, c.one("-y", "--yes"))
	}
	args = append(args, c.list([]string{"-i", "--id"}, ids, false)...)
	if c.rng.Intn(4) == 0 {
		args = append(args, "--all")
	}
	a["ids"], a["yes"] = c.rec.StrList(ids), yes
	x := c.run(args, env, "")
	r := c.res(x)
	r["n"] = count(x.err)
	c.emit("mdel", a, r)
}

// after records what the program shows of the message it has made.
func (c *cli) shown(x result, gs int, r M) {
	toks := []int{}
	for _, w := range strings.Fields(x.out + " " + x.err) {
		if len(w) == gs && strings.Trim(w, "ABCDEFGHIJKLMNOPQRSTUVWXYZ") == "" {
			toks = append(toks, c.rec.Str(w))
		}
	}
	p := &printer{rec: c.rec}
	r["shown"], r["lines"] = toks, p.lines(strings.TrimSuffix(x.out, "\n"))
	dtgm := []int{}
	if k := c.peek(fMain); k != nil {
		for i := range k.Messages {
			dtgm = append(dtgm, minutes(k.Messages[i].DTG.Time))
		}
	}
	r["dtgm"] = dtgm
}

func (c *cli) msgNew(send bool) {
	k := c.peek(fMain)
	gs, kl := 5, 40
	call := home
	if k != nil {
		gs, call = k.GroupSize, string(k.CallSign)
		if len(k.Keys) > 0 {
			kl = len(k.Keys[0].Runes)
		}
	}
	args, env := c.open(fMain)
	a := c.base(fMain)
	args = append(args, c.one("messages", "m", "msg"), c.one("-n", "--new"))
	if send {
		var to []string
		for _, p := range peers {
			if c.rng.Intn(3) == 0 {
				to = append(to, p)
			}
		}
		text := c.text(1 + c.rng.Intn(kl*2))
		rg := strings.TrimSpace(fmt.Sprintf("%s DE %s 011200", strings.Join(to, " "), call)) + " = " + text + " = K"
		a["text"], a["rcpt"], a["x"], a["store"] = c.rec.Str(text), c.rec.StrList(to), 0, true
		x := c.run(args, env, rg)
		r := c.res(x)
		c.shown(x, gs, r)
		c.emit("msend", a, r)
		return
	}
	text, from := "", peers[c.rng.Intn(3)]
	if k != nil && c.rng.Intn(4) > 0 {
		text, from = c.traffic(k, c.rng.Intn(4) > 0)
	}
	if text == "" {
		text = c.text(1 + c.rng.Intn(50))
	}
	rg := fmt.Sprintf("%s DE %s 011200 = %s = K", call, from, text)
	a["text"], a["rcpt"], a["from"], a["empty"] = c.rec.Str(text), c.rec.StrList([]string{call}), c.rec.Str(from), c.rec.Str("")
	x := c.run(args, env, rg)
	r := c.res(x)
	c.shown(x, gs, r)
	c.emit("mrecv", a, r)
}

// initialize makes a new store, in a new file or in place of one.
func (c *cli) initialize() {
	r := c.rng
	f := []int{fNew, fNew, fMain}[r.Intn(3)]
	old := c.auth[f]
	au := c.newAuth(r.Intn(6) == 0 || c.term)
	c.auth[f] = au
	a := c.base(f)
	args, env := c.openAs(c.path(f), au)
	c.steps = nil
	asks := c.term && r.Intn(2) == 0 // for the key
	if asks {
		args, env = []string{"-f", c.path(f)}, nil
		if au.salt != "" {
			args = append(args, "-S", au.salt)
		}
	} else if r.Intn(8) == 0 && !c.term { // no key
		args, env = []string{"-f", c.path(f)}, nil
		a["key"] = 0
	} else if c.term {
		args, env = []string{"-f", c.path(f), "-K", au.key}, nil
	}
	all := c.term && r.Intn(2) == 0 // it asks for everything
	a["yes"] = r.Intn(2) == 0 && !all
	args = append(args, c.one("initialize", "init"))
	if a["yes"].(bool) {
		args = append(args, c.one("-y", "--yes"))
	}
	// Without --call-sign it asks, or fails when told not to.
	call := []string{"HOME", "SA6MWA", "B/1", "OH9/Z", "Q"}[[]int{0, 0, 0, 0, 1, 1, 2, 3, 4}[r.Intn(9)]]
	if all || c.term && !a["yes"].(bool) && r.Intn(2) == 0 {
		c.asks("Enter your call-sign:", c.flip(call)+"\r")
	} else {
		args = append(args, c.one("-c", "--call"), c.flip(call))
	}
	num := func(question string, min int, names []string, def int, vals ...int) int {
		if r.Intn(2) == 0 {
			if all && question != "" {
				c.asks(question, "\r")
			}
			return def
		}
		v := vals[r.Intn(len(vals))]
		if !all || question == "" {
			args = append(args, names[r.Intn(len(names))], strconv.Itoa(v))
			return v
		}
		if r.Intn(4) == 0 { // it asks again
			c.asks(question, c.one("x", "-1", strconv.Itoa(min-1))+"\r")
			c.asks(question, strings.Repeat("\x7f", 6)+strconv.Itoa(max(v, min))+"\r")
		} else {
			c.asks(question, strconv.Itoa(max(v, min))+"\r")
		}
		return max(v, min)
	}
	a["call"] = c.rec.Str(call)
	a["n"] = num("Enter number of initial keys to generate:", 0, []string{"-n", "--keys"}, 0, 0, 1, 3, 5)
	var calls []string
	for _, p := range peers {
		if r.Intn(3) == 0 && p != call {
			calls = append(calls, p)
		}
	}
	if all {
		c.asks("Enter keepers of the initial keys", c.flip(strings.Join(calls, c.one(",", ", ", " ", " ,")))+"\r")
	} else {
		args = append(args, c.list([]string{"-k", "--keepers"}, calls, true)...)
	}
	a["keepers"], a["expm"], a["bad"] = c.rec.StrList(calls), 0, false
	dtg := ""
	switch r.Intn(6) {
	case 0, 1:
		d := time.Date(2027+r.Intn(30), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), 0, 0, time.UTC)
		dtg = strings.ToUpper(d.Format("021504ZJan06"))
		a["expm"] = minutes(d)
	case 2:
		dtg = "NONSENSE"
		a["bad"] = true
	}
	if all {
		c.asks("Enter expiry date", dtg+"\r")
	} else if dtg != "" {
		args = append(args, c.one("-x", "--expire"), dtg)
	}
	a["kl"] = num("Choose length of keys:", 20, []string{"-l", "--key-length"}, krypto431.DefaultKeyLength, 20, 25, 100, 349, 20, 19, 0, -1)
	a["gs"] = num("Choose group size:", 1, []string{"-g", "--groupsize"}, krypto431.DefaultGroupSize, 4, 6, 7, 10, 5, 0, -3)
	a["kcols"] = num("", 0, []string{"--key-columns"}, krypto431.DefaultKeyColumns, 30, 40, 7, 60, 3)
	a["cols"] = num("", 0, []string{"--columns"}, krypto431.DefaultColumns, 85, 111, 200, 84, 10)
	if c.term && !a["yes"].(bool) {
		a["yes"] = c.confirm("Overwrite ")
	}
	if asks {
		c.newPassword(krypto431.EncryptionPrompt, au.pw)
	}
	x := c.run(args, env, "")
	if x.res != "ok" {
		c.auth[f] = old
	}
	c.emit("init", a, c.res(x))
}

var reHex = regexp.MustCompile(`^[0-9a-fA-F]+$`)

func hexWords(s string) (h []string) {
	for _, w := range strings.Fields(s) {
		if len(w) >= 16 && reHex.MatchString(w) {
			h = append(h, w)
		}
	}
	return
}

// pfkChange changes the key of a store.
func (c *cli) pfkChange() {
	r := c.rng
	f := fMain
	old := c.auth[f]
	a := c.base(f)
	args, env := c.openAs("unused.gob", old)
	sub := false
	if old.pw != "" && r.Intn(2) == 0 { // password as option of the command
		args, env, sub = []string{}, nil, true
		if old.salt != "" {
			args = append(args, "-S", old.salt)
		}
	}
	args = append(args, "pfk", c.one("-c", "--change"), c.path(f))
	if sub {
		c.steps = nil
		args = append(args, c.one("-P", "--old"), old.pw)
	}
	yes := r.Intn(4) > 0
	conflict := false
	newSalt := ""
	if r.Intn(3) == 0 {
		newSalt = strings.Repeat([]string{"cd", "0a"}[r.Intn(2)], 32)
		args = append(args, c.one("-s", "--new-salt"), newSalt)
	} else if r.Intn(3) == 0 {
		newSalt = krypto431.DefaultSalt
		args = append(args, c.one("-s", "--new-salt"), "default")
	}
	next := auth{}
	how := r.Intn(4)
	if c.term && r.Intn(3) == 0 {
		how = 4
	}
	switch how {
	case 0:
		args = append(args, c.one("-r", "--random"))
	case 1, 2:
		next = auth{key: hex.EncodeToString(randomKey(r))}
		args = append(args, c.one("-k", "--new-pfk"), c.one(next.key, strings.ToUpper(next.key)))
	case 3, 4:
		next = auth{pw: "a new passphrase 99"}
		if how == 4 { // it asks
			c.newPassword(krypto431.NewEncryptionPrompt, next.pw)
			yes = true
		} else {
			args = append(args, c.one("-N", "--new"), next.pw)
		}
		salt := newSalt
		if salt == "" { // the salt that was given to open the store
			for i := range args {
				if (args[i] == "-S" || args[i] == "--salt") && i+1 < len(args) {
					salt = args[i+1]
				}
			}
			for _, e := range env {
				if strings.HasPrefix(e, "KRYPTO_SALT=") {
					salt = e[12:]
				}
			}
		}
		next.salt = salt
		next.key = c.derive(next.pw, salt)
		if next.salt == krypto431.DefaultSalt {
			next.salt = ""
		}
	}
	if how < 4 && r.Intn(8) == 0 { // two new keys
		switch how {
		case 0:
			args = append(args, [][]string{{"-N", "another"}, {"-k", strings.Repeat("ab", 32)}}[r.Intn(2)]...)
		case 1, 2:
			args = append(args, [][]string{{"-N", "another"}, {"-r"}}[r.Intn(2)]...)
		case 3:
			args = append(args, [][]string{{"-k", strings.Repeat("ab", 32)}, {"-r"}}[r.Intn(2)]...)
		}
		conflict = true
	}
	a["no"] = false
	if yes {
		if how < 4 {
			args = append(args, c.one("-y", "--yes"))
		}
	} else if c.term {
		yes = c.confirm("Change encryption key for ")
		a["no"] = !yes
	}
	a["yes"], a["conflict"], a["random"] = yes, conflict, how == 0
	x := c.run(args, env, "")
	rr := c.res(x)
	if how == 0 {
		hs := hexWords(x.out)
		if len(hs) == 1 {
			next.key = hs[0]
		}
	}
	a["new"] = c.keyRef(next.key)
	c.look()
	if c.files[f]["k"] == "store" { // go on with the key it has
		for _, n := range c.files[f]["keys"].([]int) {
			if n == a["new"].(int) {
				c.auth[f] = next
			}
		}
	}
	c.emit("pfk", a, rr)
}

// pfkGenerate makes keys and salts.
func (c *cli) pfkGenerate() {
	r := c.rng
	args, env := []string{}, []string{}
	a := M{"f": fMain + 1, "key": 0, "fault": "none", "now": 0, "want": 0, "must": true}
	kind := r.Intn(4)
	salt := ""
	if c.term {
		kind = 2
	}
	if kind == 2 {
		if r.Intn(2) == 0 {
			salt = strings.Repeat("e1", 32)
			args = append(args, "-S", salt)
		}
		pw := "correct horse battery"
		if c.term {
			c.newPassword(krypto431.EncryptionPrompt, pw)
		} else {
			args = append(args, c.one("-P", "--password"), pw)
		}
		if r.Intn(2) == 0 && !c.term {
			env = append(env, "KRYPTO_MINIMUM_ENTROPY=20")
		}
		args = append(args, "pfk", c.one("-g", "--gen-pfk"))
		if r.Intn(3) == 0 {
			salt = strings.Repeat("b2", 32)
			args = append(args, "-s", salt)
		} else if r.Intn(3) == 0 {
			salt = ""
			args = append(args, "-s", "default")
		}
		a["want"] = c.rec.Str(c.derive(pw, salt))
	} else if kind == 3 {
		args = append(args, "pfk", c.one("-G", "--gen-salt"))
	} else {
		args = append(args, "pfk", c.one("-g", "--gen-pfk"), c.one("-r", "--random"))
	}
	x := c.run(args, env, "")
	rr := c.res(x)
	hs := hexWords(x.out)
	rr["hex"] = c.rec.StrList(hs)
	a["before"] = append([]int{}, c.gen...)
	if kind != 2 && len(hs) == 1 {
		c.gen = append(c.gen, c.rec.Str(hs[0]))
	}
	c.emit("pgen", a, rr)
}

// badly runs commands that must be refused without touching anything.
func (c *cli) badly() {
	r := c.rng
	f := fMain
	au := c.auth[f]
	k := c.peek(f)
	key := au.key
	a := c.base(f)
	other := hex.EncodeToString(randomKey(r))
	bad := []string{"00", strings.Repeat("ab", 31), strings.Repeat("ab", 33), strings.Repeat("zz", 32), strings.Repeat("ab", 31) + "a"}[r.Intn(5)]
	badSalt := bad
	if len(bad) == 66 {
		badSalt = "00"
	}
	cmds := [][]string{{"keys", "-l"}, {"keys", "-n", "2"}, {"keys", "-d", "-y", "-i", "QQQQQ"}, {"keys", "-E", c.path(fNew), "-y"}, {"messages", "-l"}, {"messages", "-n"},
		{"pfk", "-c", c.path(f), "-k", other, "-y"}, {"keys", "-o", filepath.Join(c.dir, "o.txt")}}
	if k != nil && len(k.Keys) > 0 {
		cmds[2][4] = string(k.Keys[0].Id)
	}
	cmd := cmds[r.Intn(len(cmds))]
	in := ""
	if cmd[0] == "messages" && cmd[1] == "-n" {
		in = "HOME DE BB 011200 = hello = K"
	}
	var args []string
	what, prop := "", "C22"
	switch r.Intn(13) {
	case 12:
		what, args = "key and salt", []string{"pfk", "-g", "-G", c.one("-r", "-s", "-y")}
		if args[3] == "-s" {
			args = append(args, "default")
		}
	case 0:
		what, args = "another key", append([]string{"-f", c.path(f), "-K", other}, cmd...)
	case 1:
		what, args = "another password", append([]string{"-f", c.path(f), "-P", "not the password"}, cmd...)
	case 2:
		what, args = "key and password", append([]string{"-f", c.path(f), "-K", key, "-P", "x"}, cmd...)
	case 3:
		what, args = "malformed key", append([]string{"-f", c.path(f), "-K", bad}, cmd...)
	case 4:
		what, args = "malformed salt", append([]string{"-f", c.path(f), "-K", key, "-S", badSalt}, cmd...)
	case 5:
		if cmd[0] == "pfk" {
			cmd = cmds[0]
		}
		what, prop, args = "no such file", "C21", append([]string{"-f", filepath.Join(c.dir, "none.gob"), "-K", key}, cmd...)
	case 6:
		what, prop, args = "unknown output type", "C20", []string{"-f", c.path(f), "-K", key, "keys", "-o", filepath.Join(c.dir, "o.txt"), "--type", "doc"}
	case 7:
		what, args = "no key", append([]string{"-f", c.path(f)}, cmd...)
	case 8:
		what, args = "malformed new key", []string{"-K", key, "pfk", "-c", c.path(f), "-y", "-k", bad}
	case 9:
		what, args = "malformed new salt", []string{"-K", key, "pfk", "-c", c.path(f), "-y", "-s", badSalt, "-N", "abcdefgh"}
	case 10:
		what, prop, args = "no file name to export to", "C11", []string{"-f", c.path(f), "-K", key, "keys", "-E", "", "-y"}
	case 11:
		what, prop, args = "no file name to write to", "C20", []string{"-f", c.path(f), "-K", key, c.one("keys", "messages"), "-o", ""}
	}
	a["what"], a["prop"] = what, prop
	x := c.run(args, nil, in)
	c.emit("bad", a, c.res(x))
	for _, s := range []string{"o.txt", "none.gob"} {
		if _, err := os.Lstat(filepath.Join(c.dir, s)); err == nil && s == "none.gob" {
			c.tr.Events[len(c.tr.Events)-1].R["res"] = "ok"
		}
		os.RemoveAll(filepath.Join(c.dir, s))
	}
}

// begin makes the files of a trace.
func (c *cli) begin(nk, nm int) {
	for f := 0; f < fSlots; f++ {
		os.RemoveAll(c.path(f))
	}
	c.setup(fMain, c.newAuth(c.rng.Intn(5) == 0 || c.ask && c.rng.Intn(4) > 0), home, nk, nm)
	if c.rng.Intn(2) == 0 {
		c.setup(fOther, auth{pw: "the other password", key: c.derive("the other password", "")}, peers[c.rng.Intn(3)], c.rng.Intn(7), c.rng.Intn(2))
	}
	c.emit("setup", nil, M{})
}

func (c *cli) step(s sel) {
	switch c.rng.Intn(26) {
	case 0, 1, 2, 3, 4:
		c.keysList(s)
	case 5, 6:
		c.keysOut(s)
	case 7, 8:
		c.keysExport(s)
	case 9, 10:
		c.keysImport(s)
	case 11:
		c.keysNew(1 + c.rng.Intn(3))
	case 12:
		c.keysDelete(c.rng.Intn(4), c.rng.Intn(6) > 0 || c.term)
	case 13, 14, 15:
		c.msgsList(s)
	case 16:
		c.msgsOut(s)
	case 17:
		c.msgsDelete(c.rng.Intn(3), c.rng.Intn(6) > 0 || c.term)
	case 18, 19:
		c.msgNew(true)
	case 20:
		c.msgNew(false)
	case 21:
		c.initialize()
	case 22:
		c.pfkChange()
	case 23:
		if !c.term {
			c.badly()
		}
	case 24:
		c.deleteSome(s, c.one("keys", "messages"))
	case 25:
		if c.rng.Intn(2) == 0 {
			c.pfkGenerate()
		} else { // another file to import from
			c.setup(fOther, auth{pw: "the other password", key: c.derive("the other password", "")}, peers[c.rng.Intn(3)], c.rng.Intn(7), c.rng.Intn(2))
			c.emit("setup", nil, M{})
		}
	}
}

func runCli(rec *Recorder, seed int64, dir, bin string, n, ops int, scen, prof string) {
	useSeededSource(seed)
	r := newRng(seed)
	var sels []sel
	if scen != "" {
		b, err := os.ReadFile(scen)
		check(err)
		check(json.Unmarshal(b, &sels))
	}
	for i := 0; i < n; i++ {
		c := newCli(rec, r, bin, filepath.Join(dir, fmt.Sprintf("c%d", i)), fmt.Sprintf("program %d", i))
		c.ask = prof == "term"
		c.begin([]int{0, 1, 3, 8, 12, 12}[r.Intn(6)], r.Intn(6))
		for j := 0; j < ops; j++ {
			s := c.randomSel()
			if len(sels) > 0 && r.Intn(3) > 0 {
				s = sels[r.Intn(len(sels))]
			}
			if prof == "keys" && r.Intn(2) == 0 {
				switch r.Intn(4) {
				case 0:
					c.pfkChange()
				case 1:
					c.pfkGenerate()
				case 2:
					c.badly()
				case 3:
					c.initialize()
				}
				continue
			}
			if prof == "lists" && r.Intn(2) == 0 {
				if r.Intn(2) == 0 {
					c.keysList(s)
				} else {
					c.msgsList(s)
				}
				continue
			}
			if prof == "term" && r.Intn(4) > 0 {
				c.atTerminal(func() {
					switch r.Intn(8) {
					case 0, 1:
						c.pfkChange()
					case 2:
						c.pfkGenerate()
					case 3, 4:
						c.initialize()
					case 5:
						c.keysExport(s)
					case 6:
						c.msgNew(r.Intn(2) == 0)
					default:
						c.step(s)
					}
				})
				continue
			}
			c.step(s)
		}
		c.finish()
	}
}

// ---------------------------------------------------------------------------
// Commands that fail or are killed (MCCli).

type cliStep struct {
	Op  string `json:"op"`
	End string `json:"end"`
}

var straceOps = []string{"openat", "write", "fsync", "renameat", "close", "unlinkat", "fchmodat", "fchmod"}

func (c *cli) someFault(end string) fault {
	r := c.rng
	switch end {
	case "kill":
		op := straceOps[[]int{0, 1, 1, 1, 2, 3, 3, 4}[r.Intn(8)]]
		n := 1 + r.Intn(3)
		if op == "openat" || op == "close" {
			n = 1 + r.Intn(14)
		}
		return fault{name: fmt.Sprintf("killed at %s:when=%d", op, n), strace: []string{"strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=" + op, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", op, n)}}
	case "fail":
		switch r.Intn(4) {
		case 0:
			return fault{name: "no room", limit: 1 + r.Intn(600)}
		case 1:
			op := straceOps[r.Intn(4)]
			n := 1 + r.Intn(3)
			if op == "openat" {
				n = 1 + r.Intn(14)
			}
			e := []string{"ENOSPC", "EIO", "EACCES", "EROFS"}[r.Intn(4)]
			return fault{name: fmt.Sprintf("%s at %s:when=%d", e, op, n), strace: []string{"strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=" + op, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d+", op, e, n)}}
		case 2:
			return fault{name: "file replaced", replace: "dir"}
		case 3:
			return fault{name: "directory gone", replace: "gone"}
		}
	}
	return fault{}
}

func (c *cli) faulty(op string, f fault) {
	if f.replace != "" && op != "send" && op != "recv" {
		f = fault{name: "no room", limit: 1 + c.rng.Intn(300)}
	}
	c.fault = f
	defer func() { c.fault = fault{} }()
	switch op {
	case "gen":
		c.keysNew(1 + c.rng.Intn(3))
	case "send":
		c.msgNew(true)
	case "recv":
		c.msgNew(false)
	case "list":
		c.msgsList(sel{Valid: -1})
	case "delkey":
		c.keysDelete(1, true)
	case "delmsg":
		c.msgsDelete(1, true)
	case "rekey":
		c.pfkChange()
	case "show":
		c.keysList(c.randomSel())
	case "export":
		c.keysExport(sel{Valid: -1})
	case "init":
		c.initialize()
	}
}

func straceWorks() bool {
	return exec.Command("strace", "-f", "-qq", "-o", "/dev/null", "true").Run() == nil
}

func runCliScen(rec *Recorder, seed int64, dir, bin string, scen string) {
	useSeededSource(seed)
	r := newRng(seed)
	b, err := os.ReadFile(scen)
	check(err)
	var scs [][]cliStep
	check(json.Unmarshal(b, &scs))
	can := straceWorks()
	for i, sc := range scs {
		c := newCli(rec, r, bin, filepath.Join(dir, fmt.Sprintf("f%d", i)), fmt.Sprintf("commands %d", i))
		c.begin(r.Intn(5), r.Intn(3))
		for _, s := range sc {
			f := c.someFault(s.End)
			if f.strace != nil && !can {
				f = fault{name: "no room", limit: 1 + r.Intn(600)}
			}
			c.faulty(s.Op, f)
		}
		c.finish()
	}
}

// runCliFaults interrupts every command at many points.
func runCliFaults(rec *Recorder, seed int64, dir, bin string, budget int) {
	useSeededSource(seed)
	r := newRng(seed)
	check(os.Chmod(dir, 0755))
	can := straceWorks()
	for i, op := range []string{"send", "recv", "gen", "list", "delkey", "delmsg", "rekey", "export", "init", "send", "rekey"} {
		c := newCli(rec, r, bin, filepath.Join(dir, fmt.Sprintf("k%d", i)), "interrupted "+op)
		c.begin(3+r.Intn(4), 1+r.Intn(3))
		var bytesOf [fSlots][]byte
		authOf := c.auth
		for f := 0; f < fSlots; f++ {
			bytesOf[f], _ = os.ReadFile(c.path(f))
		}
		reset := func() {
			same := true
			for f := 0; f < fSlots; f++ {
				b, err := os.ReadFile(c.path(f))
				if bytesOf[f] == nil {
					same = same && err != nil
					os.RemoveAll(c.path(f))
				} else if err != nil || !bytes.Equal(b, bytesOf[f]) {
					same = false
					os.RemoveAll(c.path(f))
					check(os.WriteFile(c.path(f), bytesOf[f], 0600))
				}
			}
			left, _ := filepath.Glob(filepath.Join(c.dir, ".*"))
			for _, f := range left {
				os.Remove(f)
			}
			if !same || c.auth != authOf {
				c.auth = authOf
				c.emit("setup", nil, M{})
			}
		}
		var faults []fault
		if can {
			for _, call := range straceOps {
				max := map[string]int{"openat": 16, "close": 16, "write": 6}[call]
				if max == 0 {
					max = 2
				}
				for n := 1; n <= max; n++ {
					base := []string{"strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=" + call}
					faults = append(faults, fault{name: fmt.Sprintf("killed at %s:when=%d", call, n), strace: append(base[:len(base):len(base)], "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", call, n))})
					e := []string{"ENOSPC", "EIO", "EACCES", "EROFS"}[r.Intn(4)]
					plus := []string{"", "+"}[r.Intn(2)]
					faults = append(faults, fault{name: fmt.Sprintf("%s at %s:when=%d%s", e, call, n, plus), strace: append(base[:len(base):len(base)], "-e", fmt.Sprintf("inject=%s:error=%s:when=%d%s", call, e, n, plus))})
				}
			}
		}
		size := len(bytesOf[fMain])
		for _, l := range []int{1, 28, 29, 200, size / 2, size - 1, size, size + 50} {
			if l > 0 {
				faults = append(faults, fault{name: fmt.Sprintf("no room after %d bytes", l), limit: l})
			}
		}
		r.Shuffle(len(faults), func(i, j int) { faults[i], faults[j] = faults[j], faults[i] })
		if len(faults) > budget {
			faults = faults[:budget]
		}
		if op == "send" || op == "recv" {
			faults = append(faults, fault{name: "file replaced", replace: "dir"}, fault{name: "directory gone", replace: "gone"})
		}
		faults = append(faults, fault{})
		for _, f := range faults {
			reset()
			c.faulty(op, f)
		}
		reset()
		// Another user, who may not write.
		for f := 0; f < fSlots; f++ {
			os.Chown(c.path(f), 65534, 65534)
		}
		check(os.Chmod(c.dir, 0555))
		if op != "rekey" {
			c.faulty(op, fault{name: "directory not writable", uid: 65534})
		}
		check(os.Chmod(c.dir, 0755))
		c.finish()
	}
}
