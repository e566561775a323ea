package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"encoding/hex"

	"github.com/sa6mwa/krypto431"
)

func init() {
	if len(os.Args) > 1 && os.Args[1] == "child" {
		runtime.LockOSThread() // all system calls of main in the main thread
	}
}

// childSave loads a store, changes it and saves it: the parent makes the save
// fail or kills it.
func childSave() {
	time.Local = time.UTC
	r := newRng(1)
	seed, _ := strconv.ParseInt(os.Getenv("KV_SEED"), 10, 64)
	useSeededSource(seed)
	r.Seed(seed)
	target := os.Getenv("KV_TARGET")
	if l := os.Getenv("KV_LIMIT"); l != "" {
		n, err := strconv.ParseUint(l, 10, 64)
		check(err)
		if os.Getenv("KV_IGNORE") != "" {
			signal.Ignore(syscall.SIGXFSZ)
		}
		check(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}))
	}
	out := func(s string) {
		// Not limited: standard output is a pipe.
		if _, err := os.Stdout.WriteString(s + "\n"); err != nil {
			os.Exit(9)
		}
	}
	k := krypto431.New(krypto431.WithPersistence(target), krypto431.WithPFKString(os.Getenv("KV_OLDKEY")))
	if os.Getenv("KV_FRESH") == "" {
		if err := k.Load(); err != nil {
			out("LOADFAILED " + err.Error())
			os.Exit(0)
		}
	} else {
		krypto431.WithOverwritePersistenceIfExists(true)(&k)
		k.SetCallSign("AA")
	}
	n, _ := strconv.Atoi(os.Getenv("KV_KEYS"))
	if n < 0 {
		k.Keys = k.Keys[:len(k.Keys)/2]
	} else {
		if err := k.GenerateKeys(n, nil, "BB"); err != nil {
			out("LOADFAILED " + err.Error())
			os.Exit(0)
		}
	}
	switch x := os.Getenv("KV_NEWKEY"); x {
	case "":
	case "none":
		krypto431.WithPFK(nil)(&k)
	case "short":
		*k.GetPFK() = (*k.GetPFK())[:31]
	case "long":
		*k.GetPFK() = append(*k.GetPFK(), 1)
	case "empty":
		*k.GetPFK() = []byte{}
	default:
		if err := k.SetPFKFromString(x); err != nil {
			out("LOADFAILED " + err.Error())
			os.Exit(0)
		}
	}
	out("NEW " + contentHash(&k))
	defer func() {
		if e := recover(); e != nil {
			out(fmt.Sprintf("PANIC %v", e))
			os.Exit(0)
		}
	}()
	out("BEGIN")
	err := k.Save()
	if err != nil {
		out("ERR " + err.Error())
	} else {
		out("OK")
	}
	os.Exit(0)
}

type crashRun struct {
	rec    *Recorder
	b      *batch
	dir    string
	target string
	old    []byte
	oldRef int
	oldKey string
	newKey string
	seed   int64
	keys   int
	fresh  bool
	uid    int
}

func (c *crashRun) child(limit int, ignore bool, strace []string) (lines []string, status syscall.WaitStatus) {
	self, err := os.Executable()
	check(err)
	args := append(append([]string{}, strace...), self, "child")
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = c.dir
	cmd.Env = append(os.Environ(), "KV_TARGET="+c.target, "KV_OLDKEY="+c.oldKey, "KV_NEWKEY="+c.newKey, fmt.Sprintf("KV_SEED=%d", c.seed), fmt.Sprintf("KV_KEYS=%d", c.keys), "GOMAXPROCS=2", "GOTRACEBACK=none")
	if c.fresh {
		cmd.Env = append(cmd.Env, "KV_FRESH=1")
	}
	if limit >= 0 {
		cmd.Env = append(cmd.Env, fmt.Sprintf("KV_LIMIT=%d", limit))
		if ignore {
			cmd.Env = append(cmd.Env, "KV_IGNORE=1")
		}
	}
	if c.uid > 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uint32(c.uid), Gid: uint32(c.uid)}}
	}
	var o bytes.Buffer
	cmd.Stdout = &o
	err = cmd.Start()
	check(err)
	done := make(chan struct{})
	go func() {
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			cmd.Process.Kill()
		}
	}()
	cmd.Wait()
	close(done)
	status = cmd.ProcessState.Sys().(syscall.WaitStatus)
	for _, l := range strings.Split(o.String(), "\n") {
		if l != "" {
			lines = append(lines, l)
		}
	}
	return
}

func (c *crashRun) find(keyhex string) int {
	k := krypto431.New(krypto431.WithPersistence(c.target), krypto431.WithPFKString(keyhex))
	var err error
	p, _ := guarded(func() { err = k.Load() })
	if p {
		return -1
	}
	if err != nil {
		return 0
	}
	return c.rec.Str(contentHash(&k))
}

// run makes one attempt with a fault and records what is left.
// unsynced: the system said that data could not be brought to the disk.
func unsynced(fault string) bool {
	return regexp.MustCompile(`^(EIO|ENOSPC|EDQUOT) at (fsync|fdatasync):`).MatchString(fault)
}

func (c *crashRun) run(fault string, limit int, ignore bool, strace []string) {
	if c.old != nil {
		b, err := os.ReadFile(c.target)
		if err != nil || !bytes.Equal(b, c.old) {
			check(os.WriteFile(c.target, c.old, 0600))
			if c.uid > 0 {
				check(os.Chown(c.target, c.uid, c.uid))
			}
		}
	}
	lines, status := c.child(limit, ignore, strace)
	began, ok, failed, panicked, newRef := false, false, false, false, 0
	msg := ""
	for _, l := range lines {
		switch {
		case strings.HasPrefix(l, "NEW "):
			newRef = c.rec.Str(l[4:])
		case l == "BEGIN":
			began = true
		case l == "OK":
			ok = true
		case strings.HasPrefix(l, "ERR"):
			failed, msg = true, l
		case strings.HasPrefix(l, "PANIC"):
			panicked, msg = true, l
		}
	}
	if !began {
		return // it did not get as far as saving
	}
	nk := c.newKey
	badkey := nk == "none" || nk == "short" || nk == "long" || nk == "empty"
	r := M{"ok": ok, "err": failed, "panic": panicked, "died": !ok && !failed && !panicked, "msg": msg, "status": fmt.Sprint(int(status))}
	if strings.HasPrefix(c.target, "/dev/") { // nothing can be read back
		r["exists"], r["same"], r["oldk"], r["newk"] = false, false, 0, 0
		c.b.add("crash", M{"fault": fault, "old": 0, "new": newRef, "existed": false, "badkey": badkey, "rekey": false, "unsynced": unsynced(fault)}, r)
		return
	}
	b, err := os.ReadFile(c.target)
	r["exists"] = err == nil
	r["same"] = err == nil && bytes.Equal(b, c.old)
	r["oldk"] = c.find(c.oldKey)
	r["newk"] = r["oldk"]
	if nk != "" && !badkey {
		r["newk"] = c.find(nk)
	}
	c.b.add("crash", M{"fault": fault, "old": c.oldRef, "new": newRef, "existed": c.old != nil, "badkey": badkey, "rekey": nk != "" && !badkey, "unsynced": unsynced(fault)}, r)
	// What a killed save leaves behind must not make the next one fail.
	left, _ := filepath.Glob(filepath.Join(filepath.Dir(c.target), ".*"))
	if len(left) > 50 {
		for _, f := range left {
			os.Remove(f)
		}
	}
}

var reStrace = regexp.MustCompile(`^(\d+) +(\w+)\(`)

const straceCalls = "open,openat,creat,write,pwrite64,writev,sync,syncfs,fsync,fdatasync,sync_file_range,ftruncate,truncate,rename,renameat,renameat2,unlink,unlinkat,link,linkat,symlinkat,fchmod,fchmodat,chmod,fchown,close,fallocate,newfstatat,fstat,lseek,copy_file_range,sendfile,fcntl"

// points finds the system calls of the save: [name, ordinal in the main thread].
func (c *crashRun) points() (pts []struct {
	name string
	n    int
}) {
	log := filepath.Join(c.dir, "strace.log")
	os.Remove(log)
	check(os.WriteFile(c.target, c.old, 0600))
	lines, _ := c.child(-1, false, []string{"strace", "-f", "-qq", "-o", log, "-e", "trace=" + straceCalls})
	if len(lines) == 0 || lines[len(lines)-1] != "OK" {
		return nil
	}
	b, err := os.ReadFile(log)
	check(err)
	main := ""
	count := map[string]int{}
	in := false
	calls := []M{}
	pending := ""
	defer func() {
		c.b.add("calls", M{"store": c.rec.Str(c.target), "calls": calls}, M{})
	}()
	for _, l := range strings.Split(string(b), "\n") {
		if pid, rest, ok := strings.Cut(l, " "); ok && pid == main && in {
			rest = strings.TrimLeft(rest, " ")
			if x := strings.TrimSuffix(rest, "<unfinished ...>"); x != rest {
				pending = x
			} else {
				if strings.HasPrefix(rest, "<...") {
					_, x, _ := strings.Cut(rest, "resumed>")
					rest, pending = pending+x, ""
				}
				if x := c.fileCall(rest); x != nil {
					calls = append(calls, x)
				}
			}
		}
		m := reStrace.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		if main == "" {
			main = m[1]
		}
		if m[1] != main {
			continue
		}
		count[m[2]]++
		if strings.Contains(l, `"BEGIN\n"`) {
			in = true
			continue
		}
		if strings.Contains(l, `"OK\n"`) {
			in = false
		}
		if in {
			pts = append(pts, struct {
				name string
				n    int
			}{m[2], count[m[2]]})
		}
	}
	return
}

var (
	reCall = regexp.MustCompile(`^(\w+)\((.*)\) += +(\d+)`)
	rePath = regexp.MustCompile(`"([^"]*)"`)
)

// fileCall reads a system call that succeeded: what it did to which files.
func (c *crashRun) fileCall(l string) M {
	m := reCall.FindStringSubmatch(l)
	if m == nil {
		return nil
	}
	args := strings.Split(m[2], ", ")
	num := func(i int) int {
		if i >= len(args) {
			return -1
		}
		n, err := strconv.Atoi(args[i])
		if err != nil {
			return -1
		}
		return n
	}
	names := []int{}
	for _, x := range rePath.FindAllStringSubmatch(m[2], -1) {
		p := x[1]
		if !filepath.IsAbs(p) {
			p = filepath.Join(c.dir, p)
		}
		names = append(names, c.rec.Str(p))
	}
	ret, err := strconv.Atoi(m[3])
	check(err)
	call := func(c string, fd, name, to int) M { return M{"c": c, "fd": fd, "f": name, "to": to} }
	switch m[1] {
	case "open", "openat", "creat":
		if len(names) == 0 {
			return nil
		}
		kind := "open"
		if strings.Contains(m[2], "O_SYNC") || strings.Contains(m[2], "O_DSYNC") {
			kind = "opensync"
		} else if strings.Contains(m[2], "O_TRUNC") || m[1] == "creat" {
			kind = "opentrunc"
		}
		return call(kind, ret, names[0], 0)
	case "write", "pwrite64", "writev", "pwritev", "pwritev2", "ftruncate", "fallocate", "sendfile":
		return call("write", num(0), 0, 0)
	case "copy_file_range":
		return call("write", num(2), 0, 0)
	case "fsync", "fdatasync":
		return call("sync", num(0), 0, 0)
	case "sync", "syncfs":
		return call("syncall", 0, 0, 0)
	case "close":
		return call("close", num(0), 0, 0)
	case "truncate":
		if len(names) == 1 {
			return call("truncate", 0, names[0], 0)
		}
	case "rename", "renameat", "renameat2", "link", "linkat":
		if len(names) == 2 {
			kind := "rename"
			if strings.HasPrefix(m[1], "link") {
				kind = "link"
			}
			return call(kind, 0, names[0], names[1])
		}
	case "unlink", "unlinkat":
		if len(names) == 1 {
			return call("unlink", 0, names[0], 0)
		}
	}
	return nil
}

func runCrash(rec *Recorder, seed int64, dir string, n int, part, parts int) {
	r := newRng(seed)
	b := newBatch(rec, "interrupted saves", 200)
	check(os.Chmod(dir, 0755))
	straceWorks := exec.Command("strace", "-f", "-qq", "-o", "/dev/null", "true").Run() == nil
	for v := 0; v < 6; v++ {
		if v%parts != part%parts {
			continue
		}
		d := filepath.Join(dir, fmt.Sprintf("c%d", v))
		check(os.MkdirAll(d, 0755))
		c := &crashRun{rec: rec, b: b, dir: d, target: filepath.Join(d, "store.gob"), seed: seed + int64(v), oldKey: hex.EncodeToString(randomKey(r))}
		k := krypto431.New(krypto431.WithPersistence(c.target), krypto431.WithPFKString(c.oldKey), krypto431.WithCallSign("AA"))
		useSeededSource(seed)
		size := []int{2, 0, 150, 150, 3, 20}[v]
		c.keys = []int{1, 3, 5, -1, 2, 100}[v]
		if v == 4 || v == 2 {
			c.newKey = hex.EncodeToString(randomKey(r))
		}
		check(k.GenerateKeys(size, nil, "BB"))
		check(k.Save())
		var err error
		c.old, err = os.ReadFile(c.target)
		check(err)
		c.oldRef = rec.Str(contentHash(&k))
		// No fault at all.
		c.run("none", -1, false, nil)
		nb, err := os.ReadFile(c.target)
		check(err)
		size = len(nb)
		// The disk is full or the program dies after a number of bytes.
		var limits []int
		for _, x := range []int{0, 1, 4, 5, 27, 28, 29, size - 1, size - 2, size - 17, size / 2, size, size + 1} {
			limits = append(limits, x)
		}
		for i := 0; i < n; i++ {
			limits = append(limits, r.Intn(size))
		}
		for _, l := range limits {
			if l < 0 {
				continue
			}
			c.run(fmt.Sprintf("disk full after %d of %d bytes", l, size), l, true, nil)
			c.run(fmt.Sprintf("killed after %d of %d bytes", l, size), l, false, nil)
		}
		// Killed or failing at a system call.
		if straceWorks {
			pts := c.points()
			budget := n * 6
			for i, p := range pts {
				if len(pts) > budget && i > 12 && i < len(pts)-12 && r.Intn(len(pts)) > budget {
					continue
				}
				at := fmt.Sprintf("%s:when=%d", p.name, p.n)
				base := []string{"strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=" + p.name}
				c.run("killed at "+at, -1, false, append(base, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", p.name, p.n)))
				if p.name == "fcntl" || p.name == "lseek" {
					continue
				}
				for j, e := range []string{"ENOSPC", "EIO", "EACCES", "EDQUOT", "EROFS"} {
					if j > 1 && (i+j)%4 != 0 {
						continue
					}
					when := strconv.Itoa(p.n)
					if r.Intn(3) == 0 {
						when += "+" // and ever after
					}
					c.run(e+" at "+at, -1, false, append(base, "-e", fmt.Sprintf("inject=%s:error=%s:when=%s", p.name, e, when)))
				}
			}
		}
		// Killed while cleaning up after a fault.
		if straceWorks {
			for _, call := range []string{"unlinkat", "close", "renameat", "openat"} {
				for _, l := range []int{0, size / 2, size - 1} {
					for when := 1; when <= 2; when++ {
						c.run(fmt.Sprintf("killed at %s:when=%d after the disk was full at %d of %d bytes", call, when, l, size), l, true,
							[]string{"strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=" + call, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", call, when)})
					}
				}
			}
		}
		// Keys that are not keys.
		good := c.newKey
		for _, x := range []string{"none", "short", "long", "empty"} {
			c.newKey = x
			c.run("key "+x, -1, false, nil)
		}
		c.newKey = good
		// A directory that can not be written, as another user.
		check(os.Chown(c.target, 65534, 65534))
		check(os.Chmod(d, 0555))
		c.uid = 65534
		c.run("unwritable directory", -1, false, nil)
		c.uid = 0
		check(os.Chmod(d, 0755))
		check(os.Remove(c.target))
		// Places where nothing can be saved.
		c.old, c.oldRef, c.fresh = nil, 0, true
		if _, err := os.Stat("/dev/full"); err == nil {
			c.target = "/dev/full"
			c.run("device without room", -1, false, nil)
		}
		c.target = filepath.Join(d, "missing", "store.gob")
		c.run("missing directory", -1, false, nil)
		c.target = filepath.Join(d, "new.gob")
		c.run("none", -1, false, nil)
		os.Remove(c.target)
		for i := 0; i < 3+n/10; i++ {
			l := r.Intn(size)
			c.run(fmt.Sprintf("disk full after %d bytes", l), l, true, nil)
			os.Remove(c.target)
		}
		os.RemoveAll(d)
	}
	b.flush()
}
