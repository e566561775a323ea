package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/sa6mwa/krypto431"
)

// step is a question of the program and the answer to it.
type step struct {
	expect *regexp.Regexp
	answer string
}

// asks adds a question that is expected, anywhere in what was printed since
// the last answer.
func (c *cli) asks(question, answer string) {
	c.steps = append(c.steps, step{regexp.MustCompile(regexp.QuoteMeta(question)), answer})
}

// asksAtEnd adds a question that is expected to be the last printed.
func (c *cli) asksAtEnd(question, answer string) {
	c.steps = append(c.steps, step{regexp.MustCompile(regexp.QuoteMeta(question) + `$`), answer})
}

// confirm adds a question for yes or no.
func (c *cli) confirm(question string) bool {
	yes := c.rng.Intn(2) == 0
	c.asks(question, map[bool]string{true: "y\r", false: "n\r"}[yes])
	return yes
}

// newPassword types a password twice, perhaps not correctly at first.
func (c *cli) newPassword(prompt, pw string) {
	switch c.rng.Intn(4) {
	case 0: // not good enough
		c.asksAtEnd(prompt, "abc\n")
	case 1: // not the same
		c.asksAtEnd(prompt, "another passphrase 17\n")
		c.asksAtEnd(prompt+krypto431.RepeatPromptSuffix, pw+"\n")
	}
	c.asksAtEnd(prompt, pw+"\n")
	c.asksAtEnd(prompt+krypto431.RepeatPromptSuffix, pw+"\n")
}

func openPty() (m, s *os.File, ok bool) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, false
	}
	var n, z int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x40045431, uintptr(unsafe.Pointer(&z))); e != 0 {
		m.Close()
		return nil, nil, false
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x80045430, uintptr(unsafe.Pointer(&n))); e != 0 {
		m.Close()
		return nil, nil, false
	}
	s, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		m.Close()
		return nil, nil, false
	}
	ws := [4]uint16{60, 2000, 0, 0}
	syscall.Syscall(syscall.SYS_IOCTL, s.Fd(), 0x5414, uintptr(unsafe.Pointer(&ws)))
	return m, s, true
}

// stuckAtTerminal counts the questions that were not foreseen.
var stuckAtTerminal int

// runScript runs the program on a terminal (output on another one) and answers
// what it asks.
func (c *cli) runScript(args, env []string, radiogram string) result {
	if radiogram != "" {
		c.asks("Enter message as radiogram", radiogram+"\r\r\r")
	}
	steps := c.steps
	c.steps = nil
	m, s, ok := openPty()
	if !ok {
		c.late = true
		return result{}
	}
	defer m.Close()
	m2, s2, ok := openPty()
	if !ok {
		s.Close()
		c.late = true
		return result{}
	}
	defer m2.Close()
	x := c.cmd(args, append(env, "TERM=xterm"))
	x.Stdin, x.Stdout, x.Stderr = s, s2, s
	x.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	check(x.Start())
	s.Close()
	s2.Close()
	type part struct {
		out bool
		b   string
	}
	got := make(chan part, 100)
	done := make(chan bool, 2)
	read := func(f *os.File, out bool) {
		for {
			b := make([]byte, 4096)
			n, err := f.Read(b)
			if n > 0 {
				got <- part{out, string(b[:n])}
			}
			if err != nil {
				done <- true
				return
			}
		}
	}
	go read(m, false)
	go read(m2, true)
	out, e, since, here := "", "", "", ""
	end := time.After(60 * time.Second)
	quiet := time.NewTimer(time.Hour)
	waits := 0
	stuck := func() {
		c.late = true
		stuckAtTerminal++
		syscall.Kill(x.Process.Pid, syscall.SIGKILL)
	}
reading:
	for open := 2; ; {
		select {
		case p := <-got:
			if p.out {
				out += p.b
			} else {
				e += p.b
			}
			since += p.b
			here += p.b
			for strings.Contains(here, "\x1b[6n") { // where is the cursor
				here = here[strings.Index(here, "\x1b[6n")+4:]
				m.WriteString("\x1b[1;1R")
			}
			waits = 0
			quiet.Reset(60 * time.Millisecond)
		case <-done:
			if open--; open == 0 {
				for len(got) > 0 {
					if p := <-got; p.out {
						out += p.b
					} else {
						e += p.b
					}
				}
				break reading
			}
		case <-quiet.C: // it works, or waits for an answer
			waits++
			for i, t := range steps {
				if t.expect.MatchString(since) {
					since, steps, waits = "", steps[i+1:], 0
					m.WriteString(t.answer)
					break
				}
			}
			if waits > 100 {
				stuck()
			}
			quiet.Reset(200 * time.Millisecond)
		case <-end:
			stuck()
		}
	}
	x.Wait()
	out, e = strings.ReplaceAll(out, "\r\n", "\n"), strings.ReplaceAll(e, "\r\n", "\n")
	out, e = afterTyping(out, radiogram), afterTyping(e, radiogram)
	if os.Getenv("KV_TERM") != "" {
		fmt.Printf("--- %v %v late=%v left=%d\n%q\n%q\n", args, env, c.late, len(steps), out, e)
	}
	return c.verdict(x, out, e)
}

// atTerminal does something at a terminal, perhaps with a wrong password.
func (c *cli) atTerminal(do func()) {
	c.term = stuckAtTerminal < 3
	keep := c.auth[fMain]
	if keep.pw != "" && c.rng.Intn(6) == 0 {
		c.auth[fMain].pw = "a wrong password"
		c.auth[fMain].key = c.derive("a wrong password", keep.salt)
		do()
		c.auth[fMain] = keep
	} else {
		do()
	}
	c.term, c.steps = false, nil
}

var escape = regexp.MustCompile(`\x1b(\[[0-9;?]*[A-Za-z]|[0-9=>])`)

// afterTyping removes what the editor of the terminal has printed, which
// repeats what was typed.
func afterTyping(s, typed string) string {
	if at := escape.FindAllStringIndex(s, -1); at != nil && typed != "" {
		s = s[at[len(at)-1][1]:]
	}
	if i := strings.LastIndex(s, typed); i >= 0 && typed != "" {
		s = s[i+len(typed):]
	}
	return s
}
