package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"time"

	"github.com/sa6mwa/dtg"
	"github.com/sa6mwa/krypto431"
)

// Recorder collects what the implementation did in the form that the trace
// specifications read: strings, keys, messages and states are interned and
// referred to by their index from 1. 0 means none.
type Recorder struct {
	Strs   [][]int    `json:"strs"`
	Keys   []KeyRec   `json:"keys"`
	Msgs   []MsgRec   `json:"msgs"`
	States []StateRec `json:"states"`
	Traces []Trace    `json:"traces"`

	idx map[string]int
}

type KeyRec struct {
	Id      int   `json:"id"`
	Runes   int   `json:"runes"`
	Keepers []int `json:"keepers"`
	Used    bool  `json:"used"`
	Comp    bool  `json:"comp"`
	Cre     int   `json:"cre"`
	Exp     int   `json:"exp"`
	Expm    int   `json:"expm"`
	Cmt     int   `json:"cmt"`
}

type MsgRec struct {
	Id   int   `json:"id"`
	Rcpt []int `json:"rcpt"`
	From int   `json:"from"`
	Dtg  int   `json:"dtg"`
	Dtgs int   `json:"dtgs"`
	Kid  int   `json:"kid"`
	Pt   int   `json:"pt"`
	Ct   int   `json:"ct"`
	Bin  int   `json:"bin"`
	Rg   int   `json:"rg"`
}

type StateRec struct {
	Call  int   `json:"call"`
	Gs    int   `json:"gs"`
	Kl    int   `json:"kl"`
	Cols  int   `json:"cols"`
	Kcols int   `json:"kcols"`
	Keys  []int `json:"keys"`
	Msgs  []int `json:"msgs"`
}

type M map[string]any

type Event struct {
	Op   string `json:"op"`
	S    int    `json:"s"`
	A    M      `json:"a"`
	R    M      `json:"r"`
	Post []int  `json:"post"`
}

type Trace struct {
	Name   string  `json:"name"`
	Init   []int   `json:"init"`
	Events []Event `json:"events"`
}

func NewRecorder() *Recorder {
	return &Recorder{idx: map[string]int{}, Strs: [][]int{}, Keys: []KeyRec{}, Msgs: []MsgRec{}, States: []StateRec{}, Traces: []Trace{}}
}

func (r *Recorder) intern(kind string, v any, add func() int) int {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	k := kind + string(b)
	if i, ok := r.idx[k]; ok {
		return i
	}
	i := add()
	r.idx[k] = i
	return i
}

func (r *Recorder) Ints(v []int) int {
	if v == nil {
		v = []int{}
	}
	return r.intern("s", v, func() int { r.Strs = append(r.Strs, v); return len(r.Strs) })
}

// Runes interns text. Runes that are not code points are kept as they are.
func (r *Recorder) Runes(s []rune) int {
	v := make([]int, len(s))
	for i := range s {
		v[i] = int(s[i])
	}
	return r.Ints(v)
}
func (r *Recorder) Str(s string) int { return r.Runes([]rune(s)) }
func (r *Recorder) Bytes(s []byte) int {
	v := make([]int, len(s))
	for i := range s {
		v[i] = int(s[i])
	}
	return r.Ints(v)
}
func (r *Recorder) RuneList(s [][]rune) []int {
	v := make([]int, 0, len(s))
	for i := range s {
		v = append(v, r.Runes(s[i]))
	}
	return v
}
func (r *Recorder) StrList(s []string) []int {
	v := make([]int, 0, len(s))
	for i := range s {
		v = append(v, r.Str(s[i]))
	}
	return v
}

func timeString(t time.Time) string {
	_, off := t.Zone()
	return fmt.Sprintf("%d.%09d%+d", t.Unix(), t.Nanosecond(), off)
}

func minutes(t time.Time) int { return int(t.Unix() / 60) }

func (r *Recorder) Key(k *krypto431.Key) int {
	rec := KeyRec{
		Id: r.Runes(k.Id), Runes: r.Runes(k.Runes), Keepers: r.RuneList(k.Keepers),
		Used: k.Used, Comp: k.Compromised,
		Cre: r.Str(timeString(k.Created.Time)), Exp: r.Str(timeString(k.Expires.Time)),
		Expm: minutes(k.Expires.Time), Cmt: r.Runes(k.Comment),
	}
	return r.intern("k", rec, func() int { r.Keys = append(r.Keys, rec); return len(r.Keys) })
}

func (r *Recorder) Msg(m *krypto431.Message) int {
	rec := MsgRec{
		Id: r.Runes(m.Id), Rcpt: r.RuneList(m.Recipients), From: r.Runes(m.From),
		Dtg: r.Str(timeString(m.DTG.Time)), Dtgs: r.Str(m.DTG.String()),
		Kid: r.Runes(m.KeyId), Pt: r.Runes(m.PlainText), Ct: r.Runes(m.CipherText),
		Bin: r.Bytes(m.Binary), Rg: r.Runes(m.Radiogram),
	}
	return r.intern("m", rec, func() int { r.Msgs = append(r.Msgs, rec); return len(r.Msgs) })
}

func (r *Recorder) State(k *krypto431.Krypto431) int {
	rec := StateRec{Call: r.Runes(k.CallSign), Gs: k.GroupSize, Kl: k.KeyLength, Cols: k.Columns, Kcols: k.KeyColumns, Keys: []int{}, Msgs: []int{}}
	for i := range k.Keys {
		rec.Keys = append(rec.Keys, r.Key(&k.Keys[i]))
	}
	for i := range k.Messages {
		rec.Msgs = append(rec.Msgs, r.Msg(&k.Messages[i]))
	}
	return r.intern("t", rec, func() int { r.States = append(r.States, rec); return len(r.States) })
}

func (r *Recorder) Write(path string) {
	f, err := os.Create(path)
	check(err)
	check(json.NewEncoder(f).Encode(r))
	check(f.Close())
}

func check(err error) {
	if err != nil {
		fmt.Fprintf(os.Stdout, "DRIVER-ERROR %v\n", err)
		os.Exit(3)
	}
}

// guarded runs f and reports whether it panicked or did not return in time.
func guarded(f func()) (panicked bool, what string) {
	type res struct {
		p bool
		w string
	}
	c := make(chan res, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				c <- res{true, fmt.Sprint(e)}
				return
			}
		}()
		f()
		c <- res{false, ""}
	}()
	select {
	case r := <-c:
		return r.p, r.w
	case <-time.After(45 * time.Second):
		// Nothing can be said about the state now, the check ends here.
		b := make([]byte, 1<<20)
		b = b[:runtime.Stack(b, true)]
		f, err := os.Create(filepath.Join(startDir, "hang"))
		if err == nil {
			f.Write(b)
			f.Close()
		}
		os.Exit(4)
		return true, "does not return"
	}
}

// The directory the driver was started with.
var startDir string

func dtgOf(t time.Time) dtg.DTG { return dtg.DTG{Time: t} }
