package main

import (
	_ "embed"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"time"

	"github.com/sa6mwa/krypto431"
)

// Stores written by the version this work started from (commit 056167a), with
// the contents of fixtureContent. Made with "driver fixtures" built against it.
//
//go:embed fixtures/old1.gob
var oldStore1 []byte

//go:embed fixtures/old2.gob
var oldStore2 []byte

const fixtureKey = "6b65792066696c652073746f72657320746861742061726520766572792e2e2e"

// fixtureContent is what the stores of earlier versions hold.
func fixtureContent(n int, path string) *krypto431.Krypto431 {
	r := rand.New(rand.NewSource(int64(n)))
	k := krypto431.New(krypto431.WithPersistence(path), krypto431.WithPFKString(fixtureKey), krypto431.WithCallSign("SA6MWA"),
		krypto431.WithGroupSize([]int{5, 4}[n-1]), krypto431.WithKeyLength(100), krypto431.WithColumns(90+n), krypto431.WithKeyColumns(40))
	for i := 0; i < 10*n; i++ {
		key := krypto431.Key{Id: []rune(randomLetters(r, k.GroupSize)), Runes: []rune(randomLetters(r, 100)), Used: i%3 == 0, Compromised: i%5 == 1, Comment: []rune(fmt.Sprintf("kommentar åäö %d", i))}
		for x := i % 4; x > 0; x-- {
			key.Keepers = append(key.Keepers, []rune(stationCalls[x-1]))
		}
		key.Created, key.Expires = dtgOf(zoneTime(r)), dtgOf(zoneTime(r))
		key.SetInstance(&k)
		k.Keys = append(k.Keys, key)
	}
	for i := 0; i < 7*n; i++ {
		m := krypto431.Message{Id: []rune(randomLetters(r, 5)), From: []rune("BB"), Recipients: [][]rune{[]rune("SA6MWA"), []rune("AA")}, DTG: dtgOf(zoneTime(r)),
			KeyId: []rune(randomLetters(r, k.GroupSize)), PlainText: []rune(fmt.Sprintf("Text number %d. ÅÄÖ åäö", i)), CipherText: []rune(randomLetters(r, 20)), Radiogram: []rune("raw")}
		if i%4 == 0 {
			m.Binary = []byte{1, 2, 3, byte(i)}
		}
		m.SetInstance(&k)
		k.Messages = append(k.Messages, m)
	}
	return &k
}

// zoneTime is a time with a zone but no odd fields.
func zoneTime(r *rand.Rand) time.Time {
	return time.Unix(1600000000+r.Int63n(4e8), r.Int63n(1e9)).In(zones[r.Intn(len(zones))])
}

func makeFixtures(dir string) {
	for n := 1; n <= 2; n++ {
		k := fixtureContent(n, filepath.Join(dir, fmt.Sprintf("old%d.gob", n)))
		check(k.Save())
	}
}

// runOlder loads stores of earlier versions.
func runOlder(rec *Recorder, seed int64, dir string) {
	for n, b := range [][]byte{oldStore1, oldStore2} {
		s := newStore(rec, newRng(seed), filepath.Join(dir, fmt.Sprintf("o%d", n)), "stores of earlier versions", 1, 1, false)
		check(os.WriteFile(s.paths[0], b, 0600))
		want := fixtureContent(n+1, "x")
		key, _ := hex.DecodeString(fixtureKey)
		s.conts[string(b)] = s.contOf(want)
		s.good[1] = b
		s.emit("older", 0, 1, M{"key": s.keyRef(key), "cont": s.contOf(want)}, nil, false, "")
		s.keys = [][]byte{key, s.keys[0]}
		s.do(StoreCmd{Op: "load", I: 1}) // with the wrong key
		s.do(StoreCmd{Op: "key", I: 1, X: 2})
		s.do(StoreCmd{Op: "load", I: 1})
		s.do(StoreCmd{Op: "change", I: 1})
		s.do(StoreCmd{Op: "load", I: 1})
		s.do(StoreCmd{Op: "change", I: 1})
		s.do(StoreCmd{Op: "save", I: 1})
		s.finish()
	}
}
