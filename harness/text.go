package main

import (
	"math/rand"
	"regexp"
	"strings"
	"unicode"
)

const upperPlain = "ABCDEFGHIJKLMNOPQRSTUVWXYZÅÄÖ"
const lowerPlain = "abcdefghijklmnopqrstuvwxyzåäö"
const otherPlain = "0123456789?-.,:+/ "
const primaryUpper = "ABCDEFGHIJKLMNOPRSTUVWXY"
const secondaryUpper = "QZÅÄÖ"

// Characters no version of the program supports, among them some that upper or
// lower case to supported ones.
var unsupportedRunes = []rune("!#=\"'()_@éüñıſKÅ漢😀\u00a0ß¤&%*;<>[]{}~^|\\$\t\u0001\uFFFD")

// letters returns how many letters the text takes when coded in one piece. Only
// used to aim at interesting lengths.
func letters(text []rune) int {
	n, tb, sh := 0, 1, false
	for _, c := range text {
		up, lo := unicode.IsUpper(c), unicode.IsLower(c)
		if (up && sh) || (lo && !sh) {
			if tb == 1 {
				n++
			}
			n++
			tb = 2
			sh = !sh
		}
		t := 2
		if strings.ContainsRune(primaryUpper+" ", unicode.ToUpper(c)) {
			t = 1
		}
		if t != tb {
			n++
			tb = t
		}
		n++
	}
	return n
}

func pick(r *rand.Rand, s string) rune { x := []rune(s); return x[r.Intn(len(x))] }

// randomText makes text of about want coded letters in one of several styles.
func randomText(r *rand.Rand, want int) []rune {
	style := r.Intn(8)
	var t []rune
	for len(t) < 1 || letters(t) < want {
		if len(t) > 6000 {
			break
		}
		n := len(t)
		switch style {
		case 0: // upper case only
			t = append(t, pick(r, primaryUpper+primaryUpper+" "))
		case 1: // everything
			t = append(t, pick(r, upperPlain+lowerPlain+otherPlain))
		case 2: // alternating tables
			if n%2 == 0 {
				t = append(t, pick(r, primaryUpper))
			} else {
				t = append(t, pick(r, "0123456789Z?.,"))
			}
		case 3: // alternating case in the primary table, most letters per character
			if n%2 == 0 {
				t = append(t, unicode.ToLower(pick(r, primaryUpper)))
			} else {
				t = append(t, pick(r, primaryUpper))
			}
		case 4: // words
			w := 1 + r.Intn(7)
			lower := r.Intn(2) == 0
			for i := 0; i < w; i++ {
				c := pick(r, upperPlain)
				if lower {
					c = unicode.ToLower(c)
				}
				t = append(t, c)
			}
			t = append(t, ' ')
		case 5: // runs in one table with rare changes
			set := primaryUpper
			if r.Intn(2) == 0 {
				set = "0123456789" + secondaryUpper
			}
			for i := 0; i < 1+r.Intn(9); i++ {
				t = append(t, pick(r, set))
			}
		case 6: // secondary table, alternating case
			if n%2 == 0 {
				t = append(t, pick(r, "åäöqz"))
			} else {
				t = append(t, pick(r, "ÅÄÖQZ"))
			}
		case 7: // cipher-like groups
			for i := 0; i < 5; i++ {
				t = append(t, pick(r, upperPlain[:26]))
			}
			t = append(t, ' ')
		}
	}
	// Aim exactly: cut characters that overshoot.
	for len(t) > 1 && letters(t) > want {
		t = t[:len(t)-1]
	}
	return t
}

var (
	reDE    = regexp.MustCompile(`(?i)(^|\s)DE(\s|$)`)
	reTrail = regexp.MustCompile(`(?i)(\s[K+]|\+|=|\[AR\])\s*$`)
)

// radiogramText makes text that keeps its meaning in a radiogram "TEXT = K": no
// space at the ends, nothing that looks like the end or the sender of one.
func radiogramText(r *rand.Rand, want int) []rune {
	for {
		t := []rune(strings.TrimSpace(string(randomText(r, want))))
		for len(t) > 0 && (t[len(t)-1] == '+' || t[len(t)-1] == ' ') {
			t = t[:len(t)-1]
		}
		s := string(t)
		if len(t) == 0 || reDE.MatchString(s) || reTrail.MatchString(s) || strings.ContainsRune(s, '=') {
			if want < 3 {
				want = 3
			}
			continue
		}
		return t
	}
}
