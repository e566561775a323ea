package main

import "github.com/sa6mwa/krypto431"

// refChain follows the key changes of enciphered traffic. It only tells the
// driver which keys a message used, to know where it can be read; whether the
// traffic is right is judged by the specification.
func refChain(k *krypto431.Krypto431, id string, ct []rune) (chain []string) {
	keys := map[string][]rune{}
	for i := range k.Keys {
		keys[string(k.Keys[i].Id)] = k.Keys[i].Runes
	}
	gs := k.GroupSize
	chain = []string{id}
	key, ki, tb, inkey := keys[id], 0, 1, ""
	changing := false
	for _, c := range ct {
		if ki >= len(key) {
			return
		}
		l := (25-(key[ki]-'A')-(c-'A')+52)%26 + 'A'
		ki++
		if changing {
			inkey += string(l)
			if len(inkey) == gs {
				chain = append(chain, inkey)
				key, ki, tb, changing, inkey = keys[inkey], 0, 1, false, ""
			}
			continue
		}
		switch {
		case l == 'Z':
			tb = 3 - tb
		case tb == 2 && l == 'Y':
			changing = true
		}
	}
	return
}
