package model

import "strings"

var (
	leads   = []rune("ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ")
	medials = []rune("ㅏㅐㅑㅒㅓㅔㅕㅖㅗㅘㅙㅚㅛㅜㅝㅞㅟㅠㅡㅢㅣ")
	tails   = []rune("\x00ㄱㄲㄳㄴㄵㄶㄷㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅄㅅㅆㅇㅈㅊㅋㅌㅍㅎ")
)

// Leads, Medials and Tails are the Jamos in each position.
func Leads() []rune   { return leads }
func Medials() []rune { return medials }
func Tails() []rune   { return tails[1:] }

func index(rs []rune, r rune) int {
	for i, x := range rs {
		if x == r {
			return i
		}
	}
	return -1
}

// Syllable composes a syllable; tail may be zero.
func Syllable(lead, medial, tail rune) rune {
	l, m, t := index(leads, lead), index(medials, medial), 0
	if tail != 0 {
		t = index(tails, tail)
	}
	if l < 0 || m < 0 || t < 0 {
		return 0xFFFD
	}
	return rune(0xAC00 + (l*21+m)*28 + t)
}

// Compose converts a sequence of Jamos to syllables. A hyphen before a Jaeum
// means a tail; hyphens themselves disappear.
func Compose(w string) string {
	const (
		pLead = iota
		pMedial
		pTail
	)
	var (
		out  strings.Builder
		syl  [3]rune
		used bool
		last int
	)
	flush := func() {
		if used {
			if syl[0] == 0 {
				syl[0] = 'ㅇ'
			}
			if syl[1] == 0 {
				syl[1] = 'ㅡ'
			}
			out.WriteRune(Syllable(syl[0], syl[1], syl[2]))
		}
		syl, used = [3]rune{}, false
	}
	put := func(pos int, r rune) {
		if used && pos <= last {
			flush()
		}
		syl[pos], used, last = r, true, pos
	}
	hyphen := false
	for _, r := range w {
		if r == '-' {
			hyphen = true
			continue
		}
		switch {
		case r >= 0xAC00 && r <= 0xD7A3:
			flush()
			n := int(r - 0xAC00)
			syl = [3]rune{leads[n/28/21], medials[n/28%21], tails[n%28]}
			used, last = true, pMedial
			if n%28 != 0 {
				last = pTail
			}
		case index(medials, r) >= 0:
			put(pMedial, r)
		case r >= 'ㄱ' && r <= 'ㅎ' && hyphen:
			put(pTail, r)
		case r >= 'ㄱ' && r <= 'ㅎ':
			put(pLead, r)
		default:
			flush()
			out.WriteRune(r)
		}
		hyphen = false
	}
	flush()
	return out.String()
}
