// Package ref is the reference model: the documented pen-and-paper procedure
// written from README.md and the printed coding legend, sharing nothing with
// the implementation.
package ref

import "fmt"

const (
	CT1 = "ABCDEFGHIJKLMNOP RSTUVWXY" // column Z switches table
	CT2 = "0123456789?-ÅÄÖ.Q,Z:+/"    // W binary, X case, Y change key, Z switches table
)

var (
	ct1, ct2 = []rune(CT1), []rune(CT2)
	// Alphabet is every character that can be coded.
	Alphabet []rune
)

func init() {
	for c := 'A'; c <= 'Z'; c++ {
		Alphabet = append(Alphabet, c)
	}
	for c := 'a'; c <= 'z'; c++ {
		Alphabet = append(Alphabet, c)
	}
	Alphabet = append(Alphabet, []rune("ÅÄÖåäö0123456789 ?-.,:+/")...)
}

func Supported(c rune) bool {
	for _, a := range Alphabet {
		if a == c {
			return true
		}
	}
	return false
}

// Third letter of the trigraph: (25 - x - y) mod 26.
func Third(x, y rune) rune {
	v := (25 - int(x-'A') - int(y-'A')) % 26
	if v < 0 {
		v += 26
	}
	return rune('A' + v)
}

func lower(c rune) rune {
	switch {
	case c >= 'A' && c <= 'Z':
		return c + 32
	case c == 'Å':
		return 'å'
	case c == 'Ä':
		return 'ä'
	case c == 'Ö':
		return 'ö'
	}
	return c
}

// Table column of a capital letter or figure; table is 0 or 1.
func Column(c rune) (table int, col rune, ok bool) {
	for i, x := range ct1 {
		if x == c {
			return 0, rune('A' + i), true
		}
	}
	for i, x := range ct2 {
		if x == c {
			return 1, rune('A' + i), true
		}
	}
	return 0, 0, false
}

// Segment is what was written with one key.
type Segment struct {
	KeyID   string
	Letters int // key letters consumed
}

// Trace observes each decoding step: letter position in key, table, case.
type Trace func(pos, table int, lowercase bool)

// Decode deciphers cipher by hand, starting with the first letter of key
// start. keys returns the letters of a key.
func Decode(cipher []rune, start string, groupSize int, keys func(id string) ([]rune, bool), tr Trace) (plain []rune, segs []Segment, err error) {
	key, ok := keys(start)
	if !ok {
		return nil, nil, fmt.Errorf("no key %q", start)
	}
	seg := Segment{KeyID: start}
	table, low := 0, false
	var next []rune
	changing := false
	for i, c := range cipher {
		if c < 'A' || c > 'Z' {
			return plain, nil, fmt.Errorf("cipher letter %d is %q", i, c)
		}
		if seg.Letters >= len(key) {
			return plain, nil, fmt.Errorf("key %s has only %d letters, letter %d is needed", seg.KeyID, len(key), seg.Letters+1)
		}
		if key[seg.Letters] < 'A' || key[seg.Letters] > 'Z' {
			return plain, nil, fmt.Errorf("letter %d of key %s is %q", seg.Letters, seg.KeyID, key[seg.Letters])
		}
		if tr != nil {
			tr(seg.Letters, table, low)
		}
		e := Third(key[seg.Letters], c)
		seg.Letters++
		if changing {
			next = append(next, e)
			if len(next) == groupSize {
				segs = append(segs, seg)
				id := string(next)
				key, ok = keys(id)
				if !ok {
					return plain, segs, fmt.Errorf("no key %q to change to", id)
				}
				seg = Segment{KeyID: id}
				table, low, changing, next = 0, false, false, nil
			}
			continue
		}
		if e == 'Z' {
			table = 1 - table
			continue
		}
		if table == 0 {
			ch := ct1[e-'A']
			if low {
				ch = lower(ch)
			}
			plain = append(plain, ch)
			continue
		}
		switch e {
		case 'W':
			return plain, nil, fmt.Errorf("binary mode at letter %d", i)
		case 'X':
			low = !low
		case 'Y':
			changing = true
		default:
			ch := ct2[e-'A']
			if low {
				ch = lower(ch)
			}
			plain = append(plain, ch)
		}
	}
	segs = append(segs, seg)
	if changing {
		return plain, segs, fmt.Errorf("text ends inside a key change")
	}
	return plain, segs, nil
}

// Cost of coding a text with one key, written the straightforward way:
// switch table only when needed, toggle case only when needed.
func Cost(text []rune) int {
	n, table, low := 0, 0, false
	for _, c := range text {
		up, isLow, isUp := Upper(c)
		if (isLow && !low) || (isUp && low) {
			if table == 0 {
				n++
				table = 1
			}
			n++
			low = !low
		}
		t, _, _ := Column(up)
		if t != table {
			n++
			table = t
		}
		n++
	}
	return n
}

// Upper gives the capital of a supported character and its case.
func Upper(c rune) (up rune, isLower, isUpper bool) {
	switch {
	case c >= 'a' && c <= 'z':
		return c - 32, true, false
	case c == 'å':
		return 'Å', true, false
	case c == 'ä':
		return 'Ä', true, false
	case c == 'ö':
		return 'Ö', true, false
	case c >= 'A' && c <= 'Z', c == 'Å', c == 'Ä', c == 'Ö':
		return c, false, true
	}
	return c, false, false
}

// Encode is a straightforward hand encoder: code letters for text with one key.
func Encode(text []rune) []rune {
	var out []rune
	table, low := 0, false
	for _, c := range text {
		up, isLow, isUp := Upper(c)
		if (isLow && !low) || (isUp && low) {
			if table == 0 {
				out = append(out, 'Z')
				table = 1
			}
			out = append(out, 'X')
			low = !low
		}
		t, col, ok := Column(up)
		if !ok {
			panic("ref.Encode: unsupported character")
		}
		if t != table {
			out = append(out, 'Z')
			table = t
		}
		out = append(out, col)
	}
	return out
}
