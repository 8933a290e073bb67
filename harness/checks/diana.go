package checks

import (
	"fmt"
	"strings"

	"github.com/sa6mwa/krypto431/diana"
	"verif/kit"
	"verif/ref"
)

// C03. The complete table against the formula of the README; every byte pair;
// every rune pair over the ranges around the letters; every sharing of the
// three pointers; the keyed form over all small keys, outputs and indexes.

type dianaCase struct {
	Part string
	X    int
}

func enumDiana(r *kit.Run, yield func(dianaCase) bool) {
	for x := 0; x < 256; x++ {
		if !yield(dianaCase{"bytes", x}) {
			return
		}
	}
	runes := runeSet()
	for i := range runes {
		if !yield(dianaCase{"runes", i}) {
			return
		}
	}
	for a := 0; a <= 0x10FFFF; a += 0x1000 {
		if !yield(dianaCase{"plane", a}) {
			return
		}
	}
	for n := 0; n <= kit.Pick(r, 6, 10); n++ {
		if !yield(dianaCase{"append", n}) {
			return
		}
	}
	yield(dianaCase{"table", 0})
	yield(dianaCase{"nil", 0})
	yield(dianaCase{"shared", 0})
}

// runeSet: everything that could alias a letter by truncation or sign.
func runeSet() []rune {
	var s []rune
	for v := rune(-300); v <= 700; v++ {
		s = append(s, v)
	}
	for v := rune('A') - 2; v <= 'Z'+2; v++ {
		for _, hi := range []rune{1 << 8, 1 << 9, 1 << 16, 1 << 20, 1 << 24, 1 << 30, -1 << 31, -1 << 8, -1 << 16} {
			s = append(s, v+hi)
		}
	}
	s = append(s, 1<<31-1, -1<<31, 0x10FFFF, 0xFF21, 0xFF3A, 0x212A, 0x130, 0x131, 0x17F)
	return s
}

func isLetter(x rune) bool { return x >= 'A' && x <= 'Z' }

func triByte(x, y byte) error {
	for _, fill := range []byte{0, 'Q', 255} {
		out, a, b := fill, x, y
		err := diana.TrigraphByte(&out, &a, &b)
		if a != x || b != y {
			return kit.Fail("TrigraphByte(%d, %d) changes its input", x, y)
		}
		if isLetter(rune(x)) && isLetter(rune(y)) {
			if err != nil {
				return kit.Fail("TrigraphByte(%c, %c): %v", x, y, err)
			}
			if rune(out) != ref.Third(rune(x), rune(y)) {
				return kit.Fail("TrigraphByte(%c, %c) is %q, the table says %q", x, y, out, ref.Third(rune(x), rune(y)))
			}
			var p byte
			if diana.TrigraphByte(&p, &a, &out) != nil || p != y {
				return kit.Fail("TrigraphByte(%c, %c)=%c does not lead back to %c", x, y, out, y)
			}
			continue
		}
		if err == nil {
			return kit.Fail("TrigraphByte(%d, %d) accepted, result %d", x, y, out)
		}
		if out != fill {
			return kit.Fail("TrigraphByte(%d, %d) failed but wrote %d", x, y, out)
		}
	}
	return nil
}

func triRune(x, y rune) error {
	for _, fill := range []rune{0, 'Q', -7} {
		out, a, b := fill, x, y
		err := diana.TrigraphRune(&out, &a, &b)
		if a != x || b != y {
			return kit.Fail("TrigraphRune(%d, %d) changes its input", x, y)
		}
		if isLetter(x) && isLetter(y) {
			if err != nil {
				return kit.Fail("TrigraphRune(%c, %c): %v", x, y, err)
			}
			if out != ref.Third(x, y) {
				return kit.Fail("TrigraphRune(%c, %c) is %q, the table says %q", x, y, out, ref.Third(x, y))
			}
			continue
		}
		if err == nil {
			return kit.Fail("TrigraphRune(%d, %d) accepted, result %d", x, y, out)
		}
		if out != fill {
			return kit.Fail("TrigraphRune(%d, %d) failed but wrote %d", x, y, out)
		}
	}
	return nil
}

func execDiana(r *kit.Run, c dianaCase) error {
	switch c.Part {
	case "bytes":
		for y := 0; y < 256; y++ {
			if err := triByte(byte(c.X), byte(y)); err != nil {
				return err
			}
			r.Step(1)
		}
		b := byte(c.X)
		var o byte = 3
		err := diana.ZeroKeyByte(&o, &b)
		if isLetter(rune(b)) != (err == nil) {
			return kit.Fail("ZeroKeyByte(%d): %v", b, err)
		}
		if err != nil && o != 3 {
			return kit.Fail("ZeroKeyByte(%d) failed but wrote %d", b, o)
		}
		if err == nil {
			var p byte
			if diana.TrigraphByte(&p, &b, &o) != nil || p != b {
				return kit.Fail("ZeroKeyByte(%c)=%c is not the key that leaves the letter as it is", b, o)
			}
		}
		r.StateOf("b", c.X)
	case "runes":
		s := runeSet()
		x := s[c.X]
		for _, y := range s {
			if err := triRune(x, y); err != nil {
				return err
			}
			r.Step(1)
		}
		var o rune = 3
		err := diana.ZeroKeyRune(&o, &x)
		if isLetter(x) != (err == nil) {
			return kit.Fail("ZeroKeyRune(%d): %v", x, err)
		}
		if err != nil && o != 3 {
			return kit.Fail("ZeroKeyRune(%d) failed but wrote %d", x, o)
		}
		if err == nil {
			var p rune
			if diana.TrigraphRune(&p, &x, &o) != nil || p != x {
				return kit.Fail("ZeroKeyRune(%c)=%c is not the key that leaves the letter as it is", x, o)
			}
		}
		r.StateOf("r", c.X)
	case "plane":
		for v := rune(c.X); v < rune(c.X)+0x1000 && v <= 0x10FFFF; v++ {
			for _, l := range []rune{'A', 'M', 'Z'} {
				if err := triRune(v, l); err != nil {
					return err
				}
				if err := triRune(l, v); err != nil {
					return err
				}
			}
			r.Step(2)
		}
		r.StateOf("p", c.X)
	case "append":
		chars := []byte{'A', 'M', 'Z', '@', '[', 'a', 0, 255}
		keyLen := c.X
		for bad := -1; bad < keyLen; bad++ {
			for outLen := 0; outLen <= keyLen+2; outLen++ {
				for idx := -3; idx <= keyLen+3; idx++ {
					for _, ch := range chars {
						for _, spare := range []int{0, 4} {
							if err := appendOnce(r, keyLen, bad, outLen, idx, ch, spare); err != nil {
								return err
							}
						}
					}
				}
			}
		}
		// the whole key in sequence
		key := []byte(string(keyLetters(3, keyLen)))
		var out []byte
		idx := 0
		for i := 0; i < keyLen; i++ {
			ch := byte('A' + (i*7)%26)
			if err := diana.AppendTrigraphByteByKey(&out, &ch, &key, &idx); err != nil {
				return kit.Fail("letter %d of %d: %v", i, keyLen, err)
			}
			if idx != i+1 || len(out) != i+1 || rune(out[i]) != ref.Third(rune(key[i]), rune(ch)) {
				return kit.Fail("letter %d of %d: index %d, output %q", i, keyLen, idx, out)
			}
			r.Step(1)
		}
	case "table":
		return printedTable(r)
	case "nil":
		return nilCases(r)
	case "shared":
		for x := byte('A'); x <= 'Z'; x++ {
			for y := byte('A'); y <= 'Z'; y++ {
				want := byte(ref.Third(rune(x), rune(y)))
				a, b := x, y
				if diana.TrigraphByte(&a, &a, &b) != nil || a != want || b != y {
					return kit.Fail("TrigraphByte(%c, %c) written over its first input gives %c", x, y, a)
				}
				a, b = x, y
				if diana.TrigraphByte(&b, &a, &b) != nil || b != want || a != x {
					return kit.Fail("TrigraphByte(%c, %c) written over its second input gives %c", x, y, b)
				}
				ra, rb := rune(x), rune(y)
				if diana.TrigraphRune(&ra, &ra, &rb) != nil || ra != rune(want) {
					return kit.Fail("TrigraphRune(%c, %c) written over its first input gives %c", x, y, ra)
				}
				ra, rb = rune(x), rune(y)
				if diana.TrigraphRune(&rb, &ra, &rb) != nil || rb != rune(want) {
					return kit.Fail("TrigraphRune(%c, %c) written over its second input gives %c", x, y, rb)
				}
				r.Step(4)
			}
			a := x
			if diana.TrigraphByte(&a, &a, &a) != nil || rune(a) != ref.Third(rune(x), rune(x)) {
				return kit.Fail("TrigraphByte(%c) with one shared pointer gives %c", x, a)
			}
			ra := rune(x)
			if diana.TrigraphRune(&ra, &ra, &ra) != nil || ra != ref.Third(rune(x), rune(x)) {
				return kit.Fail("TrigraphRune(%c) with one shared pointer gives %c", x, ra)
			}
		}
	}
	return nil
}

func appendOnce(r *kit.Run, keyLen, bad, outLen, idx int, ch byte, spare int) error {
	key := []byte(string(keyLetters(keyLen, keyLen)))
	if bad >= 0 {
		key[bad] = '?'
	}
	out := make([]byte, outLen, outLen+spare)
	for i := range out {
		out[i] = byte('a' + i)
	}
	before, kb, c2, i2 := string(out), string(key), ch, idx
	err := diana.AppendTrigraphByteByKey(&out, &c2, &key, &i2)
	r.Step(1)
	if string(key) != kb || c2 != ch {
		return kit.Fail("AppendTrigraphByteByKey changes its input")
	}
	usable := idx >= 0 && idx < keyLen && key[idx] != '?' && isLetter(rune(ch))
	what := fmt.Sprintf("AppendTrigraphByteByKey(output of %d, %q, key of %d, index %d)", outLen, ch, keyLen, idx)
	if err == nil {
		if !usable {
			return kit.Fail("%s accepted", what)
		}
		if i2 != idx+1 || len(out) != outLen+1 || string(out[:outLen]) != before || rune(out[outLen]) != ref.Third(rune(key[idx]), rune(ch)) {
			return kit.Fail("%s gives %q and index %d", what, out, i2)
		}
		r.StateOf(keyLen, outLen, idx)
		return nil
	}
	if usable && idx <= outLen {
		return kit.Fail("%s refused: %v", what, err)
	}
	if string(out) != before || i2 != idx {
		return kit.Fail("%s failed but gives %q and index %d", what, out, i2)
	}
	return nil
}

func printedTable(r *kit.Run) error {
	found := map[rune]int{}
	for _, line := range strings.Split(diana.ReciprocalTable, "\n") {
		f := strings.Fields(line)
		// row: A  ABCDE.. / ZYXWV..; the printed table pairs letters as "Az"
		for _, w := range f {
			rw := []rune(w)
			if len(rw) == 2 && isLetter(rw[0]) && rw[1] >= 'a' && rw[1] <= 'z' {
				col := found[rw[0]]
				found[rw[0]]++
				if want := ref.Third(rw[0], rune('A'+col)); rw[1]-32 != want {
					return kit.Fail("printed table, row %c column %c: %q, the formula gives %q", rw[0], 'A'+col, w, want)
				}
				r.Step(1)
			}
		}
	}
	cells := 0
	for _, n := range found {
		cells += n
	}
	if cells != 676 {
		return kit.Fail("the printed table has %d cells, not 676", cells)
	}
	return nil
}

func nilCases(r *kit.Run) error {
	for mask := 0; mask < 8; mask++ {
		var o, x, y byte = 'Q', 'B', 'C'
		var ro, rx, ry rune = 'Q', 'B', 'C'
		po, px, py := &o, &x, &y
		pro, prx, pry := &ro, &rx, &ry
		if mask&1 != 0 {
			po, pro = nil, nil
		}
		if mask&2 != 0 {
			px, prx = nil, nil
		}
		if mask&4 != 0 {
			py, pry = nil, nil
		}
		e1, e2 := diana.TrigraphByte(po, px, py), diana.TrigraphRune(pro, prx, pry)
		if mask != 0 && (e1 == nil || e2 == nil || o != 'Q' || ro != 'Q') {
			return kit.Fail("nil pointers (mask %d) accepted", mask)
		}
		if mask&4 == 0 {
			e1, e2 = diana.ZeroKeyByte(po, px), diana.ZeroKeyRune(pro, prx)
			if mask != 0 && (e1 == nil || e2 == nil) {
				return kit.Fail("ZeroKey: nil pointers (mask %d) accepted", mask)
			}
		}
		r.Step(4)
	}
	for mask := 1; mask < 16; mask++ {
		out, key := []byte("ab"), []byte("ABC")
		var ch byte = 'B'
		idx := 1
		po, pc, pk, pi := &out, &ch, &key, &idx
		if mask&1 != 0 {
			po = nil
		}
		if mask&2 != 0 {
			pc = nil
		}
		if mask&4 != 0 {
			pk = nil
		}
		if mask&8 != 0 {
			pi = nil
		}
		if diana.AppendTrigraphByteByKey(po, pc, pk, pi) == nil || idx != 1 || string(out) != "ab" {
			return kit.Fail("AppendTrigraphByteByKey: nil pointers (mask %d) accepted", mask)
		}
		r.Step(1)
	}
	// nil slices
	var out, key []byte
	idx := 0
	ch := byte('A')
	if diana.AppendTrigraphByteByKey(&out, &ch, &key, &idx) == nil {
		return kit.Fail("AppendTrigraphByteByKey accepts an empty key")
	}
	return nil
}

func init() {
	kit.Register(&kit.Prop{ID: "C03", Level: "model_checking",
		Bounds:   "all 65536 byte pairs; all pairs of ~1250 runes (-300..700 and every value that could alias a letter by truncation or sign); every code point against three letters on either side; all nil and shared-pointer patterns; keyed form: all key lengths to 6 (10) x damaged positions x output lengths x indexes -3..len+3",
		Families: []*kit.Family{kit.F("table", "complete enumeration of inputs by form", enumDiana, execDiana)}})
}
