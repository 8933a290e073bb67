package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/sa6mwa/krypto431"
	"verif/kit"
)

const pfkHex = "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f"
const pfkHex2 = "ff0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f"

// storeAt binds an instance to a file and a key.
func storeAt(k *K, file string) *K {
	kit.Must(k.SetPFKFromString(pfkHex))
	k.SetPersistence(file)
	return k
}

// saveTo saves k as file, replacing it.
func saveTo(k *K, file string) error {
	storeAt(k, file)
	os.Remove(file)
	return k.Save()
}

func loadFrom(file string) (*K, error) {
	k := blank(5, 350, "")
	storeAt(k, file)
	return k, k.Load()
}

// ---------------------------------------------------------------- C10

var zones = []*time.Location{time.UTC, time.FixedZone("A", 3600), time.FixedZone("", -12*3600), time.FixedZone("E*", 5*3600+1800)}

const keyVariants = 10

func variantKey(k *K, i, v int) Key {
	id := keyID(i*77+v, k.GroupSize)
	key := mkKey(id, keyLetters(i+v*31, 40))
	switch v {
	case 1:
		key.Keepers = runes2([]string{"BB", "CC"})
		key.Used = true
		key.Comment = []rune("hemlig åäö ☃ \U0001F511\nrad två")
	case 2:
		key.Compromised = true
		key.Created.Time = time.Date(2031, 12, 31, 23, 59, 59, 999999999, zones[1])
		key.Expires.Time = time.Date(2001, 1, 1, 0, 0, 0, 0, zones[2])
	case 3:
		key.Keepers = runes2([]string{"SM5XYZ/P"})
		key.Created.Time = time.Time{}
		key.Expires.Time = time.Time{}
	case 4:
		key.Runes = nil
		key.Used, key.Compromised = true, true
	case 5:
		key.Runes = keyLetters(i, 3000)
		key.Keepers = runes2([]string{"AA", "BB", "CC", "DD", "EE", "FF", "GG", "HH"})
	case 6:
		key.Created.Time = time.Now() // carries a monotonic reading
		key.Expires.Time = time.Now().In(zones[3]).Add(time.Hour)
	case 7:
		key.Keepers = [][]rune{{}, []rune("X")}
		key.Comment = []rune{0, 1, 0x10FFFF}
	case 8:
		key.Id = keyLetters(i, 7) // another group size, e.g. imported
	case 9:
		key.Id = nil
	}
	return key
}

const msgVariants = 7

func variantMsg(k *K, i, v int) Msg {
	m := Msg{Id: []rune(fmt.Sprintf("m%03d", i*10+v)), From: []rune("AA"), PlainText: []rune("HELLO")}
	m.DTG.Time = day0
	switch v {
	case 1:
		m.Recipients = runes2([]string{"BB", "CC"})
		m.KeyId = []rune("ABCDE")
		m.CipherText = keyLetters(i, 50)
		m.Radiogram = []rune("BB CC DE AA 010203 = HELLO = K")
	case 2:
		m.DTG.Time = time.Date(2031, 12, 31, 23, 59, 59, 0, zones[1])
		m.PlainText = []rune("Å i åa ä e ö\r\n\t☃\x00")
		m.Binary = []byte{0, 1, 255, 0}
	case 3:
		m.PlainText = []rune(patternText("Hej du glade ", 9000))
	case 4:
		m = Msg{}
	case 5:
		m.DTG.Time = time.Now().In(zones[2])
		m.Recipients = [][]rune{{}}
		m.Binary = bytes.Repeat([]byte{7}, 3000)
	case 6:
		m.Radiogram = []rune(patternText("DE XX ÅÄÖ ", 400))
		m.KeyId = nil
		m.CipherText = keyLetters(i, 4000)
	}
	return m
}

var settings = []struct {
	gs, kl, col, kcol int
	call              string
}{
	{5, 350, 80, 59, "AA"},
	{1, 20, 40, 1, "SM5XYZ/P"},
	{9, 10000, 500, 300, "ÅÄÖ"},
	{0, 0, 0, 0, ""},
}

// stores that an instance may hold before it loads
const dirtyKinds = 6

func dirty(n int) *K {
	switch n {
	case 0:
		return fresh()
	case 1:
		return blank(5, 350, "")
	case 2:
		k := blank(3, 77, "OLD")
		k.Columns, k.KeyColumns = 123, 45
		for i := 0; i < 5; i++ {
			key := variantKey(k, i, 1)
			key.Compromised = true
			addKey(k, key)
			m := variantMsg(k, i, 1)
			m.Binary = []byte("old")
			m.SetInstance(k)
			k.Messages = append(k.Messages, m)
		}
		return k
	case 3:
		k := fresh(krypto431.WithCallSign("OLD"), krypto431.WithGroupSize(7), krypto431.WithKeyLength(99))
		k.GenerateKeys(2, nil, "QQ")
		return k
	case 4: // spare capacity holding old items
		k := blank(5, 350, "OLD")
		for i := 0; i < 4; i++ {
			addKey(k, variantKey(k, i, 5))
			k.Messages = append(k.Messages, variantMsg(k, i, 2))
		}
		k.Keys, k.Messages = k.Keys[:0], k.Messages[:0]
		return k
	}
	k := blank(5, 350, "OLD")
	k.Keys, k.Messages = make([]Key, 3, 9), make([]Msg, 2, 9)
	for i := range k.Keys {
		k.Keys[i] = variantKey(k, i, 2)
		k.Keys[i].Used = true
	}
	return k
}

type saveCase struct {
	Set, Dirty int
	Keys, Msgs []int
	Pad        int // extra random letters, to move through every file size
	Ops        int // 1: use the store before saving, 2: load twice, 3: save twice
}

func enumSaves(r *kit.Run, yield func(saveCase) bool) {
	// every pair of key variants, every pair of message variants, everywhere
	for d := 0; d < dirtyKinds; d++ {
		for s := range settings {
			if !sequences(keyVariants, 0, kit.Pick(r, 2, 3), func(ks []int) bool {
				ops := (len(ks) + d) % 4
				return yield(saveCase{Set: s, Dirty: d, Keys: append([]int(nil), ks...), Msgs: []int{1}, Ops: ops})
			}) {
				return
			}
			if !sequences(msgVariants, 0, kit.Pick(r, 2, 3), func(ms []int) bool {
				ops := (len(ms) + d + 1) % 4
				return yield(saveCase{Set: s, Dirty: d, Keys: []int{0}, Msgs: append([]int(nil), ms...), Ops: ops})
			}) {
				return
			}
		}
	}
	// file sizes: every size over two gzip output buffers and around the
	// stream's 64 KiB chunk
	top := kit.Pick(r, 700, 1500)
	for p := 0; p < top; p++ {
		if !yield(saveCase{Dirty: p % dirtyKinds, Keys: []int{0, 1}, Msgs: []int{1}, Pad: p}) {
			return
		}
	}
	for p := 0; p < kit.Pick(r, 200, 600); p++ {
		if !yield(saveCase{Dirty: p % dirtyKinds, Keys: []int{0}, Pad: 50000 + p*7}) {
			return
		}
		if !yield(saveCase{Dirty: p % dirtyKinds, Keys: []int{0}, Pad: 105000 + p*7}) {
			return
		}
	}
	// many items
	for _, n := range []int{1, 2, 3, 15, 16, 17, 63, 64, 65, 255, 256, 257, 700, 2000} {
		c := saveCase{Dirty: n % dirtyKinds}
		for i := 0; i < n; i++ {
			c.Keys = append(c.Keys, i%8)
			if i%3 == 0 {
				c.Msgs = append(c.Msgs, i%3)
			}
		}
		if !yield(c) {
			return
		}
	}
}

func (c saveCase) build() *K {
	s := settings[c.Set]
	k := blank(s.gs, s.kl, s.call)
	k.Columns, k.KeyColumns = s.col, s.kcol
	for i, v := range c.Keys {
		addKey(k, variantKey(k, i, v))
	}
	for i, v := range c.Msgs {
		m := variantMsg(k, i, v)
		m.SetInstance(k)
		k.Messages = append(k.Messages, m)
	}
	if c.Pad > 0 && len(k.Keys) > 0 {
		k.Keys[0].Runes = keyLetters(c.Pad, c.Pad)
	}
	return k
}

func execSave(r *kit.Run, c saveCase) error {
	k := c.build()
	file := filepath.Join(r.Scratch, "store")
	if c.Ops == 1 && c.Set < 2 {
		k.GroupSize = 5
		addKey(k, mkKey("QWERT", keyLetters(9, 350), "ZZ"))
		if _, err := k.NewTextMessage("ZZ DE " + string(k.CallSign) + " 010203 = HEJ DU = K"); err != nil {
			return kit.Fail("can not encipher: %v", err)
		}
		k.NewKey(farFuture, "QQ", "RR")
	}
	want := storeSnap(k)
	if err := saveTo(k, file); err != nil {
		return kit.Fail("saving failed: %v", err)
	}
	if d := diff(want, storeSnap(k)); d != "" {
		return kit.Fail("saving changed the instance: %s", d)
	}
	if c.Ops == 3 {
		if err := saveTo(k, file); err != nil {
			return kit.Fail("saving again failed: %v", err)
		}
	}
	n := dirty(c.Dirty)
	storeAt(n, file)
	times := 1
	if c.Ops == 2 {
		times = 2
	}
	for i := 0; i < times; i++ {
		if err := n.Load(); err != nil {
			return kit.Fail("a saved store does not load: %v", err)
		}
	}
	r.Step(2)
	r.StateOf(fmt.Sprint(c))
	if d := diff(want, storeSnap(n)); d != "" {
		return kit.Fail("loaded into %d: the store is not what was saved: %s", c.Dirty, d)
	}
	if n.GetPFKString() != pfkHex || n.GetPersistence() != file {
		return kit.Fail("loading changed the key or the file name of the instance")
	}
	for i := range n.Keys {
		if n.Keys[i].GetInstance() != n {
			return kit.Fail("loaded key %d does not belong to the instance", i)
		}
		for _, z := range []func() string{func() string { return n.Keys[i].Created.String() }, func() string { return n.Keys[i].Expires.String() }} {
			_ = z()
		}
		if n.Keys[i].Created.String() != k.Keys[i].Created.String() || n.Keys[i].Expires.String() != k.Keys[i].Expires.String() {
			return kit.Fail("key %d shows other dates after loading", i)
		}
	}
	for i := range n.Messages {
		if n.Messages[i].GetInstance() != n {
			return kit.Fail("loaded message %d does not belong to the instance", i)
		}
		if n.Messages[i].DTG.String() != k.Messages[i].DTG.String() {
			return kit.Fail("message %d shows another date after loading", i)
		}
	}
	// used at once, and what was loaded can be saved over its own file
	if n.GroupSize == 5 {
		addKey(n, mkKey("ZXCVB", keyLetters(8, 350), "ZZ"))
		m := newMsg(n, "Hej", "ZZ")
		if err := m.Encipher(); err != nil {
			return kit.Fail("the loaded store can not encipher: %v", err)
		}
		m2 := &Msg{KeyId: cp(m.KeyId), CipherText: cp(m.CipherText)}
		m2.SetInstance(n)
		if err := m2.Decipher(); err != nil || string(m2.PlainText) != "Hej" {
			return kit.Fail("the loaded store can not decipher: %v", err)
		}
	}
	want = storeSnap(n)
	if err := n.Save(); err != nil {
		return kit.Fail("the loaded store can not be saved over its own file: %v", err)
	}
	x, err := loadFrom(file)
	if err != nil {
		return kit.Fail("the store saved again does not load: %v", err)
	}
	if d := diff(want, storeSnap(x)); d != "" {
		return kit.Fail("the store saved again is not what was saved: %s", d)
	}
	r.Step(2)
	return nil
}

// ---------------------------------------------------------------- C13

type damageCase struct {
	Store int
	Kind  string
	Pos   int
	Arg   int
}

var damageStores = []func() (*K, *K){
	// two versions of one store each
	func() (*K, *K) {
		a := blank(5, 350, "AA")
		addKey(a, mkKey("ABCDE", keyLetters(1, 20), "BB"))
		b := blank(5, 350, "AA")
		addKey(b, mkKey("ABCDE", keyLetters(1, 20), "BB"))
		b.Keys[0].Used = true
		return a, b
	},
	func() (*K, *K) { // same letters, other order: blocks of equal shape
		mk := func(x, y int) *K {
			k := blank(5, 350, "AA")
			addKey(k, mkKey("ABCDE", keyLetters(x, 350), "BB"))
			addKey(k, mkKey("ABCDF", keyLetters(y, 350), "BB"))
			m := variantMsg(k, 1, 1)
			m.SetInstance(k)
			k.Messages = append(k.Messages, m)
			return k
		}
		return mk(1, 2), mk(2, 1)
	},
	func() (*K, *K) { // texts made of the same letters in another order
		mk := func(rev bool) *K {
			k := blank(5, 350, "AA")
			l := keyLetters(5, 1500)
			if rev {
				for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
					l[i], l[j] = l[j], l[i]
				}
			}
			addKey(k, mkKey("ABCDE", l, "BB"))
			return k
		}
		return mk(false), mk(true)
	},
	func() (*K, *K) { // larger
		mk := func(n int) *K {
			k := blank(5, 350, "AA")
			for i := 0; i < n; i++ {
				addKey(k, variantKey(k, i, i%4))
				m := variantMsg(k, i, i%3)
				m.SetInstance(k)
				k.Messages = append(k.Messages, m)
			}
			return k
		}
		return mk(8), mk(9)
	},
}

type damageFiles struct {
	a, b         []byte
	chA, chB     [][]byte
	snapA, snapB string
}

var damageCache = map[int]*damageFiles{}

func chunksOf(b []byte) [][]byte {
	var o [][]byte
	for len(b) >= 4 {
		n := 4 + (int(b[0]) | int(b[1])<<8 | int(b[2])<<16 | int(b[3])<<24)
		if n > len(b) || n < 4 {
			break
		}
		o = append(o, b[:n])
		b = b[n:]
	}
	if len(b) > 0 {
		o = append(o, b)
	}
	return o
}

func damageOf(r *kit.Run, n int) *damageFiles {
	if d := damageCache[n]; d != nil {
		return d
	}
	seedRandom(uint64(n) + 99)
	a, b := damageStores[n]()
	fa, fb := filepath.Join(r.Scratch, "a"), filepath.Join(r.Scratch, "b")
	kit.Must(saveTo(a, fa))
	kit.Must(saveTo(b, fb))
	d := &damageFiles{snapA: storeSnap(a), snapB: storeSnap(b)}
	var err error
	d.a, err = os.ReadFile(fa)
	kit.Must(err)
	d.b, err = os.ReadFile(fb)
	kit.Must(err)
	d.chA, d.chB = chunksOf(d.a), chunksOf(d.b)
	damageCache[n] = d
	return d
}

func enumDamage(r *kit.Run, yield func(damageCase) bool) {
	for s := range damageStores {
		d := damageOf(r, s)
		if !yield(damageCase{s, "none", 0, 0}) {
			return
		}
		n := len(d.a)
		step := 1
		if n > 3000 && !r.Thorough() {
			step = 5
		}
		for p := 0; p < n; p += step {
			if !yield(damageCase{s, "cut", p, 0}) {
				return
			}
			for bit := 0; bit < 8; bit++ {
				if step > 1 && bit != (p/step)%8 {
					continue
				}
				if !yield(damageCase{s, "flip", p, bit}) {
					return
				}
			}
			if !yield(damageCase{s, "torn", p, 0}) { // first part new, rest old
				return
			}
			if !yield(damageCase{s, "torn", p, 1}) {
				return
			}
			if !yield(damageCase{s, "hole", p, 16}) || !yield(damageCase{s, "remove", p, 1}) || !yield(damageCase{s, "insert", p, 0}) {
				return
			}
		}
		for i := 0; i <= 8; i++ {
			if !yield(damageCase{s, "append", i, 0}) {
				return
			}
		}
		na, nb := len(d.chA), len(d.chB)
		for i := 0; i <= na; i++ {
			for j := 0; j <= nb; j++ {
				if !yield(damageCase{s, "splice", i, j}) || !yield(damageCase{s, "replace", i, j}) {
					return
				}
			}
			for j := 0; j <= na; j++ {
				if !yield(damageCase{s, "swap", i, j}) || !yield(damageCase{s, "repeat", i, j}) {
					return
				}
			}
		}
		for i := 0; i < 12; i++ {
			if !yield(damageCase{s, "other", i, 0}) {
				return
			}
		}
	}
}

func (c damageCase) bytes(d *damageFiles) ([]byte, bool) {
	a := append([]byte(nil), d.a...)
	join := func(x ...[]byte) []byte { return bytes.Join(x, nil) }
	switch c.Kind {
	case "none":
	case "cut":
		a = a[:c.Pos]
	case "flip":
		a[c.Pos] ^= 1 << c.Arg
	case "torn":
		x, y := d.a, d.b
		if c.Arg == 1 {
			x, y = y, x
		}
		if c.Pos > len(y) {
			return nil, false
		}
		a = join(y[:c.Pos], x[min(c.Pos, len(x)):])
	case "hole":
		for i := c.Pos; i < c.Pos+c.Arg && i < len(a); i++ {
			a[i] = 0
		}
	case "remove":
		a = join(a[:c.Pos], a[c.Pos+1:])
	case "insert":
		a = join(a[:c.Pos], []byte{0x41}, a[c.Pos:])
	case "append":
		ext := [][]byte{{0}, {0, 0, 0, 0}, {1, 0, 0, 0, 9}, {255, 255, 255, 255}, d.a, d.b, bytes.Repeat([]byte{0}, 5000), d.chA[0], d.chA[len(d.chA)-1]}
		a = join(a, ext[c.Pos])
	case "splice":
		a = join(append(append([][]byte{}, d.chA[:c.Pos]...), d.chB[c.Arg:]...)...)
	case "replace":
		if c.Pos >= len(d.chA) || c.Arg >= len(d.chB) {
			return nil, false
		}
		x := append([][]byte{}, d.chA...)
		x[c.Pos] = d.chB[c.Arg]
		a = join(x...)
	case "swap":
		if c.Pos >= c.Arg || c.Arg >= len(d.chA) {
			return nil, false
		}
		x := append([][]byte{}, d.chA...)
		x[c.Pos], x[c.Arg] = x[c.Arg], x[c.Pos]
		a = join(x...)
	case "repeat": // chunk Pos again before chunk Arg; Arg==Pos: dropped
		if c.Pos >= len(d.chA) {
			return nil, false
		}
		var x [][]byte
		for i := range d.chA {
			if i == c.Arg && i == c.Pos {
				continue
			}
			if i == c.Arg {
				x = append(x, d.chA[c.Pos])
			}
			x = append(x, d.chA[i])
		}
		a = join(x...)
	}
	return a, true
}

func execDamage(r *kit.Run, c damageCase) error {
	d := damageOf(r, c.Store)
	file := filepath.Join(r.Scratch, "damaged")
	os.RemoveAll(file)
	pfk := pfkHex
	if c.Kind == "other" {
		switch c.Pos {
		case 0: // missing
		case 1:
			kit.Must(os.Mkdir(file, 0700))
		case 2:
			kit.Must(os.WriteFile(file, nil, 0600))
		case 3:
			kit.Must(os.WriteFile(file, []byte("ordinary text\n"), 0600))
		case 4:
			kit.Must(os.WriteFile(file, d.a, 0600))
			pfk = pfkHex2
		case 5:
			kit.Must(os.Symlink(file, file))
		case 6:
			kit.Must(os.WriteFile(file, d.a, 0600))
			pfk = "" // no key at all
		case 7:
			kit.Must(os.WriteFile(file, []byte{255, 255, 255, 127}, 0600))
		case 8:
			kit.Must(os.WriteFile(file, []byte{0, 0, 0, 0, 0, 0, 0, 0}, 0600))
		case 9:
			kit.Must(os.WriteFile(file, bytes.Repeat([]byte{0xff}, 70000), 0600))
		case 10:
			kit.Must(os.WriteFile(file, []byte{16, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}, 0600))
		case 11:
			kit.Must(os.WriteFile(file, append([]byte{40, 0, 0, 0}, make([]byte, 40)...), 0600))
		}
	} else {
		b, ok := c.bytes(d)
		if !ok {
			return nil
		}
		kit.Must(os.WriteFile(file, b, 0600))
	}
	for _, dn := range []int{2, 1} {
		n := dirty(dn)
		if pfk != "" {
			kit.Must(n.SetPFKFromString(pfk))
		}
		n.SetPersistence(file)
		before := storeSnap(n)
		err := n.Load()
		r.Step(1)
		if err != nil {
			if c.Kind == "none" {
				return kit.Fail("the undamaged store does not load: %v", err)
			}
			if x := diff(before, storeSnap(n)); x != "" {
				return kit.Fail("loading failed (%v) but the instance changed: %s", err, x)
			}
			for i := range n.Keys {
				if n.Keys[i].GetInstance() != n && dn == 2 {
					return kit.Fail("loading failed (%v) and key %d no longer belongs to the instance", err, i)
				}
			}
			if pfk != "" && n.GetPFKString() != pfk || n.GetPersistence() != file {
				return kit.Fail("loading failed (%v) and changed the key or file name", err)
			}
			// a failed load gives no right to overwrite the file
			if c.Kind != "other" && n.Save() == nil {
				return kit.Fail("after a failed load the instance overwrites the file it could not read")
			}
			continue
		}
		snap := storeSnap(n)
		if snap != d.snapA && snap != d.snapB {
			return kit.Fail("the damaged store (%s %d %d) is accepted as: %s", c.Kind, c.Pos, c.Arg, diff(d.snapA, snap))
		}
		if c.Kind == "other" {
			return kit.Fail("a file that is not a store (%d) is accepted", c.Pos)
		}
	}
	r.StateOf(c.Store, c.Kind, c.Pos, c.Arg)
	return nil
}

// ---------------------------------------------------------------- C16

type moveCase struct {
	Src      []int // incoming keys
	Have     []int // keys of the receiver (indexes of identifiers)
	Mask     int   // selected
	Over     int   // 0 no, 1 receiver set to overwrite, 2 requested as an option
	Exporter string
	ShareKey bool // use the receiver's own key and salt, as documented
	Leave    int  `json:",omitempty"` // exported, not selected by the import
}

// identifiers: two equal ones, another, one of another length
var moveIDs = []string{"AA", "BB", "CC", "DDD", "AA"}
var moveKeepers = [][]string{nil, {"ME"}, {"OT"}, {"ME", "OT"}, {"XX", "ME", "ME"}, {"ME", "ME"}, {"XX"}, {"me"}}

const moveKinds = 5 * 8

func moveKey(i, n int) Key {
	k := mkKey(moveIDs[n/8], keyLetters(50+i, 20), moveKeepers[n%8]...)
	k.Comment = []rune(fmt.Sprintf("n%d", n))
	k.Used = n%3 == 0
	k.Compromised = n%4 == 0
	k.Created.Time = day0.Add(time.Duration(n) * time.Hour).In(keyZones[(n+i)%3])
	k.Expires.Time = farFuture.Add(time.Duration(n) * time.Hour).In(keyZones[(n+i+1)%3])
	return k
}

func enumMoves(r *kit.Run, yield func(moveCase) bool) {
	haves := [][]int{nil, {0}, {1, 0}, {2, 0, 1}}
	emit := func(src []int) bool {
		for hi, h := range haves {
			for mask := 0; mask < 1<<len(src); mask++ {
				for over := 0; over < 3; over++ {
					if hi == 0 && over > 0 {
						continue
					}
					for _, ex := range []string{"OT", "ME"} {
						if ex == "ME" && (mask+over)%2 == 1 {
							continue
						}
						if !yield(moveCase{append([]int(nil), src...), h, mask, over, ex, (mask+over+hi)%2 == 1, 0}) {
							return false
						}
						for l := 1; l <= mask && hi > 0; l++ {
							if l&mask == l && (r.Thorough() || len(src) == 1 || (mask+over+hi+l+src[0]+src[1])%5 == 0) && !yield(moveCase{append([]int(nil), src...), h, mask, over, ex, l%2 == 1, l}) {
								return false
							}
						}
					}
				}
			}
		}
		return true
	}
	for n := 0; n < moveKinds; n++ {
		if !emit([]int{n}) {
			return
		}
	}
	if !sequences(moveKinds, 2, 2, func(s []int) bool {
		if !r.Thorough() && (s[0]*7+s[1])%3 != 0 && s[0]/8 != s[1]/8 {
			return true
		}
		return emit(s)
	}) {
		return
	}
	rep := []int{0, 3, 8, 11, 20, 24, 33, 36}
	sequences(len(rep), 3, 3, func(s []int) bool {
		return emit([]int{rep[s[0]], rep[s[1]], rep[s[2]]})
	})
}

// keyNoKeepers describes everything but the keepers.
func keyNoKeepers(k *Key) string {
	c := *k
	c.Keepers = nil
	return keyString(&c)
}

func keeperSet(k *Key, except ...string) string {
	m := map[string]bool{}
	for _, x := range k.Keepers {
		m[strings.ToUpper(string(x))] = true
	}
	for _, e := range except {
		delete(m, e)
	}
	var o []string
	for x := range m {
		o = append(o, x)
	}
	sort.Strings(o)
	return strings.Join(o, ",")
}

func execMove(r *kit.Run, c moveCase) error {
	src := blank(2, 20, c.Exporter)
	src.Columns, src.KeyColumns = 44, 33
	kit.Must(src.SetPFKFromString(pfkHex))
	sel := map[string]bool{}
	for i, n := range c.Src {
		k := moveKey(i, n)
		addKey(src, k)
		if c.Mask&(1<<i) != 0 {
			sel[string(k.Runes)] = true
		}
	}
	m := variantMsg(src, 0, 1)
	m.SetInstance(src)
	src.Messages = append(src.Messages, m)
	srcSnap := storeSnap(src)
	left := map[string]bool{}
	for i := range src.Keys {
		left[string(src.Keys[i].Runes)] = c.Leave>>i&1 != 0
	}
	filter := func(k *Key) bool { return sel[string(k.Runes)] }
	take := func(k *Key) bool { return filter(k) && !left[string(k.Runes)] }
	// export
	exp := src.ExportKeys(filter)
	r.Step(1)
	if d := diff(srcSnap, storeSnap(src)); d != "" {
		return kit.Fail("exporting changed the source: %s", d)
	}
	if len(exp.Messages) != 0 {
		return kit.Fail("exporting copies messages")
	}
	var want []string
	for i := range src.Keys {
		if filter(&src.Keys[i]) {
			want = append(want, keyString(&src.Keys[i]))
		}
	}
	if !equal(want, keysSnap(&exp)) {
		return kit.Fail("exported keys: %s", diff(strings.Join(want, "\n"), strings.Join(keysSnap(&exp), "\n")))
	}
	if exp.GroupSize != src.GroupSize || exp.KeyLength != src.KeyLength || exp.Columns != src.Columns || exp.KeyColumns != src.KeyColumns || string(exp.CallSign) != c.Exporter {
		return kit.Fail("exported settings differ")
	}
	file := filepath.Join(r.Scratch, "export")
	os.Remove(file)
	exp.SetPersistence(file)
	if err := exp.Save(); err != nil {
		return kit.Fail("the exported store can not be saved: %v", err)
	}
	x, err := loadFrom(file)
	if err != nil || !equal(want, keysSnap(x)) || len(x.Messages) != 0 {
		return kit.Fail("the exported store does not load as exported (%v)", err)
	}
	// import
	dst := blank(2, 20, "ME")
	dst.SetSaltFromString(krypto431.DefaultSalt)
	kit.Must(dst.SetPFKFromString(pfkHex))
	for i, h := range c.Have {
		k := mkKey(moveIDs[h], keyLetters(80+i, 20), "YY")
		k.Comment = []rune("mine")
		addKey(dst, k)
	}
	dm := variantMsg(dst, 3, 1)
	dm.SetInstance(dst)
	dst.Messages = append(dst.Messages, dm)
	opts := []krypto431.Option{krypto431.WithPersistence(file)}
	if c.ShareKey {
		opts = append(opts, krypto431.WithPFK(dst.GetPFK()), krypto431.WithSalt(dst.GetSalt()))
	} else {
		opts = append(opts, krypto431.WithPFKString(pfkHex))
	}
	switch c.Over {
	case 1:
		dst.SetOverwriteExistingKeysOnImport(true)
	case 2:
		opts = append(opts, krypto431.WithOverwriteExistingKeysOnImport(true))
	}
	// what should be there afterwards: by letters of the key
	type wantKey struct {
		rest, keepers string
	}
	model := map[string]wantKey{}
	byID := map[string]string{}
	for i := range dst.Keys {
		k := &dst.Keys[i]
		model[string(k.Runes)] = wantKey{keyNoKeepers(k), keeperSet(k, "ME", c.Exporter)}
		byID[string(k.Id)] = string(k.Runes)
	}
	mine := map[string]string{}
	for l := range model {
		mine[l] = ""
	}
	for i := range dst.Keys {
		mine[string(dst.Keys[i].Runes)] = keyString(&dst.Keys[i])
	}
	count := 0
	for i := range src.Keys {
		k := &src.Keys[i]
		if !take(k) || len(k.Id) != 2 {
			continue
		}
		if old, ok := byID[string(k.Id)]; ok {
			if c.Over == 0 {
				continue
			}
			delete(model, old)
		}
		model[string(k.Runes)] = wantKey{keyNoKeepers(k), keeperSet(k, "ME", c.Exporter)}
		byID[string(k.Id)] = string(k.Runes)
		count++
	}
	msgs, settingsBefore := msgsSnap(dst), fmt.Sprint(dst.GroupSize, dst.KeyLength, dst.Columns, dst.KeyColumns, string(dst.CallSign))
	fileBefore, _ := os.ReadFile(file)
	got, err := dst.ImportKeys(take, opts...)
	r.Step(1)
	if err != nil {
		return kit.Fail("importing failed: %v", err)
	}
	if got != count {
		return kit.Fail("importing reports %d keys, %d were to be imported", got, count)
	}
	if len(dst.Keys) != len(model) {
		return kit.Fail("after importing the receiver has %d keys, should be %d: %v", len(dst.Keys), len(model), keysSnap(dst))
	}
	for i := range dst.Keys {
		k := &dst.Keys[i]
		w, ok := model[string(k.Runes)]
		if !ok {
			return kit.Fail("after importing the receiver has %s", keyString(k))
		}
		if s, ok := mine[string(k.Runes)]; ok {
			if s != keyString(k) {
				return kit.Fail("importing changed the receiver's key: %s, was %s", keyString(k), s)
			}
			continue
		}
		if keyNoKeepers(k) != w.rest {
			return kit.Fail("imported key is %s, exported was %s", keyNoKeepers(k), w.rest)
		}
		if keeperSet(k, "ME", c.Exporter) != w.keepers {
			return kit.Fail("imported key %s: keepers %q", string(k.Id), krypto431.RunesToStrings(&k.Keepers))
		}
		if c.Exporter != "ME" {
			own, theirs := 0, 0
			for _, x := range k.Keepers {
				if strings.EqualFold(string(x), "ME") {
					own++
				}
				if string(x) == c.Exporter {
					theirs++
				}
			}
			if own != 0 || theirs == 0 {
				return kit.Fail("imported key %s: keepers %q, importing station ME, exporting station %s", string(k.Id), krypto431.RunesToStrings(&k.Keepers), c.Exporter)
			}
		}
		if k.GetInstance() != dst {
			return kit.Fail("imported key does not belong to the receiver")
		}
	}
	if !equal(msgs, msgsSnap(dst)) || settingsBefore != fmt.Sprint(dst.GroupSize, dst.KeyLength, dst.Columns, dst.KeyColumns, string(dst.CallSign)) {
		return kit.Fail("importing changed messages or settings of the receiver")
	}
	if dst.GetPFKString() != pfkHex || dst.GetSaltString() != krypto431.DefaultSalt {
		return kit.Fail("importing changed the receiver's persistence key (%q) or salt (%q)", dst.GetPFKString(), dst.GetSaltString())
	}
	if b, _ := os.ReadFile(file); !bytes.Equal(b, fileBefore) {
		return kit.Fail("importing changed the imported file")
	}
	r.StateOf(fmt.Sprint(c))
	// nothing is shared: wipe, delete, change on one side
	dstSnap := strings.Join(keysSnap(dst), "\n")
	expSnap := strings.Join(keysSnap(&exp), "\n")
	for i := range exp.Keys {
		exp.Keys[i].Wipe()
	}
	exp.Wipe()
	if d := diff(srcSnap, storeSnap(src)); d != "" {
		return kit.Fail("wiping the exported store changed the source: %s", d)
	}
	if src.GetPFKString() != pfkHex || src.GetSaltString() != krypto431.DefaultSalt {
		return kit.Fail("wiping the exported store wiped the source's persistence key or salt")
	}
	exp2 := src.ExportKeys(filter)
	for i := range src.Keys {
		for _, s := range [][]rune{src.Keys[i].Runes, src.Keys[i].Id, src.Keys[i].Comment} {
			for j := range s {
				s[j] = '!'
			}
		}
		for _, s := range src.Keys[i].Keepers {
			for j := range s {
				s[j] = '!'
			}
		}
	}
	for j := range src.CallSign {
		src.CallSign[j] = '!'
	}
	if d := diff(expSnap, strings.Join(keysSnap(&exp2), "\n")); d != "" {
		return kit.Fail("changing the source changed the exported store: %s", d)
	}
	if string(exp2.CallSign) != c.Exporter {
		return kit.Fail("changing the source's call-sign changed the exported store's")
	}
	for len(dst.Keys) > 0 {
		// delete one, the others must not change
		id := string(dst.Keys[0].Id)
		rest := map[string]string{}
		for i := 1; i < len(dst.Keys); i++ {
			rest[string(dst.Keys[i].Id)] = keyString(&dst.Keys[i])
		}
		n, err := dst.DeleteKey([]rune(id))
		if n != 1 || err != nil {
			return kit.Fail("deleting imported key %s: %d, %v", id, n, err)
		}
		for i := range dst.Keys {
			if keyString(&dst.Keys[i]) != rest[string(dst.Keys[i].Id)] {
				return kit.Fail("deleting key %s after the import changed another key: %s, was %s\n%s", id, keyString(&dst.Keys[i]), rest[string(dst.Keys[i].Id)], dstSnap)
			}
		}
	}
	if string(dst.CallSign) != "ME" {
		return kit.Fail("deleting keys changed the call-sign")
	}
	return nil
}

// failing imports leave the receiver alone
type badImportCase struct{ Kind, Have int }

func execBadImport(r *kit.Run, c badImportCase) error {
	file := filepath.Join(r.Scratch, "bad")
	os.RemoveAll(file)
	src := blank(2, 20, "OT")
	addKey(src, moveKey(0, 8))
	kit.Must(saveTo(src, file))
	b, _ := os.ReadFile(file)
	pfk := pfkHex
	switch c.Kind {
	case 0:
		os.Remove(file)
	case 1:
		pfk = pfkHex2
	case 2:
		os.WriteFile(file, b[:len(b)/2], 0600)
	case 3:
		b[len(b)/2] ^= 4
		os.WriteFile(file, b, 0600)
	case 4:
		os.WriteFile(file, nil, 0600)
	case 5:
		pfk = ""
	}
	dst := blank(2, 20, "ME")
	kit.Must(dst.SetPFKFromString(pfkHex))
	for i := 0; i < c.Have; i++ {
		addKey(dst, moveKey(i, i*8))
	}
	before := storeSnap(dst)
	opts := []krypto431.Option{krypto431.WithPersistence(file)}
	if pfk != "" {
		opts = append(opts, krypto431.WithPFKString(pfk))
	}
	n, err := dst.ImportKeys(func(*Key) bool { return true }, opts...)
	r.Step(1)
	r.StateOf("bad", c.Kind, c.Have)
	if err == nil || n != 0 {
		return kit.Fail("importing from a bad file (%d) reports %d keys, error %v", c.Kind, n, err)
	}
	if d := diff(before, storeSnap(dst)); d != "" {
		return kit.Fail("a failed import (%v) changed the receiver: %s", err, d)
	}
	if dst.GetPFKString() != pfkHex {
		return kit.Fail("a failed import (%v) changed the receiver's persistence key", err)
	}
	return nil
}

func init() {
	kit.Register(&kit.Prop{ID: "C10", Level: "model_checking",
		Bounds:   "all sequences of up to 2 (3) of 10 key kinds and of 7 message kinds x 4 settings x 6 kinds of receiving instance x use before saving, loading or saving twice; every store size over several output buffers and around the 64 KiB chunk; up to 2000 keys",
		Families: []*kit.Family{kit.F("stores", "every store, receiving instance and use; each is saved, loaded, used, saved over itself and loaded again", enumSaves, execSave)}})
	kit.Register(&kit.Prop{ID: "C13", Level: "fault_enumeration",
		Rule:   "every damage of every store file, each loaded into a dirty and an empty instance",
		Bounds: "4 pairs of stores: every truncation, bit flip, removed or inserted byte, 16 byte hole and torn write between two versions at every offset (quick: every 5th offset of the large store); every exchange, repetition, loss and splice of encrypted blocks between two versions; foreign files; wrong and missing key; every system call of a load failing with 8 error numbers, once and from there on, or transferring less",
		Families: []*kit.Family{kit.F("damage", "every damage", enumDamage, execDamage).W(3),
			kit.F("io", "every failing operation of a load, in a separate process", loadFaultCases, execLoadFault).W(1)}})
	kit.Register(&kit.Prop{ID: "C16", Level: "model_checking",
		Bounds: "all incoming stores of one key over 40 kinds (5 identifiers incl. equal and of other length, 8 keeper lists), two keys (quick: a third plus all equal identifiers), three keys over 8 kinds, x every selection x 4 receivers x no/receiver/option overwrite x own or foreign exporter x own or given key",
		Families: []*kit.Family{
			kit.F("moves", "every export and import", enumMoves, execMove).W(6),
			kit.F("bad", "imports that fail", func(r *kit.Run, y func(badImportCase) bool) {
				for k := 0; k < 6; k++ {
					for h := 0; h < 4; h++ {
						if !y(badImportCase{k, h}) {
							return
						}
					}
				}
			}, execBadImport)}})
}
