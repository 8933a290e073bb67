package checks

import (
	"bytes"
	"compress/gzip"
	"crypto/hmac"
	crand "crypto/rand"
	"crypto/sha256"
	"embed"
	"encoding/gob"
	"encoding/hex"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"

	"github.com/sa6mwa/krypto431"
	"golang.org/x/crypto/nacl/secretbox"
	"verif/fault"
	"verif/kit"
)

// ---------------------------------------------------------------- C14, modes

type modeCase struct {
	Writer int
	Umask  int
}

type writer struct {
	Name string
	CLI  bool
	Args []string // STORE, OUT
	In   string
	Old  bool // the written file is STORE, which exists
}

var writers = []writer{
	{Name: "save", Args: []string{"save", "STORE", "2"}, Old: true},
	{Name: "create", Args: []string{"create", "OUT", "2"}},
	{Name: "create-large", Args: []string{"create", "OUT", "4"}},
	{Name: "export", Args: []string{"export", "STORE", "1", "OUT"}},
	{Name: "keystxt", Args: []string{"keystxt", "OUT", "1"}},
	{Name: "msgstxt", Args: []string{"msgstxt", "OUT", "1"}},
	{Name: "keyspdf", Args: []string{"keyspdf", "OUT", "1"}},
	{Name: "msgspdf", Args: []string{"msgspdf", "OUT", "1"}},
	{Name: "init", CLI: true, Args: []string{"-K", pfkHex, "-f", "OUT", "init", "-y", "-c", "QQ", "-n", "3"}},
	{Name: "init-old", CLI: true, Args: []string{"-K", pfkHex, "-f", "STORE", "init", "-y", "-c", "QQ", "-n", "3"}, Old: true},
	{Name: "generate", CLI: true, Args: []string{"-K", pfkHex, "-f", "STORE", "keys", "-n", "2"}, Old: true},
	{Name: "new-message", CLI: true, Args: []string{"-K", pfkHex, "-f", "STORE", "messages", "-n"}, In: "BB DE S1 010203 = HELLO WORLD = K\n", Old: true},
	{Name: "cli-export", CLI: true, Args: []string{"-K", pfkHex, "-f", "STORE", "keys", "-E", "OUT", "--all"}},
	{Name: "cli-keyspdf", CLI: true, Args: []string{"-K", pfkHex, "-f", "STORE", "keys", "-o", "OUT.pdf"}},
	{Name: "cli-keystxt", CLI: true, Args: []string{"-K", pfkHex, "-f", "STORE", "keys", "-o", "OUT.txt"}},
	{Name: "cli-msgspdf", CLI: true, Args: []string{"-K", pfkHex, "-f", "STORE", "messages", "-o", "OUT.pdf"}},
	{Name: "cli-msgstxt", CLI: true, Args: []string{"-K", pfkHex, "-f", "STORE", "messages", "-o", "OUT.txt"}},
	{Name: "change-pfk", CLI: true, Args: []string{"-K", pfkHex, "pfk", "-c", "STORE", "-y", "-k", pfkHex2}, Old: true},
}

func enumModes(r *kit.Run, yield func(modeCase) bool) {
	masks := []int{}
	for m := 0; m < 0100; m++ {
		masks = append(masks, m)
	}
	if r.Thorough() {
		for m := 0100; m < 01000; m++ {
			masks = append(masks, m)
		}
	} else {
		masks = append(masks, 0200, 0277, 0777, 0100)
	}
	for _, m := range masks {
		for w := range writers {
			if !yield(modeCase{w, m}) {
				return
			}
		}
	}
}

func execMode(r *kit.Run, c modeCase) error {
	w := writers[c.Writer]
	dir, done := r.Dir()
	defer done()
	store, out := filepath.Join(dir, "store"), filepath.Join(dir, "out")
	kit.Must(os.WriteFile(store, stateBytes(r, 1), 0600))
	var args []string
	for _, a := range w.Args {
		args = append(args, strings.NewReplacer("STORE", store, "OUT", out).Replace(a))
	}
	sp := driver(dir, args...)
	if w.CLI {
		sp = cli(dir, w.In, args...)
	}
	sp.Env = append(sp.Env, "TMPDIR="+dir)
	var open []string
	look := func(when string) {
		filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
			if err != nil || p == dir {
				return nil
			}
			fi, err := os.Lstat(p)
			if err == nil && fi.Mode().Perm()&077 != 0 && len(open) == 0 && fi.Mode()&fs.ModeSymlink == 0 {
				open = append(open, fmt.Sprintf("%s has mode %04o %s", strings.TrimPrefix(p, dir), fi.Mode().Perm(), when))
			}
			return nil
		})
	}
	n := 0
	sp.Post = func(ev *fault.Ev) {
		n++
		look("after " + strings.ReplaceAll(ev.String(), dir, ""))
	}
	old := syscall.Umask(c.Umask)
	s, err := fault.Start(sp)
	syscall.Umask(old)
	kit.Must(err)
	for {
		ev, err := s.Next()
		if err != nil {
			if err != io.EOF {
				s.Kill()
				s.Wait()
				return kit.Broken("%v", err)
			}
			break
		}
		_ = ev
		s.Reply(fault.Go)
	}
	res := s.Wait()
	look("at the end")
	r.Step(n)
	r.StateOf(w.Name, c.Umask, n)
	if len(open) > 0 {
		return kit.Fail("%s with umask %04o: the file %s", w.Name, c.Umask, open[0])
	}
	if res.Code != 0 {
		return kit.Fail("%s with umask %04o fails: %s%s", w.Name, c.Umask, res.Out, res.Err)
	}
	return nil
}

// ---------------------------------------------------------------- C14, wrong keys

type lockCase struct {
	Kind string
	A, B int
}

var lockStore = map[int][]byte{}

func enumLocks(r *kit.Run, yield func(lockCase) bool) {
	y := func(k string, a, b int) bool { return yield(lockCase{k, a, b}) }
	for i := 0; i < 256; i++ { // every bit
		if !y("bit", i, -1) {
			return
		}
	}
	for i := 0; i < 32; i++ { // every value of every byte
		for v := 0; v < 256; v++ {
			if !y("byte", i, v) {
				return
			}
		}
	}
	for i := 0; i < 256; i++ { // every two bits
		for j := i + 1; j < 256; j++ {
			if !r.Thorough() && (i*7+j)%16 != 0 && j != i+1 {
				continue
			}
			if !y("bits", i, j) {
				return
			}
		}
	}
	for i := 1; i < 32; i++ {
		if !y("rotate", i, 0) || !y("swap", i-1, i) || !y("zero", i, 0) {
			return
		}
	}
	for n := 0; n <= 70; n++ { // key of another length
		if !y("length", n, 0) {
			return
		}
	}
	y("zero", 0, 0)
	y("nil", 0, 0)
}

func (c lockCase) key() []byte {
	k, _ := hex.DecodeString(pfkHex)
	switch c.Kind {
	case "bit", "bits":
		k[c.A/8] ^= 1 << (c.A % 8)
		if c.B >= 0 {
			k[c.B/8] ^= 1 << (c.B % 8)
		}
	case "byte":
		k[c.A] = byte(c.B)
	case "rotate":
		k = append(append([]byte{}, k[c.A:]...), k[:c.A]...)
	case "swap":
		k[c.A], k[c.B] = k[c.B], k[c.A]
	case "zero":
		for i := c.A; i < 32; i++ {
			k[i] = 0
		}
	case "length":
		k2 := append(append(append([]byte{}, k...), k...), k...)
		k = k2[:c.A]
	case "nil":
		return nil
	}
	return k
}

func execLock(r *kit.Run, c lockCase) error {
	file := filepath.Join(r.Scratch, "lock")
	kit.Must(os.WriteFile(file, stateBytes(r, 1), 0600))
	key := c.key()
	good, _ := hex.DecodeString(pfkHex)
	same := bytes.Equal(key, good)
	r.Step(1)
	r.State(kit.Hash(string(key)))
	for way := 0; way < 3; way++ {
		k := blank(5, 350, "QQ")
		k.SetPersistence(file)
		switch way {
		case 0:
			err := k.SetPFKFromString(hex.EncodeToString(key))
			if (err == nil) != (len(key) == 32) {
				return kit.Fail("setting a key of %d bytes: error %v", len(key), err)
			}
		case 1:
			kk := append([]byte{}, key...)
			krypto431.WithPFK(&kk)(k)
		case 2:
			krypto431.WithPFKString(hex.EncodeToString(key))(k)
		}
		before := storeSnap(k)
		err := k.Load()
		if same {
			if err != nil || storeSnap(k) != stateSnap(1) {
				return kit.Fail("the right key does not open the store: %v", err)
			}
			continue
		}
		if err == nil {
			return kit.Fail("the store opens with key %x (way %d)", key, way)
		}
		if storeSnap(k) != before {
			return kit.Fail("a wrong key changed the instance")
		}
		// and the store can not be written over with no or an invalid key
		if len(key) != 32 {
			if k.GetPFK() != nil {
				return kit.Fail("a key of %d bytes is installed", len(key))
			}
			krypto431.WithOverwritePersistenceIfExists(true)(k)
			if k.Save() == nil {
				return kit.Fail("a store is saved without a valid key")
			}
			b, _ := os.ReadFile(file)
			if !bytes.Equal(b, stateBytes(r, 1)) {
				return kit.Fail("a refused save changed the file")
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- C14, derivation

// pbkdf2 by the book (RFC 8018, one block).
func byTheBook(password, salt []byte, n int) []byte {
	m := hmac.New(sha256.New, password)
	m.Write(salt)
	m.Write([]byte{0, 0, 0, 1})
	u := m.Sum(nil)
	t := append([]byte{}, u...)
	for i := 1; i < n; i++ {
		m.Reset()
		m.Write(u)
		u = m.Sum(u[:0])
		for j := range t {
			t[j] ^= u[j]
		}
	}
	return t
}

var passwords = []string{"Fjorton gula 14 apor!", "fjorton gula 14 apor!", "Fjorton gula 14 apor", "Fjorton gula 14 apor! ", "", "a", "åäö☃", strings.Repeat("x", 63), strings.Repeat("y", 64), strings.Repeat("z", 65), strings.Repeat("long", 100), "nul\x00byte", "\xff\xfe"}

const defaultSaltHex = "d14461856f830fc5a1f9ba1b845fae5f61c54767ded39cf943174e6869b44476"

var salts = []string{"", pfkHex, pfkHex + "00", strings.Repeat("ab", 64), strings.Repeat("cd", 100)}

type deriveCase struct{ Password, Salt, Way int }

const deriveWays = 6

func execDerive(r *kit.Run, c deriveCase) error {
	pw := passwords[c.Password]
	saltHex := salts[c.Salt]
	k := fresh()
	if saltHex != "" {
		switch c.Way {
		case 1:
			k = fresh(krypto431.WithSaltString(saltHex))
		case 2:
			b, _ := hex.DecodeString(saltHex)
			k = fresh(krypto431.WithSalt(&b))
		default:
			if err := k.SetSaltFromString(saltHex); err != nil {
				return kit.Fail("salt %s refused: %v", saltHex, err)
			}
		}
	} else {
		saltHex = defaultSaltHex
	}
	salt, _ := hex.DecodeString(saltHex)
	want := hex.EncodeToString(byTheBook([]byte(pw), salt, 310000))
	have := ""
	b := []byte(pw)
	alias := b
	switch c.Way {
	case 0, 1, 2:
		if err := k.DerivePFKFromPassword(&b); err != nil {
			return kit.Fail("no key from password %q: %v", pw, err)
		}
		have = k.GetPFKString()
	case 3:
		if err := k.DerivePFKFromPasswordWithValidation(&b); err != nil {
			if len(pw) > 15 && strings.ContainsAny(pw, "!") {
				return kit.Fail("good password %q refused: %v", pw, err)
			}
			if k.GetPFK() != nil {
				return kit.Fail("refused password %q sets a key", pw)
			}
			have = want
		} else {
			have = k.GetPFKString()
		}
	case 4:
		if err := k.SetPFKFromPassword(pw); err != nil {
			return kit.Fail("no key from password %q: %v", pw, err)
		}
		have = k.GetPFKString()
		alias = nil
	case 5: // the command line, on a store
		if pw == "" || strings.ContainsAny(pw, "\x00\xff") {
			return nil
		}
		dir, done := r.Dir()
		defer done()
		res, err := fault.Run(cli(dir, "", "-S", saltHex, "-P", pw, "-f", dir+"/s", "init", "-y", "-c", "AA", "-n", "1"), func(int, *fault.Ev) *fault.Act { return &fault.Go })
		kit.Must(err)
		if res.Code != 0 {
			return kit.Fail("can not initialise with password %q: %s", pw, res.Err)
		}
		x := blank(5, 350, "")
		x.SetPersistence(dir + "/s")
		kit.Must(x.SetPFKFromString(want))
		if err := x.Load(); err != nil || len(x.Keys) != 1 {
			return kit.Fail("a store made with password %q and salt %s does not open with the key PBKDF2 gives", pw, saltHex)
		}
		r.Step(1)
		return nil
	}
	r.Step(1)
	r.StateOf(c.Password, c.Salt, c.Way)
	if have != want {
		return kit.Fail("key from password %q and salt %s is %s, not %s", pw, saltHex, have, want)
	}
	if alias != nil && len(pw) > 4 && (b != nil || bytes.Equal(alias, []byte(pw))) {
		return kit.Fail("the password %q remains in memory", pw)
	}
	return nil
}

type saltCase struct{ Len, Way int }

// execSalt: salts that are too short are never used.
func execSalt(r *kit.Run, c saltCase) error {
	salt := bytes.Repeat([]byte{0x5a}, c.Len)
	k := fresh()
	before := k.GetSaltString()
	r.Step(1)
	r.StateOf("salt", c.Len, c.Way)
	switch c.Way {
	case 0:
		if err := k.SetSaltFromString(hex.EncodeToString(salt)); (err == nil) != (c.Len >= 32) {
			return kit.Fail("a salt of %d bytes: error %v", c.Len, err)
		}
		want := before
		if c.Len >= 32 {
			want = hex.EncodeToString(salt)
		}
		if k.GetSaltString() != want {
			return kit.Fail("a salt of %d bytes: the instance has salt %s", c.Len, k.GetSaltString())
		}
		return nil
	case 1:
		krypto431.WithSalt(&salt)(k)
	case 2:
		krypto431.WithSaltString(hex.EncodeToString(salt))(k)
	case 3: // odd number of digits, foreign digits
		for _, s := range []string{hex.EncodeToString(salt) + "0", hex.EncodeToString(salt) + "0g"} {
			if k.SetSaltFromString(s) == nil || k.GetSaltString() != before {
				return kit.Fail("%q accepted as salt", s)
			}
			if k.SetPFKFromString(s) == nil || k.GetPFK() != nil {
				return kit.Fail("%q accepted as key", s)
			}
		}
		return nil
	case 4: // behind the back of the checks
		if p := k.GetSalt(); p != nil {
			*p = salt
		}
	}
	for _, f := range []func(*[]byte) error{k.DerivePFKFromPassword, k.DerivePFKFromPasswordWithValidation} {
		if c.Len >= 32 {
			break
		}
		b := []byte("Fjorton gula 14 apor!")
		if f(&b) == nil || k.GetPFK() != nil {
			return kit.Fail("a key is derived with a salt of %d bytes", c.Len)
		}
	}
	if c.Len >= 32 && k.GetSaltString() != hex.EncodeToString(salt) {
		return kit.Fail("a salt of %d bytes is not used", c.Len)
	}
	return nil
}

// ---------------------------------------------------------------- C14, content

// openBoxes reads a store file as nothing but sealed boxes.
func openBoxes(b []byte, key []byte) (plain []byte, nonces []string, err error) {
	for n := 0; len(b) > 0; n++ {
		if len(b) < 4 {
			return nil, nil, fmt.Errorf("%d stray bytes at the end", len(b))
		}
		l := int(b[0]) | int(b[1])<<8 | int(b[2])<<16 | int(b[3])<<24
		b = b[4:]
		if l < 24+16 || l > len(b) {
			return nil, nil, fmt.Errorf("block %d has length %d of %d", n, l, len(b))
		}
		var nonce [24]byte
		copy(nonce[:], b)
		p, ok := secretbox.Open(nil, b[24:l], &nonce, (*[32]byte)(key))
		if !ok {
			return nil, nil, fmt.Errorf("block %d is not sealed with the key", n)
		}
		plain = append(plain, p...)
		nonces = append(nonces, string(nonce[:]))
		b = b[l:]
	}
	return
}

type gobStore struct {
	GroupSize, KeyLength, Columns, KeyColumns int
	Keys                                      []krypto431.Key
	Messages                                  []krypto431.Message
	CallSign                                  []rune
}

// contents of a store file by an independent reader
func readStore(b []byte, key []byte) (*K, []string, error) {
	plain, nonces, err := openBoxes(b, key)
	if err != nil {
		return nil, nil, err
	}
	z, err := gzip.NewReader(bytes.NewReader(plain))
	if err != nil {
		return nil, nil, err
	}
	raw, err := io.ReadAll(z)
	if err != nil {
		return nil, nil, err
	}
	var g gobStore
	if err := gob.NewDecoder(bytes.NewReader(raw)).Decode(&g); err != nil {
		return nil, nil, err
	}
	k := blank(5, 350, "")
	k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns = g.GroupSize, g.KeyLength, g.Columns, g.KeyColumns
	k.Keys, k.Messages, k.CallSign = g.Keys, g.Messages, g.CallSign
	return k, nonces, nil
}

type sealCase struct {
	State  int
	How    int // 0 many saves of one instance, 1 new instances, 2 processes, 3 command line processes, 4 export
	Rounds int
}

func enumSeals(r *kit.Run, yield func(sealCase) bool) {
	for s := 0; s < 5; s++ {
		for h := 0; h < 5; h++ {
			n := kit.Pick(r, 60, 400)
			if h == 2 || h == 3 {
				n = kit.Pick(r, 12, 60)
			}
			if s > 2 {
				n /= 4
			}
			if !yield(sealCase{s, h, n}) {
				return
			}
		}
	}
	for n := 0; n < kit.Pick(r, 300, 1500); n++ { // stores of every size
		if !yield(sealCase{100 + n, 1, 2}) {
			return
		}
	}
}

func execSeal(r *kit.Run, c sealCase) error {
	dir, done := r.Dir()
	defer done()
	file := filepath.Join(dir, "store")
	key, _ := hex.DecodeString(pfkHex)
	mk := func() *K {
		if c.State >= 100 {
			k := blank(5, 350, "AA")
			addPlain(k, 3, 5+c.State*7%997, "BB")
			return k
		}
		return stateStore(c.State)
	}
	want := storeSnap(mk())
	saved := crand.Reader
	crand.Reader = realReader
	defer func() { crand.Reader = saved }()
	seen := map[string]int{}
	k := mk()
	storeAt(k, file)
	krypto431.WithOverwritePersistenceIfExists(true)(k)
	for i := 0; i < c.Rounds; i++ {
		exact := true
		switch c.How {
		case 0:
			if err := k.Save(); err != nil {
				return kit.Fail("saving fails: %v", err)
			}
		case 1:
			if err := saveTo(mk(), file); err != nil {
				return kit.Fail("saving fails: %v", err)
			}
		case 2:
			res, err := fault.Run(driver(dir, "create", file, fmt.Sprint(c.State), "over"), func(int, *fault.Ev) *fault.Act { return &fault.Go })
			kit.Must(err)
			if res.Code != 0 {
				return kit.Fail("saving fails: %s", res.Out)
			}
		case 3:
			exact = false
			if i == 0 {
				if err := saveTo(mk(), file); err != nil {
					return kit.Fail("saving fails: %v", err)
				}
			}
			res, err := fault.Run(cli(dir, "", "-K", pfkHex, "-f", file, "keys", "-n", "1"), func(int, *fault.Ev) *fault.Act { return &fault.Go })
			kit.Must(err)
			if res.Code != 0 {
				return kit.Fail("generating a key fails: %s", res.Err)
			}
		case 4:
			exact = false
			os.Remove(file)
			x := k.ExportKeys(func(*Key) bool { return true }, krypto431.WithPersistence(file))
			if err := x.Save(); err != nil {
				return kit.Fail("saving an export fails: %v", err)
			}
		}
		b, err := os.ReadFile(file)
		kit.Must(err)
		x, nonces, err := readStore(b, key)
		if err != nil {
			return kit.Fail("the saved file is not a sequence of sealed blocks around the store: %v", err)
		}
		if exact && storeSnap(x) != want {
			return kit.Fail("the saved file holds something else: %s", diff(want, storeSnap(x)))
		}
		r.Step(1)
		for j, n := range nonces {
			r.Distinct(kit.Hash(n))
			if o, ok := seen[n]; ok {
				return kit.Fail("nonce %x of block %d in save %d was used in save %d before (store %d, way %d)", n, j, i, o, c.State, c.How)
			}
			seen[n] = i
		}
		r.StateOf("seal", c.State, c.How, len(nonces))
		r.Count("blocks", len(nonces))
	}
	return nil
}

// ---------------------------------------------------------------- C14, old stores

//go:embed fixtures
var fixtures embed.FS

type oldCase struct {
	Name     string
	Password string
	Salt     string
	Way      int
}

var oldStores = []oldCase{{Name: "state0"}, {Name: "state1"}, {Name: "state2"}, {Name: "state3"},
	{Name: "password", Password: "Fjorton gula 14 apor!"},
	{Name: "salt", Password: "tjugo röda elefanter", Salt: "aa0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1fff"}}

func execOld(r *kit.Run, c oldCase) error {
	b, err := fixtures.ReadFile("fixtures/" + c.Name + ".store")
	kit.Must(err)
	want, err := fixtures.ReadFile("fixtures/" + c.Name + ".txt")
	kit.Must(err)
	file := filepath.Join(r.Scratch, "old")
	kit.Must(os.WriteFile(file, b, 0600))
	defer os.Remove(file)
	r.Step(1)
	r.StateOf(c.Name, c.Way)
	if c.Way == 1 { // listed by the program
		args := []string{"-f", file}
		if c.Salt != "" {
			args = append(args, "-S", c.Salt)
		}
		if c.Password != "" {
			args = append(args, "-P", c.Password)
		} else {
			args = append(args, "-K", pfkHex)
		}
		res, err := fault.Run(cli(r.Scratch, "", append(args, "keys", "-l")...), func(int, *fault.Ev) *fault.Act { return &fault.Go })
		kit.Must(err)
		if res.Code != 0 {
			return kit.Fail("the program can not list the store %s of the released version: %s", c.Name, res.Err)
		}
		for _, l := range strings.Split(string(want), "\n")[1:] {
			if strings.HasPrefix(l, "--") {
				break
			}
			if f := strings.Split(l, "\""); len(f) > 1 && !strings.Contains(res.Out, "\n"+f[1]+" ") {
				return kit.Fail("the program does not list key %s of the store %s of the released version", f[1], c.Name)
			}
		}
		return nil
	}
	k := fresh(krypto431.WithPersistence(file), krypto431.WithPFKString(pfkHex))
	if c.Salt != "" {
		kit.Must(k.SetSaltFromString(c.Salt))
	}
	if c.Password != "" {
		kit.Must(k.SetPFKFromPassword(c.Password))
	}
	if err := k.Load(); err != nil {
		return kit.Fail("the store %s of the released version does not open: %v", c.Name, err)
	}
	// the snapshots taken with the released version do not tell the zone
	have := regexp.MustCompile(`(=-?\d{15,})z-?\d+\b`).ReplaceAllString(storeSnap(k), "$1")
	if d := diff(string(want), have); d != "" {
		return kit.Fail("the store %s of the released version is read differently: %s", c.Name, d)
	}
	return nil
}

func init() {
	kit.Register(&kit.Prop{
		ID: "C14", Level: "model_checking",
		Rule:        "every writing operation under every umask observed call by call; every key near the right one; key derivation against an independent PBKDF2; every block of every save opened by an independent reader; stores of the released version",
		Bounds:      "18 writing operations x 68 umasks (thorough: all 512), modes looked at after every system call; all keys one or two bits (quick: a sixteenth of the pairs) or one byte away, and all lengths 0-70; 13 passwords x 5 salts x 6 ways; nonces of up to 400 saves in 5 ways of 5 stores plus two saves of stores of 300 (1500) sizes; six stores written by the released version",
		Assumptions: []string{"the operating system's random source delivers fresh bytes, so equal 24-byte nonces do not occur by chance"},
		Families: []*kit.Family{
			kit.F("modes", "every writer under every umask", enumModes, execMode).W(3),
			kit.F("keys", "every key near the right one", enumLocks, execLock).W(1),
			kit.F("derive", "passwords x salts x ways", func(r *kit.Run, y func(deriveCase) bool) {
				for p := range passwords {
					for s := range salts {
						for w := 0; w < deriveWays; w++ {
							if !y(deriveCase{p, s, w}) {
								return
							}
						}
					}
				}
			}, execDerive).W(2),
			kit.F("salt", "salts of every length", func(r *kit.Run, y func(saltCase) bool) {
				for l := 0; l <= 70; l++ {
					for w := 0; w < 5; w++ {
						if !y(saltCase{l, w}) {
							return
						}
					}
				}
			}, execSalt).W(1),
			kit.F("seals", "every block of every save", enumSeals, execSeal).W(2),
			kit.F("released", "stores of the released version", func(r *kit.Run, y func(oldCase) bool) {
				for _, o := range oldStores {
					for o.Way = 0; o.Way < 2; o.Way++ {
						if !y(o) {
							return
						}
					}
				}
			}, execOld).W(1),
		},
	})
}
