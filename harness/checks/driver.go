package checks

import (
	crand "crypto/rand"
	"fmt"
	"os"
	"path/filepath"
	"sync"

	"github.com/sa6mwa/krypto431"
	"verif/fault"
	"verif/kit"
)

// state v of a store: what is on disk before and after.
func stateStore(v int) *K {
	call := fmt.Sprintf("S%d", v)
	k := blank(5, 50, call)
	switch v {
	case 0: // nothing in it
	case 1, 2:
		addPlain(k, 3+v, 50, "BB", "CC")
		for i := 0; i < v; i++ {
			k.Keys[i].Used = true
			k.Messages = append(k.Messages, variantMsg(k, i, 1+i))
		}
	case 3, 4: // several blocks of compressed data
		addPlain(k, 100*v-150, 100, "BB")
		k.Messages = append(k.Messages, variantMsg(k, 1, 3))
	case 5:
		addPlain(k, 6000, 60)
	case 6: // less than a usual buffer
		addPlain(k, 1, 50, "BB")
		k.Messages = append(k.Messages, variantMsg(k, 1, 3))
	}
	for i := range k.Messages {
		k.Messages[i].SetInstance(k)
	}
	return k
}

// DriverMain is the main function of the observed driver program.
func DriverMain() {
	a := os.Args[1:]
	crand.Reader = realReader
	say := func(err error) {
		if err != nil {
			fmt.Println("ERR", err)
			os.Exit(1)
		}
		fmt.Println("OK")
		os.Exit(0)
	}
	num := func(s string) (n int) { fmt.Sscan(s, &n); return }
	switch a[0] {
	case "save": // save FILE STATE: replace what is in FILE
		k := fresh(krypto431.WithPersistence(a[1]), krypto431.WithPFKString(pfkHex))
		if err := k.Load(); err != nil {
			fmt.Println("LOADERR", err)
			os.Exit(2)
		}
		fill(k, stateStore(num(a[2])))
		say(k.Save())
	case "create": // create FILE STATE
		k := fresh(krypto431.WithPersistence(a[1]), krypto431.WithPFKString(pfkHex), krypto431.WithOverwritePersistenceIfExists(len(a) > 3))
		fill(k, stateStore(num(a[2])))
		say(k.Save())
	case "snap": // snap FILE: print what is in FILE
		k := fresh(krypto431.WithPersistence(a[1]), krypto431.WithPFKString(pfkHex))
		if len(a) > 3 {
			k.SetSaltFromString(a[3])
		}
		if len(a) > 2 {
			k.SetPFKFromPassword(a[2])
		}
		if err := k.Load(); err != nil {
			say(err)
		}
		fmt.Print(storeSnap(k))
		os.Exit(0)
	case "load": // load FILE: over a used instance
		k := fresh(krypto431.WithPersistence(a[1]), krypto431.WithPFKString(pfkHex))
		fill(k, stateStore(2))
		before := storeSnap(k)
		err := k.Load()
		after := storeSnap(k)
		switch {
		case err == nil && after == storeSnap(stateStore(num(a[2]))):
			say(nil)
		case err == nil:
			fmt.Println("WRONG", diff(storeSnap(stateStore(num(a[2]))), after))
		case before != after:
			fmt.Println("CHANGED", err, diff(before, after))
		default:
			say(err)
		}
		os.Exit(3)
	case "keystxt", "msgstxt", "keyspdf", "msgspdf": // FILE STATE
		k := stateStore(num(a[2]))
		switch a[0] {
		case "keystxt":
			say(k.KeysTextFile(func(*Key) bool { return true }, a[1]))
		case "msgstxt":
			say(k.MessagesTextFile(func(*Msg) bool { return true }, a[1]))
		case "keyspdf":
			say(k.KeysPDF(func(*Key) bool { return true }, a[1]))
		case "msgspdf":
			say(k.MessagesPDF(func(*Msg) bool { return true }, a[1]))
		}
	case "export": // export FILE STATE OUT
		k := fresh(krypto431.WithPersistence(a[1]), krypto431.WithPFKString(pfkHex))
		fill(k, stateStore(num(a[2])))
		x := k.ExportKeys(func(*Key) bool { return true }, krypto431.WithPersistence(a[3]))
		say(x.Save())
	}
	os.Exit(9)
}

// fill makes dst hold what src holds.
func fill(dst, src *K) {
	dst.GroupSize, dst.KeyLength, dst.Columns, dst.KeyColumns = src.GroupSize, src.KeyLength, src.Columns, src.KeyColumns
	dst.CallSign, dst.Keys, dst.Messages = src.CallSign, src.Keys, src.Messages
	for i := range dst.Keys {
		dst.Keys[i].SetInstance(dst)
	}
	for i := range dst.Messages {
		dst.Messages[i].SetInstance(dst)
	}
}

// ---------------------------------------------------------------- worker side

func builtBin(name string) string {
	b := os.Getenv("VERIF_BUILD")
	if b == "" {
		b = "/verif/.build"
	}
	return filepath.Join(b, name)
}

// baseEnv is the environment of observed programs.
func baseEnv(home string) []string {
	return []string{"HOME=" + home, "PATH=/usr/bin:/bin", "TZ=UTC", "LANG=C.UTF-8"}
}

var stateMu sync.Mutex
var stateFiles = map[int][]byte{}
var stateSnaps = map[int]string{}

// stateBytes is the store file of a state, stateSnap its contents.
func stateBytes(r *kit.Run, v int) []byte {
	if b := stateFiles[v]; b != nil {
		return b
	}
	f := filepath.Join(r.Scratch, fmt.Sprintf("state%d", v))
	k := stateStore(v)
	kit.Must(saveTo(k, f))
	b, err := os.ReadFile(f)
	kit.Must(err)
	stateFiles[v] = b
	return b
}

func stateSnap(v int) string {
	if s, ok := stateSnaps[v]; ok {
		return s
	}
	s := storeSnap(stateStore(v))
	stateSnaps[v] = s
	return s
}

// driver runs the driver program under observation.
func driver(root string, args ...string) fault.Spec {
	return fault.Spec{Bin: builtBin("driver"), Args: args, Env: baseEnv(root), Dir: root, Root: root}
}
