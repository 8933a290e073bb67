package checks

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"regexp"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif/fault"
	"verif/kit"
)

// say is one exchange with a program on a terminal: when Wait appears in the
// output, Send is typed.
type say struct {
	Wait, Send string
	Line       bool // the program will ask for the place of the cursor
}

const (
	enter = "\r"
	down  = "\x1b[B"
	right = "\x1b[C"
)

var escapes = regexp.MustCompile(`\x1b(\[[0-9;?]*[a-zA-Z]|[78])`)

// A program inherits that interrupts are ignored, as they are in a process
// started in the background by a shell.  What is caught here is not inherited:
// an interrupt typed before the program has changed the mode of its terminal
// then ends it, as it does on any terminal.
func init() {
	ch := make(chan os.Signal, 1)
	signal.Notify(ch, syscall.SIGINT, syscall.SIGQUIT)
	go func() {
		<-ch
		os.Exit(130)
	}()
}

func openPTY() (*os.File, *os.File) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	kit.Must(err)
	ioctl := func(req uintptr, p *int32) {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), req, uintptr(unsafe.Pointer(p))); e != 0 {
			kit.Must(fmt.Errorf("terminal: %v", e))
		}
	}
	var n, unlock int32
	ioctl(syscall.TIOCGPTN, &n)
	ioctl(syscall.TIOCSPTLCK, &unlock)
	s, err := os.OpenFile(fmt.Sprint("/dev/pts/", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	kit.Must(err)
	return m, s
}

// talk runs a program on a terminal. Out holds what appeared on it, Err what
// it had not asked for at its end.
func talk(sp fault.Spec, script ...say) fault.Result {
	m, s := openPTY()
	defer m.Close()
	cmd := exec.Command(sp.Bin, sp.Args...)
	cmd.Env, cmd.Dir = sp.Env, sp.Dir
	cmd.Stdin, cmd.Stdout, cmd.Stderr = s, s, s
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	kit.Must(cmd.Start())
	ended := make(chan bool)
	go func() {
		cmd.Wait()
		s.Close()
		close(ended)
	}()
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	out, left := converse(m, script)
	<-ended
	return fault.Result{Out: out, Err: left, Code: cmd.ProcessState.ExitCode(), Hung: !t.Stop()}
}

// talkRun is fault.Run of a program on a terminal.
func talkRun(sp fault.Spec, script []say, decide func(int, *fault.Ev) *fault.Act) (fault.Result, error) {
	m, s := openPTY()
	defer m.Close()
	var out, left string
	ended := make(chan bool)
	go func() {
		out, left = converse(m, script)
		close(ended)
	}()
	sp.TTY = s
	res, err := fault.Run(sp, decide)
	s.Close()
	<-ended
	res.Out, res.Err = out, left
	return res, err
}

// converse answers until the terminal is closed; it returns what appeared and
// what was not asked for.
func converse(m *os.File, script []say) (string, string) {
	script = append([]say(nil), script...)
	var all bytes.Buffer
	from := 0
	buf := make([]byte, 65536)
	for {
		n, err := m.Read(buf)
		all.Write(buf[:n])
		for {
			b := all.Bytes()[from:]
			next, where := -1, bytes.Index(b, []byte("\x1b[6n"))
			if len(script) > 0 && !(script[0].Line && script[0].Wait == "") {
				next = bytes.Index(b, []byte(script[0].Wait))
			}
			if next >= 0 && (where < 0 || next < where) {
				from += next + len(script[0].Wait)
				if script[0].Line {
					script[0].Wait = "" // seen, to be typed below
					continue
				}
				m.Write([]byte(script[0].Send))
				script = script[1:]
				continue
			}
			if where < 0 {
				break
			}
			at := "\x1b[1;1R"
			if bytes.HasSuffix(b[:where], []byte("f")) {
				at = "\x1b[50;400R"
			}
			from += where + 4
			// The program may drop what it finds behind the answer to its question
			// about the cursor, but not what it finds before it.
			if len(script) > 0 && script[0].Line && script[0].Wait == "" {
				at = script[0].Send + at
				script = script[1:]
			}
			m.Write([]byte(at))
		}
		if err != nil {
			break
		}
	}
	left := ""
	for _, x := range script {
		left += fmt.Sprintf("%q ", x.Wait)
	}
	out := strings.ReplaceAll(escapes.ReplaceAllString(all.String(), ""), "\r\n", "\n")
	return out, left
}
