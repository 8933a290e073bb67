package checks

import (
	"bytes"
	"os/exec"
	"strings"
	"time"

	"verif/fault"
	"verif/kit"
)

// plain runs a program to its end without observing its calls.
func plain(sp fault.Spec) fault.Result {
	cmd := exec.Command(sp.Bin, sp.Args...)
	cmd.Env, cmd.Dir = sp.Env, sp.Dir
	cmd.Stdin = strings.NewReader(sp.Stdin)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	kit.Must(cmd.Start())
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	hung := !t.Stop()
	_ = err
	return fault.Result{Out: o.String(), Err: e.String(), Code: cmd.ProcessState.ExitCode(), Hung: hung}
}

// krypto runs the command line program on a store opened with pfkHex.
func krypto(dir, stdin string, args ...string) fault.Result {
	return plain(cli(dir, stdin, append([]string{"-K", pfkHex}, args...)...))
}
