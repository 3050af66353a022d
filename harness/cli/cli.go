// Package cli builds and runs the commands of the repository.
package cli

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"time"
)

var (
	mu    sync.Mutex
	built = map[string]string{}
)

// Build compiles a command of the repository once and gives its path.
func Build(scratch, name string) string {
	mu.Lock()
	defer mu.Unlock()
	if p, ok := built[name]; ok {
		return p
	}
	dir := filepath.Join(scratch, "bin")
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
	p := filepath.Join(dir, name)
	args := []string{"build", "-buildvcs=false", "-o", p}
	if o := os.Getenv("VERIF_OVERLAY"); o != "" {
		args = append(args, "-overlay", o)
	}
	c := exec.Command("go", append(args, "github.com/msnoigrs/gosudachi/"+name)...)
	c.Dir = filepath.Join(os.Getenv("VERIF_DIR"), "harness")
	if out, err := c.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("cannot build %s: %v: %s", name, err, out))
	}
	built[name] = p
	return p
}

// Result of a command.
type Result struct {
	Out, Err string
	Code     int
	TimedOut bool
}

// Copy copies a program.  Another process does it: a process that is being started
// elsewhere could otherwise hold the copy open for writing.
func Copy(from, to string) {
	if out, err := exec.Command("cp", from, to).CombinedOutput(); err != nil {
		panic(fmt.Sprintf("cannot copy %s: %v: %s", from, err, out))
	}
}

// Run runs a command in a directory.
func Run(dir, bin string, stdin io.Reader, args ...string) Result {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin, args...)
	c.Dir = dir
	c.Stdin = stdin
	var out, errb bytes.Buffer
	c.Stdout = &out
	c.Stderr = &errb
	err := c.Run()
	r := Result{Out: out.String(), Err: errb.String()}
	if ctx.Err() != nil {
		r.TimedOut = true
	}
	if err != nil {
		r.Code = -1
		if x, ok := err.(*exec.ExitError); ok {
			r.Code = x.ExitCode()
		} else if c.Process == nil && !r.TimedOut {
			panic(fmt.Sprintf("harness: cannot start %s: %v", bin, err))
		}
	}
	return r
}

// Panicked tells whether the command crashed.
func (r Result) Panicked() bool {
	return r.TimedOut || bytes.Contains([]byte(r.Err), []byte("panic:")) || bytes.Contains([]byte(r.Err), []byte("goroutine ")) || r.Code == -1
}
