package cli

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// hook is added to package os of the commands that run with faults.
// VERIF_FAULT is op|n|how|path: the n-th operation op (read, write, seek) on the
// file fails, how is "none" or "half" of the bytes written before it fails.
// Reads of that file are of at most 64 bytes.  VERIF_FAULT_MARK is a file that is
// created when the fault happens.
const hook = `package os

import "syscall"

var (
	verifOn                   bool
	verifOp, verifHow, verifPath string
	verifN                    int
)

func init() {
	s, ok := syscall.Getenv("VERIF_FAULT")
	if !ok || s == "" {
		return
	}
	cut := func() string {
		for i := 0; i < len(s); i++ {
			if s[i] == '|' {
				x := s[:i]
				s = s[i+1:]
				return x
			}
		}
		return s
	}
	verifOp = cut()
	for _, c := range cut() {
		verifN = verifN*10 + int(c-'0')
	}
	verifHow = cut()
	verifPath = s
	verifOn = true
}

func verifFault(f *File, op string, size int) (cap, done int, err error) {
	if !verifOn || f.name != verifPath {
		return size, 0, nil
	}
	cap = size
	if op == "read" && cap > 64 {
		cap = 64
	}
	if op != verifOp {
		return cap, 0, nil
	}
	verifN--
	if verifN != -1 {
		return cap, 0, nil
	}
	if m, ok := syscall.Getenv("VERIF_FAULT_MARK"); ok {
		if fd, e := syscall.Open(m, syscall.O_CREAT|syscall.O_WRONLY, 0644); e == nil {
			syscall.Close(fd)
		}
	}
	if verifHow == "half" {
		done = size / 2
	}
	if op == "read" {
		return cap, 0, syscall.EIO
	}
	if op == "seek" {
		return cap, 0, syscall.EINVAL
	}
	return cap, done, syscall.ENOSPC
}
`

// BuildFaulty compiles a command with fault injection below package os.
func BuildFaulty(scratch, name string) string {
	mu.Lock()
	defer mu.Unlock()
	key := "faulty " + name
	if p, ok := built[key]; ok {
		return p
	}
	dir := filepath.Join(scratch, "bin-faulty")
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
	goroot, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		panic(err)
	}
	src := filepath.Join(strings.TrimSpace(string(goroot)), "src", "os")
	replace := map[string]string{}
	if o := os.Getenv("VERIF_OVERLAY"); o != "" {
		b, err := os.ReadFile(o)
		if err != nil {
			panic(err)
		}
		var x struct{ Replace map[string]string }
		if err := json.Unmarshal(b, &x); err != nil {
			panic(err)
		}
		for k, v := range x.Replace {
			replace[k] = v
		}
	}
	patch := func(file string, edits ...string) {
		b, err := os.ReadFile(filepath.Join(src, file))
		if err != nil {
			panic(err)
		}
		s := string(b)
		for i := 0; i < len(edits); i += 2 {
			if strings.Count(s, edits[i]) != 1 {
				panic(fmt.Sprintf("%s of this Go release has another form: %q", file, edits[i]))
			}
			s = strings.Replace(s, edits[i], edits[i]+edits[i+1], 1)
		}
		p := filepath.Join(dir, file)
		if err := os.WriteFile(p, []byte(s), 0644); err != nil {
			panic(err)
		}
		replace[filepath.Join(src, file)] = p
	}
	patch("file_posix.go",
		"func (f *File) read(b []byte) (n int, err error) {\n",
		"\tif size, _, e := verifFault(f, \"read\", len(b)); e != nil {\n\t\treturn 0, e\n\t} else {\n\t\tb = b[:size]\n\t}\n",
		"func (f *File) write(b []byte) (n int, err error) {\n",
		"\tif _, done, e := verifFault(f, \"write\", len(b)); e != nil {\n\t\tif done > 0 {\n\t\t\tdone, _ = f.pfd.Write(b[:done])\n\t\t}\n\t\treturn done, e\n\t}\n")
	patch("file_unix.go",
		"func (f *File) seek(offset int64, whence int) (ret int64, err error) {\n",
		"\tif _, _, e := verifFault(f, \"seek\", 0); e != nil {\n\t\treturn 0, e\n\t}\n")
	h := filepath.Join(dir, "zz_verif_fault.go")
	if err := os.WriteFile(h, []byte(hook), 0644); err != nil {
		panic(err)
	}
	replace[filepath.Join(src, "zz_verif_fault.go")] = h
	ov, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	of := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(of, ov, 0644); err != nil {
		panic(err)
	}
	// all commands at once: the standard library is compiled once
	c := exec.Command("go", "build", "-buildvcs=false", "-overlay", of, "-o", dir+"/",
		"github.com/msnoigrs/gosudachi/dicbuilder", "github.com/msnoigrs/gosudachi/userdicbuilder",
		"github.com/msnoigrs/gosudachi/dicconv", "github.com/msnoigrs/gosudachi/printdic",
		"github.com/msnoigrs/gosudachi/printdicheader", "github.com/msnoigrs/gosudachi/gosudachicli")
	c.Dir = filepath.Join(os.Getenv("VERIF_DIR"), "harness")
	if out, err := c.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("cannot build the commands with faults: %v: %s", err, out))
	}
	for _, n := range []string{"dicbuilder", "userdicbuilder", "dicconv", "printdic", "printdicheader", "gosudachicli"} {
		built["faulty "+n] = filepath.Join(dir, n)
	}
	return built[key]
}

// RunEnv runs a command with additional environment.
func RunEnv(dir, bin string, stdin io.Reader, env []string, args ...string) Result {
	return run(dir, bin, stdin, nil, env, args)
}

// RunOut runs a command with its standard output in a file.
func RunOut(dir, bin string, stdin io.Reader, out *os.File, args ...string) Result {
	return run(dir, bin, stdin, out, nil, args)
}

func run(dir, bin string, stdin io.Reader, outf *os.File, env []string, args []string) Result {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin, args...)
	c.Dir = dir
	c.Stdin = stdin
	if env != nil {
		c.Env = append(os.Environ(), env...)
	}
	var out, errb bytes.Buffer
	c.Stdout = &out
	if outf != nil {
		c.Stdout = outf
	}
	c.Stderr = &errb
	err := c.Run()
	r := Result{Out: out.String(), Err: errb.String()}
	if ctx.Err() != nil {
		r.TimedOut = true
	}
	if err != nil {
		r.Code = -1
		if x, ok := err.(*exec.ExitError); ok {
			r.Code = x.ExitCode()
		}
	}
	return r
}
