package main

import (
	"bytes"
	"context"
	"errors"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

type runResult struct {
	Out  string
	Err  string
	Code int
}

func (r runResult) all() string { return r.Out + r.Err }

// runGql runs the built command in a directory.
func runGql(e *Env, dir, stdin string, args ...string) runResult {
	return runCmd(e, dir, stdin, e.Gql, args...)
}

// runGqlWith runs gql with other standard streams; either may be nil.
func runGqlWith(e *Env, dir string, in io.Reader, out *os.File, args ...string) runResult {
	return runStreams(e, dir, in, out, e.Gql, args...)
}

func runCmd(e *Env, dir, stdin, bin string, args ...string) runResult {
	return runStreams(e, dir, strings.NewReader(stdin), nil, bin, args...)
}

func runStreams(e *Env, dir string, stdin io.Reader, out *os.File, bin string, args ...string) runResult {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	if stdin != nil {
		cmd.Stdin = stdin
	}
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "GOMAXPROCS=2"}
	var so, se bytes.Buffer
	cmd.Stdout = &so
	if out != nil {
		cmd.Stdout = out
	}
	cmd.Stderr = &se
	err := cmd.Run()
	r := runResult{Out: so.String(), Err: se.String()}
	if ctx.Err() != nil {
		hfail("gql %v did not end within 120 s", args)
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		r.Code = ee.ExitCode()
		if r.Code < 0 {
			r.Code = 255
		}
	} else if err != nil && (cmd.ProcessState == nil || !cmd.ProcessState.Exited()) {
		hfail("cannot run gql: %v", err)
	} else {
		// what is left of the input when the command ends does not matter
		r.Code = cmd.ProcessState.ExitCode()
	}
	return r
}

// runFull runs gql with a standard output that takes nothing, as on a full disk.
func runFull(e *Env, dir string, args ...string) runResult {
	f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		hfail("%v", err)
	}
	defer f.Close()
	return runGqlWith(e, dir, nil, f, args...)
}

// pieces is a reader that gives its text in pieces, as a slow writer does.
type pieces struct {
	text string
	size int
	n    int // pieces given
}

func (p *pieces) Read(b []byte) (int, error) {
	if p.text == "" {
		return 0, io.EOF
	}
	if p.n++; p.n == 2 {
		time.Sleep(25 * time.Millisecond)
	}
	n := min(p.size, len(p.text), len(b))
	copy(b, p.text[:n])
	p.text = p.text[n:]
	return n, nil
}

func writeFiles(dir string, fs []SrcFile) {
	for _, f := range fs {
		p := filepath.Join(dir, f.Name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			hfail("%v", err)
		}
		if err := os.WriteFile(p, []byte(f.Text), 0o644); err != nil {
			hfail("%v", err)
		}
	}
}

// inDir runs f in a fresh directory that is removed afterwards.
func inDir(e *Env, f func(dir string) string) string {
	d := e.TempDir()
	defer os.RemoveAll(d)
	return f(d)
}

func show(r runResult) string {
	s := "exit status " + itoa(r.Code) + "\n--- output\n" + tail2(r.Out, 3000)
	if r.Err != "" {
		s += "\n--- stderr\n" + tail2(r.Err, 1500)
	}
	return s + "\n"
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	s := ""
	for {
		s = string(rune('0'+n%10)) + s
		n /= 10
		if n == 0 {
			return s
		}
	}
}

const noChangesText = "No changes found"

// runGqlAs runs a copy of the built command as another user, in a directory that user can enter.
func runGqlAs(e *Env, dir string, cred *syscall.Credential, args ...string) runResult {
	bin := filepath.Join(dir, ".gql")
	b, err := os.ReadFile(e.Gql)
	if err != nil {
		hfail("%v", err)
	}
	if err := os.WriteFile(bin, b, 0o755); err != nil {
		hfail("%v", err)
	}
	defer os.Remove(bin)
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "GOMAXPROCS=2"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: cred}
	var so, se bytes.Buffer
	cmd.Stdout = &so
	cmd.Stderr = &se
	err = cmd.Run()
	r := runResult{Out: so.String(), Err: se.String()}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		r.Code = ee.ExitCode()
		if r.Code < 0 {
			r.Code = 255
		}
	} else if err != nil {
		hfail("cannot run gql as another user: %v", err)
	}
	return r
}

// openPath lets other users enter the directories above dir up to /tmp.
func openPath(dir string) func() {
	for d := dir; d != "/" && d != "/tmp"; d = filepath.Dir(d) {
		if st, err := os.Stat(d); err == nil {
			_ = os.Chmod(d, st.Mode().Perm()|0o055)
		}
	}
	return func() {}
}

// opt writes an option in one of the ways the command line allows.
func opt(k int, short, long, val string) []string {
	switch k % 5 {
	case 1:
		return []string{"--" + long, val}
	case 2:
		return []string{"--" + long + "=" + val}
	case 3:
		return []string{"-" + short + "=" + val}
	case 4:
		if val != "" && val[0] != '=' {
			return []string{"-" + short + val}
		}
	}
	return []string{"-" + short, val}
}

// flagOf writes a switch.
func flagOf(k int, short string) string {
	long := map[string]string{"-b": "--breaking-change-only", "-e": "--exclude-print-filepath"}[short]
	switch k % 3 {
	case 1:
		return long
	case 2:
		return long + "=true"
	}
	return short
}

// compareArgs writes the arguments of a comparison, spelled and ordered by k.
func compareArgs(k int, o, n string, flags ...string) []string {
	var fs []string
	for i, f := range flags {
		fs = append(fs, flagOf(k/25+i, f))
	}
	a, b := opt(k, "o", "oldversion", o), opt(k/5, "n", "newversion", n)
	if k/75%2 == 1 {
		a, b = b, a
	}
	var r []string
	switch k / 150 % 3 {
	case 0:
		r = append(append(append(r, a...), b...), fs...)
	case 1:
		r = append(append(append(r, fs...), a...), b...)
	default:
		r = append(append(append(r, a...), fs...), b...)
	}
	return append([]string{"compare"}, r...)
}

const spellings = 450
