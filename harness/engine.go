package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Env is what a check may use besides its case.
type Env struct {
	Gql     string // path of the gql binary built from the working tree
	Scratch string // private scratch directory of this process
	Tier    string
	seq     int
}

// TempDir creates a fresh directory under the scratch directory.
func (e *Env) TempDir() string {
	e.seq++
	d := filepath.Join(e.Scratch, fmt.Sprintf("d%d", e.seq))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(harnessError{err.Error()})
	}
	return d
}

// harnessError is a panic value for failures of the harness or of its environment, never of the
// code under test.
type harnessError struct{ msg string }

func (h harnessError) Error() string { return h.msg }

func hfail(format string, a ...any) { panic(harnessError{fmt.Sprintf(format, a...)}) }

// Case is one generated input with everything needed to judge it.
type Case interface {
	// Check runs the code under test on the case and returns "" or what is wrong.
	Check(e *Env) string
	// Info says whether the case is non-trivial by the property's rule, and its classes.
	Info() (nontrivial bool, classes []string)
}

// Prop is one property's check.
type Prop struct {
	ID       string
	Rule     string
	Gen      func(t *rapid.T) Case // nil result: excluded case
	New      func() Case
	Quick    int // number of random cases, all shards together
	Thorough int
	// Enum optionally enumerates cases besides the random ones.
	Enum        func(tier string, emit func(Case))
	EnumIsFull  bool
	Assumptions []string
	HangSecs    int
	// Fixed optionally lists hand-kept regression cases (repaired defects), run first.
	Fixed func() []Case
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// ---------------------------------------------------------------- worker

type shardResult struct {
	Evaluations int
	Nontrivial  int
	Excluded    int
	Enumerated  int
	Classes     map[string]int
	Samples     []json.RawMessage
	Failure     string            // violation text
	Case        json.RawMessage   // failing case, shrunk
	History     []json.RawMessage // the cases up to the first failing one, for failures that need them
	Error       string            // harness error
	Done        bool
}

type shardTB struct {
	failed bool
	log    []string
}

type failNow struct{}

func (s *shardTB) Helper()      {}
func (s *shardTB) Name() string { return "shard" }
func (s *shardTB) Logf(format string, args ...any) {
	if len(s.log) < 200 {
		s.log = append(s.log, fmt.Sprintf(format, args...))
	}
}
func (s *shardTB) Log(args ...any) { s.Logf("%s", fmt.Sprint(args...)) }
func (s *shardTB) Errorf(format string, args ...any) {
	s.Logf(format, args...)
	s.failed = true
}
func (s *shardTB) Error(args ...any) { s.Errorf("%s", fmt.Sprint(args...)) }
func (s *shardTB) Fatalf(format string, args ...any) {
	s.Errorf(format, args...)
	s.FailNow()
}
func (s *shardTB) Fatal(args ...any)                { s.Fatalf("%s", fmt.Sprint(args...)) }
func (s *shardTB) Skipf(format string, args ...any) { panic(failNow{}) }
func (s *shardTB) Skip(args ...any)                 { panic(failNow{}) }
func (s *shardTB) SkipNow()                         { panic(failNow{}) }
func (s *shardTB) FailNow()                         { s.failed = true; panic(failNow{}) }
func (s *shardTB) Fail()                            { s.failed = true }
func (s *shardTB) Failed() bool                     { return s.failed }
func caseJSON(c Case) []byte {
	b, err := json.Marshal(c)
	if err != nil {
		hfail("marshal case: %v", err)
	}
	return b
}

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	_, _ = h.Write(b)
	return h.Sum64()
}

// safeCheck runs a check, turning a panic of the code under test into a violation.
func safeCheck(c Case, e *Env) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(harnessError); ok {
				panic(he)
			}
			msg = fmt.Sprintf("the code under test panicked: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	return c.Check(e)
}

func trimStack(s string) string {
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}

type journal struct{ f *os.File }

func (j *journal) write(b []byte) {
	var hdr [8]byte
	binary.LittleEndian.PutUint64(hdr[:], uint64(len(b)))
	if _, err := j.f.WriteAt(append(hdr[:], b...), 0); err != nil {
		hfail("journal: %v", err)
	}
}

func readJournal(path string) []byte {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return nil
	}
	n := binary.LittleEndian.Uint64(b)
	if n == 0 || int(n) > len(b)-8 {
		return nil
	}
	return b[8 : 8+n]
}

// worker runs one shard and writes its result.
func worker(p *Prop, tier string, seed uint64, shard, nshards, checks int, dir, gql string) {
	env := &Env{Gql: gql, Scratch: filepath.Join(dir, "scratch"), Tier: tier}
	_ = os.MkdirAll(env.Scratch, 0o755)
	res := &shardResult{Classes: map[string]int{}}
	seen := map[uint64]bool{}
	jf, err := os.Create(filepath.Join(dir, "journal"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	j := &journal{jf}
	finish := func() {
		b, _ := json.Marshal(res)
		hb := make([]byte, 0, 8*len(seen))
		for h := range seen {
			hb = binary.LittleEndian.AppendUint64(hb, h)
		}
		_ = os.WriteFile(filepath.Join(dir, "hashes"), hb, 0o644)
		if err := os.WriteFile(filepath.Join(dir, "result.json"), b, 0o644); err != nil {
			os.Exit(4)
		}
		_ = os.RemoveAll(env.Scratch)
		os.Exit(0)
	}
	defer func() {
		if r := recover(); r != nil {
			res.Error = fmt.Sprintf("%v\n%s", r, debug.Stack())
			finish()
		}
	}()
	t0, soft := time.Now(), 450*time.Second
	if tier == "thorough" {
		soft = 150 * time.Minute
	}
	failed := false
	var past [][]byte
	pastSize := 0
	run := func(c Case) string {
		b := caseJSON(c)
		j.write(b)
		msg := safeCheck(c, env)
		if !failed {
			res.Evaluations++
			nt, cls := c.Info()
			for _, k := range cls {
				res.Classes[k]++
			}
			if nt {
				h := hash64(b)
				if !seen[h] {
					seen[h] = true
					if len(res.Samples) < 2 && res.Evaluations%7 == shard%7 && len(b) < 6000 {
						res.Samples = append(res.Samples, b)
					}
				}
			}
		}
		if !failed {
			// what came before matters when the code under test keeps something from case to case
			past = append(past, b)
			pastSize += len(b)
			for len(past) > 1 && (len(past) > 4000 || pastSize > 8<<20) {
				pastSize -= len(past[0])
				past = past[1:]
			}
		}
		if msg != "" {
			if !failed {
				for _, x := range past {
					res.History = append(res.History, x)
				}
				past = nil
			}
			failed = true
			res.Failure = msg
			res.Case = b
		}
		j.write(nil)
		return msg
	}
	if shard == 0 && p.Fixed != nil {
		for _, c := range p.Fixed() {
			if run(c) != "" {
				finish()
			}
			res.Enumerated++
		}
	}
	if p.Enum != nil {
		i := 0
		stop := false
		p.Enum(tier, func(c Case) {
			if stop {
				return
			}
			i++
			if i%nshards != shard {
				return
			}
			res.Enumerated++
			if run(c) != "" {
				stop = true
			}
		})
		if stop {
			finish()
		}
	}
	if checks > 0 && p.Gen != nil {
		testing.Init()
		args := []string{
			"-rapid.nofailfile", "-rapid.checks=" + strconv.Itoa(checks),
			"-rapid.seed=" + strconv.FormatUint(seed, 10), "-rapid.shrinktime=" + shrinkTime(),
		}
		if err := flag.CommandLine.Parse(args); err != nil {
			hfail("flags: %v", err)
		}
		tb := &shardTB{}
		inCheck := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(failNow); !ok {
						panic(r)
					}
				}
			}()
			rapid.Check(tb, func(t *rapid.T) {
				inCheck = false
				if !failed && time.Since(t0) > soft {
					// a slow machine: what was explored so far is what is reported
					res.Classes["stopped-by-the-clock"]++
					return
				}
				c := p.Gen(t)
				if c == nil {
					if !failed {
						res.Excluded++
					}
					return
				}
				inCheck = true
				if msg := run(c); msg != "" {
					t.Fatalf("violation")
				}
			})
		}()
		_ = inCheck
		if tb.failed && res.Failure == "" {
			res.Error = "generation failed:\n" + strings.Join(tb.log, "\n")
		}
	}
	res.Nontrivial = len(seen)
	res.Done = true
	finish()
}

// ---------------------------------------------------------------- replay

type replayFile struct {
	Property string          `json:"property"`
	Seed     uint64          `json:"seed"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case,omitempty"`
	// instead of Case: cases that are run one after the other in one process
	Seq []json.RawMessage `json:"seq,omitempty"`
}

// replay runs one saved case; exit code 1 when it violates the property.
func replay(p *Prop, path, dir, gql string, times int) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 4
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 4
	}
	env := &Env{Gql: gql, Scratch: filepath.Join(dir, "replay-scratch"), Tier: "quick"}
	_ = os.MkdirAll(env.Scratch, 0o755)
	if rf.Seq != nil {
		for i, b := range rf.Seq {
			c := p.New()
			if err := json.Unmarshal(b, c); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 4
			}
			if msg := safeCheck(c, env); msg != "" {
				fmt.Printf("REPLAY-FAILS at case %d of %d, after the others in one process: %s\n", i+1, len(rf.Seq), msg)
				return 1
			}
		}
		fmt.Println("REPLAY-PASSES")
		return 0
	}
	c := p.New()
	if err := json.Unmarshal(rf.Case, c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 4
	}
	for i := 0; i < times; i++ {
		if msg := safeCheck(c, env); msg != "" {
			fmt.Println("REPLAY-FAILS " + msg)
			return 1
		}
	}
	fmt.Println("REPLAY-PASSES")
	return 0
}

// ---------------------------------------------------------------- supervisor

func verifRoot() string {
	if v := os.Getenv("VERIF_ROOT"); v != "" {
		return v
	}
	return "/verif"
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func cpuSeconds(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return -1
	}
	s := string(b)
	i := strings.LastIndexByte(s, ')')
	if i < 0 {
		return -1
	}
	f := strings.Fields(s[i+1:])
	if len(f) < 15 {
		return -1
	}
	var t float64
	for _, k := range []int{11, 12} { // utime, stime; children are not counted
		v, _ := strconv.ParseFloat(f[k], 64)
		t += v
	}
	return t / 100
}

type shardProc struct {
	i       int
	dir     string
	cmd     *exec.Cmd
	done    chan error
	ended   bool
	err     error
	lastTxt string
	cpu0    float64
	hung    bool
	stderr  string
}

func supervise(p *Prop, tier string, seedIn int, gql, dir string) int {
	start := time.Now()
	total := p.Quick
	if tier == "thorough" {
		total = p.Thorough
	}
	nsh := 8
	if v, err := strconv.Atoi(os.Getenv("VERIF_SHARDS")); err == nil && v > 0 {
		nsh = v
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_CASES")); err == nil && v > 0 {
		total = v
	}
	per := (total + nsh - 1) / nsh
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 4
	}
	hang := p.HangSecs
	if hang == 0 {
		hang = 60
	}
	var procs []*shardProc
	for i := 0; i < nsh; i++ {
		sd := filepath.Join(dir, fmt.Sprintf("shard%d", i))
		if err := os.MkdirAll(sd, 0o755); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 4
		}
		seed := mix(mix(uint64(int64(seedIn)))^hash64([]byte(p.ID))) + uint64(i)*0x1234567
		seed = mix(seed)
		if seed == 0 {
			seed = 1
		}
		cmd := exec.Command(self, "worker", p.ID, tier, strconv.FormatUint(seed, 10), strconv.Itoa(i), strconv.Itoa(nsh), strconv.Itoa(per), sd, gql)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2500MiB")
		ef, _ := os.Create(filepath.Join(sd, "stderr"))
		cmd.Stderr = ef
		of, _ := os.Create(filepath.Join(sd, "stdout"))
		cmd.Stdout = of
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 4
		}
		sp := &shardProc{i: i, dir: sd, cmd: cmd, done: make(chan error, 1)}
		go func() {
			// keep the thread that started the child alive is not needed: Pdeathsig is tied to the
			// parent thread, so the main goroutine is locked to its thread in main().
			sp.done <- cmd.Wait()
		}()
		procs = append(procs, sp)
	}
	limit := 780 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	// poll for ends, hangs and the overall limit
	for {
		running := 0
		for _, sp := range procs {
			if sp.ended {
				continue
			}
			select {
			case sp.err = <-sp.done:
				sp.ended = true
			default:
				running++
				cur := readJournal(filepath.Join(sp.dir, "journal"))
				key := ""
				if cur != nil {
					key = strconv.FormatUint(hash64(cur), 16)
				}
				cpu := cpuSeconds(sp.cmd.Process.Pid)
				if key == "" || key != sp.lastTxt {
					sp.lastTxt = key
					sp.cpu0 = cpu
				} else if cpu-sp.cpu0 > float64(hang) {
					sp.hung = true
					_ = syscall.Kill(-sp.cmd.Process.Pid, syscall.SIGKILL)
				}
			}
		}
		if running == 0 {
			break
		}
		if time.Since(start) > limit {
			for _, sp := range procs {
				if !sp.ended {
					_ = syscall.Kill(-sp.cmd.Process.Pid, syscall.SIGKILL)
				}
			}
			fmt.Fprintf(os.Stderr, "inconclusive: time limit of %v reached\n", limit)
			return 3
		}
		time.Sleep(15 * time.Millisecond)
	}
	// merge
	merged := &shardResult{Classes: map[string]int{}}
	seen := map[uint64]bool{}
	type fail struct {
		msg  string
		c    []byte
		kind string
		hist []json.RawMessage
	}
	var fails []fail
	var errs []string
	for _, sp := range procs {
		var r shardResult
		b, err := os.ReadFile(filepath.Join(sp.dir, "result.json"))
		if err != nil || json.Unmarshal(b, &r) != nil {
			cur := readJournal(filepath.Join(sp.dir, "journal"))
			stderr, _ := os.ReadFile(filepath.Join(sp.dir, "stderr"))
			stdout, _ := os.ReadFile(filepath.Join(sp.dir, "stdout"))
			if cur == nil {
				errs = append(errs, fmt.Sprintf("shard %d ended (%v) outside a case: %s", sp.i, sp.err, tail(string(stderr), 2000)))
				continue
			}
			what := fmt.Sprintf("the code under test ended the process (%v): %s%s", sp.err, tail(string(stdout), 300), tail(string(stderr), 1500))
			if sp.hung {
				what = fmt.Sprintf("the code under test did not finish within %d s of CPU time", hang)
			}
			fails = append(fails, fail{what, append([]byte{}, cur...), "death", nil})
			continue
		}
		merged.Evaluations += r.Evaluations
		merged.Excluded += r.Excluded
		merged.Enumerated += r.Enumerated
		for k, v := range r.Classes {
			merged.Classes[k] += v
		}
		merged.Samples = append(merged.Samples, r.Samples...)
		if r.Error != "" {
			errs = append(errs, fmt.Sprintf("shard %d: %s", sp.i, r.Error))
		}
		if r.Failure != "" {
			fails = append(fails, fail{r.Failure, r.Case, "check", r.History})
		}
		hb, _ := os.ReadFile(filepath.Join(sp.dir, "hashes"))
		for k := 0; k+8 <= len(hb); k += 8 {
			seen[binary.LittleEndian.Uint64(hb[k:])] = true
		}
	}
	code := 0
	violations := 0
	var out []string
	if len(fails) > 0 {
		sort.SliceStable(fails, func(a, b int) bool { return len(fails[a].c) < len(fails[b].c) })
		confirmed := false
		for _, f := range fails {
			path, err := saveReplay(p, seedIn, f.msg, f.c)
			if err != nil {
				errs = append(errs, err.Error())
				break
			}
			ok, detail := confirm(self, p, path, dir, gql, hang)
			if ok {
				confirmed = true
				violations++
				out = append(out, fmt.Sprintf("VIOLATION property=%s replay=%s", p.ID, path))
				fmt.Printf("%s\n", indent(tail2(f.msg, 4000)))
				break
			}
			_ = os.Remove(path)
			errs = append(errs, fmt.Sprintf("a failure did not reproduce in a fresh process (%s): %s\n%s", f.kind, tail2(f.msg, 1500), detail))
		}
		for _, f := range fails {
			if confirmed || len(f.hist) < 2 {
				continue
			}
			// it may need the cases before it
			if path, msg := confirmSeq(self, p, seedIn, f.hist, dir, gql, hang); path != "" {
				confirmed = true
				violations++
				out = append(out, fmt.Sprintf("VIOLATION property=%s replay=%s", p.ID, path))
				fmt.Printf("%s\n", indent(tail2(msg, 4000)))
			}
		}
		if confirmed {
			code = 1
		}
	}
	if code == 0 && len(errs) > 0 {
		code = 3
	}
	if code == 0 && merged.Excluded*20 > merged.Evaluations && merged.Excluded > 20 {
		errs = append(errs, fmt.Sprintf("%d of %d cases were excluded", merged.Excluded, merged.Excluded+merged.Evaluations))
		code = 3
	}
	known := runKnown(self, p, dir, gql)
	writeEvidence(p, tier, seedIn, merged, len(seen), time.Since(start), violations)
	for _, e := range errs {
		fmt.Fprintln(os.Stderr, "ERROR: "+e)
	}
	for _, k := range known {
		fmt.Println(k)
	}
	fmt.Printf("%s tier=%s seed=%d: %d cases (%d enumerated), %d distinct non-trivial, %d excluded, %.1f s\n", p.ID, tier, seedIn,
		merged.Evaluations, merged.Enumerated, len(seen), merged.Excluded, time.Since(start).Seconds())
	keys := make([]string, 0, len(merged.Classes))
	for k := range merged.Classes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  %-40s %d\n", k, merged.Classes[k])
	}
	for _, o := range out {
		fmt.Println(o)
	}
	return code
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func tail2(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func indent(s string) string { return "  | " + strings.ReplaceAll(s, "\n", "\n  | ") }

func saveReplay(p *Prop, seed int, msg string, c []byte) (string, error) {
	d := filepath.Join(verifRoot(), "replays")
	if err := os.MkdirAll(d, 0o755); err != nil {
		return "", err
	}
	path := filepath.Join(d, fmt.Sprintf("%s-%016x.json", p.ID, hash64(c)))
	b, err := json.MarshalIndent(replayFile{Property: p.ID, Seed: uint64(seed), Message: msg, Case: c}, "", " ")
	if err != nil {
		return "", err
	}
	return path, os.WriteFile(path, b, 0o644)
}

// confirmSeq replays a history of cases in a fresh process and reduces it.
func confirmSeq(self string, p *Prop, seed int, hist []json.RawMessage, dir, gql string, hang int) (string, string) {
	tmp := filepath.Join(dir, "seq.json")
	var msg string
	fails := func(seq []json.RawMessage) bool {
		b, _ := json.Marshal(replayFile{Property: p.ID, Seed: uint64(seed), Seq: seq})
		if os.WriteFile(tmp, b, 0o644) != nil {
			return false
		}
		ok, detail := confirm(self, p, tmp, dir, gql, hang)
		if ok {
			msg = detail
		}
		return ok
	}
	if !fails(hist) || !fails(hist) {
		return "", ""
	}
	until := time.Now().Add(60 * time.Second)
	// the last cases first, then without some of those before the last
	for n := 2; n < len(hist) && time.Now().Before(until); n *= 2 {
		if s := hist[len(hist)-n:]; fails(s) {
			hist = s
			break
		}
	}
	for step := (len(hist) - 1) / 2; step >= 1; step /= 2 {
		for at := 0; at+step < len(hist) && time.Now().Before(until); {
			s := append(append([]json.RawMessage{}, hist[:at]...), hist[at+step:]...)
			if fails(s) {
				hist = s
			} else {
				at += step
			}
		}
	}
	if !fails(hist) {
		return "", ""
	}
	b, _ := json.MarshalIndent(replayFile{Property: p.ID, Seed: uint64(seed), Message: msg, Seq: hist}, "", " ")
	d := filepath.Join(verifRoot(), "replays")
	_ = os.MkdirAll(d, 0o755)
	path := filepath.Join(d, fmt.Sprintf("%s-%016x.json", p.ID, hash64(b)))
	if os.WriteFile(path, b, 0o644) != nil {
		return "", ""
	}
	return path, msg
}

// confirm replays a failing case in a fresh process. Death of that process, a hang and a reported
// failure all confirm.
func confirm(self string, p *Prop, path, dir, gql string, hang int) (bool, string) {
	rd := filepath.Join(dir, "confirm")
	_ = os.MkdirAll(rd, 0o755)
	cmd := exec.Command(self, "replay", p.ID, path, rd, gql, "20")
	cmd.Env = append(os.Environ(), "GOMAXPROCS=4", "GOMEMLIMIT=2500MiB")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var sb strings.Builder
	cmd.Stdout = &sb
	cmd.Stderr = &sb
	if err := cmd.Start(); err != nil {
		return false, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	deadline := time.After(300 * time.Second)
	for {
		select {
		case err := <-done:
			_ = os.RemoveAll(rd)
			s := sb.String()
			if strings.Contains(s, "REPLAY-PASSES") {
				return false, "replay passes"
			}
			if strings.Contains(s, "REPLAY-FAILS") {
				return true, s
			}
			if strings.Contains(s, "HARNESS-ERROR") {
				return false, s
			}
			if err != nil {
				if ee, ok := err.(*exec.ExitError); ok {
					if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
						return false, "replay was killed"
					}
				}
			}
			return true, s // the process died in the case
		case <-deadline:
			_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-done
			return false, "replay inconclusive after 300 s"
		default:
			if cpuSeconds(cmd.Process.Pid) > float64(hang)*1.5 {
				_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				return true, "hang"
			}
			time.Sleep(20 * time.Millisecond)
		}
	}
}

// runKnown replays the listed known findings of the property; those that still fail are announced.
func runKnown(self string, p *Prop, dir, gql string) []string {
	b, err := os.ReadFile(filepath.Join(verifRoot(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+p.ID+" ")
		if !ok {
			continue
		}
		file, what, _ := strings.Cut(rest, " ")
		path := filepath.Join(verifRoot(), strings.TrimPrefix(file, "case="))
		if ok, _ := confirm(self, p, path, dir, gql, 60); ok {
			out = append(out, fmt.Sprintf("KNOWN-FINDING: property=%s %s", p.ID, what))
		}
	}
	return out
}

func writeEvidence(p *Prop, tier string, seed int, m *shardResult, distinct int, wall time.Duration, violations int) {
	var samples []any
	size := 0
	for i := range m.Samples {
		if len(samples) >= 6 || size+len(m.Samples[i]) > 24000 {
			continue
		}
		size += len(m.Samples[i])
		samples = append(samples, m.Samples[i])
	}
	if samples == nil {
		samples = []any{}
	}
	cov := map[string]any{
		"evaluations":         m.Evaluations,
		"distinct_nontrivial": distinct,
		"rule":                p.Rule,
		"samples":             samples,
		"classes":             m.Classes,
		"excluded":            m.Excluded,
		"enumerated":          m.Enumerated,
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": float64(int(wall.Seconds()*100)) / 100, "violations": violations,
	}
	as := append([]string{"gqlparser v2.5.1 is the parser the oracle shares with gql: texts it does not read back as the generating model are excluded and counted"}, p.Assumptions...)
	ev["assumptions"] = as
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return
	}
	d := filepath.Join(verifRoot(), "evidence")
	_ = os.MkdirAll(d, 0o755)
	_ = os.WriteFile(filepath.Join(d, p.ID+".json"), b, 0o644)
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: vf run ID TIER GQL DIR | worker ... | replay ID FILE DIR GQL [TIMES] | list")
	os.Exit(4)
}

func main() {
	runtime.LockOSThread()
	args := os.Args[1:]
	os.Args = os.Args[:1]
	if len(args) == 0 {
		usage()
	}
	if args[0] == "list" {
		var ids []string
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	if len(args) < 2 {
		usage()
	}
	p := props[args[1]]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property "+args[1])
		os.Exit(4)
	}
	switch args[0] {
	case "run":
		seed := 1
		if v, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
			seed = v
		}
		os.Exit(supervise(p, args[2], seed, args[3], args[4]))
	case "worker":
		seed, _ := strconv.ParseUint(args[3], 10, 64)
		sh, _ := strconv.Atoi(args[4])
		n, _ := strconv.Atoi(args[5])
		checks, _ := strconv.Atoi(args[6])
		worker(p, args[2], seed, sh, n, checks, args[7], args[8])
	case "replay":
		times := 1
		if len(args) > 5 {
			times, _ = strconv.Atoi(args[5])
		}
		defer func() {
			if r := recover(); r != nil {
				fmt.Println("HARNESS-ERROR", r)
				os.Exit(4)
			}
		}()
		os.Exit(replay(p, args[2], args[3], args[4], times))
	default:
		usage()
	}
}

// shrinkTime is how long a shard may spend on making a failing case small.
func shrinkTime() string {
	if v := os.Getenv("VERIF_SHRINK"); v != "" {
		return v
	}
	return "15s"
}
