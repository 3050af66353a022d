// Package engine runs bounded exhaustive explorations.
//
// A check consists of families.  A family is an indexed finite space of cases
// (index 0 is the simplest case).  Every case runs the real code and compares
// it with a reference model.  The engine enumerates every index of every
// family in a child process with parallel workers, so that a crash of the
// process (stack overflow, out of range memory access) or a hang is turned
// into a violation of the case that caused it instead of ending the check.
package engine

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Tier of the run.
type Tier int

const (
	Quick Tier = iota
	Thorough
)

func (t Tier) String() string {
	if t == Thorough {
		return "thorough"
	}
	return "quick"
}

// Family is one bounded space.
type Family struct {
	Name string
	// Bounds says in words what is enumerated.
	Bounds string
	Size   int64
	// Run executes case i.
	Run func(i int64, t *T)
	// Serial runs the cases of this family on one worker only.
	Serial bool
	// Chunk is the number of consecutive cases a worker takes at once.
	Chunk int64
	// HangSeconds overrides the default time after which a case is suspected to hang.
	HangSeconds int
}

// Check is a property check.
type Check struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	// Families builds the spaces for a tier; called in the child process.
	Families func(tier Tier, scratch string) []*Family
	// Extra is called in the child after exploration and may add coverage values.
	Extra func(cov map[string]interface{})
}

// T collects the outcome of one case.
type T struct {
	w        *worker
	failKey  string
	failMsg  string
	failed   bool
	input    string
	states   []uint64
	trans    int64
	traces   int64
	evals    int64
	outcomes map[string]int64
}

// Fail records a violation of the property by this case.
func (t *T) Fail(key string, format string, a ...interface{}) {
	if !t.failed {
		t.failed = true
		t.failKey = key
		t.failMsg = middle(fmt.Sprintf(format, a...), 3000)
	}
}

// Failed tells whether the case failed already.
func (t *T) Failed() bool { return t.failed }

// Input records what the case does, for samples and replays.
func (t *T) Input(format string, a ...interface{}) {
	t.input = middle(fmt.Sprintf(format, a...), 3000)
}

// middle shortens what is printed, in its middle.
func middle(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return strings.ToValidUTF8(s[:n/2], "") + fmt.Sprintf(" ... (%d bytes) ... ", len(s)-n) + strings.ToValidUTF8(s[len(s)-n/2:], "")
}

// WantInput says whether an input description is needed (sampling and replays only).
func (t *T) WantInput() bool { return true }

// State records a state of the reference model or harness that was reached.
func (t *T) State(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			io.WriteString(h, v)
		case []byte:
			h.Write(v)
		case int:
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(v))
			h.Write(b[:])
		default:
			fmt.Fprint(h, p)
		}
		h.Write([]byte{0xff})
	}
	t.states = append(t.states, h.Sum64())
}

// Transition counts model steps.
func (t *T) Transition(n int) { t.trans += int64(n) }

// Trace counts complete executions of the real code compared with the model.
func (t *T) Trace(n int) { t.traces += int64(n) }

// Eval counts evaluations (for exploration and fault enumeration levels).
func (t *T) Eval(n int) { t.evals += int64(n) }

// Outcome counts a class of observed outcomes.
func (t *T) Outcome(name string) {
	if t.outcomes == nil {
		t.outcomes = map[string]int64{}
	}
	t.outcomes[name]++
}

type violation struct {
	Property string `json:"property"`
	Family   string `json:"family"`
	Index    int64  `json:"index"`
	Tier     string `json:"tier"`
	Key      string `json:"key"`
	Message  string `json:"message"`
	Input    string `json:"input"`
	Confirm  string `json:"confirmed"`
}

type familyReport struct {
	Name       string  `json:"name"`
	Bounds     string  `json:"bounds"`
	Size       int64   `json:"size"`
	Done       int64   `json:"done"`
	Exhaustive bool    `json:"exhaustive"`
	WallS      float64 `json:"wall_s"`
}

type childReport struct {
	States     int64                  `json:"states"`
	Trans      int64                  `json:"transitions"`
	Traces     int64                  `json:"traces"`
	Evals      int64                  `json:"evals"`
	Cases      int64                  `json:"cases"`
	Families   []familyReport         `json:"families"`
	Samples    []string               `json:"samples"`
	Outcomes   map[string]int64       `json:"outcomes"`
	Violations []violation            `json:"violations"`
	Extra      map[string]interface{} `json:"extra"`
	Known      []violation            `json:"known"`
}

const slotSize = 32
const maxWorkers = 64

// slots is a file mapped by parent and child: per worker family+1, index, start time.
type slots struct{ b []byte }

func openSlots(path string, create bool) (*slots, error) {
	fl := os.O_RDWR
	if create {
		fl |= os.O_CREATE | os.O_TRUNC
	}
	f, err := os.OpenFile(path, fl, 0644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if create {
		if err := f.Truncate(slotSize * maxWorkers); err != nil {
			return nil, err
		}
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, slotSize*maxWorkers, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &slots{b}, nil
}

func (s *slots) p(w, k int) *int64 {
	return (*int64)(unsafe.Pointer(&s.b[w*slotSize+8*k]))
}
func (s *slots) set(w int, fam int, idx int64) {
	atomic.StoreInt64(s.p(w, 1), idx)
	atomic.StoreInt64(s.p(w, 2), time.Now().UnixNano())
	atomic.StoreInt64(s.p(w, 0), int64(fam)+1)
}
func (s *slots) clear(w int) { atomic.StoreInt64(s.p(w, 0), 0) }
func (s *slots) get(w int) (fam int, idx int64, start int64) {
	return int(atomic.LoadInt64(s.p(w, 0))) - 1, atomic.LoadInt64(s.p(w, 1)), atomic.LoadInt64(s.p(w, 2))
}

type worker struct {
	id      int
	pending *T
}

const stateShards = 64

type stateSet struct {
	mu   [stateShards]sync.Mutex
	m    [stateShards]map[uint64]struct{}
	size int64
	full int32
}

const maxStates = 40000000

func (s *stateSet) add(h uint64) {
	if atomic.LoadInt64(&s.size) >= maxStates {
		atomic.StoreInt32(&s.full, 1)
		return
	}
	k := h % stateShards
	s.mu[k].Lock()
	if s.m[k] == nil {
		s.m[k] = map[uint64]struct{}{}
	}
	if _, ok := s.m[k][h]; !ok {
		s.m[k][h] = struct{}{}
		atomic.AddInt64(&s.size, 1)
	}
	s.mu[k].Unlock()
}

func runCase(f *Family, i int64) (t *T) {
	t = &T{}
	defer func() {
		if r := recover(); r != nil {
			t.failed = false
			t.Fail("panic", "panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	debug.SetPanicOnFault(true)
	f.Run(i, t)
	return t
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "runtime/") || strings.Contains(l, "engine.") || strings.HasPrefix(l, "goroutine ") {
			continue
		}
		out = append(out, l)
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func child(c *Check, tier Tier, scratch, slotPath, outPath string, deadline time.Time, known map[string]bool, only string, onlyIdx int64) {
	sl, err := openSlots(slotPath, false)
	if err != nil {
		fatal("slots: %v", err)
	}
	realStderr := os.Stderr
	if dn, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stderr = dn
		os.Stdout = dn
	}
	_ = realStderr
	fams := c.Families(tier, scratch)
	rep := &childReport{Outcomes: map[string]int64{}, Extra: map[string]interface{}{}}
	states := &stateSet{}
	var mu sync.Mutex
	flush := func() {
		rep.States = atomic.LoadInt64(&states.size)
		if states.full != 0 {
			rep.Extra["state_count_capped"] = true
		}
		if c.Extra != nil {
			c.Extra(rep.Extra)
		}
		b, _ := json.Marshal(rep)
		tmp := outPath + ".tmp"
		if err := os.WriteFile(tmp, b, 0644); err == nil {
			os.Rename(tmp, outPath)
		}
	}
	for fi, f := range fams {
		if only != "" && f.Name != only {
			continue
		}
		start := time.Now()
		nw := runtime.GOMAXPROCS(0)
		if nw > 8 {
			nw = 8
		}
		if f.Serial {
			nw = 1
		}
		lo, hi := int64(0), f.Size
		if only != "" {
			if onlyIdx < 0 || onlyIdx >= f.Size {
				fatal("index %d out of range of %s", onlyIdx, f.Name)
			}
			lo, hi = onlyIdx, onlyIdx+1
			nw = 1
		}
		chunk := f.Chunk
		if chunk <= 0 {
			chunk = (hi - lo) / int64(nw*64)
			if chunk > 256 {
				chunk = 256
			}
			if chunk < 1 {
				chunk = 1
			}
		}
		next := lo
		var done, stop int64
		var wg sync.WaitGroup
		var viol []violation
		var samples []string
		sampleAt := map[int64]bool{lo: true, lo + (hi-lo)/2: true, hi - 1: true}
		for w := 0; w < nw; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				var trans, traces, evals, cases int64
				outc := map[string]int64{}
				for atomic.LoadInt64(&stop) == 0 {
					a := atomic.AddInt64(&next, chunk) - chunk
					if a >= hi {
						break
					}
					b := a + chunk
					if b > hi {
						b = hi
					}
					for i := a; i < b && atomic.LoadInt64(&stop) == 0; i++ {
						sl.set(w, fi, i)
						t := runCase(f, i)
						if t.failed {
							// confirm: the same case must fail again
							again := 0
							if t.failKey != "hang" {
								for k := 0; k < 4; k++ {
									sl.set(w, fi, i)
									if runCase(f, i).failed {
										again++
									}
								}
							}
							v := violation{c.ID, f.Name, i, tier.String(), t.failKey, t.failMsg, t.input, fmt.Sprintf("%d of 4 re-runs", again)}
							mu.Lock()
							if known[f.Name+"|"+t.failKey] {
								rep.Known = append(rep.Known, v)
							} else {
								viol = append(viol, v)
								if len(viol) >= 12 {
									atomic.StoreInt64(&stop, 1)
								}
							}
							mu.Unlock()
						}
						sl.clear(w)
						cases++
						trans += t.trans
						traces += t.traces
						evals += t.evals
						for _, h := range t.states {
							states.add(h)
						}
						for k, v := range t.outcomes {
							outc[k] += v
						}
						if sampleAt[i] && t.input != "" {
							mu.Lock()
							samples = append(samples, f.Name+": "+clip(t.input, 600))
							mu.Unlock()
						}
					}
					if !deadline.IsZero() && time.Now().After(deadline) {
						atomic.StoreInt64(&stop, 2)
					}
				}
				mu.Lock()
				rep.Trans += trans
				rep.Traces += traces
				rep.Evals += evals
				rep.Cases += cases
				done += cases
				for k, v := range outc {
					rep.Outcomes[f.Name+"/"+k] += v
				}
				mu.Unlock()
			}(w)
		}
		wg.Wait()
		sort.Slice(viol, func(i, j int) bool { return viol[i].Index < viol[j].Index })
		sort.Strings(samples)
		rep.Violations = append(rep.Violations, viol...)
		rep.Samples = append(rep.Samples, samples...)
		rep.Families = append(rep.Families, familyReport{f.Name, f.Bounds, f.Size, done, done == f.Size, time.Since(start).Seconds()})
		flush()
		if len(rep.Violations) >= 24 {
			break
		}
	}
	flush()
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
}

func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(3)
}

type childResult struct {
	rep      *childReport
	crashed  bool
	hang     bool
	stderr   string
	slotsAt  [][3]int64
	exitDesc string
}

func spawn(c *Check, tier Tier, scratch string, deadline time.Time, only string, onlyIdx int64, hangAfter time.Duration, famNames []string) childResult {
	slotPath := filepath.Join(scratch, "slots")
	outPath := filepath.Join(scratch, "out.json")
	os.Remove(outPath)
	sl, err := openSlots(slotPath, true)
	if err != nil {
		fatal("slots: %v", err)
	}
	defer syscall.Munmap(sl.b)
	cscratch := filepath.Join(scratch, "w")
	os.RemoveAll(cscratch)
	os.MkdirAll(cscratch, 0755)
	dl := int64(0)
	if !deadline.IsZero() {
		dl = deadline.UnixNano()
	}
	cmd := exec.Command("/proc/self/exe", "child", tier.String(), cscratch, slotPath, outPath, strconv.FormatInt(dl, 10), only, strconv.FormatInt(onlyIdx, 10))
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var eb bytes.Buffer
	cmd.Stderr = &limitWriter{w: &eb, n: 1 << 20}
	cmd.Env = os.Environ()
	if err := cmd.Start(); err != nil {
		fatal("start child: %v", err)
	}
	doneCh := make(chan error, 1)
	go func() { doneCh <- cmd.Wait() }()
	res := childResult{}
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	var werr error
loop:
	for {
		select {
		case werr = <-doneCh:
			break loop
		case <-tick.C:
			now := time.Now().UnixNano()
			for w := 0; w < maxWorkers; w++ {
				f, i, st := sl.get(w)
				if f >= 0 && now-st > int64(hangAfter) {
					res.hang = true
					res.slotsAt = append(res.slotsAt, [3]int64{int64(f), i, st})
				}
			}
			if res.hang {
				// re-read: still the same case?
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-doneCh
				res.crashed = true
				res.exitDesc = "hang"
				res.stderr = eb.String()
				readReport(outPath, &res)
				return res
			}
		}
	}
	readReport(outPath, &res)
	if werr != nil {
		res.crashed = true
		res.exitDesc = werr.Error()
		res.stderr = eb.String()
		for w := 0; w < maxWorkers; w++ {
			f, i, st := sl.get(w)
			if f >= 0 {
				res.slotsAt = append(res.slotsAt, [3]int64{int64(f), i, st})
			}
		}
	}
	return res
}

func readReport(outPath string, res *childResult) {
	b, err := os.ReadFile(outPath)
	if err != nil {
		return
	}
	var r childReport
	if json.Unmarshal(b, &r) == nil {
		res.rep = &r
	}
}

type limitWriter struct {
	w io.Writer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.w.Write(q)
		l.n -= len(q)
	}
	return len(p), nil
}

// VerifDir is /verif (the parent of the harness), from VERIF_DIR.
func VerifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown(id string) (open map[string]string) {
	open = map[string]string{}
	f, err := os.Open(filepath.Join(VerifDir(), "known_findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	s.Buffer(make([]byte, 1<<20), 1<<20)
	for s.Scan() {
		// open: property=C01 family|key  description
		l := strings.TrimSpace(s.Text())
		if !strings.HasPrefix(l, "open: property="+id+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "open: property="+id+" ")
		parts := strings.SplitN(rest, " ", 2)
		d := ""
		if len(parts) > 1 {
			d = parts[1]
		}
		open[parts[0]] = d
	}
	return
}

// Main is the entry point of every check program.
func Main(c *Check) {
	if len(os.Args) > 1 && os.Args[1] == "child" {
		tier := Quick
		if os.Args[2] == "thorough" {
			tier = Thorough
		}
		dl, _ := strconv.ParseInt(os.Args[6], 10, 64)
		var deadline time.Time
		if dl != 0 {
			deadline = time.Unix(0, dl)
		}
		idx, _ := strconv.ParseInt(os.Args[8], 10, 64)
		known := map[string]bool{}
		for k := range loadKnown(c.ID) {
			known[k] = true
		}
		child(c, tier, os.Args[3], os.Args[4], os.Args[5], deadline, known, os.Args[7], idx)
		os.Exit(0)
	}
	tier := Quick
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier = Thorough
	}
	if len(os.Args) > 2 && os.Args[1] == "replay" {
		os.Exit(replay(c, os.Args[2]))
	}
	if len(os.Args) > 1 {
		switch os.Args[1] {
		case "quick":
			tier = Quick
		case "thorough":
			tier = Thorough
		}
	}
	os.Exit(run(c, tier))
}

func mkScratch(id string) string {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
		if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
			base = "/dev/shm"
		}
	}
	d, err := os.MkdirTemp(base, "verif-"+id+"-")
	if err != nil {
		d, err = os.MkdirTemp("", "verif-"+id+"-")
		if err != nil {
			fatal("scratch: %v", err)
		}
	}
	return d
}

func run(c *Check, tier Tier) int {
	start := time.Now()
	scratch := mkScratch(c.ID)
	defer os.RemoveAll(scratch)
	budget := 300 * time.Second
	if tier == Thorough {
		budget = 2400 * time.Second
	}
	if v := os.Getenv("VERIF_BUDGET_S"); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	deadline := start.Add(budget)
	fams := c.Families(tier, filepath.Join(scratch, "p"))
	hang := 90 * time.Second
	for _, f := range fams {
		if h := time.Duration(f.HangSeconds) * time.Second; h > hang {
			hang = h
		}
	}
	names := make([]string, len(fams))
	for i, f := range fams {
		names[i] = f.Name
	}
	res := spawn(c, tier, scratch, deadline, "", -1, hang, names)
	rep := res.rep
	if rep == nil {
		rep = &childReport{}
	}
	open := loadKnown(c.ID)
	code := 0
	if res.crashed {
		confirmed := false
		for _, s := range res.slotsAt {
			fi := int(s[0])
			if fi < 0 || fi >= len(fams) || confirmed {
				continue
			}
			what := ""
			n := 0
			for k := 0; k < 2; k++ {
				r2 := spawn(c, tier, scratch, time.Time{}, names[fi], s[1], hang, names)
				if r2.crashed {
					n++
					if r2.hang {
						what = fmt.Sprintf("the case does not end (no progress for %v)", hang)
					} else {
						what = "the process died: " + r2.exitDesc + "\n" + clip(r2.stderr, 2000)
					}
				} else if r2.rep != nil && len(r2.rep.Violations) > 0 {
					n++
					what = r2.rep.Violations[0].Message
				} else {
					break
				}
			}
			if n == 2 {
				confirmed = true
				if _, ok := open[names[fi]+"|crash"]; ok {
					continue
				}
				rep.Violations = append(rep.Violations, violation{c.ID, names[fi], s[1], tier.String(), "crash", what, "", "2 of 2 re-runs"})
			}
		}
		if !confirmed && len(rep.Violations) == 0 {
			fmt.Fprintf(os.Stderr, "exploration process ended abnormally (%s) and no single case reproduces it\n%s\n", res.exitDesc, clip(res.stderr, 4000))
			code = 2
		}
	}
	exhaustive := code == 0 && !res.crashed
	for _, f := range rep.Families {
		if !f.Exhaustive {
			exhaustive = false
		}
	}
	if len(rep.Families) != len(fams) {
		exhaustive = false
	}
	// known findings
	knownSeen := map[string]int{}
	for _, v := range rep.Known {
		knownSeen[v.Family+"|"+v.Key]++
	}
	for k, d := range open {
		if knownSeen[k] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", c.ID, k, d)
		}
	}
	if len(rep.Violations) > 0 {
		code = 1
		seen := map[string]bool{}
		n := 0
		for _, v := range rep.Violations {
			k := v.Family
			if seen[k] || n >= 3 {
				continue
			}
			seen[k] = true
			n++
			path := filepath.Join(VerifDir(), "replays", fmt.Sprintf("%s-%s-%d.json", c.ID, v.Family, v.Index))
			os.MkdirAll(filepath.Dir(path), 0755)
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, append(b, '\n'), 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
			fmt.Printf("  family %s case %d: %s\n  input: %s\n", v.Family, v.Index, clip(v.Message, 1500), clip(v.Input, 1500))
		}
	}
	wall := time.Since(start).Seconds()
	cov := map[string]interface{}{
		"cases":      rep.Cases,
		"families":   rep.Families,
		"exhaustive": exhaustive,
		"samples":    rep.Samples,
	}
	if len(rep.Outcomes) > 0 {
		cov["outcomes"] = rep.Outcomes
	}
	for k, v := range rep.Extra {
		cov[k] = v
	}
	switch c.Level {
	case "model_checking":
		cov["states"] = rep.States
		cov["transitions"] = rep.Trans
		cov["traces_validated_against_impl"] = rep.Traces
	default:
		cov["evaluations"] = rep.Evals
		cov["distinct_nontrivial"] = rep.States
		cov["rule"] = c.Rule
	}
	if c.Rule != "" {
		cov["rule"] = c.Rule
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier.String(), "seed": seed, "level": c.Level,
		"coverage": cov, "wall_s": wall, "violations": len(rep.Violations),
		"assumptions": c.Assumptions,
	}
	if c.Assumptions == nil {
		delete(ev, "assumptions")
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	ep := filepath.Join(VerifDir(), "evidence", c.ID+".json")
	os.MkdirAll(filepath.Dir(ep), 0755)
	if err := os.WriteFile(ep, append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: cases=%d states=%d transitions=%d traces=%d evals=%d exhaustive=%v violations=%d wall=%.1fs\n", c.ID, tier, rep.Cases, rep.States, rep.Trans, rep.Traces, rep.Evals, exhaustive, len(rep.Violations), wall)
	if os.Getenv("VERIF_VERBOSE") != "" {
		for _, f := range rep.Families {
			fmt.Printf("   %-30s size=%d done=%d %.1fs\n", f.Name, f.Size, f.Done, f.WallS)
		}
		var ks []string
		for k := range rep.Outcomes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("   outcome %s = %d\n", k, rep.Outcomes[k])
		}
	}
	return code
}

func replay(c *Check, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fatal("%v", err)
	}
	tier := Quick
	if v.Tier == "thorough" {
		tier = Thorough
	}
	scratch := mkScratch(c.ID)
	defer os.RemoveAll(scratch)
	res := spawn(c, tier, scratch, time.Time{}, v.Family, v.Index, 90*time.Second, nil)
	if res.crashed {
		fmt.Printf("VIOLATION property=%s replay=%s\n  the process died or hung: %s\n%s\n", c.ID, path, res.exitDesc, clip(res.stderr, 3000))
		return 1
	}
	if res.rep != nil && len(res.rep.Violations) > 0 {
		w := res.rep.Violations[0]
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n  input: %s\n", c.ID, path, w.Message, w.Input)
		return 1
	}
	fmt.Printf("case %s/%d passes\n", v.Family, v.Index)
	return 0
}
