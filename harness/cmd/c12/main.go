// C12: tokenizers made from one dictionary can run concurrently.
package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/harness/conc"
	"verif/harness/engine"
	"verif/harness/vsched"

	"github.com/msnoigrs/gosudachi"
)

var scratchDir string

// solo is what a call does alone.
type solo struct {
	want  string
	steps int
	sites []int32
	// key are the steps of the first and last passages of every site.
	key []int
}

var (
	soloMu sync.Mutex
	solos  = map[[2]int]*solo{}
	passed sync.Map
)

func alone(conf, call int) *solo {
	soloMu.Lock()
	defer soloMu.Unlock()
	k := [2]int{conf, call}
	if s, ok := solos[k]; ok {
		return s
	}
	d := conc.Confs[conf].Open(scratchDir)
	s := &solo{}
	vsched.Run([]func(){func() { s.want = conc.Confs[conf].Calls[call].Do(d) }}, nil, nil, func(_, step int, site int32) {
		s.sites = append(s.sites, site)
		passed.Store(site, true)
	})
	s.steps = len(s.sites)
	first, last := map[int32]int{}, map[int32]int{}
	for i, x := range s.sites {
		if _, ok := first[x]; !ok {
			first[x] = i + 1
		}
		last[x] = i + 1
	}
	for i, x := range s.sites {
		if first[x] == i+1 || last[x] == i+1 {
			s.key = append(s.key, i+1)
		}
	}
	// the same without the scheduler, in a dictionary of its own
	if got := conc.Confs[conf].Calls[call].Do(conc.Confs[conf].Open(scratchDir)); got != s.want {
		panic(fmt.Sprintf("%v alone gives %s and %s", conc.Confs[conf].Calls[call], s.want, got))
	}
	solos[k] = s
	return s
}

// schedule runs calls under a plan and compares the results.
func schedule(t *engine.T, d *gosudachi.JapaneseDictionary, conf int, calls []int, plan []vsched.Preempt, after []int) (used int, ok bool) {
	got := make([]string, len(calls))
	var fs []func()
	for k, c := range calls {
		k, c := k, c
		fs = append(fs, func() { got[k] = conc.Confs[conf].Calls[c].Do(d) })
	}
	t.Input("%s: threads %s, switches %v, then %v", conc.Confs[conf].Set.Name, names(conf, calls), plan, after)
	r := vsched.Run(fs, plan, after, nil)
	t.Trace(1)
	t.State(conf, fmt.Sprint(calls, plan, after))
	if r.Stuck {
		t.Fail("stuck", "the threads wait for each other")
		return 0, false
	}
	n := 0
	for k, c := range calls {
		n += r.Steps[k]
		if r.Panics[k] != nil {
			t.Fail("panic", "thread %d: panic: %v", k, r.Panics[k])
			return r.Used, false
		}
		if w := alone(conf, c); got[k] != w.want {
			t.Fail("result", "thread %d gives %s, alone it gives %s", k, got[k], w.want)
			return r.Used, false
		}
	}
	t.Transition(n)
	if r.Blocked > 0 {
		t.Outcome("a thread waited for another")
	}
	return r.Used, true
}

func names(conf int, calls []int) string {
	var p []string
	for _, c := range calls {
		p = append(p, conc.Confs[conf].Calls[c].String())
	}
	return strings.Join(p, " | ")
}

func check(t *engine.T) bool {
	if vsched.Sites == 0 {
		t.Fail("harness", "the code has no yield points")
		return false
	}
	return true
}

type pair struct{ conf, a, b int }

// pairs of calls; all of them, or those of the calls where a is b or its neighbour.
func pairs(all bool) []pair {
	var out []pair
	for k, cf := range conc.Confs {
		for a := range cf.Calls {
			for b := range cf.Calls {
				if all || b == a || b == (a+1)%len(cf.Calls) || a == (b+1)%len(cf.Calls) {
					out = append(out, pair{k, a, b})
				}
			}
		}
	}
	return out
}

// one preemption before every statement.
func one(ps []pair) *engine.Family {
	const parts = 16
	return &engine.Family{Name: "one switch", Size: int64(len(ps) * parts), Chunk: 1, HangSeconds: 200,
		Bounds: fmt.Sprintf("%d ordered pairs of calls in 5 configurations: the first call is stopped before each of its statements in turn, the second one runs to its end, and the first one goes on", len(ps)),
		Run: func(i int64, t *engine.T) {
			if !check(t) {
				return
			}
			p := ps[int(i)/parts]
			d := conc.Confs[p.conf].Open(scratchDir)
			defer d.Close()
			n := alone(p.conf, p.a).steps
			for s := int(i)%parts + 1; s <= n; s += parts {
				used, ok := schedule(t, d, p.conf, []int{p.a, p.b}, []vsched.Preempt{{0, s, 1}}, nil)
				if !ok {
					return
				}
				if used != 1 {
					t.Fail("harness", "statement %d of %d was not reached", s, n)
					return
				}
			}
			t.Outcome(conc.Confs[p.conf].Set.Name)
		}}
}

// two preemptions at the first and last passages of the sites.
func two(ps []pair, stride int) *engine.Family {
	const parts = 64
	return &engine.Family{Name: "two switches", Size: int64(len(ps) * parts), Chunk: 1, HangSeconds: 200,
		Bounds: fmt.Sprintf("%d pairs of calls: both calls are stopped, before the first and the last execution of every statement that they pass (every %d. of these)", len(ps), stride),
		Run: func(i int64, t *engine.T) {
			if !check(t) {
				return
			}
			p := ps[int(i)/parts]
			d := conc.Confs[p.conf].Open(scratchDir)
			defer d.Close()
			a, b := alone(p.conf, p.a), alone(p.conf, p.b)
			for x := int(i) % parts; x < len(a.key); x += parts {
				if x%stride != 0 && x != len(a.key)-1 {
					continue
				}
				for y := x % stride; y < len(b.key); y += stride {
					if _, ok := schedule(t, d, p.conf, []int{p.a, p.b}, []vsched.Preempt{{0, a.key[x], 1}, {1, b.key[y], 0}}, nil); !ok {
						return
					}
				}
			}
			t.Outcome(conc.Confs[p.conf].Set.Name)
		}}
}

// three threads.
func three(stride int) *engine.Family {
	type tr struct{ conf, a, b, c int }
	ts := []tr{{0, 0, 1, 2}, {0, 0, 0, 0}, {1, 0, 1, 4}, {4, 0, 1, 2}}
	const parts = 64
	return &engine.Family{Name: "three threads", Size: int64(len(ts) * parts), Chunk: 1, HangSeconds: 200,
		Bounds: fmt.Sprintf("%d triples of calls: the first is stopped and then the second one, before the first and the last execution of every statement that they pass (every %d. of these), the third one runs to its end, the others go on in both orders", len(ts), stride),
		Run: func(i int64, t *engine.T) {
			if !check(t) {
				return
			}
			p := ts[int(i)/parts]
			d := conc.Confs[p.conf].Open(scratchDir)
			defer d.Close()
			a, b := alone(p.conf, p.a), alone(p.conf, p.b)
			for x := int(i) % parts; x < len(a.key); x += parts {
				if x%stride != 0 {
					continue
				}
				for y := (x / stride) % stride; y < len(b.key); y += stride {
					for _, after := range [][]int{{0, 1, 2}, {1, 0, 2}} {
						if _, ok := schedule(t, d, p.conf, []int{p.a, p.b, p.c}, []vsched.Preempt{{0, a.key[x], 1}, {1, b.key[y], 2}}, after); !ok {
							return
						}
					}
				}
			}
			t.Outcome(conc.Confs[p.conf].Set.Name)
		}}
}

// cold: every schedule starts with a dictionary that was never used.
func cold(ps []pair) *engine.Family {
	const parts = 32
	return &engine.Family{Name: "fresh", Size: int64(len(ps) * parts), Chunk: 1, HangSeconds: 200,
		Bounds: fmt.Sprintf("%d pairs of calls, each schedule in a dictionary that was just opened: the first call is stopped before the first and the last execution of every statement that it passes", len(ps)),
		Run: func(i int64, t *engine.T) {
			if !check(t) {
				return
			}
			p := ps[int(i)/parts]
			a := alone(p.conf, p.a)
			for x := int(i) % parts; x < len(a.key); x += parts {
				d := conc.Confs[p.conf].Open(scratchDir)
				_, ok := schedule(t, d, p.conf, []int{p.a, p.b}, []vsched.Preempt{{0, a.key[x], 1}}, nil)
				d.Close()
				if !ok {
					return
				}
			}
			t.Outcome(conc.Confs[p.conf].Set.Name)
		}}
}

// shared: the shared data is the same before every statement.
func shared() *engine.Family {
	type in struct{ conf, call int }
	var ins []in
	for k, cf := range conc.Confs {
		for c := range cf.Calls {
			ins = append(ins, in{k, c})
		}
	}
	return &engine.Family{Name: "shared data", Size: int64(len(ins)), Chunk: 1, HangSeconds: 200,
		Bounds: fmt.Sprintf("%d calls in 5 configurations: a hash of everything that is reachable from the dictionary, its plug-ins and the variables of the packages is compared before every statement", len(ins)),
		Run: func(i int64, t *engine.T) {
			if !check(t) {
				return
			}
			p := ins[i]
			d := conc.Confs[p.conf].Open(scratchDir)
			defer d.Close()
			roots := append([]interface{}{d}, vsched.GlobalVars()...)
			t.Input("%s: %s", conc.Confs[p.conf].Set.Name, names(p.conf, []int{p.call}))
			before := vsched.Hash(roots...)
			bad := ""
			prev := int32(0)
			vsched.Run([]func(){func() { conc.Confs[p.conf].Calls[p.call].Do(d) }}, nil, nil, func(_, step int, site int32) {
				t.Transition(1)
				t.State(p.conf, p.call, step)
				if bad == "" && vsched.Hash(roots...) != before {
					bad = fmt.Sprintf("shared data is written before statement %d at %s (after %s)", step, vsched.Name(site), vsched.Name(prev))
				}
				prev = site
			})
			t.Trace(1)
			if bad == "" && vsched.Hash(roots...) != before {
				bad = "shared data is written by the last statement"
			}
			if bad != "" {
				t.Fail("written", "%s", bad)
				return
			}
			t.Outcome("unchanged")
		}}
}

var (
	raceOnce sync.Once
	raceBin  string
	raceErr  string
)

// race runs the calls freely under the race detector.
func race(rounds int) *engine.Family {
	return &engine.Family{Name: "race detector", Size: int64(len(conc.Confs)), Chunk: 1, HangSeconds: 280,
		Bounds: fmt.Sprintf("free runs under the race detector: in 5 configurations all pairs of calls and all calls together, twice each, %d rounds (a complement: the interleavings are not enumerated)", rounds),
		Run: func(i int64, t *engine.T) {
			raceOnce.Do(func() {
				raceBin = filepath.Join(scratchDir, "race")
				args := []string{"build", "-race", "-gcflags=all=-d=checkptr=0", "-buildvcs=false", "-o", raceBin}
				if o := os.Getenv("VERIF_OVERLAY"); o != "" {
					args = append(args, "-overlay", o)
				}
				c := exec.Command("go", append(args, "./tools/race")...)
				c.Dir = filepath.Join(os.Getenv("VERIF_DIR"), "harness")
				if out, err := c.CombinedOutput(); err != nil {
					raceErr = fmt.Sprintf("%v: %s", err, out)
				}
			})
			if raceErr != "" {
				panic("cannot build the race program: " + raceErr)
			}
			t.Input("configuration %s", conc.Confs[i].Set.Name)
			dir := filepath.Join(scratchDir, fmt.Sprint("race", i))
			os.MkdirAll(dir, 0755)
			c := exec.Command(raceBin, dir, fmt.Sprint(i), fmt.Sprint(rounds))
			c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
			done := time.AfterFunc(200*time.Second, func() { c.Process.Kill() })
			out, err := c.CombinedOutput()
			done.Stop()
			t.Trace(1)
			t.Transition(1)
			t.State(i)
			if err != nil {
				s := string(out)
				if k := strings.Index(s, "WARNING: DATA RACE"); k >= 0 {
					s = s[k:]
				}
				if len(s) > 1500 {
					s = s[:1500]
				}
				t.Fail("race", "%v: %s", err, s)
				return
			}
			t.Outcome("no race")
		}}
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	scratchDir = scratch
	some := []pair{{0, 0, 0}, {0, 0, 1}, {0, 2, 3}, {1, 0, 1}, {4, 1, 0}}
	if tier == engine.Thorough {
		return []*engine.Family{shared(), race(20), one(pairs(true)), cold(pairs(true)), two(pairs(false), 1), three(3)}
	}
	return []*engine.Family{shared(), race(3), one(pairs(true)), cold(pairs(false)), two(some, 2), three(8)}
}

func main() {
	engine.Main(&engine.Check{
		ID: "C12", Level: "model_checking", Families: families,
		Rule: "a state is a distinct schedule (calls, switches) or a statement of a call before which the shared data was compared; a transition is one statement executed under the scheduler; a trace is one complete schedule executed on the real code",
		Assumptions: []string{"statements are atomic: threads are switched before statements of the repository's packages, not within them; the free runs under the race detector look for accesses within statements",
			"a call is creating a tokenizer, tokenizing and reading the result; dictionaries are opened and closed by one thread"},
		Extra: func(cov map[string]interface{}) {
			n := 0
			passed.Range(func(_, _ interface{}) bool { n++; return true })
			cov["yield_points_compiled"] = vsched.Sites
			cov["yield_points_passed"] = n
		},
	})
}
