package main

// Driver: a parent process deals cases to worker processes, so that a crash, a stack overflow
// or a hang of the code under test is attributed to the case that caused it.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Check struct {
	ID       string
	Quick    int
	Thorough int
	Rule     string
	Assume   []string
	Level    string
	Run      func(t *T)
	Workers  int
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// T is the context of one case.
type T struct {
	R     *rand.Rand
	Idx   int
	Dir   string
	Deep  bool
	Obs   Obs
	key   string
	nt    bool
	ops   []string
	samp  string
	viols []string
	pause func(int) // lets concurrent actors interleave
}

func (t *T) fail(f string, a ...interface{}) {
	s := f
	if len(a) > 0 {
		s = fmt.Sprintf(f, a...)
	}
	t.viols = append(t.viols, s)
}
func (t *T) failed() bool { return len(t.viols) > 0 }

// note records what makes the case distinct and non-trivial.
func (t *T) note(nontrivial bool, key string, f string, a ...interface{}) {
	t.nt = nontrivial
	t.key = key
	t.samp = fmt.Sprintf(f, a...)
}

type Result struct {
	Idx  int
	Viol string
	Herr string
	Obs  Obs
	Key  string
	NT   bool
	Samp string
	Ops  []string
}

type harnessErr struct{ msg string }

func runCase(c *Check, seed int, idx int, deep bool, dir string) (res Result) {
	t := &T{R: rngFor(c.ID, seed, idx), Idx: idx, Dir: dir, Deep: deep, Obs: Obs{}}
	defer func() {
		if p := recover(); p != nil {
			msg := fmt.Sprint(p)
			if he, ok := p.(harnessErr); ok {
				res.Herr = he.msg
			} else if strings.HasPrefix(msg, "harness:") {
				res.Herr = msg
			} else {
				res.Viol = "panic: " + msg + "\n" + trimStack(string(debug.Stack()))
			}
		}
		res.Idx = idx
		res.Obs, res.Key, res.NT, res.Samp, res.Ops = t.Obs, t.key, t.nt, t.samp, t.ops
		if len(t.viols) > 0 && res.Viol == "" {
			res.Viol = strings.Join(t.viols, "\n")
		}
	}()
	c.Run(t)
	return
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

func worker(c *Check, seed int, cases []int, deep bool) {
	out := os.NewFile(3, "proto")
	log.SetOutput(io.Discard)
	dir, err := os.MkdirTemp("", "pdftverif")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if os.Getenv("PV_NOLIMIT") == "" {
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(200)
	w := bufio.NewWriter(out)
	for _, i := range cases {
		fmt.Fprintf(w, "S %d\n", i)
		w.Flush()
		res := runCase(c, seed, i, deep, dir)
		b, _ := json.Marshal(res)
		w.WriteString("D ")
		w.Write(b)
		w.WriteString("\n")
		w.Flush()
		if res.Viol != "" {
			break
		}
	}
	os.RemoveAll(dir)
	fmt.Fprintf(w, "E\n")
	w.Flush()
}

type agg struct {
	mu      sync.Mutex
	n       int
	obs     Obs
	keys    map[string]bool
	nt      int
	samples []string
	viol    []Result
	herr    []string
	flakes  []string
	stop    bool
}

func (a *agg) add(r Result) {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.n++
	for k, v := range r.Obs {
		a.obs[k] += v
	}
	if r.NT && r.Key != "" {
		a.keys[r.Key] = true
		if len(a.samples) < 6 && r.Samp != "" && (r.Idx%7 == 0 || len(a.samples) == 0) {
			a.samples = append(a.samples, fmt.Sprintf("case %d: %s", r.Idx, r.Samp))
		}
	}
	if r.Viol != "" {
		a.viol = append(a.viol, r)
		a.stop = true
	}
	if r.Herr != "" {
		a.herr = append(a.herr, fmt.Sprintf("case %d: %s", r.Idx, r.Herr))
	}
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 60000 {
		t.b = append(append([]byte(nil), t.b[:20000]...), t.b[len(t.b)-20000:]...)
	}
	return len(p), nil
}

// spawn runs the cases in one worker process. It returns the remaining cases and, if the
// worker died or hung, the case that was running and the reason.
func spawn(c *Check, seed int, tier string, cases []int, a *agg, quiet time.Duration) (rest []int, bad int, why string) {
	bad = -1
	strs := make([]string, len(cases))
	for i, x := range cases {
		strs[i] = strconv.Itoa(x)
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, -1, err.Error()
	}
	dir, _ := os.MkdirTemp("", "pdftverifw")
	defer os.RemoveAll(dir)
	lst := filepath.Join(dir, "cases")
	os.WriteFile(lst, []byte(strings.Join(strs, ",")), 0600)
	cmd := exec.Command(os.Args[0], "-worker", "-prop", c.ID, "-seed", strconv.Itoa(seed), "-tier", tier, "-cases", "@"+lst)
	cmd.Env = append(os.Environ(), "TMPDIR="+dir, "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS="+gomax(c))
	cmd.ExtraFiles = []*os.File{pw}
	var eb tailBuf
	cmd.Stderr = &eb
	cmd.Stdout = &eb
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return nil, -1, err.Error()
	}
	pw.Close()
	lines := make(chan string, 16)
	go func() {
		sc := bufio.NewReaderSize(pr, 1<<20)
		for {
			l, err := sc.ReadString('\n')
			if l != "" {
				lines <- l
			}
			if err != nil {
				close(lines)
				return
			}
		}
	}()
	done := map[int]bool{}
	cur := -1
	ended := false
	hung := false
	kill := func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	stopT := time.NewTicker(300 * time.Millisecond)
	defer stopT.Stop()
	timer := time.NewTimer(quiet)
loop:
	for {
		select {
		case l, ok := <-lines:
			if !ok {
				break loop
			}
			if !timer.Stop() {
				select {
				case <-timer.C:
				default:
				}
			}
			timer.Reset(quiet)
			l = strings.TrimRight(l, "\n")
			switch {
			case strings.HasPrefix(l, "S "):
				cur, _ = strconv.Atoi(l[2:])
			case strings.HasPrefix(l, "D "):
				var r Result
				if json.Unmarshal([]byte(l[2:]), &r) == nil {
					done[r.Idx] = true
					a.add(r)
				}
				cur = -1
			case l == "E":
				ended = true
			}
		case <-timer.C:
			hung = true
			syscall.Kill(cmd.Process.Pid, syscall.SIGQUIT)
			time.Sleep(500 * time.Millisecond)
			kill()
			break loop
		case <-stopT.C:
			a.mu.Lock()
			s := a.stop
			a.mu.Unlock()
			if s {
				kill()
				cmd.Wait()
				pr.Close()
				return nil, -1, ""
			}
		}
	}
	werr := cmd.Wait()
	kill()
	pr.Close()
	for _, x := range cases {
		if !done[x] && x != cur {
			rest = append(rest, x)
		}
	}
	if ended && werr == nil {
		return rest, -1, ""
	}
	eb.mu.Lock()
	tail := string(eb.b)
	eb.mu.Unlock()
	if hung {
		return rest, cur, "hang: no progress for " + quiet.String() + "\n" + clipN(tail, 4000)
	}
	return rest, cur, fmt.Sprintf("worker died (%v)\n%s", werr, clipN(tail, 6000))
}

func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func gomax(c *Check) string {
	if c.Workers == 1 || c.ID == "C14" {
		return "8"
	}
	return "2"
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int("seed", 1, "seed")
	tier := flag.String("tier", "quick", "tier")
	wk := flag.Bool("worker", false, "worker mode")
	cs := flag.String("cases", "", "cases")
	root := flag.String("root", "/verif", "verif directory")
	one := flag.Int("case", -1, "run one case in process and print")
	replay := flag.String("replay", "", "replay file")
	n := flag.Int("n", 0, "number of cases")
	flag.Parse()
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var rp struct {
			Property string
			Seed     int
			Case     int
			Tier     string
		}
		if err := json.Unmarshal(b, &rp); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*prop, *seed, *tier, *one = rp.Property, rp.Seed, rp.Tier, rp.Case
	}
	c := checks[*prop]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	deep := *tier == "thorough"
	if *wk {
		var list []int
		s := *cs
		if strings.HasPrefix(s, "@") {
			b, _ := os.ReadFile(s[1:])
			s = string(b)
		}
		for _, x := range strings.Split(s, ",") {
			i, _ := strconv.Atoi(x)
			list = append(list, i)
		}
		worker(c, *seed, list, deep)
		return
	}
	if *one >= 0 {
		dir, _ := os.MkdirTemp("", "pdftverif")
		defer os.RemoveAll(dir)
		log.SetOutput(io.Discard)
		for k := 0; k < 20; k++ {
			r := runCase(c, *seed, *one, deep, dir)
			if r.Viol != "" || k == 19 || *replay == "" {
				b, _ := json.MarshalIndent(r, "", " ")
				fmt.Println(string(b))
				if r.Viol != "" {
					fmt.Println(r.Viol)
					os.RemoveAll(dir)
					os.Exit(1)
				}
				break
			}
		}
		return
	}
	os.Exit(parent(c, *seed, *tier, *root, *n))
}

func parent(c *Check, seed int, tier, root string, n int) int {
	start := time.Now()
	total := c.Quick
	budget := 240 * time.Second
	if tier == "thorough" {
		total = c.Thorough
		budget = 20 * time.Minute
	}
	if n > 0 {
		total = n
	}
	nw := 8
	if c.Workers > 0 {
		nw = c.Workers
	}
	if v, err := strconv.Atoi(os.Getenv("PV_WORKERS")); err == nil && v > 0 {
		nw = v
	}
	if nw > total {
		nw = total
	}
	a := &agg{obs: Obs{}, keys: map[string]bool{}}
	quiet := 100 * time.Second
	if v, err := strconv.Atoi(os.Getenv("PV_QUIET")); err == nil && v > 0 {
		quiet = time.Duration(v) * time.Second
	}
	// queue of small batches
	var qmu sync.Mutex
	next := 0
	batch := total/(nw*4) + 1
	if batch > 60 {
		batch = 60
	}
	take := func() []int {
		qmu.Lock()
		defer qmu.Unlock()
		if time.Since(start) > budget {
			return nil
		}
		var out []int
		for len(out) < batch && next < total {
			out = append(out, next)
			next++
		}
		return out
	}
	stopped := func() bool { a.mu.Lock(); defer a.mu.Unlock(); return a.stop }
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stopped() {
				cases := take()
				if len(cases) == 0 {
					return
				}
				for len(cases) > 0 && !stopped() {
					rest, bad, why := spawn(c, seed, tier, cases, a, quiet)
					if why != "" {
						if bad < 0 {
							if strings.Contains(why, "DATA RACE") {
								a.add(Result{Idx: cases[0], Viol: why})
								return
							}
							a.mu.Lock()
							a.flakes = append(a.flakes, why)
							nf := len(a.flakes)
							a.mu.Unlock()
							if nf > 20 {
								return
							}
						} else if strings.Contains(why, "DATA RACE") || strings.Contains(why, "concurrent map") {
							a.add(Result{Idx: bad, Viol: why})
							return
						} else {
							// confirm alone
							confirmed := 0
							var why2 string
							for k := 0; k < 2 && confirmed == 0 && !stopped(); k++ {
								_, b2, w2 := spawn(c, seed, tier, []int{bad}, a, quiet)
								if w2 != "" && b2 == bad {
									confirmed++
									why2 = w2
								}
							}
							if confirmed > 0 {
								a.add(Result{Idx: bad, Viol: why2})
								return
							}
							a.mu.Lock()
							a.flakes = append(a.flakes, fmt.Sprintf("case %d: %s", bad, clipN(why, 500)))
							a.mu.Unlock()
						}
					}
					cases = rest
				}
			}
		}()
	}
	wg.Wait()
	return report(c, seed, tier, root, total, a, start)
}

func report(c *Check, seed int, tier, root string, total int, a *agg, start time.Time) int {
	code := 0
	level := c.Level
	if level == "" {
		level = "exploration"
	}
	sort.Strings(a.samples)
	cov := map[string]interface{}{
		"evaluations":                a.n,
		"distinct_nontrivial":        len(a.keys),
		"rule":                       c.Rule,
		"samples":                    a.samples,
		"planned_cases":              total,
		"monitor_events":             a.obs,
		"unreproduced_worker_deaths": len(a.flakes),
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": c.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(a.viol),
	}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", c.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, f := range a.flakes {
		fmt.Fprintln(os.Stderr, "note: unreproduced:", clipN(f, 300))
	}
	if len(a.viol) > 0 {
		sort.Slice(a.viol, func(i, j int) bool { return a.viol[i].Idx < a.viol[j].Idx })
		v := a.viol[0]
		dir := filepath.Join(root, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		rp := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", c.ID, seed, v.Idx))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": c.ID, "seed": seed, "case": v.Idx, "tier": tier, "message": v.Viol, "ops": v.Ops, "sample": v.Samp}, "", " ")
		os.WriteFile(rp, b, 0644)
		fmt.Printf("%s\n", clipN(v.Viol, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rp)
		return 1
	}
	if len(a.herr) > 0 {
		fmt.Fprintln(os.Stderr, "harness errors:", len(a.herr), a.herr[0])
		return 2
	}
	if a.n == 0 || len(a.keys) == 0 {
		fmt.Fprintln(os.Stderr, "nothing was explored")
		return 2
	}
	fmt.Printf("OK property=%s cases=%d distinct_nontrivial=%d wall=%.1fs\n", c.ID, a.n, len(a.keys), time.Since(start).Seconds())
	var ks []string
	for k := range a.obs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var bb bytes.Buffer
	for _, k := range ks {
		fmt.Fprintf(&bb, " %s=%d", k, a.obs[k])
	}
	fmt.Println(" observed:" + bb.String())
	return code
}
