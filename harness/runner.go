package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check decides one property.
type Check struct {
	ID       string
	Level    string
	Rule     string
	Quick    int // number of cases
	Thorough int
	Races    bool // data races within the engine are violations
	MinDist  int  // fewer distinct situations than this means nothing was learned
	Assume   []string
	Run      func(c *Case)
}

// Violation is a violation of one or more properties.
type Violation struct {
	Case  int      `json:"case"`
	Props []string `json:"properties"`
	Desc  string   `json:"description"`
	Log   []string `json:"log,omitempty"`
}

// Case is a single generated case.
type Case struct {
	Prop string
	Tier string
	Seed uint64
	Idx  int
	Rng  *Rng

	mu    sync.Mutex
	viol  []Violation
	log   []string
	total int
	all   bool // every violation counts
	w     *worker
}

// Thorough returns true when running the thorough tier.
func (c *Case) Thorough() bool { return c.Tier == "thorough" }

// Violate records a violation of the given properties.
func (c *Case) Violate(props []string, desc string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	mine := c.all
	for _, p := range props {
		mine = mine || p == c.Prop
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "case %d %v: %s\n", c.Idx, props, desc)
	}
	c.total++
	if !mine {
		c.w.foreign(props)
		return
	}
	if len(c.viol) < 5 {
		v := Violation{Case: c.Idx, Props: props, Desc: desc}
		if len(c.viol) == 0 {
			v.Log = append([]string(nil), c.log...)
		}
		c.viol = append(c.viol, v)
	}
}

// Fail records a violation of the property being checked.
func (c *Case) Fail(format string, args ...any) {
	c.Violate([]string{c.Prop}, fmt.Sprintf(format, args...))
}

// FailOf records a violation of prop.
func (c *Case) FailOf(prop, format string, args ...any) {
	c.Violate([]string{prop}, fmt.Sprintf(format, args...))
}

// Known records an occurrence of a defect that may be a known finding.
func (c *Case) Known(prop, key, desc string) {
	c.mu.Lock()
	known := c.w.known[prop+" "+key]
	if known && prop == c.Prop {
		c.w.knownSeen[key] = desc
	}
	c.mu.Unlock()
	if !known {
		c.Violate([]string{prop}, desc)
	}
}

// Eval records that prop was evaluated in a given situation. The situation is
// trivial if sig is empty.
func (c *Case) Eval(prop, sig string) {
	if prop != c.Prop {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.w.evals++
	if sig != "" {
		c.w.sigs[sig]++
	}
}

// Log adds to the description of the case.
func (c *Case) Log(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.log) < 400 {
		c.log = append(c.log, fmt.Sprintf(format, args...))
	}
}

// Done returns true if the case should be abandoned.
func (c *Case) Done() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.total >= 12
}

type result struct {
	Worker   int               `json:"worker"`
	Cases    int               `json:"cases"`
	Evals    int               `json:"evals"`
	Sigs     map[string]int    `json:"sigs"`
	Viol     []Violation       `json:"violations"`
	Known    map[string]string `json:"known"`
	Foreign  map[string]int    `json:"foreign"`
	Samples  []any             `json:"samples"`
	Finished bool              `json:"finished"`
}

type worker struct {
	mu        sync.Mutex
	evals     int
	sigs      map[string]int
	path      string // of the known findings
	known     map[string]bool
	knownSeen map[string]string
	other     map[string]int
}

func (w *worker) foreign(props []string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, p := range props {
		w.other[p]++
	}
}

// readKnown returns the keys of known findings.
func readKnown(path string) map[string]bool {
	out := map[string]bool{}
	data, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	re := regexp.MustCompile(`^known: property=(\S+) key=(\S+) `)
	for _, l := range strings.Split(string(data), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			out[m[1]+" "+m[2]] = true
		}
	}
	return out
}

const exitStuck = 97

// runWorker runs the cases assigned to one worker.
func runWorker(ck *Check, tier string, seed uint64, k, of, only, from int, out, knownPath string) {
	w := &worker{path: knownPath, sigs: map[string]int{}, known: readKnown(knownPath), knownSeen: map[string]string{}, other: map[string]int{}}
	r := &result{Worker: k}
	var progress atomic.Int64

	go func() {
		last, since, spent := int64(-1), time.Now(), cpuTime()
		for {
			time.Sleep(time.Second)
			p := progress.Load()
			if p != last {
				last, since, spent = p, time.Now(), cpuTime()
				continue
			}
			if time.Since(since) > 60*time.Second {
				a := dumpStacks()
				time.Sleep(3 * time.Second)
				b := dumpStacks()
				if progress.Load() != p {
					continue
				}
				dump := a + "\n=====AGAIN=====\n" + b
				switch {
				case deadlocked(dump):
				case cpuTime()-spent > 90*time.Second && spinning(dump):
					fmt.Fprintf(os.Stderr, "SPINNING\n")
				case time.Since(since) < 300*time.Second:
					continue
				}
				fmt.Fprintf(os.Stderr, "STUCK case %d\n%s\n", p, dump)
				os.Exit(exitStuck)
			}
		}
	}()

	n := ck.Quick
	if tier == "thorough" {
		n = ck.Thorough
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_SCALE")); err == nil {
		n = n * s / 100 // a percentage, used to try things out
	}
	pf, _ := os.OpenFile(out+".progress", os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o600)
	for i := k; i < n; i += of {
		if only >= 0 && i != only || i < from {
			continue
		}
		progress.Store(int64(i))
		fmt.Fprintf(pf, "%d\n", i)
		c := &Case{Prop: ck.ID, Tier: tier, Seed: H("case", ck.ID, seed, i), Idx: i, w: w}
		c.Rng = NewRng(c.Seed, "main")
		ck.Run(c)
		r.Cases++
		r.Viol = append(r.Viol, c.viol...)
		if len(r.Samples) < 1 && len(c.log) > 0 && i >= of {
			l := c.log
			if len(l) > 12 {
				l = append(append([]string(nil), l[:12]...), "...")
			}
			r.Samples = append(r.Samples, map[string]any{"case": i, "log": l})
		}
		if len(r.Viol) >= 20 {
			break
		}
	}
	r.Evals, r.Sigs, r.Known, r.Foreign, r.Finished = w.evals, w.sigs, w.knownSeen, w.other, true
	data, err := json.Marshal(r)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot encode results:", err)
		os.Exit(5)
	}
	if err := os.WriteFile(out, data, 0o600); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(5)
	}
}

func dumpStacks() string {
	buf := make([]byte, 4<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// cpuTime returns the time that the process has spent computing.
func cpuTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// spinning returns true if a pair of dumps shows the same goroutine to be
// computing within the code under test.
func spinning(dump string) bool {
	seen := map[string]int{}
	for _, p := range strings.Split(dump, "=====AGAIN=====") {
		for _, g := range strings.Split(p, "\n\n") {
			head, rest, _ := strings.Cut(strings.TrimSpace(g), "\n")
			if (strings.Contains(head, "[runnable") || strings.Contains(head, "[running")) && strings.Contains(rest, "github.com/dogmatiq/testkit") {
				id, _, _ := strings.Cut(head, "[")
				seen[id]++
			}
		}
	}
	for _, n := range seen {
		if n == 2 {
			return true
		}
	}
	return false
}

// deadlocked returns true if a pair of dumps shows that every goroutine is
// blocked and that at least one of them is blocked within the code under test.
func deadlocked(dump string) bool {
	parts := strings.Split(dump, "=====AGAIN=====")
	if len(parts) != 2 {
		return false
	}
	for _, p := range parts {
		inside := false
		for _, g := range strings.Split(p, "\n\n") {
			g = strings.TrimSpace(g)
			i := strings.Index(g, "goroutine ")
			if i < 0 {
				continue
			}
			g = g[i:]
			head, _, _ := strings.Cut(g, "\n")
			if strings.Contains(g, "dumpStacks") {
				continue
			}
			state := ""
			if a, b := strings.Index(head, "["), strings.Index(head, "]"); a >= 0 && b > a {
				state, _, _ = strings.Cut(head[a+1:b], ",")
			}
			switch state {
			case "chan receive", "chan send", "select", "semacquire", "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.Cond.Wait", "sync.WaitGroup.Wait", "chan receive (nil chan)", "chan send (nil chan)", "select (no cases)":
				if strings.Contains(g, "github.com/dogmatiq/testkit") {
					inside = true
				}
			default:
				return false
			}
		}
		if !inside {
			return false
		}
	}
	return true
}

var raceSplit = regexp.MustCompile(`(?m)^={18}$`)

// races returns the race reports found in the given directory, separated into
// those that involve the code under test and those that don't.
func races(dir string) (inside, outside []string) {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, f := range files {
		data, _ := os.ReadFile(f)
		for _, r := range raceSplit.Split(string(data), -1) {
			if !strings.Contains(r, "DATA RACE") {
				continue
			}
			if strings.Contains(r, "github.com/dogmatiq/testkit") {
				inside = append(inside, strings.TrimSpace(r))
			} else {
				outside = append(outside, strings.TrimSpace(r))
			}
		}
	}
	return
}

func main() {
	var (
		prop     = flag.String("prop", "", "the property to check")
		tier     = flag.String("tier", "quick", "quick or thorough")
		seedArg  = flag.String("seed", "1", "seed")
		evidence = flag.String("evidence", "", "evidence directory")
		known    = flag.String("known", "", "known findings file")
		wk       = flag.Int("worker", -1, "")
		of       = flag.Int("of", 8, "number of workers")
		only     = flag.Int("case", -1, "run only this case")
		from     = flag.Int("from", 0, "")
		out      = flag.String("out", "", "")
		list     = flag.Bool("list", false, "list checks")
		part     = flag.String("part", "", "")
	)
	flag.Parse()
	if *list {
		for _, ck := range checks {
			fmt.Printf("%s %d %d\n", ck.ID, ck.Quick, ck.Thorough)
		}
		return
	}
	if *part != "" {
		os.Exit(runPart(*part, *known))
	}
	var ck *Check
	for _, x := range checks {
		if x.ID == *prop {
			ck = x
		}
	}
	if ck == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	seed, err := strconv.ParseInt(*seedArg, 10, 64)
	if err != nil {
		seed = int64(H(*seedArg) >> 2)
	}
	if *wk >= 0 {
		runWorker(ck, *tier, uint64(seed), *wk, *of, *only, *from, *out, *known)
		return
	}
	os.Exit(supervise(ck, *tier, seed, *evidence, *known, *of, *only))
}

// supervise runs the workers and reports the outcome.
func supervise(ck *Check, tier string, seed int64, evidence, known string, of, only int) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "verif-run-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 5
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()

	type outcome struct {
		res    *result
		err    error
		stderr string
		last   int
	}
	outs := make([]outcome, of)
	var wg sync.WaitGroup
	for k := 0; k < of; k++ {
		if only >= 0 && only%of != k {
			outs[k].res = &result{Finished: true}
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			o := &outs[k]
			rf := filepath.Join(dir, fmt.Sprintf("result.%d", k))
			cmd := exec.Command(self, "-prop", ck.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-worker", fmt.Sprint(k),
				"-of", fmt.Sprint(of), "-case", fmt.Sprint(only), "-out", rf, "-known", known)
			cmd.Env = append(os.Environ(),
				"GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=50 log_path="+filepath.Join(dir, "race"),
				"GOTRACEBACK=all",
			)
			var buf bytes.Buffer
			cmd.Stderr = &buf
			if os.Getenv("VERIF_DEBUG") != "" {
				cmd.Stderr = os.Stderr
			}
			o.err = cmd.Run()
			o.stderr = buf.String()
			if f, err := os.Open(rf + ".progress"); err == nil {
				sc := bufio.NewScanner(f)
				for sc.Scan() {
					o.last, _ = strconv.Atoi(sc.Text())
				}
				f.Close()
			}
			if data, err := os.ReadFile(rf); err == nil {
				o.res = &result{}
				if json.Unmarshal(data, o.res) != nil {
					o.res = nil
				}
			}
		}()
	}
	wg.Wait()

	total := result{Sigs: map[string]int{}, Known: map[string]string{}, Foreign: map[string]int{}}
	broken := ""
	for k, o := range outs {
		if o.err != nil || o.res == nil || !o.res.Finished {
			code := -1
			if o.err != nil {
				if x, ok := o.err.(*exec.ExitError); ok {
					code = x.ExitCode()
				}
			}
			text := o.stderr
			if len(text) > 20000 {
				text = text[:20000]
			}
			switch {
			case code == exitStuck && deadlocked(o.stderr):
				total.Viol = append(total.Viol, Violation{Case: o.last, Props: []string{ck.ID}, Desc: "every goroutine is blocked, some of them within the code under test", Log: strings.Split(text, "\n")})
			case code == exitStuck && strings.Contains(o.stderr, "SPINNING\nSTUCK"):
				total.Viol = append(total.Viol, Violation{Case: o.last, Props: []string{ck.ID}, Desc: "the code under test does not terminate", Log: strings.Split(text, "\n")})
			case code == exitStuck:
				broken = fmt.Sprintf("worker %d made no progress in case %d\n%s", k, o.last, text)
			case strings.Contains(o.stderr, "github.com/dogmatiq/testkit") && (strings.Contains(o.stderr, "fatal error:") || strings.Contains(o.stderr, "panic:")):
				total.Viol = append(total.Viol, Violation{Case: o.last, Props: []string{ck.ID}, Desc: "the process crashed within the code under test", Log: strings.Split(text, "\n")})
			default:
				broken = fmt.Sprintf("worker %d failed in case %d: %v\n%s", k, o.last, o.err, text)
			}
			continue
		}
		total.Cases += o.res.Cases
		total.Evals += o.res.Evals
		for s, n := range o.res.Sigs {
			total.Sigs[s] += n
		}
		for s, d := range o.res.Known {
			total.Known[s] = d
		}
		for s, n := range o.res.Foreign {
			total.Foreign[s] += n
		}
		total.Viol = append(total.Viol, o.res.Viol...)
		total.Samples = append(total.Samples, o.res.Samples...)
	}
	inside, outside := races(dir)
	if ck.Races {
		for _, r := range inside {
			total.Viol = append(total.Viol, Violation{Case: -1, Props: []string{ck.ID}, Desc: "data race", Log: strings.Split(r, "\n")})
		}
		if len(outside) > 0 && len(inside) == 0 {
			// A race between handlers or observers of the workload, which only
			// happens if the engine fails to keep them apart.
			for _, r := range outside {
				total.Viol = append(total.Viol, Violation{Case: -1, Props: []string{ck.ID}, Desc: "data race between parts of the workload", Log: strings.Split(r, "\n")})
			}
		}
	}
	sort.SliceStable(total.Viol, func(i, j int) bool { return total.Viol[i].Case < total.Viol[j].Case })
	sort.SliceStable(total.Samples, func(i, j int) bool {
		a, _ := total.Samples[i].(map[string]any)["case"].(float64)
		b, _ := total.Samples[j].(map[string]any)["case"].(float64)
		return a < b
	})
	if len(total.Samples) > 3 {
		total.Samples = total.Samples[:3]
	}

	// evidence
	type sc struct {
		S string
		N int
	}
	var scs []sc
	for s, n := range total.Sigs {
		scs = append(scs, sc{s, n})
	}
	sort.Slice(scs, func(i, j int) bool { return scs[i].S < scs[j].S })
	var sits []string
	step := max(1, len(scs)/25)
	for i := 0; i < len(scs); i += step {
		sits = append(sits, fmt.Sprintf("%s (%d times)", scs[i].S, scs[i].N))
	}
	ev := map[string]any{
		"property": ck.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    ck.Level,
		"coverage": map[string]any{
			"evaluations":         total.Evals,
			"distinct_nontrivial": len(total.Sigs),
			"rule":                ck.Rule,
			"samples":             total.Samples,
			"cases":               total.Cases,
			"situations":          sits,
			"race_reports":        len(inside) + len(outside),
		},
		"assumptions": ck.Assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(total.Viol),
	}
	if ck.Assume == nil {
		delete(ev, "assumptions")
	}
	if len(total.Foreign) > 0 {
		ev["coverage"].(map[string]any)["observations_belonging_to_other_properties"] = total.Foreign
	}
	if evidence != "" {
		_ = os.MkdirAll(evidence, 0o755)
		data, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(evidence, ck.ID+".json"), append(data, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 5
		}
	}
	var keys []string
	for k := range total.Known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", ck.ID, k, total.Known[k])
	}

	if len(total.Viol) > 0 {
		rp := filepath.Join(evidence, fmt.Sprintf("replay-%s-%s-%d.json", ck.ID, tier, seed))
		v := total.Viol
		if len(v) > 20 {
			v = v[:20]
		}
		data, _ := json.MarshalIndent(map[string]any{
			"property": ck.ID, "tier": tier, "seed": seed, "violations": v,
			"how": fmt.Sprintf("VERIF_SEED=%d ./run.sh %s %s -case %d", seed, ck.ID, tier, v[0].Case),
		}, "", " ")
		if err := os.WriteFile(rp, append(data, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		for i, x := range v {
			if i == 8 {
				break
			}
			fmt.Printf("case %d: %s\n", x.Case, x.Desc)
			if i == 0 && x.Case == -1 {
				for j, l := range x.Log {
					if j < 60 {
						fmt.Println("   ", l)
					}
				}
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, rp)
		return 1
	}
	if broken != "" {
		fmt.Fprintln(os.Stderr, broken)
		fmt.Fprintln(os.Stderr, "inconclusive:", ck.ID)
		return 3
	}
	if only < 0 && (total.Evals == 0 || len(total.Sigs) < max(2, ck.MinDist)) {
		fmt.Fprintf(os.Stderr, "%s observed too little: %d evaluations, %d distinct situations\n", ck.ID, total.Evals, len(total.Sigs))
		return 4
	}
	fmt.Printf("%s held: %d cases, %d evaluations, %d distinct situations, %.1fs\n", ck.ID, total.Cases, total.Evals, len(total.Sigs), time.Since(start).Seconds())
	return 0
}
