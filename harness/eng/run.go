package eng

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Exit codes: 0 held, 1 violation, 3 harness error; 77 is internal (a worker gave up on a case that does not end).
const (
	exitOK        = 0
	exitViolation = 1
	exitError     = 3
	exitHang      = 77
)

const hangCPU = 40 * time.Second // CPU time of one case; the slowest ordinary case takes about a second

type workerResult struct {
	Evaluations int64
	Steps       int64
	NonTrivial  []string // hashes
	Classes     map[string]int64
	PerSuite    map[string]int64
	Samples     []*Case
	Violations  []found
	Timeout     bool
	Errors      []string
}

type found struct {
	Case  *Case
	Sig   string
	Msg   string
	Tries int
}

func caseSeed(seed int64, suite string, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, suite, i)
	return int64(h.Sum64() >> 1)
}

func genCase(p *Property, s *Suite, seed int64, i int) *Case {
	if s.Enumerate != nil {
		e := s.Enumerate()
		if i < len(e) {
			c := e[i]
			c.Property, c.Suite = p.ID, s.Name
			return c
		}
		i -= len(e)
	}
	c := s.Gen(NewR(caseSeed(seed, s.Name, i)))
	c.Property, c.Suite = p.ID, s.Name
	return c
}

func envSeed() int64 {
	if x, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		return x
	}
	return 1
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watchdog ends the process when one case burns too much CPU time.
type watchdog struct{ start int64 }

func startWatchdog() *watchdog {
	w := &watchdog{}
	w.begin()
	go func() {
		for {
			time.Sleep(2 * time.Second)
			if s := atomic.LoadInt64(&w.start); s >= 0 && cpuTime()-time.Duration(s) > hangCPU {
				fmt.Fprintln(os.Stderr, "HANG: a case does not end")
				_ = pprof.Lookup("goroutine").WriteTo(os.Stderr, 1)
				os.Exit(exitHang)
			}
		}
	}()
	return w
}
func (w *watchdog) begin() { atomic.StoreInt64(&w.start, int64(cpuTime())) }
func (w *watchdog) end()   { atomic.StoreInt64(&w.start, -1) }

// Worker: worker ID tier seed w n dir deadlineUnix
func Worker(args []string) int {
	id, tier := args[0], args[1]
	seed, _ := strconv.ParseInt(args[2], 10, 64)
	w, _ := strconv.Atoi(args[3])
	n, _ := strconv.Atoi(args[4])
	dir := args[5]
	dl, _ := strconv.ParseInt(args[6], 10, 64)
	deadline := time.Unix(dl, 0)
	p := Get(id)

	res := &workerResult{Classes: map[string]int64{}, PerSuite: map[string]int64{}}
	seen := map[string]bool{}
	samplesPerSuite := map[string]int{}
	failedSig := map[string]bool{}
	stopFile := filepath.Join(dir, "stop")
	journal, err := os.Create(filepath.Join(dir, fmt.Sprintf("journal.%d", w)))
	if err != nil {
		panic(err)
	}
	wd := startWatchdog()
	wd.end()

	known := LoadKnown()
	counts := map[string]int{}
	max := 0
	for _, s := range p.Suites {
		c := s.Quick
		if tier == "thorough" {
			c = s.Thorough
		}
		if s.Enumerate != nil {
			c += len(s.Enumerate())
		}
		if x := os.Getenv("PBT_SUITE"); x != "" && x != s.Name {
			c = 0
		}
		counts[s.Name] = c
		if c > max {
			max = c
		}
	}
	// Interleave the suites in proportion to their counts, so that an early stop cuts all of them alike.
	type job struct {
		s   *Suite
		i   int
		pos float64
	}
	var jobs []job
	for _, s := range p.Suites {
		c := counts[s.Name]
		for i := 0; i < c; i++ {
			if i%n == w {
				jobs = append(jobs, job{s, i, (float64(i) + .5) / float64(c)})
			}
		}
	}
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].pos < jobs[j].pos })

	var lastStop time.Time
loop:
	for _, j := range jobs {
		now := time.Now()
		if now.After(deadline) {
			res.Timeout = true
			break
		}
		if now.Sub(lastStop) > 500*time.Millisecond {
			lastStop = now
			if _, err := os.Stat(stopFile); err == nil {
				break loop
			}
		}
		hdr := fmt.Sprintf("%-40s %10d", j.s.Name, j.i)
		_, _ = journal.WriteAt([]byte(hdr), 0)
		c := genCase(p, j.s, seed, j.i)
		st := &Stats{}
		wd.begin()
		v, herr := Exec(j.s, c, st)
		wd.end()
		if herr != nil {
			res.Errors = append(res.Errors, fmt.Sprintf("%s case %d: %v", j.s.Name, j.i, herr))
			_ = ioutil.WriteFile(stopFile, nil, 0644)
			break
		}
		res.Evaluations++
		res.PerSuite[j.s.Name]++
		res.Steps += st.Steps
		for k, x := range st.Classes {
			res.Classes[k] += x
		}
		if st.NonTrivial {
			if h := c.Hash(); !seen[h] {
				seen[h] = true
				res.NonTrivial = append(res.NonTrivial, h)
			}
			if samplesPerSuite[j.s.Name] < 1 {
				samplesPerSuite[j.s.Name]++
				res.Samples = append(res.Samples, c)
			}
		}
		if v != nil && !failedSig[v.Sig] {
			failedSig[v.Sig] = true
			if known.Match(id, v.Sig) {
				res.Classes["known-finding-hit"]++
				continue
			}
			_, _ = journal.WriteAt([]byte(strings.Repeat(" ", len(hdr))), 0)
			budget := 45 * time.Second
			small, sv, tries := Shrink(j.s, c, v.Sig, budget)
			if sv == nil || sv.Sig != v.Sig {
				// Not reproducible: the harness is at fault.
				res.Errors = append(res.Errors, fmt.Sprintf("%s case %d is not reproducible: first %v, then %v", j.s.Name, j.i, v, sv))
				sv, small = v, c
			}
			res.Violations = append(res.Violations, found{small, sv.Sig, sv.Msg, tries})
			_ = ioutil.WriteFile(stopFile, nil, 0644)
			break
		}
	}
	bz, _ := json.Marshal(res)
	if err := ioutil.WriteFile(filepath.Join(dir, fmt.Sprintf("result.%d", w)), bz, 0644); err != nil {
		panic(err)
	}
	return 0
}

// Root of /verif; found from the executable's environment.
func Root() string {
	if x := os.Getenv("VERIF_ROOT"); x != "" {
		return x
	}
	return "/verif"
}

func Parent(id, tier string) int {
	start := time.Now()
	p := Get(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return exitError
	}
	if tier != "quick" && tier != "thorough" {
		fmt.Fprintln(os.Stderr, "unknown tier", tier)
		return exitError
	}
	seed := envSeed()
	dir, err := ioutil.TempDir("", "pbt-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	defer os.RemoveAll(dir)
	limit := 330 * time.Second
	if tier == "thorough" {
		limit = 50 * time.Minute
	}
	if x, err := strconv.Atoi(os.Getenv("PBT_LIMIT")); err == nil {
		limit = time.Duration(x) * time.Second
	}
	deadline := start.Add(limit)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if x, err := strconv.Atoi(os.Getenv("PBT_WORKERS")); err == nil && x > 0 {
		n = x
	}
	exe, _ := os.Executable()
	type done struct {
		w   int
		err error
		out []byte
	}
	ch := make(chan done)
	for w := 0; w < n; w++ {
		w := w
		cmd := exec.Command(exe, "worker", id, tier, fmt.Sprint(seed), fmt.Sprint(w), fmt.Sprint(n), dir, fmt.Sprint(deadline.Unix()))
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200")
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var buf bytes.Buffer
		cmd.Stderr = &buf
		cmd.Stdout = &buf
		go func() {
			runtime.LockOSThread() // Pdeathsig is tied to the starting thread
			err := cmd.Run()
			ch <- done{w, err, buf.Bytes()}
		}()
	}
	var all []found
	total := &workerResult{Classes: map[string]int64{}, PerSuite: map[string]int64{}}
	distinct := map[string]bool{}
	var errs []string
	for i := 0; i < n; i++ {
		d := <-ch
		if d.err != nil {
			// The process died in the middle of a case: repeat that case alone to see whether the case is the reason.
			_ = ioutil.WriteFile(filepath.Join(dir, "stop"), nil, 0644)
			f, e := attribute(p, exe, dir, d.w, seed, d.out)
			if f != nil {
				all = append(all, *f)
			}
			if e != "" {
				errs = append(errs, e)
			}
			continue
		}
		bz, err := ioutil.ReadFile(filepath.Join(dir, fmt.Sprintf("result.%d", d.w)))
		if err != nil {
			errs = append(errs, err.Error()+"\n"+tail(d.out))
			continue
		}
		var r workerResult
		if err := json.Unmarshal(bz, &r); err != nil {
			errs = append(errs, err.Error())
			continue
		}
		total.Evaluations += r.Evaluations
		total.Steps += r.Steps
		for k, x := range r.Classes {
			total.Classes[k] += x
		}
		for k, x := range r.PerSuite {
			total.PerSuite[k] += x
		}
		for _, h := range r.NonTrivial {
			distinct[h] = true
		}
		for _, s := range r.Samples {
			dup := false
			for _, t := range total.Samples {
				if t.Suite == s.Suite {
					dup = true
				}
			}
			if !dup {
				total.Samples = append(total.Samples, s)
			}
		}
		total.Timeout = total.Timeout || r.Timeout
		all = append(all, r.Violations...)
		errs = append(errs, r.Errors...)
	}
	// The listed findings must still be there to be reported.
	known := LoadKnown()
	for _, k := range known.For(id) {
		if v := k.Reproduce(p); v != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.Text)
		}
	}
	sort.SliceStable(all, func(i, j int) bool { return len(all[i].Case.Ops) < len(all[j].Case.Ops) })
	printed := map[string]bool{}
	nviol := 0
	for _, f := range all {
		if printed[f.Sig] {
			continue
		}
		printed[f.Sig] = true
		nviol++
		path := writeReplay(f)
		fmt.Printf("%s\n%s\n", f.Sig, clip(f.Msg, 6000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	}
	wall := time.Since(start).Seconds()
	writeEvidence(p, tier, seed, total, len(distinct), nviol, wall)
	for _, e := range errs {
		fmt.Fprintln(os.Stderr, "ERROR:", clip(e, 6000))
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d steps, %d distinct non-trivial, %.1f s\n", id, tier, seed, total.Evaluations, total.Steps, len(distinct), wall)
	if nviol > 0 {
		return exitViolation
	}
	if len(errs) > 0 {
		return exitError
	}
	if total.Evaluations == 0 {
		fmt.Fprintln(os.Stderr, "ERROR: no case was run")
		return exitError
	}
	return exitOK
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func tail(bz []byte) string {
	s := string(bz)
	if len(s) > 6000 {
		s = s[:3000] + "\n...\n" + s[len(s)-3000:]
	}
	return s
}

// attribute repeats the case a dead worker was busy with. Only a death that repeats, of a kind the code under test can
// cause (no end, stack exhaustion, a panic on another goroutine, exit), is a violation.
func attribute(p *Property, exe, dir string, w int, seed int64, out []byte) (*found, string) {
	bz, _ := ioutil.ReadFile(filepath.Join(dir, fmt.Sprintf("journal.%d", w)))
	var name string
	var i int
	if _, err := fmt.Sscan(string(bz), &name, &i); err != nil {
		return nil, "worker died outside a case:\n" + tail(out)
	}
	s := p.Suite(name)
	c := genCase(p, s, seed, i)
	kind := func(err error, out []byte) string {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			return ""
		}
		switch {
		case ee.ExitCode() == exitHang:
			return "hang"
		case bytes.Contains(out, []byte("stack overflow")) || bytes.Contains(out, []byte("goroutine stack exceeds")):
			return "stack-overflow"
		case ee.ExitCode() == 2 && bytes.Contains(out, []byte("panic:")) && !bytes.Contains(out, []byte("out of memory")):
			return "crash"
		}
		return ""
	}
	f := filepath.Join(dir, fmt.Sprintf("dead.%d.json", w))
	cz, _ := json.MarshalIndent(c, "", " ")
	_ = ioutil.WriteFile(f, cz, 0644)
	cmd := exec.Command(exe, "replay", f)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err := cmd.Run()
	if err == nil {
		return nil, "worker died, but its case passes alone:\n" + tail(out)
	}
	if k := kind(err, buf.Bytes()); k != "" {
		return &found{Case: c, Sig: "process/" + k, Msg: tail(buf.Bytes())}, ""
	}
	return nil, "worker died:\n" + tail(out) + "\nagain:\n" + tail(buf.Bytes())
}

func writeReplay(f found) string {
	dir := filepath.Join(Root(), "replays")
	_ = os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%s.json", f.Case.Property, f.Case.Suite, f.Case.Hash()))
	bz, _ := json.MarshalIndent(f.Case, "", " ")
	_ = ioutil.WriteFile(path, append(bz, '\n'), 0644)
	return path
}

func Replay(file string) int {
	bz, err := ioutil.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	var c Case
	if err := json.Unmarshal(bz, &c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	p := Get(c.Property)
	if p == nil || p.Suite(c.Suite) == nil {
		fmt.Fprintln(os.Stderr, "unknown property or suite")
		return exitError
	}
	startWatchdog()
	st := &Stats{}
	v, herr := Exec(p.Suite(c.Suite), &c, st)
	if herr != nil {
		fmt.Fprintln(os.Stderr, herr)
		return exitError
	}
	if v != nil {
		fmt.Printf("%s\n%s\nVIOLATION property=%s replay=%s\n", v.Sig, v.Msg, c.Property, file)
		return exitViolation
	}
	fmt.Println("held; classes:", fmt.Sprint(st.Classes), "non-trivial:", st.NonTrivial)
	return exitOK
}

func writeEvidence(p *Property, tier string, seed int64, r *workerResult, distinct, violations int, wall float64) {
	samples := make([]interface{}, 0)
	for _, s := range r.Samples {
		c := s.Clone()
		if len(c.Ops) > 12 {
			c.Ops = c.Ops[:12]
			samples = append(samples, map[string]interface{}{"case": c, "operations_in_full": len(s.Ops)})
		} else {
			samples = append(samples, c)
		}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         r.Evaluations,
			"steps":               r.Steps,
			"distinct_nontrivial": distinct,
			"rule":                p.Rule,
			"samples":             samples,
			"classes":             r.Classes,
			"cases_per_generator": r.PerSuite,
			"stopped_at_deadline": r.Timeout,
		},
		"wall_s":     wall,
		"violations": violations,
	}
	if len(p.Assumptions) > 0 {
		ev["assumptions"] = p.Assumptions
	}
	dir := filepath.Join(Root(), "evidence")
	_ = os.MkdirAll(dir, 0755)
	bz, _ := json.MarshalIndent(ev, "", " ")
	_ = ioutil.WriteFile(filepath.Join(dir, p.ID+".json"), append(bz, '\n'), 0644)
}
