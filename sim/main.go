package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifsim/simrt"
)

type report struct {
	Stats    *Stats            `json:"stats,omitempty"`
	Runs     int               `json:"runs"`
	Hashes   []uint64          `json:"hashes,omitempty"`
	Foreign  map[string]int    `json:"foreign,omitempty"`
	Known    map[string]string `json:"known,omitempty"`
	Samples  []string          `json:"samples,omitempty"`
	Violated *Plan             `json:"violated,omitempty"`
	Err      string            `json:"err,omitempty"`
	Unrep    string            `json:"unrep,omitempty"`
	Discard  string            `json:"discard,omitempty"`
	MaxStep  int64             `json:"max_step,omitempty"`
	Done     bool              `json:"done,omitempty"`
	Trivial  int               `json:"trivial,omitempty"`
	Logs     []string          `json:"logs,omitempty"`
	Slow     float64           `json:"slow,omitempty"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim.bin check ID quick|thorough | replay FILE | selftest | plan ID TIER N")
		os.Exit(2)
	}
	loadKnown()
	switch os.Args[1] {
	case "known1":
		known1(os.Args[2])
	case "worker":
		worker(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2], os.Args[3]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "replay1":
		replay1(os.Args[2])
	case "selftest":
		os.Exit(selftest(os.Args[2:]))
	case "plan":
		n, _ := strconv.Atoi(os.Args[4])
		p := genPlan(os.Args[2], n, os.Args[3], envSeed())
		b, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(b))
	case "hunt": // ID TIER N PROP: runs one plan as if for another property and reduces what it shows
		n, _ := strconv.Atoi(os.Args[4])
		p := genPlan(os.Args[2], n, os.Args[3], envSeed())
		p.Prop = os.Args[5]
		out := procSetup()
		r := runPlan(p)
		if r.Viol == nil {
			fmt.Fprintln(out, "nothing:", r.Foreign, r.Err)
		} else {
			q := shrink(p, r.Viol.Class, 3000)
			r = runPlan(q)
			q.Class, q.Msg, q.Trace = r.Viol.Class, r.Viol.Msg, tail(r.Trace, 400)
			_ = os.MkdirAll(filepath.Join(verifDir(), "replays"), 0o755)
			path := filepath.Join(verifDir(), "replays", "hunt.json")
			b, _ := json.MarshalIndent(q, "", " ")
			_ = os.WriteFile(path, b, 0o644)
			fmt.Fprintln(out, path)
		}
		cleanup()
	default:
		os.Exit(2)
	}
}

func envSeed() uint64 {
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		return s
	}
	return 1
}

// procSetup prepares a process that runs simulations: standard output and error go to a file from then on,
// so that anything the library prints is noticed.
func procSetup() (out *os.File) {
	runtime.GOMAXPROCS(1)
	dir, err := mkdir()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	scratch = filepath.Join(dir, "db")
	_ = os.Mkdir(scratch, 0o700)
	fd, err := syscall.Dup(1)
	if err != nil {
		os.Exit(2)
	}
	out = os.NewFile(uintptr(fd), "out")
	outFile, err = os.Create(filepath.Join(dir, "stdout"))
	if err != nil {
		os.Exit(2)
	}
	_ = syscall.Dup2(int(outFile.Fd()), 1)
	_ = syscall.Dup2(int(outFile.Fd()), 2)
	cleanup = func() {
		clearDir(scratch)
		_ = os.Remove(scratch)
		_ = os.Remove(filepath.Join(dir, "stdout"))
		_ = os.Remove(filepath.Join(dir, "pid"))
		_ = os.Remove(dir)
	}
	initSim()
	return out
}

var cleanup = func() {}

// worker runs the plans of its share: ID tier seed first stride count deadlineSeconds
func worker(a []string) {
	out := procSetup()
	defer cleanup()
	id, tier := a[0], a[1]
	seed, _ := strconv.ParseUint(a[2], 10, 64)
	first, _ := strconv.Atoi(a[3])
	stride, _ := strconv.Atoi(a[4])
	count, _ := strconv.Atoi(a[5])
	limit, _ := strconv.Atoi(a[6])
	logs := len(a) > 7
	enc := json.NewEncoder(out)
	start := time.Now()
	var busy sync.Mutex
	began, planNo := time.Now(), first
	go func() {
		for {
			time.Sleep(2 * time.Second)
			busy.Lock()
			b, n := began, planNo
			busy.Unlock()
			if time.Since(b) > 240*time.Second {
				_ = enc.Encode(report{Err: fmt.Sprintf("plan %d of %s does not finish", n, id)})
				cleanup()
				os.Exit(3)
			}
		}
	}()
	rep := report{Stats: newStats(), Foreign: map[string]int{}, Known: map[string]string{}}
	for n := first; n < count; n += stride {
		if time.Since(start) > time.Duration(limit)*time.Second {
			break
		}
		busy.Lock()
		began, planNo = time.Now(), n
		busy.Unlock()
		p := genPlan(id, n, tier, seed)
		r := runPlan(p)
		if d := time.Since(began).Seconds(); d > rep.Slow {
			rep.Slow = d
		}
		if r.Err != "" {
			_ = enc.Encode(report{Err: fmt.Sprintf("plan %d: %s", n, r.Err)})
			cleanup()
			os.Exit(3)
		}
		rep.Runs++
		rep.Stats.add(r.Stats)
		if r.nontrivial() {
			rep.Hashes = append(rep.Hashes, r.Out.Hash)
		} else {
			rep.Trivial++
		}
		if r.Out.Steps > rep.MaxStep {
			rep.MaxStep = r.Out.Steps
		}
		for k, v := range r.Known {
			rep.Known[k] = v
		}
		if logs {
			rep.Logs = append(rep.Logs, fmt.Sprintf("%d %x %d %s", n, r.Out.Hash, r.Out.Steps, hashStrs(r.Trace)))
		}
		if len(rep.Samples) < 2 && r.nontrivial() && len(r.Trace) > 4 {
			rep.Samples = append(rep.Samples, fmt.Sprintf("plan %d (%s, schedule %s/%d): %s", n, p.Fam, p.Sched.Mode, p.Sched.Mean, r.Sample))
		}
		if r.Foreign != "" {
			k := strings.SplitN(r.Foreign, ":", 2)[0]
			rep.Foreign[k]++
			if rep.Foreign[k] == 1 && os.Getenv("SIM_DEBUG") != "" {
				rep.Samples = append(rep.Samples, fmt.Sprintf("FOREIGN plan %d %s\n%s", n, r.Foreign, strings.Join(tail(r.Trace, 60), "\n")))
			}
		}
		if r.Viol != nil {
			class := r.Viol.Class
			r2, ok := sameClass(p, class)
			if !ok || r2.Out.Hash != r.Out.Hash {
				// Not under the simulator's control; the search goes on, but the check cannot pass.
				rep.Unrep = fmt.Sprintf("plan %d: violation %q does not repeat", n, class)
				continue
			}
			if why := ablate(p, class); why != "" {
				rep.Foreign[class+" ("+why+")"]++
				continue
			}
			budget := 400
			q := p
			if rep.Slow < 2 {
				busy.Lock()
				began = time.Now()
				busy.Unlock()
				q = shrink(p, class, budget)
			}
			if why := ablate(q, class); why != "" {
				q = p
			}
			r3, ok := sameClass(q, class)
			if !ok {
				q, r3 = p, r2
			}
			q.Class, q.Msg, q.Trace = class, r3.Viol.Msg, tail(r3.Trace, 400)
			rep.Violated = q
			rep.Done = true
			_ = enc.Encode(rep)
			return
		}
	}
	rep.Done = true
	_ = enc.Encode(rep)
}

func tail(l []string, n int) []string {
	if len(l) > n {
		return l[len(l)-n:]
	}
	return l
}

func hashStrs(l []string) string {
	h := uint64(1)
	for _, s := range l {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
	}
	return fmt.Sprintf("%x", h)
}

// nontrivial: something ran, and a fault fired or tasks were interleaved or several calls were made.
func (r *Result) nontrivial() bool {
	n := 0
	for _, v := range r.Stats.Ops {
		n += v
	}
	f := 0
	for _, v := range r.Stats.Faults {
		f += v
	}
	return n >= 3 && (f > 0 || r.Stats.Switches > 2*n || r.Stats.Calls > 5)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	e, err := os.Executable()
	if err != nil {
		return "/verif"
	}
	return filepath.Dir(filepath.Dir(e))
}

func check(id, tier string) int {
	start := time.Now()
	seed := envSeed()
	count, limit := budgetOf(id, tier)
	if s := os.Getenv("SIM_COUNT"); s != "" {
		count, _ = strconv.Atoi(s)
	}
	if count == 0 {
		fmt.Fprintf(os.Stderr, "no check for %s\n", id)
		return 2
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if nw < 1 {
		nw = 1
	}
	exe, _ := os.Executable()
	var mu sync.Mutex
	var reps []report
	var cmds []*exec.Cmd
	var wg sync.WaitGroup
	bad := ""
	var violated []*Plan
	for i := 0; i < nw; i++ {
		cmd := exec.Command(exe, "worker", id, tier, fmt.Sprint(seed), fmt.Sprint(i), fmt.Sprint(nw), fmt.Sprint(count), fmt.Sprint(limit))
		cmd.Stderr = os.Stderr
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		pipe, err := cmd.StdoutPipe()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		cmds = append(cmds, cmd)
		wg.Add(1)
		go func() {
			defer wg.Done()
			rd := bufio.NewReaderSize(pipe, 1<<20)
			d := json.NewDecoder(rd)
			got := false
			for {
				var r report
				if err := d.Decode(&r); err != nil {
					break
				}
				mu.Lock()
				if r.Err != "" && bad == "" {
					bad = r.Err
				}
				if r.Done {
					got = true
					reps = append(reps, r)
				}
				if r.Violated != nil {
					violated = append(violated, r.Violated)
					for _, c := range cmds {
						if c != cmd {
							_ = c.Process.Signal(syscall.SIGTERM)
						}
					}
				}
				mu.Unlock()
			}
			err := cmd.Wait()
			mu.Lock()
			if !got && bad == "" && len(violated) == 0 {
				bad = fmt.Sprintf("worker ended: %v", err)
			}
			mu.Unlock()
		}()
	}
	wg.Wait()
	cleanTmp()
	if len(violated) > 0 {
		sort.Slice(violated, func(i, j int) bool { return violated[i].ops() < violated[j].ops() })
		for _, v := range violated {
			path, ok := saveReplay(exe, v)
			if ok {
				writeEvidence(id, tier, seed, start, count, nw, reps, 1)
				fmt.Printf("violated: %s: %s\n", v.Class, v.Msg)
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
				return 1
			}
			fmt.Fprintf(os.Stderr, "violation %q found but its replay %s does not reproduce it\n", v.Class, path)
		}
		return 2
	}
	for _, r := range reps {
		if r.Unrep != "" && bad == "" {
			bad = r.Unrep
		}
	}
	if bad != "" {
		fmt.Fprintln(os.Stderr, "check failed: "+bad)
		return 2
	}
	rc := 0
	known, vp, err := runKnown(id)
	if err != "" {
		fmt.Fprintln(os.Stderr, "check failed: "+err)
		return 2
	}
	for _, k := range known {
		fmt.Println(k)
	}
	nviol := 0
	if vp != nil {
		path, ok := saveReplay(exe, vp)
		if !ok {
			fmt.Fprintf(os.Stderr, "violation %q found but its replay %s does not reproduce it\n", vp.Class, path)
			return 2
		}
		fmt.Printf("violated: %s: %s\n", vp.Class, vp.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		rc, nviol = 1, 1
	}
	writeEvidence(id, tier, seed, start, count, nw, reps, nviol)
	tot := newStats()
	runs := 0
	foreign := map[string]int{}
	slow := 0.0
	for _, r := range reps {
		tot.add(r.Stats)
		runs += r.Runs
		addMap(foreign, r.Foreign)
		if r.Slow > slow {
			slow = r.Slow
		}
	}
	fmt.Printf("%s %s: %d of %d runs, %d calls, %d provider calls, %d faults, %.1f s (slowest run %.2f s)\n", id, tier, runs, count, sum(tot.Ops), tot.Calls, sum(tot.Faults), time.Since(start).Seconds(), slow)
	for _, k := range sortedKeys(foreign) {
		fmt.Printf("  set aside, not a matter of %s: %s (%d runs)\n", id, k, foreign[k])
	}
	if os.Getenv("SIM_DEBUG") != "" {
		b, _ := json.MarshalIndent(tot, "", " ")
		fmt.Println(string(b))
		for _, r := range reps {
			for _, s := range r.Samples {
				if strings.HasPrefix(s, "FOREIGN") {
					fmt.Println(s)
				}
			}
		}
	}
	return rc
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

// cleanTmp removes scratch directories of workers that were killed.
func cleanTmp() {
	ds, _ := filepath.Glob(filepath.Join(os.TempDir(), "d1sim*"))
	for _, d := range ds {
		if st, err := os.Stat(d); err != nil || time.Since(st.ModTime()) < 0 {
			continue
		}
		b, err := os.ReadFile(filepath.Join(d, "pid"))
		if err != nil {
			continue
		}
		pid, _ := strconv.Atoi(strings.TrimSpace(string(b)))
		if pid > 0 && syscall.Kill(pid, 0) == nil {
			continue
		}
		clearDir(filepath.Join(d, "db"))
		_ = os.Remove(filepath.Join(d, "db"))
		clearDir(d)
		_ = os.Remove(d)
	}
}

// saveReplay writes the replay file and runs it in a fresh process.
// saveReplay writes the replay file of a violation, if a new process repeats it exactly. A violation that
// shows in another way there than it did in the worker is recorded the way it shows.
func saveReplay(exe string, v *Plan) (string, bool) {
	dir := filepath.Join(verifDir(), "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := ""
	for try := 0; try < 3; try++ {
		b, _ := json.MarshalIndent(v, "", " ")
		h := hashStrs([]string{string(b)})
		path = filepath.Join(dir, fmt.Sprintf("%s-%s.json", v.Prop, h))
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return path, false
		}
		out, err := exec.Command(exe, "replay1", path).Output()
		if err != nil {
			return path, false
		}
		var r replayed
		if json.Unmarshal(out, &r) != nil || r.Class == "" {
			return path, false
		}
		if r.Class == v.Class && r.Msg == v.Msg {
			return path, true
		}
		_ = os.Remove(path)
		v.Class, v.Msg, v.Trace = r.Class, r.Msg, tail(r.Trace, 400)
	}
	return path, false
}

type replayed struct {
	Class, Msg, Err string
	Trace           []string
}

func replay1(path string) {
	p, err := loadPlan(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	out := procSetup()
	r := runPlan(p)
	cleanup()
	x := replayed{Trace: r.Trace, Err: r.Err}
	if r.Viol != nil {
		x.Class, x.Msg = r.Viol.Class, r.Viol.Msg
	} else if r.Foreign != "" {
		x.Err = "foreign: " + r.Foreign
	}
	b, _ := json.Marshal(x)
	_, _ = out.Write(b)
}

// replay runs a replay file and tells what happens.
func replay(path string) int {
	exe, _ := os.Executable()
	p, err := loadPlan(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cmd := exec.Command(exe, "replay1", path)
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	var r replayed
	if err != nil || json.Unmarshal(out, &r) != nil {
		fmt.Fprintf(os.Stderr, "replay failed: %v\n", err)
		return 2
	}
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	if r.Class == "" {
		fmt.Printf("no violation %s\n", r.Err)
		return 0
	}
	fmt.Printf("violated: %s: %s\n", r.Class, r.Msg)
	if p.Class != "" && (r.Class != p.Class || r.Msg != p.Msg) {
		fmt.Println("(differs from the recorded violation)")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.Prop, path)
	return 1
}

// selftest runs the same plans in differently divided processes and compares the traces.
func selftest(args []string) int {
	exe, _ := os.Executable()
	ids := args
	if len(ids) == 0 {
		ids = claimed()
	}
	rc := 0
	for _, id := range ids {
		n := 24
		collect := func(nw int) map[string]bool {
			m := map[string]bool{}
			for i := 0; i < nw; i++ {
				out, err := exec.Command(exe, "worker", id, "quick", fmt.Sprint(envSeed()), fmt.Sprint(i), fmt.Sprint(nw), fmt.Sprint(n), "600", "logs").Output()
				if err != nil {
					fmt.Printf("%s: %v %s\n", id, err, out)
					rc = 1
				}
				var r report
				d := json.NewDecoder(strings.NewReader(string(out)))
				if d.Decode(&r) == nil {
					for _, l := range r.Logs {
						m[l] = true
					}
				}
			}
			return m
		}
		a, b, c := collect(1), collect(3), collect(1)
		diff := 0
		for l := range a {
			if !b[l] || !c[l] {
				diff++
			}
		}
		fmt.Printf("%s: %d runs, %d differ between processes\n", id, len(a), diff)
		if diff > 0 || len(a) == 0 {
			rc = 1
		}
	}
	return rc
}

var _ = simrt.Mix64
