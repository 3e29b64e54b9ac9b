package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"simrt"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	fProp    = flag.String("prop", "", "property")
	fSeed    = flag.Uint64("seed", 1, "top-level seed")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fRuns    = flag.Int("runs", 0, "number of runs (default: by property and tier)")
	fCap     = flag.Int("cap", 0, "wall-clock limit of the exploration in seconds")
	fWorkers = flag.Int("workers", 0, "worker processes")
	fSites   = flag.String("sites", "", "site names")
	fDir     = flag.String("dir", "", "scratch directory")
	fVerif   = flag.String("verif", "/verif", "where evidence and replay files go")
	fFile    = flag.String("file", "", "replay file")
	fW       = flag.Int("w", 0, "worker number")
	fFrom    = flag.Int("from", 0, "first run")
	fLimit   = flag.Int("limit", 25, "seconds for minimisation")
)

// quickRuns is the number of simulated runs of a quick check, fixed so that what
// a check finds does not depend on how fast the machine is.
var quickRuns = map[string]int{
	"C01": 180000, "C02": 180000, "C03": 180000, "C04": 180000, "C05": 150000, "C06": 195000, "C07": 195000, "C08": 225000,
	"C09": 150000, "C10": 150000, "C11": 225000, "C12": 150000, "C13": 75000, "C14": 120000, "C15": 225000, "C16": 180000,
	"C17": 180000, "C18": 60000, "C19": 90000,
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "sim: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: sim check|worker|replay|minimise|digest [flags]")
	}
	cmd := os.Args[1]
	flag.CommandLine.Parse(os.Args[2:])
	loadSites()
	if cmd != "check" {
		debug.SetGCPercent(-1)
		debug.SetMaxStack(96 << 20)
		runtime.GOMAXPROCS(1)
		lim := syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	switch cmd {
	case "check":
		check()
	case "worker":
		worker()
	case "replay":
		replay()
	case "minimise":
		minimiseCmd()
	case "digest":
		digests()
	default:
		die("unknown command %s", cmd)
	}
}

func loadSites() {
	if *fSites == "" {
		return
	}
	b, err := os.ReadFile(*fSites)
	if err != nil {
		die("%v", err)
	}
	var s []string
	if err := json.Unmarshal(b, &s); err != nil {
		die("%v", err)
	}
	simrt.SiteName = func(id uint32) string {
		switch {
		case int(id) < len(s):
			return s[id]
		case id == cbSite:
			return "caller's callback"
		}
		return "caller's container"
	}
}

// collect frees the garbage of finished runs. Never during a run: an address
// must mean one object for as long as a phase lasts.
func collect(i int) {
	var m runtime.MemStats
	if i%16 != 0 {
		return
	}
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > 96<<20 {
		runtime.GC()
	}
}

// ---- worker

type digest struct {
	I int
	D uint64
}

// report is what a worker tells its parent.
type report struct {
	W            int
	Runs         int
	Next         int
	Steps        int64
	Switches     int64
	LockWaits    int64
	Points       int64
	ClockReads   int64
	RandSources  int64
	RaceChecks   int64
	Crashes      int64
	Restarts     int64
	Entropy      int64
	Events       int64
	Overlapping  int64
	Explored     int64
	Inconclusive int
	Nontrivial   int
	WithFault    int
	Rerun        int
	Mismatch     []int
	Fired        map[string]int
	Calls, Why   map[string]int
	Kinds        map[string]int
	Strategies   map[string]int
	Params       map[string]int
	Digests      []digest
	Samples      []sample
	Fail         *failure
}

type sample struct {
	Run     int      `json:"run"`
	Case    *Case    `json:"case"`
	History []string `json:"history"`
	Steps   int64    `json:"steps"`
	Outcome string   `json:"outcome"`
}

type failure struct {
	I     int
	Class string
	Msg   string
}

func outDigest(o *Outcome) uint64 {
	h := o.Hash
	for _, l := range append([]string{o.Class, o.Msg}, o.History...) {
		for i := 0; i < len(l); i++ {
			h = (h ^ uint64(l[i])) * 1099511628211
		}
		h = (h ^ 10) * 1099511628211
	}
	return h ^ uint64(o.Stats.Steps)<<20 ^ uint64(o.Stats.Switches)
}

func nontrivial(o *Outcome) bool { return o.Conc >= 2 && o.Stats.Switches >= 3 }

const digestRuns = 96

func worker() {
	rep := &report{W: *fW, Fired: map[string]int{}, Calls: map[string]int{}, Why: map[string]int{}, Kinds: map[string]int{}, Strategies: map[string]int{}, Params: map[string]int{}}
	hashes, states := map[uint64]bool{}, map[uint64]bool{}
	end := time.Now().Add(time.Duration(*fCap) * time.Second)
	progress, err := os.Create(filepath.Join(*fDir, fmt.Sprintf("at.%d", *fW)))
	if err != nil {
		die("%v", err)
	}
	stopFile := filepath.Join(*fDir, "stop")
	var buf [8]byte
	i := *fFrom
	for n := 0; i < *fRuns; i, n = i+*fWorkers, n+1 {
		if n%64 == 0 {
			if time.Now().After(end) {
				break
			}
			if b, err := os.ReadFile(stopFile); err == nil && len(b) == 8 && int(binary.LittleEndian.Uint64(b)) < i {
				break
			}
		}
		binary.LittleEndian.PutUint64(buf[:], uint64(i))
		progress.WriteAt(buf[:], 0)
		cs := genCase(*fProp, *fSeed, uint64(i))
		o := runCase(cs)
		rep.count(cs, o)
		if nontrivial(o) {
			rep.Nontrivial++
			hashes[o.Hash] = true
		}
		for _, h := range o.StatesSeen {
			states[h] = true
		}
		if i < digestRuns {
			rep.Digests = append(rep.Digests, digest{i, outDigest(o)})
		}
		if n%97 == 5 {
			rep.Rerun++
			if o2 := runCase(genCase(*fProp, *fSeed, uint64(i))); outDigest(o2) != outDigest(o) {
				rep.Mismatch = append(rep.Mismatch, i)
			}
		}
		if len(rep.Samples) < 1 && nontrivial(o) && n > 3 && len(o.History) < 60 && o.Class == "" {
			rep.Samples = append(rep.Samples, sample{i, cs, clip(o.History, 60), o.Stats.Steps, "the property held"})
		}
		if o.Class != "" {
			rep.Fail = &failure{i, o.Class, o.Msg}
			break
		}
		collect(n)
	}
	rep.Next = i
	put := func(name string, m map[uint64]bool) {
		b := make([]byte, 0, 8*len(m))
		for h := range m {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		if err := os.WriteFile(filepath.Join(*fDir, fmt.Sprintf("%s.%d", name, *fW)), b, 0o644); err != nil {
			die("%v", err)
		}
	}
	put("hash", hashes)
	put("state", states)
	b, err := json.Marshal(rep)
	if err != nil {
		die("%v", err)
	}
	f := filepath.Join(*fDir, fmt.Sprintf("report.%d", *fW))
	if err := os.WriteFile(f+".tmp", b, 0o644); err != nil {
		die("%v", err)
	}
	if err := os.Rename(f+".tmp", f); err != nil {
		die("%v", err)
	}
}

func clip(h []string, n int) []string {
	var out []string
	for i, l := range h {
		if i >= n {
			out = append(out, fmt.Sprintf("... %d more lines", len(h)-n))
			break
		}
		if len(l) > 400 {
			l = l[:400] + "..."
		}
		out = append(out, l)
	}
	return out
}

func (r *report) count(cs *Case, o *Outcome) {
	r.Runs++
	r.Steps += o.Stats.Steps
	r.Switches += o.Stats.Switches
	r.LockWaits += o.Stats.LockWaits
	r.Points += o.Stats.Points
	r.ClockReads += o.Stats.ClockReads
	r.RandSources += o.Stats.RandSources
	r.RaceChecks += o.Stats.RaceChecks
	r.Crashes += o.Stats.Crashes
	r.Restarts += o.Stats.Restarts
	r.Entropy += o.Stats.Entropy
	r.Events += int64(o.Events)
	r.Overlapping += int64(o.Conc)
	r.Explored += int64(o.Explored)
	if o.Inconclusive {
		r.Inconclusive++
		r.Why[o.Why]++
	}
	f := false
	for k, v := range o.Fired {
		r.Fired[k] += v
		f = f || v > 0
	}
	for k, v := range o.Calls {
		r.Calls[k] += v
	}
	for _, k := range cs.Kinds {
		r.Kinds[k]++
	}
	for _, rd := range cs.Rounds {
		r.Strategies[rd.Sched.Strategy]++
	}
	for k, name := range map[string]string{"hashmode": "colliding hashes", "randmode": "extreme random levels", "clock": "clock jump"} {
		if v := cs.P[k]; v != 0 && v != 1700000000 {
			r.Params[name]++
			f = f || k != "clock"
		}
	}
	for _, rd := range cs.Rounds {
		if rd.Sched.Strategy == "stall" {
			r.Params["stalled client rounds"]++
		}
	}
	if f || o.Crashed > 0 || o.Stats.Restarts > 0 {
		r.WithFault++
	}
}

// digests repeats the first runs in one process and prints their digests.
func digests() {
	for i := *fFrom; i < *fRuns; i++ {
		o := runCase(genCase(*fProp, *fSeed, uint64(i)))
		fmt.Printf("%d %d\n", i, outDigest(o))
		if o.Class != "" {
			break
		}
		collect(i)
	}
}

// ---- replay files

// Replay is a minimised failing case and what it shows.
type Replay struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Run      int      `json:"run"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	History  []string `json:"history,omitempty"`
	Note     string   `json:"note,omitempty"`
	Case     *Case    `json:"case"`
}

func writeReplay(r *Replay, path string) error {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.SetIndent("", " ")
	if err := e.Encode(r); err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, b.Bytes(), 0o644)
}

func readReplay(path string) *Replay {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		die("%s: %v", path, err)
	}
	return r
}

// replay repeats a recorded failure: exit 1 if it shows the same violation, 0 if
// the case now passes, 3 if it fails differently.
func replay() {
	r := readReplay(*fFile)
	o := runCase(r.Case)
	if o.Class == "" {
		fmt.Println("the recorded case passes on this tree")
		os.Exit(0)
	}
	for _, l := range o.History {
		fmt.Println("  " + l)
	}
	fmt.Printf("%s: %s\n", o.Class, o.Msg)
	if o.Class != r.Class || r.Message != "" && (o.Msg != r.Message || strings.Join(clip(o.History, 300), "\n") != strings.Join(r.History, "\n")) {
		fmt.Println("(not exactly the recorded failure)")
		os.Exit(3)
	}
	os.Exit(1)
}

func minimiseCmd() {
	cs := genCase(*fProp, *fSeed, uint64(*fFrom))
	o := runCase(cs)
	if o.Class == "" {
		die("run %d does not fail here", *fFrom)
	}
	r := &Replay{Property: *fProp, Seed: *fSeed, Run: *fFrom, Class: o.Class, Message: o.Msg, History: clip(o.History, 300), Case: cs, Note: "not minimised"}
	if err := writeReplay(r, *fFile); err != nil {
		die("%v", err)
	}
	small, out, n := minimise(cs, o, time.Duration(*fLimit)*time.Second)
	r.Case, r.Message, r.History = small, out.Msg, clip(out.History, 300)
	r.Note = fmt.Sprintf("minimised over %d runs", n)
	if err := writeReplay(r, *fFile); err != nil {
		die("%v", err)
	}
}

// ---- parent

func self(env []string, timeout time.Duration, args ...string) (string, int, error) {
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), env...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return "", 0, err
	}
	t := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !t.Stop() {
		return out.String(), -1, errors.New("timed out")
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		return out.String(), ee.ExitCode(), nil
	}
	return out.String(), 0, err
}

func check() {
	t0 := time.Now()
	runs, capS := *fRuns, *fCap
	if runs == 0 {
		runs = quickRuns[*fProp]
		if runs == 0 {
			runs = 2000
		}
		if *fTier == "thorough" {
			runs *= 40
		}
	}
	if capS == 0 {
		capS = 240
		if *fTier == "thorough" {
			capS = 660
		}
	}
	nw := *fWorkers
	if nw == 0 {
		nw = max(1, min(8, runtime.NumCPU()))
	}
	dir := *fDir
	if dir == "" {
		var err error
		if dir, err = os.MkdirTemp("", "sim"); err != nil {
			die("%v", err)
		}
		defer os.RemoveAll(dir)
	}
	common := []string{"-prop", *fProp, "-seed", fmt.Sprint(*fSeed), "-sites", *fSites, "-dir", dir, "-workers", fmt.Sprint(nw), "-runs", fmt.Sprint(runs)}
	reps := make([]*report, nw)
	died := make([]string, nw)
	var mu sync.Mutex
	lowest := 1 << 62
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			args := append([]string{"worker"}, common...)
			args = append(args, "-w", fmt.Sprint(w), "-from", fmt.Sprint(w), "-cap", fmt.Sprint(capS))
			out, code, err := self(nil, time.Duration(capS+90)*time.Second, args...)
			fail := -1
			b, rerr := os.ReadFile(filepath.Join(dir, fmt.Sprintf("report.%d", w)))
			if err != nil || code != 0 || rerr != nil {
				died[w] = fmt.Sprintf("worker %d ended with code %d, %v, %v\n%s", w, code, err, rerr, tail(out, 3000))
				if a, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("at.%d", w))); err == nil && len(a) == 8 {
					fail = int(binary.LittleEndian.Uint64(a))
				}
			} else {
				rep := &report{}
				if err := json.Unmarshal(b, rep); err != nil {
					died[w] = err.Error()
				} else {
					reps[w] = rep
					if rep.Fail != nil {
						fail = rep.Fail.I
					}
				}
			}
			if fail >= 0 {
				mu.Lock()
				if fail < lowest {
					lowest = fail
					f := filepath.Join(dir, "stop")
					os.WriteFile(f+".tmp", binary.LittleEndian.AppendUint64(nil, uint64(lowest)), 0o644)
					os.Rename(f+".tmp", f)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	explored := time.Since(t0)
	tot := merge(reps)
	tot.dist, tot.states = unionFiles(dir, "hash", nw), unionFiles(dir, "state", nw)

	// the failure with the lowest run number
	var fail *failure
	crash := ""
	for w := 0; w < nw; w++ {
		if reps[w] != nil && reps[w].Fail != nil && reps[w].Fail.I == lowest {
			fail = reps[w].Fail
		}
		if died[w] != "" {
			a, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("at.%d", w)))
			if err != nil || len(a) != 8 {
				die("%s", died[w])
			}
			if i := int(binary.LittleEndian.Uint64(a)); i == lowest {
				crash = died[w]
				fail = &failure{I: i, Class: "process-crash"}
			}
		}
	}
	path := ""
	if fail != nil {
		path = filepath.Join(*fVerif, "out", fmt.Sprintf("%s-seed%d-run%d.json", *fProp, *fSeed, fail.I))
		if crash != "" {
			confirmCrash(fail, path, common, crash)
		} else {
			confirm(fail, path, common)
		}
	}
	// the same runs in another process, which makes them one after another
	mism := append([]int{}, tot.Mismatch...)
	compared := 0
	if fail == nil {
		n := min(runs, digestRuns)
		args := append([]string{"digest"}, common...)
		out, code, err := self([]string{"GODEBUG=allocfreetrace=0"}, 120*time.Second, append(args, "-runs", fmt.Sprint(n))...)
		if err != nil || code != 0 {
			die("digest process: code %d, %v\n%s", code, err, tail(out, 2000))
		}
		want := map[int]uint64{}
		for _, d := range tot.Digests {
			want[d.I] = d.D
		}
		for _, l := range strings.Split(strings.TrimSpace(out), "\n") {
			var i int
			var d uint64
			if _, err := fmt.Sscan(l, &i, &d); err != nil {
				die("digest process said %q", l)
			}
			if v, ok := want[i]; ok {
				compared++
				if v != d {
					mism = append(mism, i)
				}
			}
		}
	}
	wall := time.Since(t0).Seconds()
	evidence(tot, fail, path, mism, compared, runs, nw, explored.Seconds(), wall)
	fmt.Printf("%s: %d simulated runs (seed %d, %s), %d steps, %d distinct interleavings, %d inconclusive, %.1f s\n",
		*fProp, tot.Runs, *fSeed, *fTier, tot.Steps, tot.dist, tot.Inconclusive, wall)
	if fail != nil {
		fmt.Printf("%s: %s\n", fail.Class, fail.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, path)
		if *fDir == "" {
			os.RemoveAll(dir)
		}
		os.Exit(1)
	}
	if len(mism) > 0 {
		die("nondeterminism: runs %v did not repeat themselves", mism)
	}
	if tot.Runs == 0 {
		die("nothing was explored")
	}
	if tot.Inconclusive*2 > tot.Runs {
		die("%d of %d runs were inconclusive", tot.Inconclusive, tot.Runs)
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

// confirm minimises a failure and makes sure that a fresh process repeats it.
func confirm(fail *failure, path string, common []string) {
	os.Remove(path)
	args := append([]string{"minimise"}, common...)
	args = append(args, "-from", fmt.Sprint(fail.I), "-file", path, "-limit", fmt.Sprint(*fLimit))
	out, code, err := self(nil, time.Duration(*fLimit+60)*time.Second, args...)
	if err != nil || code != 0 {
		// minimising ran into something else; the unminimised case may have been written
		if _, e := os.Stat(path); e != nil {
			die("could not repeat run %d: code %d, %v\n%s", fail.I, code, err, tail(out, 3000))
		}
	}
	rargs := []string{"replay", "-file", path, "-sites", *fSites}
	out, code, err = self(nil, 120*time.Second, rargs...)
	if err != nil || code != 1 {
		die("the replay file does not reproduce the violation: code %d, %v\n%s", code, err, tail(out, 3000))
	}
	r := readReplay(path)
	fail.Class, fail.Msg = r.Class, r.Message
}

// confirmCrash decides whether the death of a worker is the library's doing.
func confirmCrash(fail *failure, path string, common []string, how string) {
	r := &Replay{Property: *fProp, Seed: *fSeed, Run: fail.I, Class: "process-crash", Case: genCase(*fProp, *fSeed, uint64(fail.I)),
		Note: "the whole process dies when this case runs; not minimised"}
	if err := writeReplay(r, path); err != nil {
		die("%v", err)
	}
	for i := 0; i < 2; i++ {
		out, code, err := self(nil, 120*time.Second, "replay", "-file", path, "-sites", *fSites)
		if err != nil || code != 2 || !strings.Contains(out, "fatal error:") && !strings.Contains(out, "runtime: goroutine stack exceeds") {
			die("a worker died and run %d alone does not explain it: code %d, %v\n%s\n%s", fail.I, code, err, how, tail(out, 3000))
		}
		for _, l := range strings.Split(out, "\n") {
			if strings.HasPrefix(l, "fatal error:") {
				fail.Msg = l + "\n" + libFrames(out)
				break
			}
		}
	}
	r.Message = ""
	r.History = strings.Split(fail.Msg, "\n")
	if err := writeReplay(r, path); err != nil {
		die("%v", err)
	}
}

type total struct {
	report
	dist, states int
}

func merge(reps []*report) *total {
	t := &total{report: report{Fired: map[string]int{}, Calls: map[string]int{}, Why: map[string]int{}, Kinds: map[string]int{}, Strategies: map[string]int{}, Params: map[string]int{}}}
	add := func(a, b map[string]int) {
		for k, v := range b {
			a[k] += v
		}
	}
	for _, r := range reps {
		if r == nil {
			continue
		}
		t.Runs += r.Runs
		t.Steps += r.Steps
		t.Switches += r.Switches
		t.LockWaits += r.LockWaits
		t.Points += r.Points
		t.ClockReads += r.ClockReads
		t.RandSources += r.RandSources
		t.RaceChecks += r.RaceChecks
		t.Crashes += r.Crashes
		t.Restarts += r.Restarts
		t.Entropy += r.Entropy
		t.Events += r.Events
		t.Overlapping += r.Overlapping
		t.Explored += r.Explored
		t.Inconclusive += r.Inconclusive
		t.Nontrivial += r.Nontrivial
		t.WithFault += r.WithFault
		t.Rerun += r.Rerun
		t.Mismatch = append(t.Mismatch, r.Mismatch...)
		t.Digests = append(t.Digests, r.Digests...)
		if len(t.Samples) < 3 {
			t.Samples = append(t.Samples, r.Samples...)
		}
		add(t.Fired, r.Fired)
		add(t.Calls, r.Calls)
		add(t.Why, r.Why)
		add(t.Kinds, r.Kinds)
		add(t.Strategies, r.Strategies)
		add(t.Params, r.Params)
	}
	return t
}

func unionFiles(dir, name string, nw int) int {
	var all []uint64
	for w := 0; w < nw; w++ {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("%s.%d", name, w)))
		if err != nil {
			continue
		}
		for ; len(b) >= 8; b = b[8:] {
			all = append(all, binary.LittleEndian.Uint64(b))
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	n := 0
	for i := range all {
		if i == 0 || all[i] != all[i-1] {
			n++
		}
	}
	return n
}

func evidence(t *total, fail *failure, path string, mism []int, compared, planned, nw int, explored, wall float64) {
	faults := map[string]int{}
	for k, v := range t.Fired {
		faults["injected "+k] = v
	}
	if t.Crashes > 0 {
		faults["process crashes"] = int(t.Crashes)
	}
	if t.Restarts > 0 {
		faults["process restarts, with new clock, process id, random seeds and package state"] = int(t.Restarts)
	}
	for k, v := range t.Params {
		faults[k] = v
	}
	faults["preemptions at chosen points"] = int(t.Switches)
	cov := map[string]any{
		"evaluations":         t.Runs,
		"distinct_nontrivial": t.dist,
		"rule": "one evaluation is one simulated run, generated from one 64-bit seed derived from VERIF_SEED, the property and the run number: structure, element type, environment, prefilled content, calls of 1-4 clients, " +
			"scheduling strategy and faults. A run is non-trivial if at least two calls overlapped in simulated time and at least three scheduling switches happened; two runs are distinct if the hashes of their " +
			"sequences of scheduling switches (code site, client, call index, next client) differ.",
		"samples":                               t.Samples,
		"runs_planned":                          planned,
		"nontrivial_runs":                       t.Nontrivial,
		"simulated_steps":                       t.Steps,
		"simulated_time":                        fmt.Sprintf("%d scheduler steps (one step = one shared-memory access, lock operation, loop iteration or callback of the library under test); the library has no timers", t.Steps),
		"runs_per_hour":                         int(float64(t.Runs) / explored * 3600),
		"seeds_per_hour":                        int(float64(t.Runs) / explored * 3600),
		"exploration_wall_s":                    round1(explored),
		"worker_processes":                      nw,
		"calls":                                 t.Events,
		"overlapping_calls":                     t.Overlapping,
		"calls_by_operation":                    t.Calls,
		"lock_waits":                            t.LockWaits,
		"race_checked_accesses":                 t.RaceChecks,
		"clock_reads":                           t.ClockReads,
		"random_sources":                        t.RandSources,
		"entropy_draws":                         t.Entropy,
		"faults_fired":                          faults,
		"runs_with_faults":                      t.WithFault,
		"distinct_model_states":                 t.states,
		"linearization_states_explored":         t.Explored,
		"inconclusive_runs":                     t.Inconclusive,
		"inconclusive_reasons":                  t.Why,
		"structures":                            t.Kinds,
		"schedule_strategies":                   t.Strategies,
		"determinism_reruns_in_process":         t.Rerun,
		"determinism_reruns_in_another_process": compared,
		"determinism_mismatches":                len(mism),
		"real_code":                             "every package of /repo's working tree, compiled from instrumented copies of its source files",
		"stubs":                                 "sync and sync/atomic (simulated locks), the clock, process id, math/rand, crypto/rand and hash/maphash (the simulated process), hash/fnv (pass-through unless the run perturbs it), Go map order (shuffled by the run's seed), caller-supplied comparators, visitors and containers",
	}
	ev := map[string]any{
		"property": *fProp, "tier": *fTier, "seed": *fSeed, "level": "exploration", "coverage": cov, "wall_s": round1(wall), "violations": 0,
		"assumptions": []string{
			"the Go compiler and the instrumentation preserve what the source does",
			"interleavings are explored at the granularity of source-level memory accesses under sequential consistency, with happens-before race detection standing in for weaker memory behaviour",
		},
	}
	if fail != nil {
		ev["violations"] = 1
		cov["violation"] = map[string]any{"run": fail.I, "class": fail.Class, "message": fail.Msg, "replay": path}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	p := filepath.Join(*fVerif, "evidence", *fProp+".json")
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(p, append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}

func round1(f float64) float64 { return float64(int(f*10+0.5)) / 10 }
