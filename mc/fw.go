package main

// Framework: exhaustive enumeration of finite, indexable case spaces on the real code, in worker
// processes, with crash/hang attribution, re-run of every counterexample and evidence output.

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Stats is what one worker measured.
type Stats struct {
	Traces      uint64 // executions of the implementation compared with the reference
	Transitions uint64 // individual steps (operations, lines, messages, queries) compared
	states      map[uint64]struct{}
	full        bool
}

const maxStates = 1 << 21

// State registers an observed outcome (a canonical form of what the implementation did).
func (s *Stats) State(obs string) {
	h := fnv.New64a()
	io.WriteString(h, obs)
	s.StateHash(h.Sum64())
}

func (s *Stats) StateHash(h uint64) {
	if len(s.states) >= maxStates {
		s.full = true
		return
	}
	s.states[h] = struct{}{}
}

func (s *Stats) Step(n int) { s.Transitions += uint64(n) }

// Space is a finite set of cases 0..N-1. At renders case i as a string that fully determines it;
// Check runs it against the implementation and returns "" or a description of the violation.
type Space struct {
	Name  string
	Desc  string
	N     uint64
	At    func(i uint64) string
	Check func(c string, st *Stats) string
}

type Prop struct {
	ID          string
	Level       string
	Assumptions []string
	Spaces      func(tier string) []Space
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "model_checking"
	}
	props[p.ID] = p
}

// ---- space builders ----

func listSpace(name, desc string, cases []string, check func(string, *Stats) string) Space {
	return Space{Name: name, Desc: desc, N: uint64(len(cases)), At: func(i uint64) string { return cases[i] }, Check: check}
}

// seqCount is the number of sequences over k symbols with length in [min,max].
func seqCount(k, min, max int) uint64 {
	var n, p uint64 = 0, 1
	for l := 0; l <= max; l++ {
		if l >= min {
			n += p
		}
		p *= uint64(k)
	}
	return n
}

// seqAt decodes index i to a sequence of symbol indices, shorter sequences first.
func seqAt(k, min int, i uint64) []int {
	l := min
	p := uint64(1)
	for j := 0; j < min; j++ {
		p *= uint64(k)
	}
	for i >= p {
		i -= p
		p *= uint64(k)
		l++
	}
	res := make([]int, l)
	for j := l - 1; j >= 0; j-- {
		res[j] = int(i % uint64(k))
		i /= uint64(k)
	}
	return res
}

func seqSpace(name, desc string, alphabet []string, min, max int, sep string, check func(string, *Stats) string) Space {
	return Space{
		Name: name, Desc: fmt.Sprintf("%s: all sequences of length %d..%d over %d symbols", desc, min, max, len(alphabet)),
		N: seqCount(len(alphabet), min, max),
		At: func(i uint64) string {
			ix := seqAt(len(alphabet), min, i)
			var b strings.Builder
			for j, x := range ix {
				if j > 0 {
					b.WriteString(sep)
				}
				b.WriteString(alphabet[x])
			}
			return b.String()
		},
		Check: check,
	}
}

// prodSpace enumerates the product of dims; at renders one combination.
func prodSpace(name, desc string, dims []int, at func(ix []int) string, check func(string, *Stats) string) Space {
	n := uint64(1)
	for _, d := range dims {
		n *= uint64(d)
	}
	return Space{Name: name, Desc: desc, N: n, At: func(i uint64) string {
		ix := make([]int, len(dims))
		for j := len(dims) - 1; j >= 0; j-- {
			ix[j] = int(i % uint64(dims[j]))
			i /= uint64(dims[j])
		}
		return at(ix)
	}, Check: check}
}

// mapSpace keeps the enumeration of s and transforms each case.
func mapSpace(s Space, f func(string) string) Space {
	at := s.At
	s.At = func(i uint64) string { return f(at(i)) }
	return s
}

// ---- worker ----

type violation struct {
	Property string `json:"property"`
	Space    string `json:"space"`
	Index    uint64 `json:"index"`
	Case     string `json:"case"`
	CaseB64  []byte `json:"case_bytes"`
	Msg      string `json:"message"`
	Kind     string `json:"kind"`
}

type workerResult struct {
	Traces, Transitions uint64
	States              []uint64
	StatesFull          bool
	Done                []uint64 // per space: cases completed
	Violations          []violation
	Finished            bool
}

func runCheck(sp *Space, c string, st *Stats) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			stk := string(debug.Stack())
			msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(stk))
		}
	}()
	return sp.Check(c, st)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

type inflight struct {
	mem []byte
}

func openInflight(path string) (*inflight, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(4096); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &inflight{mem: mem}, nil
}

func (f *inflight) set(space int, idx uint64, seq uint64) {
	binary.LittleEndian.PutUint64(f.mem[0:], uint64(space))
	binary.LittleEndian.PutUint64(f.mem[8:], idx)
	binary.LittleEndian.PutUint64(f.mem[16:], seq)
}

func (f *inflight) get() (int, uint64, uint64) {
	return int(binary.LittleEndian.Uint64(f.mem[0:])), binary.LittleEndian.Uint64(f.mem[8:]), binary.LittleEndian.Uint64(f.mem[16:])
}

// stopFirst: end at the first violation (used when trying planted changes in bulk)
var stopFirst = os.Getenv("MC_FIRST") != ""

// workerMain: mc worker ID tier w W inflight result deadlineUnixMs start(space:idx) [skip...]
func workerMain(args []string) int {
	p := props[args[0]]
	tier := args[1]
	w, _ := strconv.ParseUint(args[2], 10, 64)
	W, _ := strconv.ParseUint(args[3], 10, 64)
	fl, err := openInflight(args[4])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	deadline, _ := strconv.ParseInt(args[6], 10, 64)
	var s0 int
	var i0 uint64
	fmt.Sscanf(args[7], "%d:%d", &s0, &i0)

	silenceStdout()
	spaces := p.Spaces(tier)
	res := workerResult{Done: make([]uint64, len(spaces))}
	st := &Stats{states: map[uint64]struct{}{}}
	var seq uint64
	res.Finished = true
outer:
	for si := s0; si < len(spaces); si++ {
		sp := &spaces[si]
		start := w
		if si == s0 && i0 > start {
			start = i0
		}
		for i := start; i < sp.N; i += W {
			seq++
			fl.set(si, i, seq)
			if seq&63 == 0 && time.Now().UnixMilli() > deadline {
				res.Finished = false
				break outer
			}
			c := sp.At(i)
			msg := runCheck(sp, c, st)
			st.Traces++
			res.Done[si]++
			if msg != "" {
				res.Violations = append(res.Violations, violation{Property: p.ID, Space: sp.Name, Index: i, Case: c, CaseB64: []byte(c), Msg: msg, Kind: "mismatch"})
				if len(res.Violations) >= 40 || stopFirst {
					res.Finished = false
					break outer
				}
			}
		}
	}
	res.Traces, res.Transitions, res.StatesFull = st.Traces, st.Transitions, st.full
	for h := range st.states {
		res.States = append(res.States, h)
	}
	b, _ := json.Marshal(res)
	if err := os.WriteFile(args[5], b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	return 0
}

// replayMain: mc replay ID file -> exit 0 holds, exit 4 violated
const replayMark = "replay-error:"

func replayMain(args []string) int {
	p := props[args[0]]
	if p == nil {
		fmt.Fprintln(os.Stderr, replayMark, "unknown property")
		return 3
	}
	b, err := os.ReadFile(args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, replayMark, err)
		return 3
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, replayMark, err)
		return 3
	}
	c := string(v.CaseB64)
	out := silenceStdout()
	st := &Stats{states: map[uint64]struct{}{}}
	for _, tier := range []string{"quick", "thorough"} {
		for _, sp := range p.Spaces(tier) {
			if sp.Name == v.Space {
				for k := 0; k < 8; k++ {
					if msg := runCheck(&sp, c, st); msg != "" {
						fmt.Fprintf(out, "violated: %s\n", msg)
						return 4
					}
				}
				fmt.Fprintln(out, "holds")
				return 0
			}
		}
	}
	fmt.Fprintln(os.Stderr, replayMark, "unknown space")
	return 3
}

// silenceStdout redirects fd 1 to /dev/null (the code under test prints on errors) and returns the real one.
func silenceStdout() *os.File {
	real := os.Stdout
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null
	}
	return real
}

// ---- driver ----

const (
	stallLimit   = 40 * time.Second
	confirmLimit = 90 * time.Second
	rssLimit     = 3 << 30
	confirmRSS   = 5 << 30
)

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<14 {
		t.b = append(t.b, p...)
		if len(t.b) > 1<<14 {
			t.b = t.b[:1<<14]
		}
	}
	return len(p), nil
}

// runConfirm re-runs one case in a fresh process. Returns (violated, how).
func runConfirm(self, id, file string) (bool, string, error) {
	cmd := exec.Command(self, "replay", id, file)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var out tailBuf
	cmd.Stdout = &out
	cmd.Stderr = &out
	if err := cmd.Start(); err != nil {
		return false, "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	tick := time.NewTicker(50 * time.Millisecond)
	defer tick.Stop()
	begin := time.Now()
	for {
		select {
		case err := <-done:
			if err == nil {
				if !strings.Contains(string(out.b), "holds\n") {
					// the code under test ended the process
					return true, "the process ended by itself: " + string(out.b), nil
				}
				return false, "", nil
			}
			var ee *exec.ExitError
			if errors.As(err, &ee) && ee.ExitCode() == 3 && strings.Contains(string(out.b), replayMark) {
				return false, "", fmt.Errorf("replay failed: %s", out.b)
			}
			return true, string(out.b), nil
		case <-tick.C:
			if time.Since(begin) > confirmLimit {
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				return true, fmt.Sprintf("did not terminate within %s", confirmLimit), nil
			}
			if rss(cmd.Process.Pid) > confirmRSS {
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				return true, "memory grew beyond bounds", nil
			}
		}
	}
}

type known struct {
	Status   string `json:"status"` // "finding" or "fixed"
	Property string `json:"property"`
	Space    string `json:"space"`
	Case     string `json:"case"`
	What     string `json:"what"`
	Commit   string `json:"commit"`
}

func loadKnown(root, id string) []known {
	var res []known
	f, err := os.Open(filepath.Join(root, "known-findings.jsonl"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		var k known
		if json.Unmarshal(sc.Bytes(), &k) == nil && k.Property == id && k.Status == "finding" {
			res = append(res, k)
		}
	}
	return res
}

// checkMain: mc check ID tier
func checkMain(args []string) int {
	id, tier := args[0], args[1]
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	begin := time.Now()
	budget := 150 * time.Second
	if tier == "thorough" {
		budget = 660 * time.Second
	}
	if v := os.Getenv("VERIF_BUDGET_S"); v != "" {
		n, _ := strconv.Atoi(v)
		budget = time.Duration(n) * time.Second
	}
	deadline := begin.Add(budget)
	self, _ := os.Executable()
	scratch, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)

	spaces := p.Spaces(tier)
	for _, sp := range spaces {
		if sp.N == 0 {
			fmt.Fprintf(os.Stderr, "space %q of %s is empty\n", sp.Name, id)
			return 2
		}
	}
	W := runtime.NumCPU()
	if W > 8 {
		W = 8
	}
	if W < 2 {
		W = 2
	}
	kn := loadKnown(root, id)

	type job struct {
		w   int
		s0  int
		i0  uint64
		gen int
	}
	var mu sync.Mutex
	var total workerResult
	total.Done = make([]uint64, len(spaces))
	states := map[uint64]struct{}{}
	finished := true
	var viols []violation
	var infra []string
	crashes := 0

	var wg sync.WaitGroup
	var run func(j job)
	run = func(j job) {
		defer wg.Done()
		flp := filepath.Join(scratch, fmt.Sprintf("fl-%d-%d", j.w, j.gen))
		rsp := filepath.Join(scratch, fmt.Sprintf("rs-%d-%d", j.w, j.gen))
		fl, err := openInflight(flp)
		if err != nil {
			mu.Lock()
			infra = append(infra, err.Error())
			mu.Unlock()
			return
		}
		cmd := exec.Command(self, "worker", id, tier, strconv.Itoa(j.w), strconv.Itoa(W), flp, rsp,
			strconv.FormatInt(deadline.UnixMilli(), 10), fmt.Sprintf("%d:%d", j.s0, j.i0))
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200")
		var out tailBuf
		cmd.Stderr = &out
		if err := cmd.Start(); err != nil {
			mu.Lock()
			infra = append(infra, err.Error())
			mu.Unlock()
			return
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		var lastSeq uint64
		lastChange := time.Now()
		tick := time.NewTicker(100 * time.Millisecond)
		defer tick.Stop()
		kind := ""
		var werr error
	loop:
		for {
			select {
			case werr = <-done:
				break loop
			case <-tick.C:
				_, _, seq := fl.get()
				if seq != lastSeq {
					lastSeq, lastChange = seq, time.Now()
				}
				if seq > 0 && time.Since(lastChange) > stallLimit {
					kind = "hang"
				}
				if rss(cmd.Process.Pid) > rssLimit {
					kind = "memory"
				}
				if kind != "" {
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					werr = <-done
					break loop
				}
			}
		}
		si, idx, seq := fl.get()
		if werr == nil {
			b, err := os.ReadFile(rsp)
			var r workerResult
			if err == nil {
				err = json.Unmarshal(b, &r)
			}
			if err != nil && seq > 0 {
				// the code under test ended the process
				werr = errors.New("the process ended by itself")
				goto died
			}
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				infra = append(infra, "worker result: "+err.Error())
				return
			}
			total.Traces += r.Traces
			total.Transitions += r.Transitions
			total.StatesFull = total.StatesFull || r.StatesFull
			for _, h := range r.States {
				states[h] = struct{}{}
			}
			for i, d := range r.Done {
				total.Done[i] += d
			}
			if !r.Finished {
				finished = false
			}
			viols = append(viols, r.Violations...)
			return
		}
	died:
		// crashed, hung or exhausted memory: attribute to the in-flight case
		mu.Lock()
		defer mu.Unlock()
		if seq == 0 || si >= len(spaces) {
			infra = append(infra, fmt.Sprintf("worker died before its first case: %v: %s", werr, out.b))
			return
		}
		if kind == "" {
			kind = "crash"
		}
		c := spaces[si].At(idx)
		viols = append(viols, violation{Property: id, Space: spaces[si].Name, Index: idx, Case: c, CaseB64: []byte(c),
			Msg: kind + ": " + werr.Error() + "\n" + string(out.b), Kind: kind})
		crashes++
		// cases completed by the dead worker are not counted; resume after the culprit
		if crashes < 24 && time.Now().Before(deadline) {
			wg.Add(1)
			go run(job{w: j.w, s0: si, i0: idx + uint64(W), gen: j.gen + 1})
		} else {
			finished = false
		}
	}
	for w := 0; w < W; w++ {
		wg.Add(1)
		go run(job{w: w})
	}
	wg.Wait()

	if len(infra) > 0 {
		fmt.Fprintln(os.Stderr, "infrastructure failure:", strings.Join(infra, "; "))
		return 2
	}

	sort.SliceStable(viols, func(a, b int) bool {
		if len(viols[a].Case) != len(viols[b].Case) {
			return len(viols[a].Case) < len(viols[b].Case)
		}
		return viols[a].Case < viols[b].Case
	})

	// classify
	rdir := filepath.Join(root, "evidence", "replay", id)
	os.RemoveAll(rdir)
	knownHit := map[int]int{}
	var confirmed, unconfirmed []violation
	var replay string
	unstable := 0
	tried := 0
	for _, v := range viols {
		skip := false
		for ki, k := range kn {
			if k.Space == v.Space && k.Case == v.Case {
				knownHit[ki]++
				skip = true
				break
			}
		}
		if skip {
			continue
		}
		if len(confirmed) >= 3 || tried >= 12 {
			break
		}
		tried++
		os.MkdirAll(rdir, 0o755)
		file := filepath.Join(rdir, fmt.Sprintf("case-%d.json", tried))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(file, b, 0o644)
		ok := false
		for k := 0; k < 6 && !ok; k++ {
			bad, how, err := runConfirm(self, id, file)
			if err != nil {
				fmt.Fprintln(os.Stderr, "infrastructure failure:", err)
				return 2
			}
			if bad {
				ok = true
				if v.Kind != "mismatch" {
					v.Msg += "\nconfirmed: " + how
				}
			}
		}
		if !ok {
			unstable++
			os.Remove(file)
			unconfirmed = append(unconfirmed, v)
			continue
		}
		confirmed = append(confirmed, v)
		if replay == "" {
			replay = file
		}
	}

	// A mismatch that a single case does not reproduce may need the cases before it (state kept between
	// calls): run the same worker's whole sequence again in a fresh process and see whether it comes back.
	if len(confirmed) == 0 && len(unconfirmed) > 0 {
		v := unconfirmed[0]
		w := int(v.Index % uint64(W))
		rsp := filepath.Join(scratch, "rs-history")
		limit := time.Now().Add(time.Since(begin) + 60*time.Second)
		cmd := exec.Command(self, "worker", id, tier, strconv.Itoa(w), strconv.Itoa(W), filepath.Join(scratch, "fl-history"), rsp,
			strconv.FormatInt(limit.UnixMilli(), 10), "0:0")
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200")
		if err := cmd.Run(); err == nil {
			var r workerResult
			if b, err := os.ReadFile(rsp); err == nil && json.Unmarshal(b, &r) == nil {
				for _, v2 := range r.Violations {
					if v2.Space == v.Space && v2.Index == v.Index && v2.Msg == v.Msg {
						v.Kind = "history"
						v.Msg += fmt.Sprintf("\n(only after the cases before it: reproduced twice by worker %d of %d, tier %s)", w, W, tier)
						os.MkdirAll(rdir, 0o755)
						replay = filepath.Join(rdir, "history.json")
						b, _ := json.MarshalIndent(v, "", " ")
						os.WriteFile(replay, b, 0o644)
						confirmed = append(confirmed, v)
						break
					}
				}
			}
		}
	}

	exhaustive := finished
	var perSpace []map[string]any
	var samples []string
	for i, sp := range spaces {
		perSpace = append(perSpace, map[string]any{"space": sp.Name, "description": sp.Desc, "cases": sp.N, "explored": total.Done[i]})
		if total.Done[i] < sp.N {
			exhaustive = false
		}
		if sp.N > 0 {
			s := sp.At(sp.N - 1)
			if len(s) > 300 {
				s = s[:300] + "..."
			}
			samples = append(samples, sp.Name+": "+s)
		}
	}
	cov := map[string]any{
		"states": len(states), "transitions": total.Transitions, "traces_validated_against_impl": total.Traces,
		"samples": samples, "exhaustive": exhaustive, "spaces": perSpace,
		"states_meaning":      "distinct canonical outcomes observed on the implementation",
		"transitions_meaning": "single steps (lines, instructions, messages, queries) compared with the reference model",
		"traces_meaning":      "cases executed on the implementation and compared with the reference model",
	}
	if total.StatesFull {
		cov["states_capped"] = true
	}
	if unstable > 0 {
		cov["unconfirmed_reports"] = unstable
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": p.Assumptions, "wall_s": time.Since(begin).Seconds(), "violations": len(confirmed)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	for ki, k := range kn {
		if knownHit[ki] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s case=%q %s\n", id, k.Case, k.What)
		}
	}
	fmt.Printf("%s %s: traces=%d transitions=%d states=%d exhaustive=%v wall=%.1fs\n", id, tier, total.Traces, total.Transitions, len(states), exhaustive, time.Since(begin).Seconds())
	if len(confirmed) > 0 {
		for _, v := range confirmed {
			fmt.Printf("--- %s [%s #%d] case:\n%s\n%s\n", id, v.Space, v.Index, indent(v.Case), v.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	return 0
}

func indent(s string) string {
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return "    " + strings.ReplaceAll(strconv.QuoteToGraphic(s), `\n`, "\\n\n    ")
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mc check|worker|replay ID ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "worker":
		os.Exit(workerMain(os.Args[2:]))
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	case "spaces":
		// a table of the bounds of one property, for BOUNDS.md
		q, t := props[os.Args[2]].Spaces("quick"), props[os.Args[2]].Spaces("thorough")
		n := map[string]Space{}
		for _, s := range q {
			n[s.Name] = s
		}
		for _, s := range t {
			d, c := s.Desc, "-"
			if x, ok := n[s.Name]; ok {
				if c = fmt.Sprint(x.N); x.Desc != d {
					d = x.Desc + " / thorough: " + d
				}
			}
			fmt.Printf("| %s | %s | %s | %s | %d |\n", os.Args[2], s.Name, d, c, s.N)
		}
		os.Exit(0)
	}
	os.Exit(2)
}
