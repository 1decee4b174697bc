package main

// D01-D03: the debug adapter, driven through its protocol next to a machine that is itself held
// against the reference model.

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/dragmz/teal/dbg"
)

// ---------- client ----------

type dapMsg struct {
	raw string
	Seq json.Number `json:"seq"`
	// responses
	Type       string          `json:"type"`
	RequestSeq json.Number     `json:"request_seq"`
	Success    bool            `json:"success"`
	Command    string          `json:"command"`
	Body       json.RawMessage `json:"body"`
	Event      string          `json:"event"`
}

// dapPipe is both ends of the adapter's streams.
type dapPipe struct {
	mu   sync.Mutex
	cond *sync.Cond
	in   []byte
	eof  bool
	out  []byte
	dead string // why the adapter is gone
	over bool
}

func (p *dapPipe) Read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for len(p.in) == 0 && !p.eof {
		p.cond.Wait()
	}
	if len(p.in) == 0 {
		return 0, io.EOF
	}
	n := copy(b, p.in)
	p.in = p.in[n:]
	return n, nil
}

func (p *dapPipe) Write(b []byte) (int, error) {
	p.mu.Lock()
	p.out = append(p.out, b...)
	p.mu.Unlock()
	p.cond.Broadcast()
	return len(b), nil
}

type dapClient struct {
	p    *dapPipe
	seq  int
	last int // last sequence number seen
	st   *Stats
}

func newDap(st *Stats) *dapClient {
	p := &dapPipe{}
	p.cond = sync.NewCond(&p.mu)
	go func() {
		end := func(why string) {
			p.mu.Lock()
			p.dead, p.over = why, true
			p.mu.Unlock()
			p.cond.Broadcast()
		}
		defer func() {
			if r := recover(); r != nil {
				end(fmt.Sprintf("the adapter crashed: %v", r))
			}
		}()
		d, err := dbg.New(p, p)
		if err != nil {
			end("the adapter did not start: " + err.Error())
			return
		}
		code, err := d.Run()
		if err != nil || code != 0 {
			end(fmt.Sprintf("the adapter ended with code %d, error %v", code, err))
			return
		}
		end("")
	}()
	return &dapClient{p: p, st: st}
}

// nextSeq is the sequence number of the next request.
func (c *dapClient) nextSeq() int { c.seq++; return c.seq }

// takeFrame removes the first complete message of the output, if there is one.
func (p *dapPipe) takeFrame() ([]byte, string, bool) {
	i := strings.Index(string(p.out[:min(len(p.out), 200)]), "\r\n\r\n")
	if i < 0 {
		if len(p.out) >= 200 {
			return nil, fmt.Sprintf("output is not framed: %q", clipS(string(p.out))), false
		}
		return nil, "", false
	}
	n := -1
	for _, h := range strings.Split(string(p.out[:i]), "\r\n") {
		k, v, _ := strings.Cut(h, ":")
		if strings.EqualFold(k, "Content-Length") {
			if x, err := strconv.Atoi(strings.TrimSpace(v)); err == nil {
				n = x
			}
		}
	}
	if n < 0 {
		return nil, fmt.Sprintf("output is not framed: %q", clipS(string(p.out))), false
	}
	if len(p.out) < i+4+n {
		return nil, "", false
	}
	f := append([]byte{}, p.out[i+4:i+4+n]...)
	p.out = p.out[i+4+n:]
	return f, "", true
}

func (c *dapClient) recv() (dapMsg, string) {
	c.p.mu.Lock()
	var f []byte
	for {
		g, bad, ok := c.p.takeFrame()
		if bad != "" {
			c.p.mu.Unlock()
			return dapMsg{}, bad
		}
		if ok {
			f = g
			break
		}
		if c.p.over {
			d := c.p.dead
			c.p.mu.Unlock()
			if d == "" {
				d = "the adapter ended although its input had not"
			}
			return dapMsg{}, d
		}
		c.p.cond.Wait()
	}
	c.p.mu.Unlock()
	m := dapMsg{raw: string(f)}
	if err := json.Unmarshal(f, &m); err != nil {
		return m, fmt.Sprintf("a message of the adapter is not valid: %v: %s", err, clipS(m.raw))
	}
	n, err := strconv.Atoi(string(m.Seq))
	if err != nil || n <= c.last {
		return m, fmt.Sprintf("sequence number %s follows %d: %s", m.Seq, c.last, clipS(m.raw))
	}
	c.last = n
	if m.Type != "response" && m.Type != "event" {
		return m, "a message of the adapter is neither response nor event: " + clipS(m.raw)
	}
	return m, ""
}

func (c *dapClient) send(body string) {
	c.p.mu.Lock()
	c.p.in = append(c.p.in, frame(body)...)
	c.p.mu.Unlock()
	c.p.cond.Broadcast()
}

// exchange sends a message and the request that marks its end, and returns what came in between
// and the answer to the mark.
func (c *dapClient) exchange(body string) (between []dapMsg, mark dapMsg, bad string) {
	c.send(body)
	k := c.nextSeq()
	c.send(fmt.Sprintf(`{"seq":%d,"type":"request","command":"threads"}`, k))
	for {
		m, bad := c.recv()
		if bad != "" {
			return between, m, bad
		}
		if m.Type == "response" && string(m.RequestSeq) == strconv.Itoa(k) {
			if m.Command != "threads" {
				return between, m, "the answer to threads names another command: " + clipS(m.raw)
			}
			return between, m, ""
		}
		between = append(between, m)
	}
}

// call sends a request; it has to be answered exactly once.
func (c *dapClient) call(cmd, args string) (resp dapMsg, events []dapMsg, mark dapMsg, bad string) {
	k := c.nextSeq()
	body := fmt.Sprintf(`{"seq":%d,"type":"request","command":%s,"arguments":%s}`, k, jqText(cmd), args)
	if args == "" {
		body = fmt.Sprintf(`{"seq":%d,"type":"request","command":%s}`, k, jqText(cmd))
	}
	between, mark, bad := c.exchange(body)
	if bad != "" {
		return resp, nil, mark, fmt.Sprintf("after %s: %s", clipS(body), bad)
	}
	c.st.Step(1)
	n := 0
	for _, m := range between {
		if m.Type == "response" {
			n++
			resp = m
			if string(m.RequestSeq) != strconv.Itoa(k) {
				return resp, nil, mark, fmt.Sprintf("%s brought an answer to request %s", clipS(body), m.RequestSeq)
			}
			if m.Command != cmd {
				return resp, nil, mark, fmt.Sprintf("the answer to %s names the command %q", clipS(body), m.Command)
			}
		} else {
			events = append(events, m)
		}
	}
	if n != 1 {
		return resp, nil, mark, fmt.Sprintf("%s has %d answers, want 1", clipS(body), n)
	}
	return resp, events, mark, ""
}

// query sends a request that only reads; an answer too many shows up in front of the next one.
func (c *dapClient) query(cmd, args string) (dapMsg, string) {
	k := c.nextSeq()
	body := fmt.Sprintf(`{"seq":%d,"type":"request","command":%s,"arguments":%s}`, k, jqText(cmd), args)
	c.send(body)
	c.st.Step(1)
	for {
		m, bad := c.recv()
		if bad != "" {
			return m, fmt.Sprintf("after %s: %s", clipS(body), bad)
		}
		if m.Type == "event" {
			if m.Event == "stopped" {
				return m, fmt.Sprintf("%s reported a stop", clipS(body))
			}
			continue
		}
		if string(m.RequestSeq) != strconv.Itoa(k) || m.Command != cmd {
			return m, fmt.Sprintf("%s is answered with %s", clipS(body), clipS(m.raw))
		}
		return m, ""
	}
}

// end closes the input; the adapter has to finish without writing more.
func (c *dapClient) end() string {
	c.p.mu.Lock()
	c.p.eof = true
	c.p.cond.Broadcast()
	for !c.p.over {
		c.p.cond.Wait()
	}
	defer c.p.mu.Unlock()
	if c.p.dead != "" {
		return "at the end of the input: " + c.p.dead
	}
	if len(c.p.out) > 0 {
		return fmt.Sprintf("written after everything was answered: %q", clipS(string(c.p.out)))
	}
	return ""
}

// stop ends the adapter without judging it.
func (c *dapClient) stop() {
	c.p.mu.Lock()
	c.p.eof = true
	c.p.mu.Unlock()
	c.p.cond.Broadcast()
}

// ---------- program files ----------

var (
	scratchDir string
	scratchSrc = map[string]string{}
)

func scratch() string {
	if scratchDir == "" {
		scratchDir = os.Getenv("MC_SCRATCH")
		if scratchDir == "" {
			d, err := os.MkdirTemp("", "mc-files-")
			if err != nil {
				panic(err)
			}
			scratchDir = d
		}
	}
	return scratchDir
}

// progFile writes a program to this process's file of that name.
func progFile(name, src string) string {
	f := filepath.Join(scratch(), fmt.Sprintf("%d-%s.teal", os.Getpid(), name))
	if old, ok := scratchSrc[f]; !ok || old != src {
		if err := os.WriteFile(f, []byte(src), 0o644); err != nil {
			panic(err)
		}
		scratchSrc[f] = src
	}
	return f
}

// ---------- D02 / D03 ----------

// dapSession couples an adapter with a machine stepped in parallel.
type dapSession struct {
	big     bool // runs of any length are judged
	c       *dapClient
	st      *Stats
	srcs    []string
	refs    []*rRes
	l       *lockstep // the launched machine, nil before
	path    string
	lz, cz  int
	bps     []dapBp
	failed  bool // some branch has failed
	level   int  // what is inspected after each request: 0 threads and positions, 1 stack and scratch too, 2 everything
	windows bool // and every paging window
	dead    bool // the rest of the history is not judged
	pages   []string
}

type dapBp struct {
	id, line int // line: 0-based
}

func (s *dapSession) instr(line int) bool {
	return s.l != nil && line >= 0 && line < len(s.l.m.ops) && !s.l.m.ops[line].nop()
}

func (s *dapSession) live(id int) bool {
	b := s.l.model(id)
	return b != nil && b.live()
}

// activeBps is the set of lines the machine is to stop on.
func (s *dapSession) activeBps() map[int]bool {
	m := map[int]bool{}
	for _, b := range s.bps {
		if s.instr(b.line) {
			m[b.line] = true
		}
	}
	return m
}

type dapBpMsg struct {
	Id       *int `json:"id"`
	Verified bool `json:"verified"`
	Line     *int `json:"line"`
}

type dapStopped struct {
	Reason           string `json:"reason"`
	ThreadId         *int   `json:"threadId"`
	HitBreakpointIds []int  `json:"hitBreakpointIds"`
}

func stoppedEvents(evs []dapMsg) ([]dapStopped, string) {
	var res []dapStopped
	for _, e := range evs {
		if e.Event == "stopped" {
			var s dapStopped
			if err := json.Unmarshal(e.Body, &s); err != nil {
				return nil, "unreadable stopped event: " + clipS(e.raw)
			}
			res = append(res, s)
		}
	}
	return res, ""
}

func showStop(reason string, tid *int) string {
	if tid == nil {
		return reason + " of no thread"
	}
	return fmt.Sprintf("%s of thread %d", reason, *tid)
}

func (s *dapSession) cur() *int {
	if s.l.vm.Branch == nil {
		return nil
	}
	id := s.l.vm.Branch.Id
	return &id
}

// oneStop: exactly one stopped event, with this reason and thread.
func oneStop(evs []dapMsg, reason string, tid *int, anyThread bool) string {
	ss, bad := stoppedEvents(evs)
	if bad != "" {
		return bad
	}
	if len(ss) != 1 {
		return fmt.Sprintf("%d stopped events, want one: %s", len(ss), showStop(reason, tid))
	}
	if ss[0].Reason != reason {
		return fmt.Sprintf("stopped with %s, want %s", showStop(ss[0].Reason, ss[0].ThreadId), showStop(reason, tid))
	}
	if !anyThread && showStop(reason, tid) != showStop(reason, ss[0].ThreadId) {
		return fmt.Sprintf("stopped with %s, want %s", showStop(ss[0].Reason, ss[0].ThreadId), showStop(reason, tid))
	}
	return ""
}

// do performs one request of the history on both sides.
func (s *dapSession) do(tok string) string {
	switch {
	case strings.HasPrefix(tok, "i"):
		// i<line base><column base>, '-' for absent
		args := []string{`"adapterID":"teal"`}
		base := func(c byte, name string) int {
			switch c {
			case '0':
				args = append(args, `"`+name+`":false`)
				return 0
			case '1':
				args = append(args, `"`+name+`":true`)
			}
			return 1
		}
		lz, cz := base(tok[1], "linesStartAt1"), base(tok[2], "columnsStartAt1")
		r, evs, _, bad := s.c.call("initialize", "{"+strings.Join(args, ",")+"}")
		if bad != "" {
			return bad
		}
		if !r.Success {
			return "initialize failed"
		}
		n := 0
		for _, e := range evs {
			if e.Event == "initialized" {
				n++
			}
		}
		if n != 1 {
			return fmt.Sprintf("initialize brought %d initialized events", n)
		}
		s.lz, s.cz = lz, cz
	case tok == "L" || tok == "M":
		k := 0
		if tok == "M" {
			k = 1
		}
		path := progFile(tok, s.srcs[k])
		r, evs, _, bad := s.c.call("launch", `{"program":`+jqText(path)+`}`)
		if bad != "" {
			return bad
		}
		if !r.Success {
			return "launch failed"
		}
		s.path = path
		s.failed = false
		s.l = newLockstepR(s.srcs[k], s.refs[k], allAspects, s.st)
		s.l.full = false
		s.l.bps = s.activeBps()
		// the breakpoints set before become those of the program
		want := map[int]int{}
		for _, b := range s.bps {
			want[b.id]++
		}
		for _, e := range evs {
			if e.Event != "breakpoint" {
				continue
			}
			var b struct {
				Breakpoint dapBpMsg `json:"breakpoint"`
			}
			if err := json.Unmarshal(e.Body, &b); err != nil || b.Breakpoint.Id == nil {
				return "unreadable breakpoint event: " + clipS(e.raw)
			}
			found := false
			for _, x := range s.bps {
				if x.id == *b.Breakpoint.Id {
					found = true
					if b.Breakpoint.Verified != s.instr(x.line) {
						return fmt.Sprintf("launching: breakpoint on line %d reported verified=%v, want %v", x.line, b.Breakpoint.Verified, s.instr(x.line))
					}
					if b.Breakpoint.Line != nil && *b.Breakpoint.Line != x.line+s.lz {
						return fmt.Sprintf("launching: breakpoint on line %d reported on line %d, want %d", x.line, *b.Breakpoint.Line, x.line+s.lz)
					}
				}
			}
			if !found {
				return fmt.Sprintf("launching: event for breakpoint %d, which is not set", *b.Breakpoint.Id)
			}
			want[*b.Breakpoint.Id]--
		}
		for _, x := range s.bps {
			if want[x.id] > 0 && s.instr(x.line) {
				return fmt.Sprintf("launching did not report the breakpoint on line %d as verified", x.line)
			}
		}
		if m := oneStop(evs, "entry", s.cur(), false); m != "" {
			return "launching: " + m
		}
		if s.cur() == nil && s.l.anyLive() {
			return "the launched machine has no current branch although it is not finished"
		}
	case tok == "N":
		// a launch that fails leaves everything as it was
		r, evs, _, bad := s.c.call("launch", `{"program":`+jqText(filepath.Join(scratch(), "no-such-file.teal"))+`}`)
		if bad != "" {
			return bad
		}
		if r.Success {
			return "launching a file that does not exist succeeded"
		}
		if ss, _ := stoppedEvents(evs); len(ss) > 0 {
			return "a failed launch reported a stop"
		}
	case strings.HasPrefix(tok, "B"):
		var lines []int
		for _, x := range strings.Split(tok[1:], ",") {
			if x != "" {
				n, _ := strconv.Atoi(x)
				lines = append(lines, n)
			}
		}
		var bs []string
		for _, n := range lines {
			bs = append(bs, fmt.Sprintf(`{"line":%d}`, n+s.lz))
		}
		path := s.path
		if path == "" {
			path = progFile("L", s.srcs[0])
		}
		r, evs, _, bad := s.c.call("setBreakpoints", `{"source":{"name":"p.teal","path":`+jqText(path)+`},"breakpoints":[`+strings.Join(bs, ",")+`]}`)
		if bad != "" {
			return bad
		}
		if !r.Success {
			return "setBreakpoints failed"
		}
		if ss, _ := stoppedEvents(evs); len(ss) > 0 {
			return "setting breakpoints reported a stop"
		}
		var body struct {
			Breakpoints []dapBpMsg `json:"breakpoints"`
		}
		if err := json.Unmarshal(r.Body, &body); err != nil {
			return "unreadable answer to setBreakpoints: " + clipS(r.raw)
		}
		if len(body.Breakpoints) != len(lines) {
			return fmt.Sprintf("%d breakpoints answered, %d were set", len(body.Breakpoints), len(lines))
		}
		s.bps = nil
		for i, b := range body.Breakpoints {
			if b.Verified != s.instr(lines[i]) {
				return fmt.Sprintf("breakpoint on line %d verified=%v, want %v", lines[i], b.Verified, s.instr(lines[i]))
			}
			if b.Line != nil && *b.Line != lines[i]+s.lz {
				return fmt.Sprintf("breakpoint on line %d answered on line %d, want %d", lines[i], *b.Line, lines[i]+s.lz)
			}
			if b.Id == nil {
				return "a breakpoint without id: " + clipS(r.raw)
			}
			s.bps = append(s.bps, dapBp{*b.Id, lines[i]})
		}
		for i, a := range s.bps {
			for _, b := range s.bps[:i] {
				if a.id == b.id && a.line != b.line {
					return fmt.Sprintf("the breakpoints on lines %d and %d share an id", a.line, b.line)
				}
			}
		}
		if s.l != nil {
			s.l.bps = s.activeBps()
		}
	case tok[0] == 'n':
		k, _ := strconv.Atoi(tok[1:])
		if s.l == nil {
			_, evs, _, bad := s.c.call("next", fmt.Sprintf(`{"threadId":%d}`, k))
			if bad != "" {
				return bad
			}
			if ss, _ := stoppedEvents(evs); len(ss) > 0 {
				return "next before launch reported a stop"
			}
			return ""
		}
		was := s.live(k)
		if !was && s.failed {
			// stepping a branch that has failed is not specified
			s.dead = true
			return ""
		}
		r, evs, _, bad := s.c.call("next", fmt.Sprintf(`{"threadId":%d}`, k))
		if bad != "" {
			return bad
		}
		if !r.Success {
			return "next failed"
		}
		s.l.vm.Switch(k)
		if was && (s.l.vm.Branch == nil || s.l.vm.Branch.Id != k) {
			return fmt.Sprintf("switching to branch %d did not select it", k)
		}
		if _, e := s.l.step(); e != "" {
			return e
		}
		if s.l.vm.Error != nil {
			s.failed = true
			return oneStop(evs, "exception", nil, true)
		}
		tid := s.cur()
		if was && s.live(k) {
			tid = &k
		} else if tid != nil && !s.live(*tid) {
			return oneStop(evs, "step", tid, true)
		}
		if m := oneStop(evs, "step", tid, false); m != "" {
			return m
		}
	case tok[0] == 'c':
		k, _ := strconv.Atoi(tok[1:])
		if s.l == nil {
			_, evs, _, bad := s.c.call("continue", fmt.Sprintf(`{"threadId":%d}`, k))
			if bad != "" {
				return bad
			}
			if ss, _ := stoppedEvents(evs); len(ss) > 0 {
				return "continue before launch reported a stop"
			}
			return ""
		}
		if s.failed && s.l.vm.Error == nil {
			s.dead = true
			return ""
		}
		s.l.want = nil
		if s.l.vm.Error == nil {
			for i := 0; s.l.vm.Branch != nil; i++ {
				if !s.big && (i > 750 || len(s.l.m.branches) > 12) {
					// too long a run (branches multiply); not judged
					s.dead = true
					return ""
				}
				done, e := s.l.step()
				if e != "" {
					return e
				}
				if s.l.vm.Error != nil || len(s.l.want) > 0 || done {
					break
				}
			}
		}
		r, evs, _, bad := s.c.call("continue", fmt.Sprintf(`{"threadId":%d}`, k))
		if bad != "" {
			return bad
		}
		if !r.Success {
			return "continue failed"
		}
		switch {
		case s.l.vm.Error != nil:
			s.failed = true
			return oneStop(evs, "exception", nil, true)
		case len(s.l.want) > 0:
			if m := oneStop(evs, "breakpoint", nil, true); m != "" {
				return m
			}
			ss, _ := stoppedEvents(evs)
			if ss[0].ThreadId == nil {
				return "stopped at a breakpoint of no thread"
			}
			tid := *ss[0].ThreadId
			hit := s.l.want[tid]
			if hit == nil {
				return fmt.Sprintf("stopped at a breakpoint of thread %d, which has not reached one", tid)
			}
			if s.l.want[k] != nil && tid != k {
				return fmt.Sprintf("stopped at a breakpoint of thread %d although the continued thread %d is at one", tid, k)
			}
			want := map[int]bool{}
			for _, b := range s.bps {
				if hit[b.line] {
					want[b.id] = true
				}
			}
			got := map[int]bool{}
			for _, x := range ss[0].HitBreakpointIds {
				got[x] = true
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Sprintf("stopped at breakpoints %v, want %v", got, want)
			}
		default:
			if m := oneStop(evs, "exit", nil, false); m != "" {
				return m
			}
		}
	case tok == "p":
		r, evs, _, bad := s.c.call("pause", `{"threadId":0}`)
		if bad != "" {
			return bad
		}
		if !r.Success {
			return "pause failed"
		}
		if s.l == nil {
			if ss, _ := stoppedEvents(evs); len(ss) > 0 {
				return "pause before launch reported a stop"
			}
			return ""
		}
		return oneStop(evs, "pause", s.cur(), false)
	case tok == "d":
		// other requests change nothing
		for _, c := range [][2]string{{"configurationDone", `{}`}, {"setExceptionBreakpoints", `{"filters":[]}`}, {"setFunctionBreakpoints", `{"breakpoints":[]}`}, {"setInstructionBreakpoints", `{"breakpoints":[]}`}, {"evaluate", `{"expression":"int 1","context":"hover"}`}, {"evaluate", `{"expression":"1","context":"repl","frameId":0}`}, {"no-such-command", `{}`}} {
			_, evs, _, bad := s.c.call(c[0], c[1])
			if bad != "" {
				return bad
			}
			if ss, _ := stoppedEvents(evs); len(ss) > 0 {
				return c[0] + " reported a stop"
			}
		}
	default:
		panic("unknown token " + tok)
	}
	return ""
}

type dapScopeMsg struct {
	Name               string `json:"name"`
	VariablesReference int    `json:"variablesReference"`
	IndexedVariables   *int   `json:"indexedVariables"`
}

type dapFrameMsg struct {
	Id     int    `json:"id"`
	Name   string `json:"name"`
	Line   int    `json:"line"`
	Column int    `json:"column"`
	Source *struct {
		Path string `json:"path"`
	} `json:"source"`
}

// inspect compares everything the adapter shows with the machine.
func (s *dapSession) inspect() string {
	r, bad := s.c.query("threads", "{}")
	if bad != "" {
		return bad
	}
	var ts struct {
		Threads []struct {
			Id   int    `json:"id"`
			Name string `json:"name"`
		} `json:"threads"`
	}
	if err := json.Unmarshal(r.Body, &ts); err != nil {
		return "unreadable threads: " + clipS(r.raw)
	}
	var got, want []string
	for _, t := range ts.Threads {
		got = append(got, strconv.Itoa(t.Id))
		if t.Name == "" {
			return fmt.Sprintf("thread %d has no name", t.Id)
		}
	}
	if s.l != nil {
		for _, b := range s.l.m.branches {
			want = append(want, strconv.Itoa(b.id))
		}
	}
	if m := diffStr("threads", sorted(got), sorted(want)); m != "" {
		return m
	}
	if s.l == nil {
		return s.noThread(0)
	}
	max := 0
	for _, b := range s.l.vm.Branches {
		if m := s.thread(b.Id); m != "" {
			return fmt.Sprintf("thread %d: %s", b.Id, m)
		}
		if b.Id > max {
			max = b.Id
		}
	}
	if s.level >= 2 {
		return s.noThread(max + 1)
	}
	return ""
}

// noThread: nothing is shown for a thread that does not exist.
func (s *dapSession) noThread(id int) string {
	for _, q := range []struct{ cmd, args, key string }{
		{"stackTrace", fmt.Sprintf(`{"threadId":%d}`, id), "stackFrames"},
		{"scopes", fmt.Sprintf(`{"frameId":%d}`, id), "scopes"},
	} {
		r, bad := s.c.query(q.cmd, q.args)
		if bad != "" {
			return bad
		}
		var b map[string]json.RawMessage
		json.Unmarshal(r.Body, &b)
		var l []any
		json.Unmarshal(b[q.key], &l)
		if len(l) > 0 {
			return fmt.Sprintf("%s shows something for thread %d, which does not exist: %s", q.cmd, id, clipS(r.raw))
		}
	}
	return ""
}

func (s *dapSession) thread(id int) string {
	mb := s.l.model(id)
	r, bad := s.c.query("stackTrace", fmt.Sprintf(`{"threadId":%d}`, id))
	if bad != "" {
		return bad
	}
	var tr struct {
		StackFrames []dapFrameMsg `json:"stackFrames"`
		TotalFrames *int          `json:"totalFrames"`
	}
	if err := json.Unmarshal(r.Body, &tr); err != nil {
		return "unreadable stack trace: " + clipS(r.raw)
	}
	frameID := id
	if len(tr.StackFrames) > 0 {
		frameID = tr.StackFrames[0].Id
	}
	if mb.line >= 0 {
		var got, want []string
		for _, f := range tr.StackFrames {
			got = append(got, fmt.Sprintf("%s:%d:%d", f.Name, f.Line, f.Column))
			if f.Source == nil || f.Source.Path != s.path {
				return "a frame is not in the debugged program: " + clipS(r.raw)
			}
		}
		line, name := mb.line, mb.name
		for i := len(mb.frames) - 1; i >= -1; i-- {
			want = append(want, fmt.Sprintf("%s:%d:%d", name, line+s.lz, s.cz))
			if i >= 0 {
				line, name = mb.frames[i].ret, mb.frames[i].name
			}
		}
		if m := diffStr("frames", got, want); m != "" {
			return m
		}
		if tr.TotalFrames != nil && *tr.TotalFrames != len(tr.StackFrames) {
			return fmt.Sprintf("%d frames in total, %d shown", *tr.TotalFrames, len(tr.StackFrames))
		}
	} else if len(tr.StackFrames) == 0 {
		return "a finished thread has no stack trace"
	}
	if s.level < 1 {
		return ""
	}
	r, bad = s.c.query("scopes", fmt.Sprintf(`{"frameId":%d}`, frameID))
	if bad != "" {
		return bad
	}
	var sc struct {
		Scopes []dapScopeMsg `json:"scopes"`
	}
	if err := json.Unmarshal(r.Body, &sc); err != nil {
		return "unreadable scopes: " + clipS(r.raw)
	}
	refs := map[string]dapScopeMsg{}
	for _, x := range sc.Scopes {
		if _, dup := refs[x.Name]; dup {
			return "two scopes named " + x.Name
		}
		refs[x.Name] = x
	}
	ib := s.implBranch(id)
	for _, n := range []string{"State", "Stack", "Scratch", "Trace"} {
		sc, ok := refs[n]
		if !ok {
			return "no scope " + n
		}
		if s.level < 2 && (n == "State" || n == "Trace") {
			continue
		}
		var names, vals []string // the whole list; Scratch has holes
		count := 0
		switch n {
		case "State":
			names, vals = []string{"Budget"}, []string{strconv.Itoa(ib.Budget)}
			count = 1
		case "Stack":
			for i, v := range ib.Stack.Items {
				names = append(names, strconv.Itoa(i))
				vals = append(vals, v.String())
			}
			count = len(names)
		case "Scratch":
			names, vals = make([]string, 256), make([]string, 256)
			for i, v := range ib.Scratch.Items {
				if _, set := mb.scratch[i]; set || typeByte(v.T) != '?' {
					names[i], vals[i] = strconv.Itoa(i), v.String()
				}
			}
			count = 256
		case "Trace":
			for i, o := range ib.Trace {
				names = append(names, strconv.Itoa(i))
				vals = append(vals, o.String())
			}
			count = len(names)
		}
		if sc.IndexedVariables != nil && n != "State" && *sc.IndexedVariables != count {
			return fmt.Sprintf("scope %s announces %d variables, has %d", n, *sc.IndexedVariables, count)
		}
		pages := []string{"- -"}
		if s.windows && n != "State" {
			pages = s.pages
		}
		for _, pg := range pages {
			var a, b string
			fmt.Sscan(pg, &a, &b)
			args := fmt.Sprintf(`{"variablesReference":%d`, sc.VariablesReference)
			lo, hi := 0, count
			if a != "-" {
				args += `,"start":` + a
				x, _ := strconv.Atoi(a)
				lo = min(x, count)
			}
			if b != "-" {
				args += `,"count":` + b
				if x, _ := strconv.Atoi(b); x > 0 && x < count-lo {
					hi = lo + x
				}
			}
			r, bad := s.c.query("variables", args+"}")
			if bad != "" {
				return bad
			}
			var vs struct {
				Variables []struct {
					Name  string `json:"name"`
					Value string `json:"value"`
				} `json:"variables"`
			}
			if err := json.Unmarshal(r.Body, &vs); err != nil {
				return "unreadable variables: " + clipS(r.raw)
			}
			var got, want []string
			for _, v := range vs.Variables {
				got = append(got, v.Name+"="+v.Value)
			}
			for i := lo; i < hi; i++ {
				if names[i] != "" {
					want = append(want, names[i]+"="+vals[i])
				}
			}
			if n == "Stack" {
				// listed from the top
				for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
					want[i], want[j] = want[j], want[i]
				}
			}
			if m := diffStr(fmt.Sprintf("scope %s (start %s, count %s)", n, a, b), got, want); m != "" {
				return m
			}
		}
	}
	return ""
}

func (s *dapSession) implBranch(id int) *vmBranch {
	for _, b := range s.l.vm.Branches {
		if b.Id == id {
			return b
		}
	}
	return nil
}

// case: "REQUEST REQUEST ...\nprogram" or "...\nprogram\x00second program"
func checkDap(level int, windows bool, pages []string) func(c string, st *Stats) string {
	return checkDapTo(level, windows, pages, false)
}

func checkDapTo(level int, windows bool, pages []string, big bool) func(c string, st *Stats) string {
	return func(c string, st *Stats) string {
		nl := strings.IndexByte(c, '\n')
		toks := strings.Fields(c[:nl])
		s := &dapSession{c: newDap(st), st: st, level: level, windows: windows, pages: pages, big: big}
		defer s.c.stop()
		s.srcs = strings.Split(c[nl+1:], "\x00")
		if len(s.srcs) == 1 {
			s.srcs = append(s.srcs, "int 7\nint 8\n")
		}
		for _, x := range s.srcs {
			s.refs = append(s.refs, refAnalyze(x))
		}
		steps := toks
		auto := ""
		if strings.HasPrefix(toks[len(toks)-1], "*") {
			// a policy for the rest of the run
			auto = toks[len(toks)-1][1:]
			steps = toks[:len(toks)-1]
		}
		n := 0
		one := func(t string) string {
			n++
			if m := s.do(t); m != "" {
				return fmt.Sprintf("request %d (%s): %s", n, t, m)
			}
			if s.dead {
				return ""
			}
			if m := s.inspect(); m != "" {
				return fmt.Sprintf("after request %d (%s): %s", n, t, m)
			}
			if s.l != nil {
				var o []string
				for _, b := range s.l.m.branches {
					o = append(o, b.canon())
				}
				st.State(strings.Join(o, "|") + fmt.Sprint(s.bps, s.lz, s.cz, s.failed))
			} else {
				st.State(fmt.Sprint(s.bps, s.lz, s.cz))
			}
			return ""
		}
		for _, t := range steps {
			if m := one(t); m != "" {
				return m
			}
			if s.dead {
				return ""
			}
		}
		if auto != "" {
			limit, _ := strconv.Atoi(auto[1:])
			last := -1
			for i := 0; i < limit && s.l.anyLive(); i++ {
				var ids []int
				for _, b := range s.l.m.branches {
					if b.live() {
						ids = append(ids, b.id)
					}
				}
				sort.Ints(ids)
				k := ids[0]
				switch auto[0] {
				case 'l': // newest
					k = ids[len(ids)-1]
				case 'r': // the next one after the last stepped
					for _, x := range ids {
						if x > last {
							k = x
							break
						}
					}
				case 'c':
					if s.failed {
						return s.c.end()
					}
					if m := one("c" + strconv.Itoa(k)); m != "" {
						return m
					}
					if s.dead {
						return ""
					}
					continue
				}
				last = k
				if m := one("n" + strconv.Itoa(k)); m != "" {
					return m
				}
				if s.dead {
					return ""
				}
			}
		}
		return s.c.end()
	}
}

var dbgPrograms = []string{
	"#pragma version 8\nint 1\nbz a\nint 2\npop\na:\nint 3\n",
	"int 1\nbz a\nint 2\nbnz a\nbyte 0x01\na:\n\nint 3\nint 1\nreturn\n",
	"callsub f\nint 1\nreturn\nf:\n// x\ncallsub g\nint 2\nretsub\ng:\nint 3\nretsub\n",
	"int 1\nswitch x y\nx:\nint 5\n\n// c\ny:\nint 6\nint 7\n",
	"int 1\npop\npop\nint 2\n",
	"a:\nint 5\nstore 3\nload 3\nbyte \"x\"\nstore 255\n",
	"int 1\nbz a\ncallsub f\nb e\na:\npop\ne:\nint 9\nreturn\nf:\nint 4\nretsub\n",
	"",
}

func init() {
	register(&Prop{ID: "D02", Spaces: func(tier string) []Space {
		check := checkDap(1, false, nil)
		frags := []string{"int 1", "byte 0x01", "store 0", "load 1", "callsub f", "retsub", "int 1\nbz g", "dup", "pop", "b g", "int 1\nint 1\nint 1\nmatch f g"}
		if tier == "quick" {
			frags = []string{"int 1", "store 0", "byte 0x01", "callsub f", "retsub", "int 1\nbz g", "dup"}
		}
		n := pick(tier, 3, 4)
		dims := []int{3, n + 1, n + 1}
		for i := 0; i < n; i++ {
			dims = append(dims, len(frags))
		}
		pol := []string{"*f8", "*l8", "*r8"}
		progs := prodSpace("programs", fmt.Sprintf("programs of %d fragments with two labels everywhere, stepped through oldest, newest or alternating branch, everything inspected after each step", n), dims, func(ix []int) string {
			var o []string
			for _, x := range ix[3:] {
				o = append(o, frags[x])
			}
			return "i-- L " + pol[ix[0]] + "\n" + withLabels(o, map[string]int{"f": ix[1], "g": ix[2]})
		}, check)
		var bases []string
		for _, i := range []string{"", "i00 ", "i01 ", "i10 ", "i11 ", "i-- ", "i0- ", "i-0 ", "i11 i00 "} {
			for _, p := range dbgPrograms {
				for _, a := range []string{"*f40", "*l40", "*r40"} {
					bases = append(bases, i+"L "+a+"\n"+p)
				}
				for _, j := range []string{"i00", "i11", "i01", "i10"} {
					bases = append(bases, i+"L n0 n0 "+j+" *r40\n"+p)
				}
			}
		}
		var vals []string
		for _, v := range []string{"-", "0", "1", "2", "3", "4", "5", "6", "7", "254", "255", "256", "257", "2147483647", "9223372036854775807"} {
			vals = append(vals, v)
		}
		var pages []string
		for _, a := range vals {
			for _, b := range vals {
				pages = append(pages, a+" "+b)
			}
		}
		var pg []string
		for _, p := range []string{
			"int 1\nbyte 0x02\nint 3\naddr 737777777777777777777777777777777777777777777777777UFEJ2CI\ntxn Sender\n",
			"int 1\nstore 0\nint 2\nstore 1\nbyte \"s\"\nstore 4\nint 3\nstore 254\nint 4\nstore 255\n",
			"int 1\nbz a\nint 5\nstore 2\na:\nbyte 0x05\nint 6\nstore 3\n",
			"int 0\nint 1\nstores\nint 1\nloads\ndup\ndup2\n",
		} {
			for k := 0; k <= 10; k++ {
				pg = append(pg, "i-- L"+strings.Repeat(" n0", k)+"\n"+p)
			}
			pg = append(pg, "i-- L n0 n0 n1 n0 n1 n1\n"+p)
		}
		alpha := []string{"L", "n0", "n1", "n2", "c0", "B", "B2,5", "i00", "p", "M", "d"}
		var hist []Space
		for k, p := range dbgPrograms {
			if tier == "quick" && k > 2 {
				break
			}
			hist = append(hist, mapSpace(seqSpace(fmt.Sprintf("histories %d", k), "every history of requests on a fixed program, everything inspected after each", alpha, 1, pick(tier, 4, 5), " ", check), func(c string) string {
				return "i-- L " + c + "\n" + p
			}))
		}
		sp := []Space{
			listSpace("bases", "line and column bases before and during the run", bases, checkDap(2, false, nil)),
			listSpace("paging", "every pair of start and count on stacks, scratch and traces of every fill", pg, checkDap(2, true, pages)),
		}
		var deep []string
		for _, p := range []string{"f:\ncallsub f\n", "f:\ncallsub g\ng:\nint 1\nbz f\ncallsub f\n", "callsub f\nf:\ncallsub g\nretsub\ng:\ncallsub h\nretsub\nh:\nint 1\nretsub\n"} {
			for _, i := range []string{"", "i00 "} {
				for k := 1; k <= pick(tier, 70, 300); k += 3 {
					deep = append(deep, fmt.Sprintf("%sL *f%d\n%s", i, k, p))
				}
			}
		}
		var far []string
		for _, n := range farLines {
			for k := 0; k < 4; k++ {
				far = append(far, []string{"", "i00 "}[n%2]+"L *r9\n"+strings.Repeat("\n", n)+dbgPrograms[k])
			}
		}
		var many []string
		for n := 0; n <= pick(tier, 70, 300); n++ {
			for k, i := range []string{"", "i00 "} {
				if k == n%2 || tier == "thorough" {
					many = append(many, i+"L c0\n"+strings.Repeat("int 1\nbz x\n", n)+"int 2\nx:\nerr\n", i+"L n0 n1\nint 1\nswitch"+strings.Repeat(" x", n)+"\nint 2\nx:\nint 3\n")
				}
			}
		}
		for _, n := range []int{127, 128, 129, 254, 255, 256, 257, 258, 300, 513, 1030, 6560} {
			many = append(many, "L n0 n"+strconv.Itoa(n/2)+"\nint 1\nswitch"+strings.Repeat(" x", n)+"\nint 2\nx:\nint 3\n", "L n0 c0\nint 1\nswitch"+strings.Repeat(" x", n)+"\nint 2\nx:\nint 3\n")
			if n < 340 {
				many = append(many, "L c0\n"+strings.Repeat("int 1\nbz x\n", n)+"int 2\nx:\nint 3\nerr\n")
			}
		}
		var long []string
		for n := 0; n <= pick(tier, 300, 720); n++ {
			long = append(long, "L c0\n"+strings.Repeat("int 1\n", n)+"err\n")
		}
		for n := 300; n <= 710; n += 10 {
			long = append(long, "L c0\n"+strings.Repeat("int 1\nbyte 0x01\npop\n", n/3)+"err\n")
		}
		for n := 0; n <= pick(tier, 20, 100); n++ {
			long = append(long, "L c0\nint 1\n"+strings.Repeat("byte 0x01\ndupn 255\n", n)+"err\n")
		}
		sp = append(sp, listSpace("many", "many branches", many, checkDapTo(2, false, nil, true)), listSpace("long", "long stacks and traces", long, checkDap(2, false, nil)))
		sp = append(sp, hist...)
		sp = append(sp, listSpace("deep", "deep calls", deep, checkDap(2, false, nil)), listSpace("far", "programs far down their text", far, check))
		return append(sp, progs)
	}})

	register(&Prop{ID: "D03", Spaces: func(tier string) []Space {
		check := checkDap(0, false, nil)
		alpha := []string{"L", "n0", "n1", "c0", "c1", "B", "B0,1,2,3,4,5,6,7,8,9,10,11", "B3", "B6,2", "p", "i00", "d", "N", "M"}
		var sp []Space
		for k, p := range dbgPrograms {
			sp = append(sp, mapSpace(seqSpace(fmt.Sprintf("histories %d", k), "every history of requests on a fixed program, before and after launch", alpha, 1, pick(tier, 3, 4), " ", check), func(c string) string {
				return c + "\n" + p
			}))
			if tier == "thorough" || k < 3 {
				sp = append(sp, mapSpace(seqSpace(fmt.Sprintf("launched %d", k), "every history of run control after launch", []string{"n0", "n1", "n2", "c0", "c1", "B", "B2,3,5,7,9", "B6", "p"}, pick(tier, 4, 5), pick(tier, 4, 6), " ", check), func(c string) string {
					return "i-- B1,4 L " + c + "\n" + p
				}))
			}
		}
		// every set of lines, set before or after the launch or at the first stop, then run to the end
		when := []string{"B# L", "L B#", "L n0 B#", "B0,1,2,3,4,5 L c0 B#", "L B# B#", "B# B L B#", "B0,1,2,3,4,5 L B#", "B# L L", "B# M L", "B# i00 L", "i00 B# i11 L", "B# N L", "B# d L", "B# L d", "L n0 B# d"}
		sub := prodSpace("breakpoint sets", "every set of breakpoint lines, also outside the program, set at every time, continued to the end", []int{len(when), len(dbgPrograms), pick(tier, 1<<8, 1<<12)}, func(ix []int) string {
			var l []string
			for i := 0; i < 12; i++ {
				if ix[2]&(1<<i) != 0 {
					l = append(l, strconv.Itoa(i-1))
				}
			}
			if tier == "quick" {
				l = nil
				for i := 0; i < 8; i++ {
					if ix[2]&(1<<i) != 0 {
						l = append(l, strconv.Itoa([]int{0, 1, 2, 3, 5, 6, 7, 9}[i]))
					}
				}
			}
			return strings.ReplaceAll("i-- "+when[ix[0]], "B#", "B"+strings.Join(l, ",")) + " *c20\n" + dbgPrograms[ix[1]]
		}, check)
		odd := []string{"B1,1", "B5,3,1", "B3,3,3,1", "B-1", "B-2,0", "B99", "B2147483647", "B-2147483648,2", "B0,99,1,-5"}
		var oddc []string
		for _, p := range dbgPrograms {
			for _, o := range odd {
				for _, w := range when {
					for _, b := range []string{"", "i00 ", "i-- "} {
						oddc = append(oddc, b+strings.ReplaceAll(w, "B#", o)+" *c20\n"+p)
					}
				}
			}
		}
		frags := []string{"int 1", "int 1\nbz a", "int 1\nbnz b", "b a", "callsub b", "retsub", "err", "int 1\nint 1\nint 1\nmatch a b", "// c", "pop"}
		n := pick(tier, 3, 4)
		masks := []string{"B", "B0,1,2,3,4,5,6,7,8,9,10,11,12", "B3"}
		if tier == "thorough" {
			masks = append(masks, "B0,2,4,6,8,10", "B1,3,5,7,9", "B2", "B4", "B1", "B5", "B6", "B0")
		}
		dims := []int{len(masks), n + 1, n + 1}
		for i := 0; i < n; i++ {
			dims = append(dims, len(frags))
		}
		progs := prodSpace("programs", fmt.Sprintf("programs of %d fragments with two labels everywhere, breakpoints on none, all, every second or single lines, continued to the end", n), dims, func(ix []int) string {
			var o []string
			for _, x := range ix[3:] {
				o = append(o, frags[x])
			}
			return "i-- " + masks[ix[0]] + " L *c6\n" + withLabels(o, map[string]int{"a": ix[1], "b": ix[2]})
		}, check)
		threads := prodSpace("threads", "every choice of the next thread", []int{len(dbgPrograms), 1 << (2 * pick(tier, 5, 8))}, func(ix []int) string {
			t := []string{"i-- L"}
			for i, x := 0, ix[1]; i < pick(tier, 5, 8); i, x = i+1, x>>2 {
				t = append(t, "n"+strconv.Itoa(x&3))
			}
			return strings.Join(t, " ") + "\n" + dbgPrograms[ix[0]]
		}, check)
		var far []string
		for _, n := range farLines {
			for k := 0; k < 4; k++ {
				far = append(far, fmt.Sprintf("i00 B%d,%d,%d L B%d,%d,%d,%d *c9\n", n, n+1, n+3, n-1, n+1, n+2, n+5)+strings.Repeat("\n", n)+dbgPrograms[k], fmt.Sprintf("B%d,%d L *c9\n", n+1, n+6)+strings.Repeat("//\n", n)+dbgPrograms[k])
			}
		}
		var many []string
		for n := 0; n <= pick(tier, 140, 400); n++ {
			if n > 80 && tier == "quick" && n%16 > 1 && n%16 < 15 {
				continue
			}
			var l []string
			for i := n; i >= 0; i-- {
				l = append(l, strconv.Itoa(i))
			}
			many = append(many, "i00 B"+strings.Join(l, ",")+" L *c450\n"+strings.Repeat("int 1\n", n), "i00 L B"+strings.Join(l, ",")+" *c450\nint 1\nbz x\n"+strings.Repeat("int 1\n", n/4)+"x:\n"+strings.Repeat("int 1\n", n/4))
		}
		var wide []string
		for n := 0; n <= pick(tier, 40, 150); n++ {
			for _, b := range []string{"B3", "B4,5", "B3,4,5", "B5 n0 c1 B3", "B3 c0 c9 B"} {
				wide = append(wide, "i00 L "+b+" *c60\nint 1\nswitch"+strings.Repeat(" x", n)+"\nint 2\nx:\nint 3\nint 4\n")
			}
		}
		var long []string
		for _, n := range longRuns {
			for _, b := range []string{"B", fmt.Sprintf("B%d", strings.Count(longRun(n), "\n")-1)} {
				long = append(long, "i-- "+b+" L *c3\n"+longRun(n))
			}
		}
		sp = append(sp, listSpace("long runs", "runs of up to 100000 instructions", long, checkDapTo(0, false, nil, true)))
		sp = append(sp, listSpace("wide", "breakpoints reached by many branches", wide, checkDapTo(0, false, nil, true)))
		sp = append(sp, listSpace("many", "many breakpoints", many, check))
		sp = append(sp, listSpace("far", "programs far down their text", far, check))
		sp = append(sp, sub, listSpace("odd breakpoints", "repeated, unordered and out-of-range breakpoint lines", oddc, check), threads, progs)
		return sp
	}})
}
