package main

// Reference model of the abstract virtual machine, and its lock-step conformance driver.

import (
	_ "embed"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/dragmz/teal"
)

//go:embed effects.txt
var effectsTxt string

type effect struct {
	args, rets string
	cost       int
}

var effTab = map[string]effect{}

func init() {
	for _, l := range strings.Split(strings.TrimSpace(effectsTxt), "\n") {
		f := strings.Fields(l)
		e := effect{args: strings.Trim(f[1], "-"), rets: strings.Trim(f[2], "-")}
		if f[1] == "-" {
			e.args = ""
		}
		if f[2] == "-" {
			e.rets = ""
		}
		e.cost, _ = strconv.Atoi(f[3])
		effTab[f[0]] = e
	}
}

// mVal is an abstract value: a type and, where the machine is to track it, its identity.
type mVal struct {
	t   byte   // 'U', 'B', '.'
	id  string // display of the constant it came from; "" = not compared
	len int    // length of the constant, -1 unknown
	num int64  // value of the integer constant, -1 unknown
}

func anyVal(t byte) mVal { return mVal{t: t, len: -1, num: -1} }

type mFrame struct {
	ret, p int
	proto  bool
	a, r   int
	name   string
}

type mBranch struct {
	id      int // implementation's id, -1 until matched
	line    int
	stack   []mVal
	scratch map[int]mVal
	frames  []mFrame
	budget  int
	trace   []int
	name    string
	failed  bool // stopped by an error; no longer compared
}

type mVM struct {
	ops      []rOp
	version  uint64
	syms     map[string]int
	branches []*mBranch
}

func (o rOp) nop() bool { return o.kind != "op" }

func newModel(r *rRes) *mVM {
	m := &mVM{ops: r.listing, version: r.version, syms: map[string]int{}}
	for i, o := range r.listing {
		if o.kind == "label" {
			m.syms[o.name] = i
		}
	}
	b := &mBranch{id: 0, budget: 700, name: teal.MainName, scratch: map[int]mVal{}}
	m.settle(b)
	m.branches = []*mBranch{b}
	return m
}

// settle moves a branch over lines that hold no instruction.
func (m *mVM) settle(b *mBranch) {
	for b.line >= 0 && b.line < len(m.ops) && m.ops[b.line].nop() {
		if m.ops[b.line].kind == "label" {
			b.name = m.ops[b.line].name
		}
		b.line++
	}
	if b.line < 0 || b.line >= len(m.ops) {
		b.line = -1
	}
}

func (m *mVM) find(l string) int {
	if i, ok := m.syms[l]; ok {
		return i
	}
	return -1
}

func (b *mBranch) live() bool { return b.line >= 0 && !b.failed }

func (b *mBranch) clone() *mBranch {
	c := *b
	c.id = -1
	c.stack = append([]mVal{}, b.stack...)
	c.frames = append([]mFrame{}, b.frames...)
	c.trace = append([]int{}, b.trace...)
	c.scratch = make(map[int]mVal, len(b.scratch))
	for k, v := range b.scratch {
		c.scratch[k] = v
	}
	return &c
}

var displayCache sync.Map

// display is how the machine shows the constant pushed by a one-line program.
func display(line string) string {
	if v, ok := displayCache.Load(line); ok {
		return v.(string)
	}
	vm := teal.NewVm(teal.Process("#pragma version 8\n" + line))
	vm.Step()
	s := ""
	if vm.Error == nil && len(vm.Branches) == 1 && len(vm.Branches[0].Stack.Items) == 1 {
		s = vm.Branches[0].Stack.Items[0].String()
	}
	displayCache.Store(line, s)
	return s
}

func (m *mVM) cost(b *mBranch, o rOp) int {
	c := effTab[o.name].cost
	pickCost := func(vals ...int) int {
		i, _ := strconv.Atoi(o.vals[0])
		if i < len(vals) {
			return vals[i]
		}
		return 1
	}
	byVersion := func(v1, later int) int {
		if m.version == 1 {
			return v1
		}
		return later
	}
	top := func(i int) int {
		if len(b.stack) > i {
			return b.stack[len(b.stack)-1-i].len
		}
		return -1
	}
	switch o.name {
	case "sha256":
		return byVersion(7, 35)
	case "keccak256":
		return byVersion(26, 130)
	case "sha512_256":
		return byVersion(9, 45)
	case "ecdsa_verify":
		return pickCost(1700, 2500)
	case "ecdsa_pk_decompress":
		return pickCost(650, 2400)
	case "ec_add":
		return pickCost(10, 10, 20, 20)
	case "ec_scalar_mul", "ec_multi_exp", "ec_subgroup_check", "ec_map_to":
		return pickCost(100, 100, 200, 200)
	case "ec_pairing_check":
		return pickCost(1000, 1000, 2000, 2000)
	case "base64_decode":
		if l := top(0); l >= 0 {
			return 1 + (l+15)/16
		}
		return 1
	case "json_ref":
		if l := top(1); l >= 0 {
			return 25 + 2*((l+6)/7)
		}
		return 1
	}
	return c
}

type vmBranch = teal.VmBranch

type vmFail string

// step executes one instruction of b. Returns new branches, whether it ran, and an error text.
func (m *mVM) step(b *mBranch) (forks []*mBranch, ran bool, fail string) {
	o := m.ops[b.line]
	c := m.cost(b, o)
	if b.budget < c {
		b.line = -1
		return nil, false, ""
	}
	defer func() {
		if e := recover(); e != nil {
			f, ok := e.(vmFail)
			if !ok {
				panic(e)
			}
			fail = string(f)
			b.failed = true
			forks = nil
		}
	}()
	b.budget -= c
	b.trace = append(b.trace, b.line)
	ran = true

	pop := func(t byte) mVal {
		if len(b.stack) == 0 {
			panic(vmFail("empty stack"))
		}
		v := b.stack[len(b.stack)-1]
		if t != '.' && v.t != '.' && v.t != t {
			panic(vmFail("wrong type"))
		}
		b.stack = b.stack[:len(b.stack)-1]
		return v
	}
	push := func(v mVal) { b.stack = append(b.stack, v) }
	num := func(i int) int { n, _ := strconv.Atoi(o.vals[i]); return n }
	slot := func(i int) int {
		if i < 0 || i >= len(b.stack) {
			panic(vmFail("no such stack slot"))
		}
		return i
	}
	fork := func(l string) {
		n := b.clone()
		n.line = m.find(l)
		n.name = l
		m.settle(n)
		forks = append(forks, n)
	}
	constInt := func(s string) mVal {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			n = 1 << 40 // beyond any index
		}
		return mVal{t: 'U', id: display("int " + s), len: 0, num: n}
	}
	constBytes := func(h string) mVal {
		return mVal{t: 'B', id: display("byte " + h), len: (len(h) - 2) / 2, num: -1}
	}
	next := b.line + 1

	switch o.name {
	case "int":
		push(constInt(o.vals[0]))
	case "byte", "pushbytes":
		push(constBytes(o.vals[0]))
	case "pushbytess":
		for _, v := range o.vals {
			push(constBytes(v))
		}
	case "pushints":
		for range o.vals {
			push(anyVal('U'))
		}
	case "method":
		push(mVal{t: 'B', len: 4, num: -1})
	case "load":
		v, ok := b.scratch[num(0)]
		if !ok {
			v = anyVal('.')
		}
		push(mVal{t: '.', id: v.id, len: v.len, num: -1})
	case "store":
		v := pop('.')
		b.scratch[num(0)] = v
	case "stores":
		v := pop('.')
		i := pop('U')
		if i.num >= 0 {
			if i.num > 255 {
				panic(vmFail("no such scratch slot"))
			}
			b.scratch[int(i.num)] = v
		}
	case "pop":
		pop('.')
	case "popn":
		for i := 0; i < num(0); i++ {
			pop('.')
		}
	case "dup":
		v := pop('.')
		push(v)
		push(v)
	case "dup2":
		y, x := pop('.'), pop('.')
		push(x)
		push(y)
		push(x)
		push(y)
	case "dupn":
		v := pop('.')
		for i := 0; i <= num(0); i++ {
			push(v)
		}
	case "swap":
		y, x := pop('.'), pop('.')
		push(y)
		push(x)
	case "dig":
		push(b.stack[slot(len(b.stack)-1-num(0))])
	case "bury":
		v := pop('.')
		b.stack[slot(len(b.stack)-num(0))] = v
	case "cover":
		n := num(0)
		slot(len(b.stack) - 1 - n)
		v := pop('.')
		at := len(b.stack) - n
		b.stack = append(b.stack[:at], append([]mVal{v}, b.stack[at:]...)...)
	case "uncover":
		n := num(0)
		at := slot(len(b.stack) - 1 - n)
		v := b.stack[at]
		b.stack = append(append([]mVal{}, b.stack[:at]...), b.stack[at+1:]...)
		push(v)
	case "frame_dig", "frame_bury":
		if len(b.frames) == 0 {
			panic(vmFail("no frame"))
		}
		f := b.frames[len(b.frames)-1]
		if o.name == "frame_dig" {
			push(b.stack[slot(f.p+num(0))])
		} else {
			v := pop('.')
			b.stack[slot(f.p+num(0))] = v
		}
	case "proto":
		if len(b.frames) == 0 {
			panic(vmFail("no frame"))
		}
		f := &b.frames[len(b.frames)-1]
		if f.p < num(0) {
			panic(vmFail("too few values"))
		}
		f.proto, f.a, f.r = true, num(0), num(1)
	case "callsub":
		b.frames = append(b.frames, mFrame{ret: b.line, p: len(b.stack), name: b.name})
		next = m.find(o.labels[0])
	case "retsub":
		if n := len(b.frames); n > 0 {
			f := b.frames[n-1]
			if f.proto {
				top := len(b.stack) - f.r
				if top < f.p {
					panic(vmFail("too few results"))
				}
				b.stack = append(append([]mVal{}, b.stack[:f.p-f.a]...), b.stack[top:]...)
			}
			next = f.ret + 1
			b.name = f.name
			b.frames = append([]mFrame{}, b.frames[:n-1]...)
		}
	case "b":
		next = m.find(o.labels[0])
	case "bz", "bnz":
		pop('U')
		fork(o.labels[0])
	case "switch":
		pop('U')
		for _, l := range o.labels {
			fork(l)
		}
	case "match":
		for range o.labels {
			pop('.')
		}
		pop('.')
		for _, l := range o.labels {
			fork(l)
		}
	case "err":
		next = -1
	case "return":
		pop('U')
		next = -1
	default:
		e, ok := effTab[o.name]
		if !ok {
			panic("no effect for " + o.name)
		}
		ret := e.rets
		ft := byte(0)
		for i, im := range opTab[o.name].imm {
			if im.optional {
				break
			}
			if isFieldKind(im.kind) && strings.Contains(ret, ".") {
				switch g := fieldGroup(im.kind); g {
				case "txn", "global", "asset", "holding", "app", "acct", "block":
					for _, f := range fieldTab[g] {
						if f.num == num(i) {
							ft = strings.ToUpper(f.typ)[0]
						}
					}
					if ft == 0 {
						panic(vmFail("unknown field"))
					}
				}
			}
		}
		for i := len(e.args) - 1; i >= 0; i-- {
			pop(e.args[i])
		}
		for i := range ret {
			t := ret[i]
			if t == '.' && ft != 0 && i == 0 {
				t = ft
			}
			push(anyVal(t))
		}
	}
	b.line = next
	m.settle(b)
	return forks, ran, ""
}

// ---- comparison ----

func typeByte(t teal.VmDataType) byte {
	switch t {
	case teal.VmTypeAny:
		return '.'
	case teal.VmTypeUint64:
		return 'U'
	case teal.VmTypeBytes:
		return 'B'
	}
	return '?'
}

func implLine(vm *teal.Vm, b *teal.VmBranch) int {
	if b.Line < 0 || b.Line >= len(vm.Process.Listing) {
		return -1
	}
	return b.Line
}

type vmAspects struct{ stack, frames, budget, trace, name bool }

var allAspects = vmAspects{true, true, true, true, true}

func cmpBranch(vm *teal.Vm, ib *teal.VmBranch, mb *mBranch, as vmAspects) string {
	if l := implLine(vm, ib); l != mb.line {
		return fmt.Sprintf("branch %d is at line %d, want %d", ib.Id, l, mb.line)
	}
	if as.stack {
		if len(ib.Stack.Items) != len(mb.stack) {
			return fmt.Sprintf("branch %d stack has %d values %v, want %s", ib.Id, len(ib.Stack.Items), ib.Stack.Items, showStack(mb.stack))
		}
		for i, v := range ib.Stack.Items {
			w := mb.stack[i]
			if typeByte(v.T) != w.t || (w.id != "" && !strings.HasSuffix(v.String(), w.id)) {
				return fmt.Sprintf("branch %d stack slot %d is %s, want %s (stack %v, want %s)", ib.Id, i, v, showStack([]mVal{w}), ib.Stack.Items, showStack(mb.stack))
			}
		}
	}
	if as.budget && ib.Budget != mb.budget {
		return fmt.Sprintf("branch %d has budget %d, want %d", ib.Id, ib.Budget, mb.budget)
	}
	if as.frames {
		if len(ib.Frames) != len(mb.frames) {
			return fmt.Sprintf("branch %d has %d frames, want %d", ib.Id, len(ib.Frames), len(mb.frames))
		}
		for i, f := range ib.Frames {
			w := mb.frames[i]
			if f.Return != w.ret || int(f.NumArgs) != w.a || int(f.NumReturns) != w.r {
				return fmt.Sprintf("branch %d frame %d is {%d %d %d}, want %v", ib.Id, i, f.Return, f.NumArgs, f.NumReturns, w)
			}
		}
	}
	if as.trace {
		if len(ib.Trace) != len(mb.trace) {
			return fmt.Sprintf("branch %d traced %d instructions, want %d", ib.Id, len(ib.Trace), len(mb.trace))
		}
		for i, o := range ib.Trace {
			if w := vm.Process.Listing[mb.trace[i]]; o != w && o.String() != w.String() {
				return fmt.Sprintf("branch %d trace entry %d is %q, want %q", ib.Id, i, o.String(), w.String())
			}
		}
	}
	if as.name && mb.line >= 0 && ib.Name != mb.name {
		return fmt.Sprintf("branch %d is named %q, want %q", ib.Id, ib.Name, mb.name)
	}
	return ""
}

func showStack(s []mVal) string {
	var r []string
	for _, v := range s {
		r = append(r, string(v.t)+":"+v.id)
	}
	return "[" + strings.Join(r, " ") + "]"
}

func (b *mBranch) canon() string {
	var s strings.Builder
	fmt.Fprintf(&s, "%d %s %d %v", b.line, showStack(b.stack), b.budget, b.failed)
	for _, f := range b.frames {
		fmt.Fprintf(&s, " f%d/%d/%d/%d", f.ret, f.p, f.a, f.r)
	}
	var ks []int
	for k := range b.scratch {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		fmt.Fprintf(&s, " s%d=%s", k, b.scratch[k].id)
	}
	return s.String()
}

// lockstep couples a machine with its model.
type lockstep struct {
	vm  *teal.Vm
	m   *mVM
	as  vmAspects
	st  *Stats
	bps map[int]bool
	by  map[int]*mBranch
	// full compares every branch after each step, otherwise only those the step touched (all at the end)
	full bool
	// result of the last step
	want map[int]map[int]bool // expected breakpoint hits
}

func newLockstep(src string, as vmAspects, st *Stats) *lockstep {
	return newLockstepR(src, refAnalyze(src), as, st)
}

func newLockstepR(src string, r *rRes, as vmAspects, st *Stats) *lockstep {
	l := &lockstep{vm: teal.NewVm(teal.Process(src)), m: newModel(r), as: as, st: st, full: true}
	l.by = map[int]*mBranch{0: l.m.branches[0]}
	if len(l.vm.Branches) > 0 {
		id := l.vm.Branches[0].Id
		l.m.branches[0].id = id
		l.by = map[int]*mBranch{id: l.m.branches[0]}
	}
	return l
}

func (l *lockstep) setBudget(n int) {
	l.vm.Branches[0].Budget = n
	l.m.branches[0].budget = n
}

func (l *lockstep) model(id int) *mBranch { return l.by[id] }

func (l *lockstep) anyLive() bool {
	for _, b := range l.m.branches {
		if b.live() {
			return true
		}
	}
	return false
}

// cmpAll compares every branch with its model, matching new branches by state.
func (l *lockstep) cmpAll() string { return l.cmpSome(nil, true) }

func (l *lockstep) cmpSome(ran *mBranch, all bool) string {
	if len(l.vm.Branches) != len(l.m.branches) {
		return fmt.Sprintf("%d branches, want %d", len(l.vm.Branches), len(l.m.branches))
	}
	var seen map[int]bool
	if all {
		seen = make(map[int]bool, len(l.vm.Branches))
	}
	for _, ib := range l.vm.Branches {
		if all {
			if seen[ib.Id] {
				return fmt.Sprintf("branch id %d is not unique", ib.Id)
			}
			seen[ib.Id] = true
		}
		mb := l.model(ib.Id)
		if mb == nil {
			msg := ""
			for i := len(l.m.branches) - 1; i >= 0; i-- {
				if l.m.branches[i].id != -1 {
					break
				}
				if i > 0 && l.m.branches[i-1].id == -1 {
					continue
				}
				// first unmatched one; try all from here
				for _, c := range l.m.branches[i:] {
					if c.id != -1 {
						continue
					}
					e := cmpBranch(l.vm, ib, c, l.as)
					if e == "" {
						mb = c
						mb.id = ib.Id
						l.by[ib.Id] = mb
						break
					}
					if msg == "" {
						msg = e
					}
				}
				break
			}
			if mb == nil {
				// ids may be matched out of order
				for _, c := range l.m.branches {
					if c.id == -1 && cmpBranch(l.vm, ib, c, l.as) == "" {
						mb = c
						mb.id = ib.Id
						l.by[ib.Id] = mb
						break
					}
				}
			}
			if mb == nil {
				if msg == "" {
					msg = "no such branch in the model"
				}
				return "new branch: " + msg
			}
			continue
		}
		if mb.failed || (!all && mb != ran) {
			continue
		}
		if e := cmpBranch(l.vm, ib, mb, l.as); e != "" {
			return e
		}
	}
	return ""
}

// step performs one Step. done reports that nothing was left to execute.
func (l *lockstep) step() (done bool, msg string) {
	n0 := len(l.vm.Branches)
	type pre struct{ id, trace, line int }
	var pres []pre
	var cur *mBranch
	if l.vm.Branch != nil {
		cur = l.model(l.vm.Branch.Id)
	}
	curLive := cur != nil && cur.live()
	scan := l.full || !curLive
	if scan {
		pres = make([]pre, n0)
		for i, b := range l.vm.Branches {
			pres[i] = pre{b.Id, len(b.Trace), implLine(l.vm, b)}
		}
	}
	live := curLive || l.anyLive()
	l.vm.Step()
	l.st.Step(1)
	l.want = map[int]map[int]bool{}
	if !live {
		if l.vm.Error != nil {
			return true, fmt.Sprintf("step of a finished machine failed: %v", l.vm.Error)
		}
		if l.vm.Branch != nil {
			return true, "machine not finished although every branch has ended"
		}
		return true, l.cmpAll()
	}
	// which branch was executed?
	ran := cur
	if scan {
		ran = nil
		find := func(changed func(p pre, b *teal.VmBranch) bool) string {
			for i, p := range pres {
				var b *teal.VmBranch
				if i < len(l.vm.Branches) && l.vm.Branches[i].Id == p.id {
					b = l.vm.Branches[i]
				} else {
					for _, x := range l.vm.Branches {
						if x.Id == p.id {
							b = x
						}
					}
				}
				if b == nil {
					return fmt.Sprintf("branch %d vanished", p.id)
				}
				if changed(p, b) {
					if ran != nil {
						return "one step advanced two branches"
					}
					ran = l.model(b.Id)
				}
			}
			return ""
		}
		if e := find(func(p pre, b *teal.VmBranch) bool { return len(b.Trace) != p.trace }); e != "" {
			return true, e
		}
		if ran == nil {
			if e := find(func(p pre, b *teal.VmBranch) bool { return implLine(l.vm, b) != p.line }); e != "" {
				return true, e
			}
		}
		if curLive {
			if ran != nil && ran != cur {
				return true, fmt.Sprintf("the step of branch %d advanced branch %d", cur.id, ran.id)
			}
			ran = cur
		}
	}
	if ran == nil {
		return true, "a step executed nothing although a branch is live"
	}
	if !ran.live() {
		return true, fmt.Sprintf("branch %d advanced after its end", ran.id)
	}
	at := ran.line
	forks, _, fail := l.m.step(ran)
	if fail != "" {
		if l.vm.Error == nil {
			return true, fmt.Sprintf("line %d (%s) reported no error, want: %s", at, l.m.ops[at].name, fail)
		}
		for _, b := range l.vm.Branches {
			if b.Id == ran.id && implLine(l.vm, b) != at {
				return true, fmt.Sprintf("line %d failed but the branch went on to line %d", at, b.Line)
			}
		}
		return false, l.cmpAll()
	}
	if l.vm.Error != nil {
		return true, fmt.Sprintf("line %d (%s) failed: %v", at, l.m.ops[at].name, l.vm.Error)
	}
	l.m.branches = append(l.m.branches, forks...)
	if e := l.cmpSome(ran, l.full); e != "" {
		return true, fmt.Sprintf("after line %d (%s): %s", at, l.m.ops[at].name, e)
	}
	if l.bps != nil {
		for _, b := range append([]*mBranch{ran}, forks...) {
			if b.line >= 0 && l.bps[b.line] {
				if l.want[b.id] == nil {
					l.want[b.id] = map[int]bool{}
				}
				l.want[b.id][b.line] = true
			}
		}
	}
	return false, ""
}

// runAll steps until everything ended; after an error another live branch is chosen.
func (l *lockstep) runAll(limit int) string {
	if e := l.cmpAll(); e != "" {
		return "initially: " + e
	}
	for i := 0; ; i++ {
		if i > limit {
			return l.cmpAll()
		}
		done, e := l.step()
		if e != "" {
			return e
		}
		if done {
			return ""
		}
		if l.vm.Error != nil {
			if !l.switchLive() {
				return l.cmpAll()
			}
		}
	}
}

func (l *lockstep) switchLive() bool {
	for _, b := range l.m.branches {
		if b.live() {
			l.vm.Switch(b.id)
			return true
		}
	}
	return false
}

// modelRun explores the whole model (all branches), up to limit steps.
func modelRun(m *mVM, limit int) (ok, failed bool) {
	n := 0
	for i := 0; i < len(m.branches); i++ {
		b := m.branches[i]
		for b.live() {
			if n++; n > limit {
				return false, failed
			}
			forks, _, fail := m.step(b)
			if fail != "" {
				failed = true
			}
			m.branches = append(m.branches, forks...)
		}
	}
	return true, failed
}

func (b *mBranch) final() string {
	return fmt.Sprint(b.trace, b.line, b.budget, len(b.stack), len(b.frames))
}

// cmpRun runs a fresh machine to the end and compares the multiset of finished branches with the model's.
func cmpRun(src string, r *rRes, budget, limit int, st *Stats) string {
	m := newModel(r)
	m.branches[0].budget = budget
	ok, failed := modelRun(m, limit)
	if !ok || failed {
		return ""
	}
	vm := teal.NewVm(teal.Process(src))
	vm.Branches[0].Budget = budget
	vm.Run()
	if vm.Error != nil {
		return fmt.Sprintf("running failed: %v", vm.Error)
	}
	if vm.Branch != nil {
		return "running stopped before the end"
	}
	want := map[string]int{}
	show := func(lines string, line, budget, ns, nf int) string {
		return fmt.Sprintf("[%s] line=%d budget=%d stack=%d frames=%d", lines, line, budget, ns, nf)
	}
	for _, b := range m.branches {
		var s []string
		for _, t := range b.trace {
			s = append(s, vm.Process.Listing[t].String())
		}
		want[show(strings.Join(s, ";"), b.line, b.budget, len(b.stack), len(b.frames))]++
	}
	st.Step(len(m.branches))
	for _, b := range vm.Branches {
		var s []string
		for _, o := range b.Trace {
			s = append(s, o.String())
		}
		k := show(strings.Join(s, ";"), implLine(vm, b), b.Budget, len(b.Stack.Items), len(b.Frames))
		want[k]--
		if want[k] < 0 {
			return "running executed a path that the program does not allow: " + k
		}
	}
	for k, n := range want {
		if n > 0 {
			return "running missed the path " + k
		}
	}
	return ""
}
