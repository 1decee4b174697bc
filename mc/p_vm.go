package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/dragmz/teal"
)

const vmHeader = "#pragma version 9\n"

func hasDupLabels(r *rRes) bool {
	seen := map[string]bool{}
	for _, o := range r.listing {
		if o.kind == "label" {
			if seen[o.name] {
				return true
			}
			seen[o.name] = true
		}
	}
	return false
}

// ---------- V01 ----------

func checkPaths(budget, limit int) func(src string, st *Stats) string {
	return func(src string, st *Stats) string {
		r := refAnalyze(src)
		l := newLockstepR(src, r, vmAspects{trace: true, frames: true}, st)
		l.full = false
		l.setBudget(budget)
		if e := l.runAll(limit); e != "" {
			return e
		}
		for _, b := range l.m.branches {
			st.State(b.final())
		}
		return cmpRun(src, r, budget, limit, st)
	}
}

// withLabels places labels a and b before op positions pa, pb (n+1 = absent).
func withLabels(ops []string, pos map[string]int) string {
	var s strings.Builder
	s.WriteString(vmHeader)
	for i := 0; i <= len(ops); i++ {
		var names []string
		for n := range pos {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if pos[n] == i {
				s.WriteString(n + ":\n")
			}
		}
		if i < len(ops) {
			s.WriteString(ops[i] + "\n")
		}
	}
	return s.String()
}

var flowOps = []string{"int 1\nbz a", "int 2\nbnz b", "b a", "b b", "callsub a", "callsub b", "retsub", "err", "int 3\nreturn", "int 1\nswitch a b", "int 1\nint 2\nint 3\nmatch b a", "int 7\npop", "// c"}

func flowSpace(name string, n int, ops []string, check func(string, *Stats) string) Space {
	dims := []int{n + 2, n + 2}
	for i := 0; i < n; i++ {
		dims = append(dims, len(ops))
	}
	return prodSpace(name, fmt.Sprintf("programs of %d control-flow fragments over %d kinds, labels a and b at every position or undefined", n, len(ops)), dims, func(ix []int) string {
		var o []string
		for _, x := range ix[2:] {
			o = append(o, ops[x])
		}
		return withLabels(o, map[string]int{"a": ix[0], "b": ix[1]})
	}, check)
}

func init() {
	register(&Prop{ID: "V01", Spaces: func(tier string) []Space {
		ck := checkPaths(pick(tier, 11, 14), 4000)
		sp := []Space{
			flowSpace("flow1", 1, flowOps, ck), flowSpace("flow2", 2, flowOps, ck), flowSpace("flow3", 3, flowOps, ck), flowSpace("flow4", 4, flowOps[:pick(tier, 11, len(flowOps))], ck),
		}
		sp = append(sp, nameSpace(ck), contextSpace(pick(tier, 7, 10), checkPaths(pick(tier, 40, 60), 4000)))
		// long chains with the real budget
		sp = append(sp, prodSpace("chains", "straight, forking, calling and looping chains of every length", []int{7, pick(tier, 130, 240)}, func(ix []int) string {
			n := ix[1]
			switch ix[0] {
			case 0:
				return vmHeader + rep("int 1\npop\n", n)
			case 1:
				return vmHeader + rep("int 1\nbz end\n", n) + "err\nend:\nint 1\n"
			case 2:
				return vmHeader + rep("callsub s\n", n) + "int 1\nreturn\ns:\nint 4\npop\nretsub\n"
			case 3:
				return vmHeader + "a:\n" + rep("int 1\npop\n", n) + "b a\n"
			case 4:
				return vmHeader + "int 1\nswitch" + numbered(n, func(i int) string { return fmt.Sprintf(" l%d", i) }) + "\nerr\n" + numbered(n, func(i int) string { return fmt.Sprintf("l%d:\nint %d\npop\n", i, i) })
			case 5:
				return vmHeader + numbered(n, func(i int) string { return fmt.Sprintf("callsub l%d\nl%d:\n", i, i) }) + "retsub\n"
			default:
				return vmHeader + rep("int 1\n", n+1) + "match" + numbered(n, func(i int) string { return fmt.Sprintf(" l%d", i) }) + "\nreturn\n" + numbered(n, func(i int) string { return fmt.Sprintf("l%d:\n", n-1-i) })
			}
		}, checkPaths(700, 60000)))
		if tier == "thorough" {
			sp = append(sp, flowSpace("flow5", 5, flowOps[:11], checkPaths(11, 3000)))
		}
		return sp
	}})
}

// contextSpace: every branching instruction of every width, reached in every way
func contextSpace(width int, check func(string, *Stats) string) Space {
	pres := []string{
		"", "callsub f\nint 9\nreturn\nf:\n", "callsub f\nint 9\nreturn\nf:\nproto 0 0\n", "callsub g\nint 9\nreturn\ng:\ncallsub h\nretsub\nh:\ncallsub f\nretsub\nf:\n",
		"int 1\nbnz f\nint 8\nf:\n", "b in\nback:\nint 9\nreturn\nin:\n", "callsub s\nb on\ns:\nint 3\npop\nretsub\non:\n", "int 4\nint 5\nint 6\n", "int 1\nbnz f\nerr\nf:\ncallsub g\nerr\ng:\n",
		"int 4\nstore 1\nint 5\nint 6\ncallsub f\nint 9\nreturn\nf:\nproto 2 1\nint 7\n", "int 1\nint 2\nswitch f f\nf:\n",
	}
	pats := []func(i, w int) int{
		func(i, w int) int { return i }, func(i, w int) int { return w - 1 - i }, func(i, w int) int { return 0 }, func(i, w int) int { return i % 2 }, func(i, w int) int { return i / 2 }, func(i, w int) int {
			if i == w-1 {
				return 0
			}
			return i
		},
	}
	ends := []string{"return", "retsub", "", "b t0", "err"}
	return prodSpace("contexts", "every branching instruction with up to N targets, in the main program, subroutines, after forks and calls", []int{len(pres), 2, width, len(pats), len(ends), 2}, func(ix []int) string {
		w := ix[2]
		var b strings.Builder
		b.WriteString(vmHeader + pres[ix[0]])
		if ix[1] == 0 {
			b.WriteString("int 1\nswitch")
		} else {
			b.WriteString(rep("int 1\n", w+1) + "match")
		}
		for i := 0; i < w; i++ {
			fmt.Fprintf(&b, " t%d", pats[ix[3]](i, w))
		}
		b.WriteString("\n" + []string{"int 2\npop\n", "err\n"}[ix[5]])
		for i := 0; i < w || i == 0; i++ {
			fmt.Fprintf(&b, "t%d:\nint %d\npop\n%s\n", i, 10+i, ends[ix[4]])
		}
		return b.String()
	}, check)
}

// ---------- V02 ----------

func checkLock(budget, limit int) func(src string, st *Stats) string {
	return func(src string, st *Stats) string {
		l := newLockstep(src, vmAspects{stack: true}, st)
		l.setBudget(budget)
		e := l.runAll(limit)
		for _, b := range l.m.branches {
			st.State(b.canon())
		}
		return e
	}
}

var typeLines = []string{"int %d", "byte 0x00%02x", "load 9"}

func typeStack(ix []int) string {
	s := ""
	for i, t := range ix {
		if t == 2 {
			s += "load 9\n"
		} else {
			s += fmt.Sprintf(typeLines[t]+"\n", 101+i)
		}
	}
	return s
}

func vmOps() []string {
	var res []string
	for _, o := range opNames {
		res = append(res, o)
	}
	return res
}

func opProgram(op string, types []int, ctx int, version int) string {
	line := defaultLine(op)
	head := fmt.Sprintf("#pragma version %d\n", version)
	stack := typeStack(types)
	switch ctx {
	case 0:
		return head + stack + line + "\nerr\nlbl:\nint 77\n"
	case 1: // inside a subroutine called with the values on the stack
		return head + stack + "callsub s\nint 5\nreturn\nlbl:\nint 77\nreturn\ns:\n" + line + "\nint 6\n"
	default: // values pushed inside the subroutine
		return head + "int 55\nint 66\ncallsub s\nint 5\nreturn\nlbl:\nint 77\nreturn\ns:\n" + stack + line + "\nint 6\n"
	}
}

func maxArity(op string) int {
	e := effTab[op]
	n := len(e.args)
	switch op {
	case "match", "bury", "cover", "uncover", "dig", "popn", "dupn", "swap", "frame_bury", "stores":
		n = 2
	case "retsub", "proto":
		n = 2
	}
	return n
}

func init() {
	register(&Prop{ID: "V02", Spaces: func(tier string) []Space {
		ck := checkLock(20000, 3000)
		extra := pick(tier, 1, 2)
		type ent struct {
			op   string
			n    int
			from uint64
		}
		var es []ent
		var total uint64
		for _, o := range vmOps() {
			for n := 0; n <= maxArity(o)+extra; n++ {
				es = append(es, ent{o, n, total})
				c := uint64(3) // contexts
				for i := 0; i < n; i++ {
					c *= 3
				}
				total += c
			}
		}
		eff := Space{Name: "effects", Desc: fmt.Sprintf("every mnemonic on every stack of types {uint64,bytes,any} up to %d deeper than its arity, in three call contexts", extra), N: total, Check: ck,
			At: func(i uint64) string {
				k := sort.Search(len(es), func(k int) bool { return es[k].from > i }) - 1
				e := es[k]
				i -= e.from
				ctx := int(i % 3)
				i /= 3
				ty := make([]int, e.n)
				for j := range ty {
					ty[j] = int(i % 3)
					i /= 3
				}
				return opProgram(e.op, ty, ctx, 9)
			}}
		deepOps := []string{"dig", "bury", "cover", "uncover", "popn", "dupn"}
		deltas := []int{-300, -1, 0, 1, 2, 3, 300}
		deep := prodSpace("depths", "dig, bury, cover, uncover, popn and dupn with every immediate 0..255 on empty, exact, off-by-one and deep stacks", []int{len(deepOps), 256, len(deltas)}, func(ix []int) string {
			d := ix[1] + deltas[ix[2]]
			if d < 0 {
				d = 0
			}
			if d > 300 && tier != "thorough" {
				d = 300
			}
			return vmHeader + numbered(d, func(i int) string { return fmt.Sprintf("int %d\n", 1000+i) }) + fmt.Sprintf("%s %d\nint 1\nreturn\n", deepOps[ix[0]], ix[1])
		}, ck)
		frame := prodSpace("frames", "subroutines with 0..4 values below, prototype absent or args/results 0..3, 0..4 locals, frame_dig/frame_bury -6..6, then retsub",
			[]int{5, 17, 5, 13, 3}, func(ix []int) string {
				s := vmHeader + numbered(ix[0], func(i int) string { return fmt.Sprintf("int %d\n", 200+i) }) + "callsub f\nint 9\nreturn\nf:\n"
				if ix[1] < 16 {
					s += fmt.Sprintf("proto %d %d\n", ix[1]/4, ix[1]%4)
				}
				s += numbered(ix[2], func(i int) string { return fmt.Sprintf("int %d\n", 300+i) })
				switch ix[4] {
				case 0:
					s += fmt.Sprintf("frame_dig %d\n", ix[3]-6)
				case 1:
					s += fmt.Sprintf("frame_bury %d\n", ix[3]-6)
				}
				return s + "retsub\n"
			}, ck)
		frameWide := prodSpace("frame-offsets", "frame_dig and frame_bury with every offset -128..127 between 140 values below and 140 above, and short stacks", []int{2, 256, 3}, func(ix []int) string {
			n := []int{140, 3, 0}[ix[2]]
			return vmHeader + numbered(n, func(i int) string { return fmt.Sprintf("int %d\n", 200+i) }) + "callsub f\nint 9\nreturn\nf:\n" +
				numbered(n, func(i int) string { return fmt.Sprintf("int %d\n", 400+i) }) + fmt.Sprintf("%s %d\nretsub\n", []string{"frame_dig", "frame_bury"}[ix[0]], ix[1]-128)
		}, ck)
		wideN := []int{0, 1, 2, 126, 127, 128, 129, 130, 200, 254, 255}
		wide := prodSpace("wide-frames", "prototypes with argument and result counts at both ends of their range, with too few, exactly enough and more values below and above", []int{len(wideN), len(wideN), 5, 5}, func(ix []int) string {
			a, r := wideN[ix[0]], wideN[ix[1]]
			below, above := a+[]int{-1, 0, 1, 140, 300}[ix[2]], r+[]int{-1, 0, 1, -130, 140}[ix[3]]
			return vmHeader + numbered(below, func(i int) string { return fmt.Sprintf("int %d\n", 200+i) }) + "callsub f\nint 9\nreturn\nf:\n" + fmt.Sprintf("proto %d %d\n", a, r) +
				numbered(above, func(i int) string { return fmt.Sprintf("byte 0x%04x\n", i) }) + "retsub\n"
		}, ck)
		nested := prodSpace("nested-frames", "two nested prototyped subroutines, args/results 0..2 each, with locals and frame access", []int{3, 3, 3, 3, 3, 5}, func(ix []int) string {
			return vmHeader + "int 1\nint 2\nint 3\ncallsub f\nint 9\nreturn\nf:\n" + fmt.Sprintf("proto %d %d\nint 10\nint 11\nint 12\ncallsub g\n", ix[0], ix[1]) + rep("int 13\n", ix[4]) +
				fmt.Sprintf("frame_dig %d\nretsub\ng:\nproto %d %d\nint 20\nint 21\nframe_bury %d\nint 22\nretsub\n", ix[5]-2, ix[2], ix[3], ix[5]-2)
		}, ck)
		var fieldOps []string
		for _, o := range opNames {
			for _, im := range opTab[o].imm {
				if isFieldKind(im.kind) {
					fieldOps = append(fieldOps, o)
					break
				}
			}
		}
		fields := prodSpace("fields", "every field instruction with every field number 0..255", []int{len(fieldOps), 256}, func(ix []int) string {
			o := fieldOps[ix[0]]
			l := o
			for _, im := range opTab[o].imm {
				if im.optional {
					break
				}
				if isFieldKind(im.kind) {
					g := fieldTab[fieldGroup(im.kind)]
					n := ix[1]
					switch fieldGroup(im.kind) {
					case "ecdsa", "ec", "b64", "json", "vrf":
						n %= len(g)
					}
					l += fmt.Sprintf(" %d", n)
				} else {
					l += " " + defaultArg(im.kind)
				}
			}
			st := ""
			for _, c := range effTab[o].args {
				st += map[rune]string{'U': "int 5\n", 'B': "byte 0x61\n", '.': "load 0\n"}[c]
			}
			return vmHeader + "int 42\n" + st + l + "\nint 6\n"
		}, ck)
		seqOps := []string{"int 1", "int 2", "byte 0x61", "dup", "dup2", "swap", "pop", "dig 1", "bury 1", "cover 1", "uncover 1", "cover 2", "uncover 2", "popn 2", "dupn 2", "store 0", "load 0", "stores", "select", "+", "concat"}
		seq := seqSpace("stack-programs", "programs of stack instructions", seqOps, 1, pick(tier, 4, 5), "\n", func(c string, st *Stats) string { return ck(vmHeader+"int 71\nint 72\nint 73\n"+c, st) })
		scr := prodSpace("scratch", "store/load/stores over every slot", []int{4, 260}, func(ix []int) string {
			i := ix[1]
			switch ix[0] {
			case 0:
				return vmHeader + fmt.Sprintf("int 9\nstore %d\nint 8\nstore 3\nload %d\nload 3\n", i%256, i%256)
			case 1:
				return vmHeader + fmt.Sprintf("int %d\nbyte 0x6162\nstores\nload %d\n", i, i%256)
			case 2:
				return vmHeader + fmt.Sprintf("int 4\nstore %d\nint %d\nbyte 0x6162\nstores\nload %d\nload 7\n", i%256, (i+1)%256, i%256)
			default:
				return vmHeader + fmt.Sprintf("int 4\nstore %d\nload %d\nload %d\n", i%256, (i+1)%256, (i+255)%256)
			}
		}, ck)
		consts := listSpace("constants", "constants are displayed and told apart", []string{"all"}, func(_ string, st *Stats) string {
			seen := map[string]string{}
			var ls []string
			for i := 0; i < 300; i++ {
				ls = append(ls, fmt.Sprintf("int %d", i), fmt.Sprintf("byte 0x%02x", i%256), fmt.Sprintf("byte 0x00%02x", i%256))
			}
			ls = append(ls, "int 18446744073709551615", "int 9223372036854775808", "byte 0x")
			for _, l := range ls {
				d := display(l)
				if d == "" {
					return l + " is not shown"
				}
				if strings.HasPrefix(l, "int ") && !strings.HasSuffix(d, " "+l[4:]) {
					return fmt.Sprintf("%s is shown as %q", l, d)
				}
				if o, ok := seen[d]; ok && o != l {
					return fmt.Sprintf("%q and %q are shown alike: %q", l, o, d)
				}
				seen[d] = l
				st.State(d)
			}
			return ""
		})
		return []Space{consts, eff, deep, frame, frameWide, wide, nested, fields, scr, contextSpace(pick(tier, 7, 10), checkLock(60, 3000)), seq}
	}})
}

// ---------- V03 ----------

// checkSchedules explores every order in which the live branches can be stepped, with at most maxPre
// switches away from a branch that could have gone on.
func checkSchedules(maxSteps, maxPre, maxSchedules int) func(src string, st *Stats) string {
	return func(src string, st *Stats) string {
		r := refAnalyze(src)
		n := 0
		var prefix []int // ids chosen
		type node struct {
			alts []int
			at   int
		}
		var path []node
		for {
			n++
			l := newLockstepR(src, r, allAspects, st)
			if e := l.cmpAll(); e != "" {
				return e
			}
			path = path[:len(prefix)]
			last, pre := -1, 0
			for depth := 0; depth < maxSteps; depth++ {
				var live []int
				for _, b := range l.m.branches {
					if b.live() {
						live = append(live, b.id)
					}
				}
				if len(live) == 0 {
					break
				}
				sort.Ints(live)
				if b := l.model(last); b != nil && b.live() {
					if pre >= maxPre {
						live = []int{last}
					} else {
						// the running branch first
						for i := range live {
							if live[i] == last {
								copy(live[1:i+1], live[:i])
								live[0] = last
							}
						}
					}
				}
				k := 0
				if depth < len(prefix) {
					k = prefix[depth]
				} else {
					prefix = append(prefix, 0)
					path = append(path, node{})
				}
				path[depth] = node{alts: live, at: k}
				if b := l.model(last); b != nil && b.live() && live[k] != last {
					pre++
				}
				last = live[k]
				l.vm.Switch(live[k])
				if l.vm.Branch == nil || l.vm.Branch.Id != live[k] {
					return fmt.Sprintf("switching to branch %d did not select it", live[k])
				}
				if _, e := l.step(); e != "" {
					return fmt.Sprintf("schedule %v: %s", sched(path), e)
				}
			}
			var s []string
			for _, b := range l.m.branches {
				s = append(s, b.canon())
			}
			sort.Strings(s)
			st.State(strings.Join(s, "|"))
			// next schedule
			i := len(path) - 1
			for i >= 0 && path[i].at+1 >= len(path[i].alts) {
				i--
			}
			if i < 0 || n >= maxSchedules {
				return ""
			}
			prefix = prefix[:i+1]
			prefix[i]++
			path = path[:i+1]
		}
	}
}

func sched(path any) string { return fmt.Sprint(path) }

func init() {
	register(&Prop{ID: "V03", Assumptions: []string{"scratch space is observed through load instructions of each branch"}, Spaces: func(tier string) []Space {
		ck := checkSchedules(60, pick(tier, 2, 4), 20000)
		muts := []string{"int 5", "int 6\nstore 0", "bury 1", "callsub f", "frame_bury -1", "retsub", "uncover 2", "int 1\nbz c", "pop", "load 0"}
		mut := func(ix ...int) string {
			s := ""
			for _, x := range ix {
				if x < len(muts) {
					s += muts[x] + "\n"
				}
			}
			return s
		}
		tail := "err\nc:\nload 0\nload 1\nerr\nf:\nproto 1 1\nint 31\nint 32\nframe_bury -1\nretsub\n"
		if tier != "thorough" {
			muts = muts[:7]
		}
		n := len(muts)
		two := prodSpace("two-branches", "a conditional fork, every pair of 2-instruction continuations, every schedule with at most 2 (thorough: 4) preemptions, observed by loads", []int{n, n, n, n}, func(ix []int) string {
			return vmHeader + "int 1\nint 2\nstore 0\nint 3\nint 4\nint 9\nbnz x\n" + mut(ix[0], ix[1]) + "load 0\n" + "err\nx:\n" + mut(ix[2], ix[3]) + "load 0\n" + tail
		}, ck)
		multi := prodSpace("three-branches", "switch and match forks into three branches with 1-instruction continuations, every schedule with at most 2 (thorough: 4) preemptions", []int{2, n, n, n}, func(ix []int) string {
			f := "int 9\nswitch x y\n"
			if ix[0] == 1 {
				f = "int 7\nint 8\nint 9\nmatch x y\n"
			}
			return vmHeader + "int 1\nint 2\nstore 0\nint 3\nint 4\n" + f + mut(ix[1]) + "load 0\n" + "err\nx:\n" + mut(ix[2]) + "load 0\nerr\ny:\n" + mut(ix[3]) + "load 0\n" + tail
		}, ck)
		inSub := prodSpace("fork-in-call", "a fork inside a (nested) subroutine, every pair of continuations, every schedule with at most 2 (thorough: 4) preemptions", []int{2, n, n, n}, func(ix []int) string {
			s := vmHeader + "int 1\nint 2\nstore 0\nint 3\nint 4\ncallsub s\nload 0\nerr\ns:\n"
			if ix[0] == 1 {
				s += "proto 2 1\nint 40\nint 41\n"
			}
			return s + "int 9\nbz x\n" + mut(ix[1], ix[2]) + "retsub\nx:\n" + mut(ix[3]) + "retsub\n" + tail
		}, ck)
		frames := prodSpace("deep-calls", "forks at each call depth 0..4, both branches returning and calling again, every schedule with at most 2 (thorough: 4) preemptions", []int{5, 3, 3, 3}, func(ix []int) string {
			s := vmHeader + "int 1\nint 2\n"
			d := ix[0]
			k := []string{"retsub\n", "callsub f\nretsub\n", "int 8\nstore 1\nload 1\nretsub\n"}
			for i := 0; i < d; i++ {
				s += fmt.Sprintf("callsub s%d\nerr\ns%d:\n", i, i)
			}
			return s + "int 9\nbnz x\n" + k[ix[1]] + "x:\n" + k[ix[2]] + k[ix[3]] + tail
		}, ck)
		nest := prodSpace("nested-forks", "a fork in each continuation of a fork, with one mutation each, every schedule with at most 2 (thorough: 4) preemptions", []int{n, n, n}, func(ix []int) string {
			return vmHeader + "int 1\nint 2\nstore 0\nint 3\nint 4\nint 9\nbnz x\nint 8\nbz y\n" + mut(ix[0]) + "load 0\nerr\nx:\n" + mut(ix[1]) + "err\ny:\n" + mut(ix[2]) + "load 0\n" + tail
		}, ck)
		cl := checkSchedules(800, 2, 20000)
		forks := []string{"int 9\nbnz x\n", "int 9\nswitch x\n", "int 7\nint 9\nmatch x\n"}
		slots := prodSpace("slots", "every scratch slot filled before a fork, changed in either or both branches", []int{3, 256, 4}, func(ix []int) string {
			set := func(x int, how bool) string {
				if how {
					return fmt.Sprintf("int %d\nint %d\nstores\n", ix[1], x)
				}
				return fmt.Sprintf("int %d\nstore %d\n", x, ix[1])
			}
			one, other := "", ""
			if ix[2]&1 != 0 {
				one = set(5, ix[0] == 1)
			}
			if ix[2]&2 != 0 {
				other = set(6, ix[0] == 2)
			}
			ld := fmt.Sprintf("load %d\n", ix[1])
			return vmHeader + fmt.Sprintf("byte 0x0102\nstore %d\n", ix[1]) + forks[ix[0]] + one + ld + "err\nx:\n" + other + ld + "err\n"
		}, cl)
		var ns []int
		for i := 0; i <= pick(tier, 40, 130); i++ {
			ns = append(ns, i)
		}
		for _, p := range []int{64, 128, 256, 512} {
			ns = append(ns, p-2, p-1, p, p+1)
		}
		changes := []string{"int 5\nbury 1\n", "int 5\nbury %d\n", "cover %d\n", "uncover %d\n", "swap\n", "pop\nint 5\n", "int 5\n", "popn %d\nint 6\nint 7\n", "int 5\nframe_bury -1\n", "dupn 3\n"}
		depths := prodSpace("depths", "stacks of every depth forked, the same place changed in one or both branches", []int{3, len(ns), len(changes), 2}, func(ix []int) string {
			n := ns[ix[1]]
			c := changes[ix[2]]
			if strings.Contains(c, "%d") {
				k := n
				if strings.Contains(c, "cover") && n > 0 {
					k = n - 1
				}
				if k > 255 {
					k = 255
				}
				c = fmt.Sprintf(c, k)
			}
			o := ""
			if ix[3] == 1 {
				o = strings.ReplaceAll(c, "int 5", "int 15")
			}
			pre, post := "", ""
			if strings.Contains(c, "frame_bury") {
				pre, post = "callsub s\nerr\ns:\nproto 1 1\n", ""
			}
			fill := ""
			for i := 0; i < n; i++ {
				fill += []string{"int 1\n", "byte 0x01\n", "txn Sender\n"}[i%3]
			}
			return vmHeader + fill + pre + forks[ix[0]] + c + "err\nx:\n" + o + "int 8\nerr\n" + post
		}, cl)
		traces := prodSpace("traces", "forks after every number of instructions, both branches going on", []int{3, pick(tier, 130, 340), 2}, func(ix []int) string {
			return vmHeader + strings.Repeat("int 1\npop\n", ix[1]/2) + strings.Repeat("int 4\n", ix[1]%2) + forks[ix[0]] + strings.Repeat("int 2\n", ix[2]+1) + "err\nx:\nbyte 0x01\nbyte 0x02\nerr\n"
		}, cl)
		calls := prodSpace("calls", "forks below every number of calls, returning and calling again in either branch", []int{3, pick(tier, 40, 130), 3, 3}, func(ix []int) string {
			s := vmHeader + "int 1\nint 2\n"
			k := []string{"retsub\n", "callsub f\nretsub\n", "proto 1 1\nretsub\n"}
			for i := 0; i < ix[1]; i++ {
				s += fmt.Sprintf("callsub s%d\nint 3\n%s\ns%d:\n", i, []string{"retsub", "err"}[b2i(i == 0)], i)
			}
			return s + forks[ix[0]] + k[ix[2]] + "err\nx:\n" + k[ix[3]] + "err\nf:\nint 6\nretsub\nerr\n"
		}, checkSchedules(800, 1, 20000))
		protos := prodSpace("protos", "a fork in a subroutine, each branch with a prototype of its own, then returning", []int{3, 3, 3, 3, 3, 2}, func(ix []int) string {
			pre := ""
			if ix[5] == 1 {
				pre = "proto 2 2\n"
			}
			return vmHeader + "int 1\nint 2\nint 3\ncallsub s\nint 4\nerr\ns:\n" + pre + forks[ix[0]] + fmt.Sprintf("proto %d %d\nint 5\nint 6\nint 7\nretsub\nx:\nproto %d %d\nint 5\nint 6\nint 7\nretsub\n", ix[1], ix[2], ix[3], ix[4])
		}, cl)
		sp := []Space{two, multi, inSub, frames, nest, slots, depths, traces, calls, protos, contextSpace(3, checkSchedules(60, 1, 3000))}
		if tier == "thorough" {
			sp = append(sp, prodSpace("two-branches-3", "a conditional fork with 3- and 2-instruction continuations, every schedule with at most 2 (thorough: 4) preemptions", []int{n, n, n, n, n}, func(ix []int) string {
				return vmHeader + "int 1\nint 2\nstore 0\nint 3\nint 4\nint 9\nbnz x\n" + mut(ix[0], ix[1], ix[4]) + "load 0\n" + "err\nx:\n" + mut(ix[2], ix[3]) + "load 0\n" + tail
			}, checkSchedules(60, 3, 20000)))
		}
		return sp
	}})
}

// ---------- V04 ----------

func checkBudget(c string, st *Stats) string {
	var b int
	nl := strings.IndexByte(c, '\n')
	fmt.Sscanf(c[:nl], "budget %d", &b)
	src := c[nl+1:]
	l := newLockstep(src, vmAspects{budget: true, trace: true}, st)
	l.full = false
	if b >= 0 {
		l.setBudget(b)
	}
	e := l.runAll(5000)
	for _, br := range l.m.branches {
		st.State(fmt.Sprint(br.budget, len(br.trace), br.line))
	}
	if e != "" {
		return e
	}
	if b < 0 {
		b = 700
	}
	return cmpRun(src, refAnalyze(src), b, 5000, st)
}

func goodStack(op string) string {
	s := ""
	for _, c := range effTab[op].args {
		s += map[rune]string{'U': "int 5\n", 'B': "byte 0x61\n", '.': "int 7\n"}[c]
	}
	switch op {
	case "match":
		s = "int 1\nint 2\n"
	case "bury", "cover", "uncover", "dig", "popn", "swap", "dupn":
		s = "int 1\nint 2\nint 3\n"
	case "stores":
		s = "int 1\nint 2\n"
	}
	return s
}

func budgetProgram(op, line, stack string, version, delta int) string {
	pre := fmt.Sprintf("#pragma version %d\n", version) + stack
	frame := false
	switch op {
	case "proto", "frame_dig", "frame_bury":
		frame = true
	}
	src := pre + line + "\nerr\nlbl:\nint 77\n"
	if frame {
		src = pre + "int 3\ncallsub s\nint 5\nreturn\nlbl:\nint 77\nreturn\ns:\nint 4\nint 5\n" + line + "\nint 6\n"
	}
	// the budget that exactly affords the instruction
	m := newModel(refAnalyze(src))
	b := m.branches[0]
	b.budget = 1 << 30
	for b.live() {
		o := m.ops[b.line]
		stop := o.name == strings.Fields(line)[0] || canonName(strings.Fields(line)[0], len(strings.Fields(line))-1) == o.name
		_, _, fail := m.step(b)
		if fail != "" {
			break
		}
		if stop && len(b.trace) > len(strings.Split(strings.TrimSpace(stack), "\n"))-1 {
			break
		}
	}
	return fmt.Sprintf("budget %d\n%s", (1<<30)-b.budget+delta, src)
}

func init() {
	register(&Prop{ID: "V04", Assumptions: []string{"elliptic-curve instruction costs are the placeholder values of the analysed version"}, Spaces: func(tier string) []Space {
		deltas := []int{-2, -1, 0, 1, 2}
		ops := vmOps()
		costs := prodSpace("costs", "every mnemonic at versions 1..9, budget around exactly enough", []int{len(ops), 9, len(deltas)}, func(ix []int) string {
			return budgetProgram(ops[ix[0]], defaultLine(ops[ix[0]]), goodStack(ops[ix[0]]), ix[1]+1, deltas[ix[2]])
		}, checkBudget)
		var curves []string
		for _, o := range ops {
			for _, im := range opTab[o].imm {
				switch im.kind {
				case "ecdsa", "ec", "b64", "json", "vrf":
					for _, f := range fieldTab[im.kind] {
						curves = append(curves, o+" "+f.name, fmt.Sprintf("%s %d", o, f.num))
					}
				}
			}
		}
		curve := prodSpace("variants", "every curve, encoding and type argument by name and number, budget around exactly enough", []int{len(curves), len(deltas)}, func(ix []int) string {
			o := strings.Fields(curves[ix[0]])[0]
			return budgetProgram(o, curves[ix[0]], goodStack(o), 9, deltas[ix[1]])
		}, checkBudget)
		lens := prodSpace("lengths", "length-dependent costs for every text length, directly and through scratch space, known and unknown", []int{2, 4, pick(tier, 140, 600), 3}, func(ix []int) string {
			lit := "byte 0x" + rep("61", ix[2])
			if ix[1] == 1 {
				lit += "\nstore 3\nload 3"
			}
			if ix[1] == 2 {
				lit += "\nbyte 0x\nconcat"
			}
			if ix[1] == 3 {
				lit += "\ndup\nswap"
			}
			if ix[0] == 0 {
				return budgetProgram("base64_decode", "base64_decode StdEncoding", lit+"\n", 9, ix[3]-1)
			}
			return budgetProgram("json_ref", "json_ref JSONString", lit+"\nbyte 0x"+rep("62", ix[2]%9)+"\n", 9, ix[3]-1)
		}, checkBudget)
		big := prodSpace("budget-end", "programs that use up the 700 budget: straight lines, loops, calls and forks of every size around it", []int{6, 40, 2}, func(ix []int) string {
			n := ix[1]
			tail := []string{"", "#pragma version 8\n"}[ix[2]]
			s := tail
			switch ix[0] {
			case 0:
				s += rep("int 1\n", 680+n)
			case 1:
				s += "a:\n" + rep("int 1\npop\n", n) + "b a\n"
			case 2:
				s += "byte 0x61\n" + rep("sha256\n", n)
			case 3:
				s += "a:\n" + rep("itxn_begin\n", n) + "callsub a\n"
			case 4:
				s += "a:\n" + rep("itxn_begin\n", n+20) + "int 1\nbnz a\n"
			case 5:
				s += rep("int 1\npop\n", 320) + "int 1\nswitch x y\n" + rep("int 1\n", n) + "err\nx:\n" + rep("int 2\n", 30+n) + "y:\n" + rep("int 3\n", 2*n)
			}
			return "budget -1\n" + s
		}, checkBudget)
		progs := prodSpace("programs", "control-flow programs under every starting budget", []int{pick(tier, 13, 24), 5, 5, pick(tier, 9, len(flowOps)), pick(tier, 9, len(flowOps)), pick(tier, 9, len(flowOps))}, func(ix []int) string {
			return fmt.Sprintf("budget %d\n", ix[0]) + withLabels([]string{flowOps[ix[3]], flowOps[ix[4]], flowOps[ix[5]]}, map[string]int{"a": ix[1], "b": ix[2]})
		}, checkBudget)
		ctx := contextSpace(pick(tier, 7, 10), func(src string, st *Stats) string {
			return first(checkBudget("budget 12\n"+src, st), checkBudget("budget 17\n"+src, st), checkBudget("budget 40\n"+src, st))
		})
		return []Space{costs, curve, lens, big, ctx, progs}
	}})
}

// ---------- V05 ----------

func dumpVm(vm *teal.Vm) string {
	var s strings.Builder
	for _, b := range vm.Branches {
		fmt.Fprintf(&s, "%d@%d %v %d %d|", b.Id, implLine(vm, b), b.Stack.Items, b.Budget, len(b.Trace))
	}
	if vm.Branch != nil {
		fmt.Fprintf(&s, " cur %d", vm.Branch.Id)
	}
	fmt.Fprintf(&s, " err %v", vm.Error != nil)
	return s.String()
}

func trigSet(t map[int][]int) string {
	var s []string
	for id, ls := range t {
		for _, l := range ls {
			s = append(s, fmt.Sprintf("%d@%d", id, l))
		}
	}
	sort.Strings(s)
	var u []string
	for i, x := range s {
		if i == 0 || s[i-1] != x {
			u = append(u, x)
		}
	}
	return strings.Join(u, " ")
}

func wantSet(t map[int]map[int]bool) string {
	m := map[int][]int{}
	for id, ls := range t {
		for l := range ls {
			m[id] = append(m[id], l)
		}
	}
	return trigSet(m)
}

func atois(s string) (res []int) {
	for _, w := range strings.Fields(s) {
		n, err := strconv.Atoi(w)
		if err != nil {
			panic(err)
		}
		res = append(res, n)
	}
	return
}

// case: "bl LINES[/LINES]\nprogram" (in that order, repetitions included) or
// "bp MASK [MASK2]\nprogram": mask bit i = breakpoint on line i (0-based)
func checkBreak(budget int) func(c string, st *Stats) string {
	return func(c string, st *Stats) string {
		nl := strings.IndexByte(c, '\n')
		src := c[nl+1:]
		r := refAnalyze(src)
		var m1, m2 []int
		again := false
		if strings.HasPrefix(c, "bp ") {
			var k1, k2 int
			fmt.Sscanf(c[:nl], "bp %d %d", &k1, &k2)
			again = k2 != 0
			for i := -1; i < len(r.listing)+2; i++ {
				if k1&(1<<(i+1)) != 0 {
					m1 = append(m1, i)
				}
				if k2&(1<<(i+1)) != 0 {
					m2 = append(m2, i)
				}
			}
		} else {
			f := strings.Split(c[3:nl], "/")
			m1 = atois(f[0])
			if len(f) > 1 {
				again, m2 = true, atois(f[1])
			}
		}
		set := func(vm *teal.Vm, lns []int) (map[int]bool, string) {
			bps := map[int]bool{}
			for _, i := range lns {
				if i >= 0 && i < len(r.listing) && !r.listing[i].nop() {
					bps[i] = true
				}
			}
			got := vm.SetBreakpoints(lns)
			for _, i := range lns {
				if got[i] != bps[i] {
					return nil, fmt.Sprintf("breakpoint on line %d verified=%v, want %v", i, got[i], bps[i])
				}
			}
			for i, ok := range got {
				if ok && !bps[i] {
					return nil, fmt.Sprintf("breakpoint on line %d verified but not asked for", i)
				}
			}
			return bps, ""
		}
		l := newLockstepR(src, r, vmAspects{}, st)
		l.setBudget(budget)
		bps, e := set(l.vm, m1)
		if e != "" {
			return e
		}
		l.bps = bps
		run := teal.NewVm(teal.Process(src))
		run.Branches[0].Budget = budget
		if _, e := set(run, m1); e != "" {
			return e
		}
		stops := 0
		for i := 0; i < 400; i++ {
			// stepping machine up to its next stop
			for j := 0; ; j++ {
				done, e := l.step()
				if e != "" {
					return e
				}
				if l.vm.Error == nil {
					if g, w := trigSet(l.vm.Triggered), wantSet(l.want); g != w {
						return fmt.Sprintf("step reports breakpoints %q, want %q", g, w)
					}
				}
				if done || l.vm.Error != nil || len(l.want) > 0 {
					break
				}
				if l.vm.Branch == nil {
					break
				}
			}
			run.Run()
			stops++
			if g, w := dumpVm(run), dumpVm(l.vm); g != w {
				return fmt.Sprintf("running stops in a different state than stepping (stop %d):\n  run:  %s\n  step: %s", stops, g, w)
			}
			if g, w := trigSet(run.Triggered), trigSet(l.vm.Triggered); g != w {
				return fmt.Sprintf("running reports breakpoints %q, stepping %q", g, w)
			}
			st.State(dumpVm(run))
			if l.vm.Error != nil || l.vm.Branch == nil {
				break
			}
			if stops == 1 && again {
				if bps, e = set(l.vm, m2); e != "" {
					return e
				}
				l.bps = bps
				if _, e := set(run, m2); e != "" {
					return e
				}
			}
		}
		return ""
	}
}

func init() {
	register(&Prop{ID: "V05", Spaces: func(tier string) []Space {
		ops := []string{"int 1", "int 1\nbz a", "int 1\nbnz b", "b a", "callsub b", "retsub", "err", "int 1\nint 1\nint 1\nmatch a b", "// c", "pop"}
		n := pick(tier, 3, 4)
		dims := []int{pick(tier, 10, 14), n + 2, n + 2}
		for i := 0; i < n; i++ {
			dims = append(dims, len(ops))
		}
		progs := prodSpace("programs", fmt.Sprintf("programs of %d fragments, labels everywhere, breakpoint on no line, each single line, all lines, alternating lines", n), dims, func(ix []int) string {
			var o []string
			for _, x := range ix[3:] {
				o = append(o, ops[x])
			}
			mask := 0
			switch {
			case ix[0] == 0:
			case ix[0] == 1:
				mask = 0xffff
			case ix[0] == 2:
				mask = 0x5555
			default:
				mask = 1 << (ix[0] - 1)
			}
			return fmt.Sprintf("bp %d 0\n", mask) + withLabels(o, map[string]int{"a": ix[1], "b": ix[2]})
		}, checkBreak(12))
		fixed := []string{
			"#pragma version 8\nint 1\nbz a\nint 2\npop\na:\nint 3\n",
			"a:\nint 1\nbnz a\nb:\nerr\n",
			"int 1\nswitch x y\nx:\nint 5\n\n// c\ny:\nint 6\n",
			"callsub f\nint 1\nreturn\nf:\n// x\nint 2\nretsub\n",
			"b a\nint 1\na:\n\nb:\nb b\n",
			"int 1\npop\npop\nint 2\n",
			"int 1\nbz nowhere\nint 2\nbnz a\na:\na2:\nint 9\n",
		}
		subsets := prodSpace("subsets", "every set of breakpoint lines (also outside the program) on fixed programs", []int{len(fixed), 1 << 10}, func(ix []int) string {
			return fmt.Sprintf("bp %d 0\n", ix[1]) + fixed[ix[0]]
		}, checkBreak(14))
		replace := prodSpace("replace", "every pair of single breakpoints or none, the second set after the first stop", []int{len(fixed), 10, 10}, func(ix []int) string {
			return fmt.Sprintf("bp %d %d\n", (1<<ix[1])&^1, (1<<ix[2])|1) + fixed[ix[0]]
		}, checkBreak(14))
		pairs := prodSpace("replace-pairs", "pairs of breakpoint sets of up to two lines", []int{len(fixed), 10, 10, 10, 10}, func(ix []int) string {
			return fmt.Sprintf("bp %d %d\n", 1<<ix[1]|1<<ix[2], 1<<ix[3]|1<<ix[4]) + fixed[ix[0]]
		}, checkBreak(14))
		lines := []string{"-1", "0", "1", "2", "3", "4", "5", "6", "7", "900"}
		seqs := func(n int) (res []string) {
			for i := uint64(0); i < seqCount(len(lines), 0, n); i++ {
				var w []string
				for _, x := range seqAt(len(lines), 0, i) {
					w = append(w, lines[x])
				}
				res = append(res, strings.Join(w, " "))
			}
			return
		}
		l3, l1 := seqs(pick(tier, 3, 4)), seqs(1)
		orders := prodSpace("orders", "every list of breakpoint lines in every order, with repetitions; replaced or not, also by the empty list, after the first stop", []int{len(fixed), len(l1) + 1, len(l3)}, func(ix []int) string {
			c := "bl " + l3[ix[2]]
			if ix[1] > 0 {
				c += "/" + l1[ix[1]-1]
			}
			return c + "\n" + fixed[ix[0]]
		}, checkBreak(14))
		far := prodSpace("far", "programs far down their text, breakpoints on every line of them", []int{len(fixed), len(farLines)}, func(ix []int) string {
			n := farLines[ix[1]]
			c := "bl"
			for i := n - 2; i < n+8; i++ {
				c += " " + strconv.Itoa(i)
			}
			return c + "\n" + strings.Repeat("//\n", n) + fixed[ix[0]]
		}, checkBreak(14))
		long := prodSpace("long runs", "runs of up to 100000 instructions, with breakpoints on no line and only on the last", []int{len(longRuns), 2}, func(ix []int) string {
			src := longRun(longRuns[ix[0]])
			return "bl " + []string{"", fmt.Sprintf("%d", strings.Count(src, "\n")-2)}[ix[1]] + "\n" + src
		}, checkBreak(700))
		ctx := contextSpace(pick(tier, 7, 10), func(src string, st *Stats) string {
			ck := checkBreak(30)
			return first(ck("bp 0 0\n"+src, st), ck("bl 3 6 9 12 15 18 21 24 27 30 33 36\n"+src, st))
		})
		return []Space{subsets, replace, pairs, orders, far, long, ctx, progs}
	}})
}

// longRuns: numbers of branches that each use up the whole budget
var longRuns = []int{0, 1, 2, 3, 5, 8, 13, 16, 24, 31, 33, 48, 62, 64, 66, 94, 128, 150}

func longRun(n int) string {
	return vmHeader + "int 1\nswitch" + rep(" x", n) + " y\nx:\nint 1\npop\nb x\ny:\nint 2\nreturn\n"
}

// farLines: numbers of lines before a program: every small one, and around every power of two
var farLines = func() (res []int) {
	for i := 0; i < 40; i++ {
		res = append(res, i)
	}
	for p := 64; p <= 65536; p *= 2 {
		if p < 1024 || p == 4096 || p >= 32768 {
			res = append(res, p-8, p-4, p-2, p-1, p, p+1)
		}
	}
	return
}()

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
