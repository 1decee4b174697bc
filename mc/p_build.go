package main

// C03: the construction API. Expression trees are written in prefix notation, one letter per node, leaves being
// lower case, and built twice: once with the API, once as the list of instructions they stand for.

import (
	"fmt"
	"strings"

	"github.com/dragmz/teal"
)

const (
	treeLeaves = "ixcleb"         // int, txn, comment, label, empty list, empty block
	treeNodes  = "BSPMENFIQRLOTD" // see buildTree
)

// buildTree builds the tree at the front of s and returns the rest.
func buildTree(s string) (teal.Expr, []rOp, string) {
	if len(s) == 0 {
		panic("short tree")
	}
	k, s := s[0], s[1:]
	switch k {
	case 'i':
		return teal.Int(7), []rOp{op("int", 7)}, s
	case 'x':
		return teal.Txna(teal.ApplicationArgs, 1), []rOp{op("txna", 26, 1)}, s
	case 'c':
		return teal.Comment("c"), []rOp{{kind: "empty"}}, s
	case 'l':
		return teal.Label("l"), []rOp{lab("l")}, s
	case 'e':
		return []teal.Expr{}, nil, s
	case 'b':
		return teal.Block(), nil, s
	}
	a, wa, s := buildTree(s)
	b, wb, s := buildTree(s)
	both := append(append([]rOp{}, wa...), wb...)
	with := func(pre []rOp, post ...rOp) []rOp { return append(append(append([]rOp{}, pre...), both...), post...) }
	switch k {
	case 'B':
		return teal.Block(a, b), both, s
	case 'S':
		return []teal.Expr{a, b}, both, s
	case 'P':
		return teal.Plus(a, b), with(nil, op("+")), s
	case 'M':
		return teal.Minus(a, b), with(nil, op("-")), s
	case 'E':
		return teal.AssertEq(a, b), with(nil, op("=="), op("assert")), s
	case 'N':
		return &teal.NestedExpr{Label: teal.Label("n"), Body: []teal.Expr{a, b}}, with([]rOp{lab("n")}), s
	case 'F':
		return &teal.FuncExpr{Label: teal.Label("f"), Proto: teal.Proto(1, 2), Block: teal.Block(a, b)}, with([]rOp{lab("f"), op("proto", 1, 2)}), s
	case 'O': // a labelled block inside, of the same name
		return &teal.FuncExpr{Label: teal.Label("f"), Block: &teal.NestedExpr{Label: teal.Label("f"), Body: []teal.Expr{a, b}}}, with([]rOp{lab("f"), lab("f")}), s
	case 'T': // a subroutine without a label, and one without a block
		return &teal.NestedExpr{Body: []teal.Expr{&teal.FuncExpr{Proto: teal.Proto(0, 255), Block: teal.Block(a)}, &teal.FuncExpr{Label: teal.Label("g")}, b}}, append(append(append([]rOp{op("proto", 0, 255)}, wa...), lab("g")), wb...), s
	case 'D': // the same node twice, and a label taken from it
		f := &teal.FuncExpr{Label: teal.Label("l"), Proto: teal.Proto(2, 0), Block: teal.Block(a)}
		w := append([]rOp{lab("l"), op("proto", 2, 0)}, wa...)
		return teal.Block(f, f.Call(b, b), f, f.GetLabel()), append(append(append(append(append([]rOp{}, w...), wb...), wb...), op("callsub", "l")), append(w, lab("l"))...), s
	case 'I':
		return teal.Itxn(a, b), with([]rOp{op("itxn_begin")}, op("itxn_submit")), s
	case 'Q':
		return teal.AssertLtEq(a, b), with(nil, op("<="), op("assert")), s
	case 'R':
		// a in a range, twice the same expression; then b
		w := append(append([]rOp{}, wa...), op("int", 2), op(">="))
		w = append(append(append(w, wa...), op("int", 9), op("<"), op("&&"), op("assert")), wb...)
		return teal.Block(teal.AssertInRange(a, 2, 9), b), w, s
	case 'L':
		w := append(append([]rOp{op("byte", hexv("p")), op("byte", hexv("q"))}, wa...), op("match", "p", "q"))
		return teal.Block(teal.MatchLabels(a, teal.Label("p"), teal.Label("q")), teal.AssertLen(b, 3)), append(append(w, wb...), op("len"), op("int", 3), op("=="), op("assert")), s
	}
	panic(fmt.Sprintf("unknown node %c", k))
}

func checkC03(c string, st *Stats) string {
	e, want, rest := buildTree(c)
	if rest != "" {
		panic("long tree")
	}
	l := teal.Compile([]teal.Expr{e})
	st.Step(len(want) + 1)
	st.State(fmt.Sprint(want))
	if m := cmpOps("compiled tree", obsListing(l), want); m != "" {
		return m
	}
	text := l.String()
	// compiling or optimising changes neither the tree nor another compilation; the tree can be used several times
	l.Optimize()
	if m := cmpOps("compiled again", obsListing(teal.Compile([]teal.Expr{e})), want); m != "" {
		return m
	}
	if t := l.String(); t != text {
		return fmt.Sprintf("the listing printed %q, and %q after being optimised", text, t)
	}
	twice := append(append(append([]rOp{op("err")}, want...), want...), op("err"))
	p := teal.Program{teal.Err, e, []teal.Expr{e}, teal.Err}
	if m := cmpOps("used twice", obsListing(teal.Compile(p)), twice); m != "" {
		return m
	}
	if got, w := p.String(), "err\n"+text+text+"err\n"; got != w {
		return fmt.Sprintf("program prints %q, want %q", got, w)
	}
	return ""
}

// treeSpace: every tree whose root has two subtrees of height at most h-1 (h is 1 or 2).
func treeSpace(name, leaves, nodes string) Space {
	var small []string
	for _, l := range leaves {
		small = append(small, string(l))
	}
	for _, n := range nodes {
		for _, a := range leaves {
			for _, b := range leaves {
				small = append(small, string([]rune{n, a, b}))
			}
		}
	}
	return prodSpace(name, fmt.Sprintf("every expression tree of height up to two over %d leaves and %d constructors", len(leaves), len(nodes)), []int{len(nodes), len(small), len(small)}, func(ix []int) string {
		return string(nodes[ix[0]]) + small[ix[1]] + small[ix[2]]
	}, checkC03)
}

// case: "builder n m": a builder taking any number of values is given the first n of m values the caller keeps using
func checkC03Slices(c string, st *Stats) string {
	var k string
	var n, m int
	fmt.Sscan(c, &k, &n, &m)
	es := make([]teal.Expr, 0, m+3)
	ls := make([]*teal.LabelExpr, 0, m+3)
	var vals, names, bytes []rOp
	var targets []any
	for i := 0; i < m; i++ {
		es = append(es, teal.Int(uint64(100+i)))
		ls = append(ls, teal.Label(fmt.Sprintf("l%d", i)))
		vals = append(vals, op("int", 100+i))
		names = append(names, lab(fmt.Sprintf("l%d", i)))
		bytes = append(bytes, op("byte", hexv(fmt.Sprintf("l%d", i))))
		targets = append(targets, fmt.Sprintf("l%d", i))
	}
	var e teal.Expr
	var want []rOp
	fn := &teal.FuncExpr{Label: teal.Label("f"), Proto: teal.Proto(1, 1), Block: teal.Block(teal.RetSub)}
	switch k {
	case "Block":
		e, want = teal.Block(es[:n]...), vals[:n:n]
	case "Itxn":
		e, want = teal.Itxn(es[:n]...), append(append([]rOp{op("itxn_begin")}, vals[:n]...), op("itxn_submit"))
	case "Call":
		e, want = fn.Call(es[:n]...), append(vals[:n:n], op("callsub", "f"))
	case "Match":
		e, want = teal.Match(ls[:n]...), []rOp{op("match", targets[:n]...)}
	case "Switch":
		e, want = teal.Switch(ls[:n]...), []rOp{op("switch", targets[:n]...)}
	case "MatchLabels":
		e, want = teal.MatchLabels(teal.Itob, ls[:n]...), append(append(append([]rOp{}, bytes[:n]...), op("itob")), op("match", targets[:n]...))
	case "List":
		e, want = es[:n], vals[:n:n]
	}
	st.Step(1)
	st.State(c)
	var all []teal.Expr
	for _, l := range ls {
		all = append(all, l)
	}
	check := func(when string) string {
		if m := cmpOps("values kept by the caller "+when, obsListing(teal.Compile(es)), vals); m != "" {
			return m
		}
		return cmpOps("labels kept by the caller "+when, obsListing(teal.Compile(all)), names)
	}
	if m := check("after building"); m != "" {
		return m
	}
	if m := cmpOps("compiled", obsListing(teal.Compile([]teal.Expr{e, teal.Err})), append(append([]rOp{}, want...), op("err"))); m != "" {
		return m
	}
	l := teal.Compile([]teal.Expr{e})
	_ = append(l, teal.Err)
	l.Optimize()
	if m := check("after compiling"); m != "" {
		return m
	}
	return cmpOps("compiled again", obsListing(teal.Compile([]teal.Expr{e})), want)
}

func init() {
	register(&Prop{ID: "C03", Assumptions: []string{"an expression may be used at several places of a program"}, Spaces: func(tier string) []Space {
		var chains []string
		for _, n := range treeNodes {
			if n == 'D' {
				continue // uses its operands twice
			}
			for k := 1; k <= pick(tier, 60, 400); k++ {
				chains = append(chains, strings.Repeat(string(n)+"i", min(k, 12*1000))+"x")
				if n != 'R' {
					chains = append(chains, strings.Repeat(string(n), k)+strings.Repeat("i", k+1))
				}
			}
		}
		sp := []Space{
			listSpace("builders", "every builder over its argument range, nested and combined", apiCases(tier), checkAPI),
			listSpace("kept values", "builders given some of the values their caller goes on using", func() []string {
				var res []string
				for _, k := range []string{"Block", "Itxn", "Call", "Match", "Switch", "MatchLabels", "List"} {
					for m := 0; m <= 8; m++ {
						for n := 0; n <= m; n++ {
							res = append(res, fmt.Sprintf("%s %d %d", k, n, m))
						}
					}
				}
				return res
			}(), checkC03Slices),
			listSpace("chains", "deep trees of each constructor", chains, checkC03),
		}
		if tier == "thorough" {
			return append(sp, treeSpace("trees", treeLeaves, treeNodes))
		}
		return append(sp, treeSpace("trees", "ixce", treeNodes[:8]), treeSpace("macros", "il", "BPNQRL"))
	}})
}
