package main

// C01: printing and reading back; C02: optimisation.

import (
	"encoding/hex"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/dragmz/teal"
)

// ---------- C01 ----------

// fieldHazard: some numeric field argument denotes a field that may not be named there (its printed name cannot be read back).
func fieldHazard(r *rRes) bool {
	for li, o := range r.listing {
		if strings.Contains(o.name+strings.Join(o.labels, " "), "\"") {
			return true // a quoted string is no label name
		}
		if o.kind != "op" {
			continue
		}
		for i, im := range opTab[o.name].imm {
			if !isFieldKind(im.kind) || i >= len(o.vals) {
				continue
			}
			n, _ := strconv.Atoi(o.vals[i])
			for _, f := range fieldTab[fieldGroup(im.kind)] {
				if f.num == n {
					if min, ok := fieldUsable(im.kind, f); !ok || min > r.inForce[li] {
						return true
					}
				}
			}
		}
	}
	return false
}

func cmpOps(what string, got, want []rOp) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%s has %d entries, want %d", what, len(got), len(want))
	}
	for i := range got {
		if !opEq(got[i], want[i]) {
			return fmt.Sprintf("%s, entry %d:\n  got:  %v\n  want: %v", what, i, clipS(got[i].String()), clipS(want[i].String()))
		}
	}
	return ""
}

// readBack checks that text, as printed for a program with the given entries, reads back as them.
func readBack(text string, want []rOp, parsed bool) string {
	ref := refAnalyze(text)
	if len(ref.parse) > 0 {
		return fmt.Sprintf("printed text is malformed at %v:\n%s", ref.parse[0], clipS(text))
	}
	if e := cmpOps("printed program (by its meaning)", padEmpty(ref.listing, len(want)), want); e != "" {
		return e + "\nprinted:\n" + clipS(text)
	}
	res := teal.Process(text)
	for _, d := range res.Diagnostics {
		if d.Rule() == "PARSE" || d.Rule() == "SYNTAX" {
			return fmt.Sprintf("printed text does not parse: line %d: %s\n%s", d.Line(), d.String(), clipS(text))
		}
	}
	if e := cmpOps("program read back", padEmpty(obsListing(res.Listing), len(want)), want); e != "" {
		return e + "\nprinted:\n" + clipS(text)
	}
	again := res.Listing.String()
	if !parsed {
		// literals lose the spelling they were built with: from the first reading on the text is stable
		return readBack(again, want, true)
	}
	if strings.TrimRight(again, "\n") != strings.TrimRight(text, "\n") {
		return fmt.Sprintf("printing again gives another text:\n  first:  %q\n  second: %q", clipS(text), clipS(again))
	}
	return ""
}

// trailing blank lines may or may not count as entries
func padEmpty(l []rOp, n int) []rOp {
	for len(l) < n {
		l = append(l, rOp{kind: "empty"})
	}
	return l
}

func checkC01(src string, st *Stats) string {
	ref := refAnalyze(src)
	if len(ref.parse) > 0 || fieldHazard(ref) {
		return ""
	}
	res := teal.Process(src)
	for _, d := range res.Diagnostics {
		if d.Rule() == "PARSE" || d.Rule() == "SYNTAX" {
			return "" // accepted programs only; acceptance itself is decided by A05
		}
	}
	text := res.Listing.String()
	st.Step(len(ref.listing))
	st.State(kindSig(ref))
	return readBack(text, ref.listing, true)
}

// ---- construction API ----

func op(name string, vals ...any) rOp {
	o := rOp{kind: "op", name: name}
	for _, v := range vals {
		o.vals = append(o.vals, fmt.Sprint(v))
	}
	return o
}

func lab(n string) rOp { return rOp{kind: "label", name: n} }

func hexv(s string) string { return "0x" + hex.EncodeToString([]byte(s)) }

type built struct {
	e    teal.Expr
	want []rOp
}

// apiBuild interprets a case "builder arg arg ..." (arguments quoted Go strings or numbers).
func apiBuild(c string) built {
	f := strings.Split(c, "\x00")
	n := func(i int) int { v, _ := strconv.Atoi(f[i]); return v }
	u := func(i int) uint64 { v, _ := strconv.ParseUint(f[i], 10, 64); return v }
	// small expressions used as operands, selected by number
	operand := func(k int) (teal.Expr, []rOp) {
		switch k % 6 {
		case 0:
			return teal.Int(7), []rOp{op("int", 7)}
		case 1:
			return teal.Txn(teal.Fee), []rOp{op("txn", 1)}
		case 2:
			return teal.Block(teal.Load(3), teal.Itob), []rOp{op("load", 3), op("itob")}
		case 3:
			return []teal.Expr{teal.StringBytes("a b"), teal.Len}, []rOp{op("byte", hexv("a b")), op("len")}
		case 4:
			return teal.Plus(teal.Int(1), teal.Minus(teal.Int(2), teal.Int(3))), []rOp{op("int", 1), op("int", 2), op("int", 3), op("-"), op("+")}
		}
		return []teal.Expr{teal.Arg(2), teal.Label("in"), teal.Comment("x")}, []rOp{op("txna", 26, 2), lab("in"), {kind: "empty"}}
	}
	labels := func(from int) ([]*teal.LabelExpr, []any) {
		var ls []*teal.LabelExpr
		var vs []any
		for _, s := range f[from:] {
			ls = append(ls, teal.Label(s))
			vs = append(vs, s)
		}
		return ls, vs
	}
	one := func(e teal.Expr, w ...rOp) built { return built{e, w} }
	two := func(mk func(a, b teal.Expr) teal.Expr, tail ...rOp) built {
		a, wa := operand(n(1))
		b, wb := operand(n(2))
		return built{mk(a, b), append(append(append([]rOp{}, wa...), wb...), tail...)}
	}
	switch f[0] {
	case "Load":
		return one(teal.Load(uint8(n(1))), op("load", n(1)))
	case "Store":
		return one(teal.Store(uint8(n(1))), op("store", n(1)))
	case "Cover":
		return one(teal.Cover(uint8(n(1))), op("cover", n(1)))
	case "Uncover":
		return one(teal.Uncover(uint8(n(1))), op("uncover", n(1)))
	case "Arg":
		return one(teal.Arg(uint8(n(1))), op("txna", 26, n(1)))
	case "FrameDig":
		return one(teal.FrameDig(int8(n(1))), op("frame_dig", n(1)))
	case "Proto":
		return one(teal.Proto(uint8(n(1)), uint8(n(2))), op("proto", n(1), n(2)))
	case "Txn":
		return one(teal.Txn(teal.TxnField(n(1))), op("txn", n(1)))
	case "Gtxns":
		return one(teal.Gtxns(teal.TxnField(n(1))), op("gtxns", n(1)))
	case "ItxnField":
		return one(teal.ItxnField(teal.TxnField(n(1))), op("itxn_field", n(1)))
	case "Txna":
		return one(teal.Txna(teal.TxnField(n(1)), uint8(n(2))), op("txna", n(1), n(2)))
	case "Global":
		return one(teal.Global(teal.GlobalField(n(1))), op("global", n(1)))
	case "Int":
		return one(teal.Int(u(1)), op("int", f[1]))
	case "StringBytes":
		return one(teal.StringBytes(f[1]), op("byte", hexv(f[1])))
	case "Comment":
		return one(teal.Comment(f[1]), rOp{kind: "empty"})
	case "Label":
		return one(teal.Label(f[1]), lab(f[1]))
	case "B":
		return one(teal.B(teal.Label(f[1])), op("b", f[1]))
	case "Bz":
		return one(teal.Bz(teal.Label(f[1])), op("bz", f[1]))
	case "Bnz":
		return one(teal.Bnz(teal.Label(f[1])), op("bnz", f[1]))
	case "CallSub":
		return one(teal.CallSub(teal.Label(f[1])), op("callsub", f[1]))
	case "Match":
		ls, vs := labels(1)
		return one(teal.Match(ls...), op("match", vs...))
	case "Switch":
		ls, vs := labels(1)
		return one(teal.Switch(ls...), op("switch", vs...))
	case "MatchLabels":
		e, w := operand(n(1))
		ls, vs := labels(2)
		var want []rOp
		for _, v := range vs {
			want = append(want, op("byte", hexv(v.(string))))
		}
		want = append(append(want, w...), op("match", vs...))
		return built{teal.MatchLabels(e, ls...), want}
	case "Plus":
		return two(teal.Plus, op("+"))
	case "Minus":
		return two(teal.Minus, op("-"))
	case "AssertEq":
		return two(teal.AssertEq, op("=="), op("assert"))
	case "AssertLtEq":
		return two(teal.AssertLtEq, op("<="), op("assert"))
	case "AssertLen":
		e, w := operand(n(1))
		return built{teal.AssertLen(e, u(2)), append(append([]rOp{}, w...), op("len"), op("int", f[2]), op("=="), op("assert"))}
	case "AssertInRange":
		e, w := operand(n(1))
		want := append(append([]rOp{}, w...), op("int", f[2]), op(">="))
		want = append(append(want, w...), op("int", f[3]), op("<"), op("&&"), op("assert"))
		return built{teal.AssertInRange(e, u(2), u(3)), want}
	case "Itxn", "Block", "Nested", "Func", "Call":
		var es []teal.Expr
		var want []rOp
		for i := 1; i < len(f); i++ {
			e, w := operand(n(i))
			es = append(es, e)
			want = append(want, w...)
		}
		switch f[0] {
		case "Itxn":
			return built{teal.Itxn(es...), append(append([]rOp{op("itxn_begin")}, want...), op("itxn_submit"))}
		case "Block":
			return built{teal.Block(es...), want}
		case "Nested":
			return built{&teal.NestedExpr{Label: teal.Label("n"), Body: es}, append([]rOp{lab("n")}, want...)}
		case "Call":
			fn := &teal.FuncExpr{Label: teal.Label("fn"), Proto: teal.Proto(1, 2), Block: teal.Block(teal.RetSub)}
			return built{fn.Call(es...), append(want, op("callsub", "fn"))}
		}
		fn := &teal.FuncExpr{Label: teal.Label("fn"), Proto: teal.Proto(1, 2), Block: teal.Block(es...)}
		return built{[]teal.Expr{fn, teal.CallSub(fn)}, append(append([]rOp{lab("fn"), op("proto", 1, 2)}, want...), op("callsub", "fn"))}
	case "Pragma":
		return one(&teal.PragmaExpr{Version: uint8(n(1))}, rOp{kind: "pragma", vals: []string{f[1]}})
	case "Const":
		return one(constOps[f[1]].e, op(constOps[f[1]].name))
	}
	panic("unknown builder " + f[0])
}

type constOp struct {
	e    teal.Expr
	name string
}

var constOps = map[string]constOp{
	"Err": {teal.Err, "err"}, "Sha3256": {teal.Sha3256, "sha3_256"}, "Sha256": {teal.Sha256, "sha256"}, "Keccak256": {teal.Keccak256, "keccak256"},
	"Sha512256": {teal.Sha512256, "sha512_256"}, "ED25519Verify": {teal.ED25519Verify, "ed25519verify"}, "PlusOp": {teal.PlusOp, "+"}, "MinusOp": {teal.MinusOp, "-"},
	"Div": {teal.Div, "/"}, "Mul": {teal.Mul, "*"}, "Lt": {teal.Lt, "<"}, "Gt": {teal.Gt, ">"}, "Le": {teal.Le, "<="}, "Ge": {teal.Ge, ">="}, "And": {teal.And, "&&"},
	"Or": {teal.Or, "||"}, "Eq": {teal.Eq, "=="}, "Neq": {teal.Neq, "!="}, "Not": {teal.Not, "!"}, "Len": {teal.Len, "len"}, "Itob": {teal.Itob, "itob"}, "Btoi": {teal.Btoi, "btoi"},
	"Modulo": {teal.Modulo, "%"}, "BitOr": {teal.BitOr, "|"}, "BitAnd": {teal.BitAnd, "&"}, "BitXor": {teal.BitXor, "^"}, "BitNot": {teal.BitNot, "~"}, "Mulw": {teal.Mulw, "mulw"},
	"Addw": {teal.Addw, "addw"}, "DivModw": {teal.DivModw, "divmodw"}, "Intc0": {teal.Intc0, "intc_0"}, "Intc1": {teal.Intc1, "intc_1"}, "Intc2": {teal.Intc2, "intc_2"}, "Intc3": {teal.Intc3, "intc_3"},
	"Bytec0": {teal.Bytec0, "bytec_0"}, "Bytec1": {teal.Bytec1, "bytec_1"}, "Bytec2": {teal.Bytec2, "bytec_2"}, "Bytec3": {teal.Bytec3, "bytec_3"}, "Arg0": {teal.Arg0, "arg_0"},
	"Arg1": {teal.Arg1, "arg_1"}, "Arg2": {teal.Arg2, "arg_2"}, "Arg3": {teal.Arg3, "arg_3"}, "BoxGet": {teal.BoxGet, "box_get"}, "BoxPut": {teal.BoxPut, "box_put"}, "BoxDel": {teal.BoxDel, "box_del"},
	"BoxLen": {teal.BoxLen, "box_len"}, "BoxCreate": {teal.BoxCreate, "box_create"}, "BoxReplace": {teal.BoxReplace, "box_replace"}, "BoxExtract": {teal.BoxExtract, "box_extract"},
	"AppLocalGet": {teal.AppLocalGet, "app_local_get"}, "AppLocalPut": {teal.AppLocalPut, "app_local_put"}, "AppGlobalPut": {teal.AppGlobalPut, "app_global_put"}, "AppGlobalGet": {teal.AppGlobalGet, "app_global_get"},
	"AppGlobalGetEx": {teal.AppGlobalGetEx, "app_global_get_ex"}, "AppLocalGetEx": {teal.AppLocalGetEx, "app_local_get_ex"}, "AppLocalDel": {teal.AppLocalDel, "app_local_del"}, "RetSub": {teal.RetSub, "retsub"},
	"Return": {teal.Return, "return"}, "Assert": {teal.Assert, "assert"}, "Dup": {teal.Dup, "dup"}, "Extract16Bits": {teal.Extract16Bits, "extract_uint16"}, "Extract32Bits": {teal.Extract32Bits, "extract_uint32"},
	"Extract64Bits": {teal.Extract64Bits, "extract_uint64"}, "Replace3": {teal.Replace3, "replace3"}, "Ed25519VerifyBare": {teal.Ed25519VerifyBare, "ed25519verify_bare"}, "BitLen": {teal.BitLen, "bitlen"},
	"Expw": {teal.Expw, "expw"}, "Args": {teal.Args, "args"}, "Gloadss": {teal.Gloadss, "gloadss"}, "SetByte": {teal.SetByte, "setbyte"}, "Concat": {teal.Concat, "concat"}, "ItxnBegin": {teal.ItxnBegin, "itxn_begin"},
	"ItxnSubmit": {teal.ItxnSubmit, "itxn_submit"}, "Pop": {teal.Pop, "pop"}, "Swap": {teal.Swap, "swap"}, "Sqrt": {teal.Sqrt, "sqrt"}, "Balance": {teal.Balance, "balance"}, "Exp": {teal.Exp, "exp"}, "Log": {teal.Log, "log"},
	"Extract3": {teal.Extract3, "extract3"}, "ExtractUint64": {teal.ExtractUint64, "extract_uint64"}, "ItxnNext": {teal.ItxnNext, "itxn_next"}, "MinBalanceOp": {teal.MinBalanceOp, "min_balance"}, "Bzero": {teal.Bzero, "bzero"},
	"GetByte": {teal.GetByte, "getbyte"}, "Substring3": {teal.Substring3, "substring3"}, "ShiftLeft": {teal.ShiftLeft, "shl"}, "ShiftRight": {teal.ShiftRight, "shr"}, "GetBit": {teal.GetBit, "getbit"}, "SetBit": {teal.SetBit, "setbit"},
	"BytesMinus": {teal.BytesMinus, "b-"}, "BytesMul": {teal.BytesMul, "b*"}, "BytesDiv": {teal.BytesDiv, "b/"}, "BytesPlus": {teal.BytesPlus, "b+"}, "Gaids": {teal.Gaids, "gaids"}, "Loads": {teal.Loads, "loads"},
	"Stores": {teal.Stores, "stores"}, "Dup2": {teal.Dup2, "dup2"}, "Divw": {teal.Divw, "divw"}, "Select": {teal.Select, "select"}, "Bgteq": {teal.Bgteq, "b>="}, "BytesGt": {teal.BytesGt, "b>"}, "BytesLe": {teal.BytesLe, "b<="},
	"BytesGe": {teal.BytesGe, "b>="}, "BytesEq": {teal.BytesEq, "b=="}, "BytesNeq": {teal.BytesNeq, "b!="}, "BytesModulo": {teal.BytesModulo, "b%"}, "BytesBitOr": {teal.BytesBitOr, "b|"}, "BytesBitAnd": {teal.BytesBitAnd, "b&"},
	"Bsqrt": {teal.Bsqrt, "bsqrt"}, "AppGlobalDel": {teal.AppGlobalDel, "app_global_del"}, "BytesLt": {teal.BytesLt, "b<"}, "Band": {teal.Band, "b&"}, "BytesBitXor": {teal.BytesBitXor, "b^"}, "BytesBitNot": {teal.BytesBitNot, "b~"},
	"BytesZero": {teal.BytesZero, "bzero"}, "AppOptedIn": {teal.AppOptedIn, "app_opted_in"},
}

// checkAPI builds the case alone and between two other instructions, compiles it and reads the text back.
func checkAPI(c string, st *Stats) string {
	b := apiBuild(c)
	head := &teal.PragmaExpr{Version: 10}
	whead := rOp{kind: "pragma", vals: []string{"10"}}
	if strings.HasPrefix(c, "Pragma") {
		st.Step(1)
		return readBack(teal.Program{b.e}.String(), b.want, false)
	}
	want := append(append([]rOp{whead, op("int", 5)}, b.want...), op("err"))
	p := teal.Program{head, teal.Int(5), b.e, teal.Err}
	l := teal.Compile(p)
	st.Step(len(want))
	st.State(fmt.Sprint(b.want))
	if e := cmpOps("compiled program", obsListing(l), want); e != "" {
		return e
	}
	if l.String() != p.String() {
		return fmt.Sprintf("program prints %q, its listing %q", p.String(), l.String())
	}
	return readBack(l.String(), want, false)
}

func apiCases(tier string) []string {
	var res []string
	add := func(parts ...any) {
		var s []string
		for _, p := range parts {
			s = append(s, fmt.Sprint(p))
		}
		res = append(res, strings.Join(s, "\x00"))
	}
	for i := 0; i < 256; i++ {
		for _, n := range []string{"Load", "Store", "Cover", "Uncover", "Arg"} {
			add(n, i)
		}
		add("FrameDig", i-128)
		add("Proto", i, 255-i)
		add("Proto", i, i/2)
		add("StringBytes", string([]byte{byte(i)}))
		if i > 0 {
			add("Pragma", i)
		}
		add("Txna", 26, i)
	}
	for _, fs := range fieldTab["txn"] {
		add("Txn", fs.num)
		add("Gtxns", fs.num)
		if fs.itxVer > 0 {
			add("ItxnField", fs.num)
		}
		if fs.array {
			add("Txna", fs.num, 3)
		}
	}
	for _, fs := range fieldTab["global"] {
		add("Global", fs.num)
	}
	for k := 0; k <= 64; k++ {
		for d := -1; d <= 1; d++ {
			if v := bigPow(k, d); v.Sign() >= 0 && v.BitLen() <= 64 {
				add("Int", v.String())
				add("AssertLen", k, v.String())
				add("AssertInRange", k, v.String(), 64-k)
			}
		}
	}
	bs := []string{"a", `"`, `\`, "\n", "\r", "\t", "/", " ", "\x00", "\xff", "é", ";", "x41", "//"}
	n := pick(tier, 3, 4)
	for i := uint64(0); i < seqCount(len(bs), 0, n); i++ {
		s := ""
		for _, x := range seqAt(len(bs), 0, i) {
			s += bs[x]
		}
		if !strings.Contains(s, "\x00") {
			add("StringBytes", s)
		}
	}
	for _, s := range []string{"", " hello", "/", `"`, "a: b", "#pragma version 3"} {
		add("Comment", s)
	}
	ls := []string{"a", "main_l1", "x.y", "L" + rep("z", 200), "b", "int", "Sender", "1"}
	for _, a := range ls {
		for _, n := range []string{"Label", "B", "Bz", "Bnz", "CallSub", "Match", "Switch"} {
			add(n, a)
		}
		for _, b := range ls {
			add("Match", a, b)
			add("Switch", a, b, a)
			for k := 0; k < 6; k++ {
				add("MatchLabels", k, a, b)
			}
		}
	}
	add("Match")
	add("Switch")
	add("MatchLabels", 0)
	for i := 0; i < 6; i++ {
		for j := 0; j < 6; j++ {
			for _, n := range []string{"Plus", "Minus", "AssertEq", "AssertLtEq", "Itxn", "Block", "Nested", "Func", "Call"} {
				add(n, i, j)
			}
			for k := 0; k < 6; k++ {
				for _, n := range []string{"Itxn", "Block", "Nested", "Func", "Call"} {
					add(n, i, j, k)
				}
			}
		}
	}
	for _, n := range []string{"Itxn", "Block", "Nested", "Func", "Call"} {
		add(n)
	}
	var names []string
	for n := range constOps {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		add("Const", n)
	}
	return res
}

func fieldSlots() (slots []func(v string) string) {
	for _, o := range opNames {
		for k, im := range opTab[o].imm {
			if !isFieldKind(im.kind) {
				continue
			}
			for _, opt := range []bool{false, true} {
				if opt && !(k+1 < len(opTab[o].imm) && opTab[o].imm[k+1].optional) {
					continue
				}
				o, k, opt := o, k, opt
				slots = append(slots, func(v string) string {
					l := o
					for j, im2 := range opTab[o].imm {
						if j == k {
							l += " " + v
						} else if !im2.optional || opt {
							l += " " + defaultArg(im2.kind)
						}
					}
					return l
				})
			}
		}
	}
	return
}

func fieldWords() []string {
	var names []string
	for _, fs := range fieldTab {
		for _, f := range fs {
			names = append(names, f.name)
		}
	}
	sort.Strings(names)
	for v := 0; v <= 255; v++ {
		names = append(names, strconv.Itoa(v))
	}
	return names
}

func init() {
	register(&Prop{ID: "C01", Spaces: func(tier string) []Space {
		slots, words := fieldSlots(), fieldWords()
		enc := encodings()
		ball := []string{"byte", "pushbytes", "bytecblock 0x", "pushbytess"}
		in := func(c string, st *Stats) string {
			return checkC01("#pragma version 10\nlbl:\n"+c+"\nerr\n"+c, st)
		}
		var smalls []string
		for _, o := range opNames {
			for k, im := range opTab[o].imm {
				if im.kind != "u8" && im.kind != "i8" {
					continue
				}
				for v := -128; v <= 255; v++ {
					s := o
					for j, im2 := range opTab[o].imm {
						if j == k {
							s += " " + strconv.Itoa(v)
						} else if !im2.optional || j < k || o == "extract" {
							s += " " + defaultArg(im2.kind)
						}
					}
					smalls = append(smalls, s)
				}
			}
		}
		return []Space{
			opArgsSpace("args", pick(tier, 3, 4), []string{"0", "7", "-3", "255", "a", "Sender", "Accounts", "0x61", `"s\"//"`, "18446744073709551615"}, "", in),
			listSpace("small-ints", "every small-integer argument of every mnemonic, all values", smalls, in),
			prodSpace("fields", "every field argument x every field name and every number 0..255, version 10", []int{len(slots), len(words)}, func(ix []int) string { return slots[ix[0]](words[ix[1]]) }, in),
			prodSpace("bytes", "all 1-byte values and a grid of 2-byte values in every literal form and instruction", []int{len(enc), len(ball), 256 + 1024}, func(ix []int) string {
				v := ix[2]
				b := []byte{byte(v)}
				if v >= 256 {
					v -= 256
					b = []byte{byte(v >> 5 << 3), byte(v&31) << 3}
				}
				return ball[ix[1]] + " " + enc[ix[0]](b)
			}, in),
			prodSpace("byte-len", "byte literals of every length 0..N in every form and instruction", []int{len(enc), len(ball), pick(tier, 130, 600)}, func(ix []int) string {
				b := make([]byte, ix[2])
				for i := range b {
					b[i] = byte(i*37 + ix[2])
				}
				return ball[ix[1]] + " " + enc[ix[0]](b)
			}, in),
			seqSpace("strings", "string literal contents", []string{"a", `\`, `"`, "n", "x", "4", "1", " ", "é", "//", "t", "\xff"}, 0, pick(tier, 4, 5), "", func(s string, st *Stats) string {
				return first(checkC01("#pragma version 8\nbyte \""+s+"\"\npushbytess \""+s+"\" 0x01 \""+s+"\"\nmethod \""+s+"\"", st))
			}),
			seqSpace("byte-arrays", "arrays of byte literals", []string{"0x61", "base64 YQ==", `"a b"`, "b32(ME)", `""`, "0x", "b64(YQ==)", `"\n"`}, 0, pick(tier, 4, 5), " ", func(s string, st *Stats) string {
				return checkC01("#pragma version 8\nbytecblock "+s+"\npushbytess "+s, st)
			}),
			seqSpace("int-arrays", "arrays of integer literals", []string{"0", "1", "0x10", "18446744073709551615", "010", "0b11"}, 0, 4, " ", func(s string, st *Stats) string {
				return checkC01("#pragma version 8\nintcblock "+s+"\npushints "+s, st)
			}),
			listSpace("api", "construction API: every builder over its argument range, nested and combined", apiCases(tier), checkAPI),
			seqSpace("lines", "programs", lineAlphabet, 0, pick(tier, 4, 5), "\n", checkC01),
			seqSpace("good-lines", "accepted programs", []string{"", "int 1", "a:", "b a", "// c", "#pragma version 8", "#pragma version 3", "switch a b", "txn Sender // x", `byte "//"`, "\tcallsub a", "proto 1 2", "//#pragma mode logicsig", "txna Accounts 1", "extract 1 2"}, 0, pick(tier, 4, 5), "\n", checkC01),
			hugeFamilySpace(tier, pick(tier, 140, 600), checkC01),
			opFrameSpaces(checkC01)[0], opFrameSpaces(checkC01)[1], nameSpace(checkC01),
		}
	}})
}

// ---------- C02 ----------

type cfgState struct {
	pc    int
	calls string // return addresses, innermost last
}

// flow is the control-flow semantics of a listing: which instruction comes next from a state.
type flow struct {
	ops    []rOp
	labels map[string]int
}

func newFlow(l []rOp) *flow {
	f := &flow{ops: l, labels: map[string]int{}}
	for i, o := range l {
		if o.kind == "label" {
			f.labels[o.name] = i
		}
	}
	return f
}

const (
	pcEnd   = -1 // fell off the end
	pcUndef = -2 // jumped to an undefined label
	pcLoop  = -3 // branches forever without executing anything else
	pcDone  = -4
)

func (f *flow) target(n string) int {
	if i, ok := f.labels[n]; ok {
		return i
	}
	return pcUndef
}

// settle moves over labels, comments and unconditional branches.
func (f *flow) settle(pc int) int {
	for n := 0; n <= 2*len(f.ops)+2; n++ {
		if pc < 0 {
			return pc
		}
		if pc >= len(f.ops) {
			return pcEnd
		}
		o := f.ops[pc]
		switch {
		case o.kind != "op":
			pc++
		case o.name == "b":
			pc = f.target(o.vals[0])
		default:
			return pc
		}
	}
	return pcLoop
}

type callStack struct {
	ret int
	up  *callStack
	n   int
}

type cpair struct {
	a, b   int
	sa, sb *callStack
}

func (p cpair) key() string {
	var s strings.Builder
	fmt.Fprintf(&s, "%d/%d", p.a, p.b)
	for x, y := p.sa, p.sb; x != nil && y != nil; x, y = x.up, y.up {
		fmt.Fprintf(&s, ",%d/%d", x.ret, y.ret)
	}
	return s.String()
}

// sameBehaviour explores the product of two listings under all branch outcomes.
func sameBehaviour(l, o []rOp, depth int, st *Stats) string {
	fl, fo := newFlow(l), newFlow(o)
	seen := map[string]bool{}
	q := []cpair{{fl.settle(0), fo.settle(0), nil, nil}}
	push := func(a, b int, sa, sb *callStack) {
		p := cpair{fl.settle(a), fo.settle(b), sa, sb}
		if k := p.key(); !seen[k] {
			seen[k] = true
			q = append(q, p)
		}
	}
	for len(q) > 0 {
		p := q[0]
		q = q[1:]
		st.Step(1)
		if p.a < 0 || p.b < 0 {
			if p.a != p.b {
				return fmt.Sprintf("original is at %s where optimised is at %s", where(l, p.a), where(o, p.b))
			}
			continue
		}
		x, y := l[p.a], o[p.b]
		if !opEq(x, y) {
			return fmt.Sprintf("original executes %s where optimised executes %s", where(l, p.a), where(o, p.b))
		}
		switch x.name {
		case "err", "return":
		case "bz", "bnz", "switch", "match":
			push(p.a+1, p.b+1, p.sa, p.sb)
			for i := range x.vals {
				push(fl.target(x.vals[i]), fo.target(y.vals[i]), p.sa, p.sb)
			}
		case "callsub":
			d := 0
			if p.sa != nil {
				d = p.sa.n
			}
			if d < depth {
				push(fl.target(x.vals[0]), fo.target(y.vals[0]), &callStack{p.a + 1, p.sa, d + 1}, &callStack{p.b + 1, p.sb, d + 1})
			}
		case "retsub":
			if p.sa != nil {
				push(p.sa.ret, p.sb.ret, p.sa.up, p.sb.up)
			}
		default:
			push(p.a+1, p.b+1, p.sa, p.sb)
		}
	}
	return ""
}

func where(l []rOp, pc int) string {
	switch pc {
	case pcEnd:
		return "the end of the program"
	case pcUndef:
		return "an undefined label"
	case pcLoop:
		return "an endless branch"
	}
	return fmt.Sprintf("entry %d (%s %q)", pc, l[pc].name, l[pc].vals)
}

func checkC02(src string, st *Stats) string {
	res := teal.Process(src)
	return checkOptimize(res.Listing, st)
}

func checkOptimize(l teal.Listing, st *Stats) string {
	before := obsListing(l)
	seen := map[string]bool{}
	for _, o := range before {
		if o.kind == "label" {
			if seen[o.name] {
				// ambiguous program: only no crash and no change of the input
				l.Optimize()
				return cmpOps("optimising changed its input, which", obsListing(l), before)
			}
			seen[o.name] = true
		}
	}
	text := l.String()
	opt := l.Optimize()
	after := obsListing(opt)
	st.State(opt.String())
	if e := cmpOps("optimising changed its input, which", obsListing(l), before); e != "" {
		return e
	}
	if l.String() != text {
		return "optimising changed how its input prints"
	}
	if e := sameBehaviour(before, after, 4, st); e != "" {
		return e + "\noptimised program:\n" + clipS(opt.String())
	}
	// the optimised program is a program like any other: optimising it again keeps its behaviour
	again := obsListing(opt.Optimize())
	if e := sameBehaviour(before, again, 4, st); e != "" {
		return "optimised twice: " + e
	}
	return ""
}

// checkC02API compiles the lines through shared label objects.
func checkC02API(src string, st *Stats) string {
	ls := map[string]*teal.LabelExpr{}
	get := func(n string) *teal.LabelExpr {
		if ls[n] == nil {
			ls[n] = teal.Label(n)
		}
		return ls[n]
	}
	var p teal.Program
	for _, l := range strings.Split(src, "\n") {
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		switch f[0] {
		case "b":
			p = append(p, teal.B(get(f[1])))
		case "bz":
			p = append(p, teal.Bz(get(f[1])))
		case "callsub":
			p = append(p, teal.CallSub(get(f[1])))
		case "switch":
			p = append(p, teal.Switch(get(f[1]), get(f[2])))
		case "retsub":
			p = append(p, teal.RetSub)
		case "err":
			p = append(p, teal.Err)
		case "return":
			p = append(p, teal.Return)
		case "proto":
			p = append(p, teal.Proto(0, 0))
		case "int":
			p = append(p, teal.Int(1))
		case "//":
			p = append(p, teal.Comment("c"))
		default:
			p = append(p, get(strings.TrimSuffix(f[0], ":")))
		}
	}
	return checkOptimize(teal.Compile(p), st)
}

func init() {
	register(&Prop{ID: "C02", Assumptions: []string{"call depth up to 4 in the product exploration", "programs defining a label twice are ambiguous: only absence of crashes and of input changes is required"}, Spaces: func(tier string) []Space {
		lines := []string{"int 1", "b a", "b c", "a:", "c:", "bz a", "callsub a", "retsub", "return", "err", "// x", "proto 0 0", "switch a c", "d:"}
		small := []string{"int 1", "b a", "a:", "c:", "bz c", "callsub c", "retsub", "return"}
		flows := []string{"int 1\nbz a", "int 2\nbnz b", "b a", "b b", "callsub a", "callsub b", "retsub", "err", "int 3\nreturn", "int 1\nswitch a b", "// c", "u:", "v:\nretsub", "proto 1 1"}
		return []Space{
			seqSpace("lines", "programs", lines, 0, pick(tier, 5, 6), "\n", checkC02),
			seqSpace("lines-deep", "programs over fewer kinds of lines", small, 6, pick(tier, 6, 8), "\n", checkC02),
			flowSpace("flow", pick(tier, 3, 4), flows, checkC02),
			seqSpace("api", "programs built with shared label objects", lines, 0, pick(tier, 4, 5), "\n", checkC02API),
			seqSpace("with-pragma", "programs with pragmas, blank and rejected lines", []string{"#pragma version 8", "", "bogus", "b a", "a:", "int 1", "err", "  // c", "retsub", "callsub a"}, 0, pick(tier, 5, 6), "\n", checkC02),
			hugeFamilySpace(tier, pick(tier, 100, 300), checkC02),
			opFrameSpaces(checkC02)[0], opFrameSpaces(checkC02)[1], nameSpace(checkC02),
		}
	}})
}
