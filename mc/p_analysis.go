package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/dragmz/teal"
)

// ---------- shared alphabets ----------

var byteAlphabet = []string{"a", " ", "\n", "\"", "\\", "/", ":", "\t", "\r", "0", "#", "\xff", "é", "(", "x", "b"}

var tokenAlphabet = []string{"int", "1", "b", "x", "x:", ":", "//c", `"a"`, `"a`, "\n", "\r\n", "#pragma", "version", "9",
	"byte", "0x61", "base32", "switch", "proto", "method", `"`, "txn", "Sender", "err", "//#pragma mode logicsig", "\r", `"a\"b"`, "y:"}

var lineAlphabet = []string{"", "int 1", "a:", "b a", "err", "// c", "b:", "bnz b", "bogus", "int", "int 1 2", "#pragma version 8",
	"a: // d", "\tcallsub a  ", "switch a b zz", `byte "x`, "#pragma version", "return", "txna Sender 0", "  proto 1 2 // p", `byte "//"`}

// sweeps builds one-parameter families: every n in 0..N plus powers of two boundaries.
func sweepNs(n int, big bool) []int {
	var res []int
	for i := 0; i <= n; i++ {
		res = append(res, i)
	}
	for _, p := range []int{128, 256, 512, 1024, 2048, 4096} {
		for d := -1; d <= 1; d++ {
			if p+d > n {
				res = append(res, p+d)
			}
		}
	}
	if big {
		res = append(res, 16384, 65535, 65536, 65537)
	}
	return res
}

type family struct {
	name string
	big  bool
	gen  func(n int) string
}

func rep(s string, n int) string { return strings.Repeat(s, n) }

func numbered(n int, f func(i int) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(f(i))
	}
	return b.String()
}

var families = []family{
	{"blank lines then bad line", true, func(n int) string { return rep("\n", n) + "bogus x\nb zz\n" }},
	{"CRLF blank lines then bad line", true, func(n int) string { return rep("\r\n", n) + "bogus x\r\nb zz\r\n" }},
	{"ints", true, func(n int) string { return rep("int 1\n", n) + "err\nint 2\n" }},
	{"distinct labels and uses", false, func(n int) string {
		return numbered(n, func(i int) string { return fmt.Sprintf("l%d:\n", i) }) + numbered(n, func(i int) string { return fmt.Sprintf("bnz l%d\n", i) })
	}},
	{"distinct unused labels", false, func(n int) string { return numbered(n, func(i int) string { return fmt.Sprintf("l%d:\n", i) }) }},
	{"distinct missing labels", false, func(n int) string { return numbered(n, func(i int) string { return fmt.Sprintf("bnz l%d\n", i) }) }},
	{"same label n times", false, func(n int) string { return rep("dup:\n", n) + "bz dup" }},
	{"uses of one label", true, func(n int) string { return "x:\n" + rep("bz x\n", n) }},
	{"uses of a missing label", true, func(n int) string { return rep("bz x\n", n) }},
	{"label name length", true, func(n int) string { return rep("q", n) + ":\nb " + rep("q", n) + "\nbz " + rep("q", n) + "z" }},
	{"switch width", true, func(n int) string { return "#pragma version 8\na:\nswitch" + rep(" a", n) + "\nmatch" + rep(" zz", n) }},
	{"intcblock width", true, func(n int) string { return "intcblock" + rep(" 7", n) + "\nerr" }},
	{"bytecblock width", true, func(n int) string { return "bytecblock" + rep(" 0x01", n) + "\nerr" }},
	{"leading spaces", true, func(n int) string { return rep(" ", n) + "x:\n" + rep("\t", n) + "b x" + rep(" ", n) + "y" }},
	{"comment lines before label", true, func(n int) string { return rep("// doc\n", n) + "x:\nb x" }},
	{"comment length", true, func(n int) string { return "//" + rep("c", n) + "\nx:\nint 1 //" + rep("d", n) + "\nb x" }},
	{"string length", true, func(n int) string { return `byte "` + rep("s", n) + `"` + "\nbogus" }},
	{"escapes", true, func(n int) string { return `byte "` + rep(`\"`, n) + `" x` + "\nbogus" }},
	{"backslashes", true, func(n int) string { return `byte "` + rep(`\\`, n) + `" x` + "\nbogus" }},
	{"hex length", true, func(n int) string { return "byte 0x" + rep("61", n) + "\nerr" }},
	{"token length", true, func(n int) string { return rep("z", n) + " 1\nerr" }},
	{"number length", true, func(n int) string { return "int " + rep("0", n) + "7\npushint " + rep("9", n) }},
	{"surplus args", true, func(n int) string {
		return "err" + rep(" x", n) + "\nint 1" + rep(" 1", n) + "\nx:\nb x" + rep(" y", n)
	}},
	{"unterminated strings", true, func(n int) string { return rep("byte \"a\n", n) + "int 1\nb zz" }},
	{"bad lines", true, func(n int) string { return rep("bogus\n", n) + "int 1\nint 2 3\nx:" }},
	{"loop length", true, func(n int) string { return "x:\n" + rep("int 1\npop\n", n) + "b x\nint 9" }},
	{"gap before target", true, func(n int) string { return "b x\n" + rep("// c\n\n", n) + "x:\nerr\n" + rep("int 1\n", n%50) }},
	{"dead code length", true, func(n int) string { return "return\n" + rep("int 1\n", n) + "x:\nint 1\ny:\nint 2\nb y" }},
	{"pragma after n", true, func(n int) string {
		return rep("// c\n", n) + "#pragma version 5\n" + rep("int 1\n", n) + "#pragma version 6\nbury 1"
	}},
	{"mode after n", true, func(n int) string { return rep("log\n", n) + "//#pragma mode logicsig\nlog\narg_0" }},
	{"versions 8 ops", true, func(n int) string { return rep("bury 1\n", n) + "#pragma version 8\nbury 1" }},
	{"gaps between words", true, func(n int) string {
		g := rep(" ", n)
		return " byte " + g + "0x6162 " + g + "// c\nx:\n txn " + g + "1\nswitch x " + g + "x\n#pragma " + g + "version 8\nbyte " + g + "base64 " + g + "YQ==\nbnz " + rep("\t", n) + " x"
	}},
	{"encoded constants", false, func(n int) string {
		return "bytecblock" + rep(" b32 MFRA", n) + "\npushbytess" + rep(" base64(YQ==)", n) + " " + rep("0x61 ", n) + "\nerr"
	}},
	{"nested labels in loop", false, func(n int) string {
		return "top:\n" + numbered(n, func(i int) string { return fmt.Sprintf("bnz in%d\nin%d:\n", i, i) }) + "b top"
	}},
	{"named values", false, func(n int) string { return "#pragma version 8\n" + rep("txn 1\nglobal 0\n", n) + "err" }},
	{"pragmas", false, func(n int) string {
		return rep("#pragma version 8\n", n) + "#pragma " + rep("v", n) + " 8\nbury 1\n" + rep("#pragma version 5\nbury 1\n", n%40)
	}},
	{"loops", false, func(n int) string {
		return numbered(n, func(i int) string { return fmt.Sprintf("in%d:\nint 1\npop\nb in%d\n", i, i) })
	}},
	{"pointless branches", false, func(n int) string {
		return numbered(n, func(i int) string { return fmt.Sprintf("b in%d\n\n//\nin%d:\nbnz x\n", i, i) }) + "x:"
	}},
	{"documented subroutines", false, func(n int) string {
		return numbered(n, func(i int) string {
			return fmt.Sprintf("callsub s%d\nreturn\n// doc %d\ns%d:\nproto %d %d\nretsub\n", i, i, i, i%256, i/2%256)
		})
	}},
	{"wide text", false, func(n int) string { return "byte \"" + rep("é", n) + "\" // " + rep("€", n) + "\nint 1 2\n" }},
	{"distinct switch targets", false, func(n int) string {
		l := func(f string) string {
			return numbered(n, func(i int) string { return strings.ReplaceAll(f, "%", strconv.Itoa(i)) })
		}
		return "#pragma version 8\nint 1\nswitch" + l(" l%") + "\nint 1\nmatch" + l(" m%") + "\nint 9\nreturn\n" + l("l%:\nint %\nreturn\nm%:\nint %\nreturn\n")
	}},
	{"rows with comments", false, func(n int) string {
		return "#pragma version 8\na:\nswitch" + rep(" a", n) + " // c d\nintcblock" + rep(" 1", n) + "// 2 c\npushbytess" + rep(" \"//\"", n) + " //\nbogus" + rep(" x", n) + " // y\nb a"
	}},
	{"mixed values", false, func(n int) string {
		return "#pragma version 8\n" + rep("txn 1\nbyte 0x6162\nu:\nb zz\nglobal 1\n", n) + "pushbytess" + rep(" 0x61", n)
	}},
	{"mixed line ends", false, func(n int) string { return rep("int 1\r\nbogus\nx\r", n) + "b zz" }},
}

func familySpace(tier string, n int, check func(string, *Stats) string) Space {
	return familySpaceTo(tier, n, false, check)
}

// hugeFamilySpace also has parameters beyond 16 bits in the quick tier.
func hugeFamilySpace(tier string, n int, check func(string, *Stats) string) Space {
	return familySpaceTo(tier, n, true, check)
}

func familySpaceTo(tier string, n int, huge bool, check func(string, *Stats) string) Space {
	var cases []string
	type ent struct{ f, n int }
	var es []ent
	for fi, f := range families {
		for _, k := range sweepNs(n, f.big) {
			if tier != "thorough" && k > 1100 && (!f.big || k > 5000 && (k != 65537 || !huge)) {
				continue
			}
			if !f.big && k > 1100 {
				continue
			}
			es = append(es, ent{fi, k})
		}
	}
	_ = cases
	return Space{Name: "families", Desc: fmt.Sprintf("%d one-parameter program families, every parameter 0..%d and power-of-two neighbours", len(families), n), N: uint64(len(es)),
		At:    func(i uint64) string { return fmt.Sprintf("family %d %d", es[i].f, es[i].n) },
		Check: func(c string, st *Stats) string { return check(expandFamily(c), st) }}
}

func expandFamily(c string) string {
	var f, n int
	fmt.Sscanf(c, "family %d %d", &f, &n)
	return families[f].gen(n)
}

func pick(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

// defaultArgs gives valid immediates for every mnemonic.
func defaultArg(kind string) string {
	switch kind {
	case "u8", "i8", "u64", "const":
		return "1"
	case "bytes":
		return "0x61"
	case "label":
		return "lbl"
	case "sig":
		return `"f()void"`
	case "addr":
		return zeroAddr
	case "txna":
		return "Accounts"
	case "itxn":
		return "Sender"
	}
	return fieldTab[fieldGroup(kind)][0].name
}

const zeroAddr = "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQ"

func defaultLine(op string) string {
	s := op
	for _, im := range opTab[op].imm {
		if im.optional {
			break
		}
		s += " " + defaultArg(im.kind)
	}
	return s
}

type rng struct{ sl, sc, el, ec int }

func (r rng) StartLine() int      { return r.sl }
func (r rng) StartCharacter() int { return r.sc }
func (r rng) EndLine() int        { return r.el }
func (r rng) EndCharacter() int   { return r.ec }

// ---------- A01 ----------

func queryAll(res *teal.ProcessResult, lines, cols int, st *Stats) {
	const huge = 1 << 40
	ls := []int{-huge, -2, -1}
	for l := 0; l <= lines+1 && l < 6; l++ {
		ls = append(ls, l)
	}
	ls = append(ls, lines, lines+1, huge)
	cs := []int{-huge, -1}
	for c := 0; c <= cols+1 && c < 8; c++ {
		cs = append(cs, c)
	}
	cs = append(cs, cols, cols+1, huge)
	for _, l := range ls {
		for _, c := range cs {
			res.ArgAt(l, c)
			res.ArgValsAt(l, c)
			res.DocAt(l, c)
			p := rng{l, c, l, c}
			res.SymOrRefAt(p)
			res.SymbolsWithin(p)
			res.SymbolRefsWithin(p)
			res.SymbolsForRefWithin(p)
			res.InlayHints(p)
			st.Step(8)
		}
	}
	for _, rg := range []rng{{-huge, -huge, huge, huge}, {0, 0, huge, 0}, {-huge, 0, -1, 5}, {lines, 0, huge, huge}, {huge, 0, -huge, 0}, {0, huge, huge, -huge}} {
		res.InlayHints(rg)
		res.SymOrRefAt(rg)
		res.SymbolsWithin(rg)
		res.SymbolRefsWithin(rg)
		res.SymbolsForRefWithin(rg)
		st.Step(5)
	}
	for _, n := range []string{"", "a", "zz"} {
		res.SymByName(n)
		res.SymRefByName(n)
	}
}

func checkA01(src string, st *Stats) string {
	res := teal.Process(src)
	ref := refAnalyze(src)
	if len(res.Listing) != len(ref.rows) {
		return fmt.Sprintf("listing has %d entries, text has %d lines", len(res.Listing), len(ref.rows))
	}
	if len(res.Lines) != len(ref.rows) {
		return fmt.Sprintf("%d token rows, text has %d lines", len(res.Lines), len(ref.rows))
	}
	for i, o := range res.Listing {
		if o == nil {
			return fmt.Sprintf("listing entry %d is nil", i)
		}
		// entries in line order: a label or instruction entry belongs to its own line
		g := obsOp(o)
		w := ref.listing[i]
		if g.kind != w.kind {
			return fmt.Sprintf("entry %d is %s, line %q is %s", i, g, ref.lines[i].text, w)
		}
		for _, t := range res.Lines[i] {
			if t.Line() != i {
				return fmt.Sprintf("token row %d holds a token of line %d", i, t.Line())
			}
		}
	}
	cols := 0
	for _, l := range ref.lines {
		if len(l.text) > cols {
			cols = len(l.text)
		}
	}
	queryAll(res, len(ref.rows), cols, st)
	st.Step(len(ref.rows))
	st.State(kindSig(ref))
	return ""
}

// kindSig is a coarse canonical form of an outcome, used only to count distinct behaviours.
func kindSig(r *rRes) string {
	var b strings.Builder
	for _, o := range r.listing {
		b.WriteString(o.kind)
		b.WriteString(o.name)
		b.WriteByte(' ')
	}
	for _, d := range sortedDiags(r.parse, r.gate, r.lint) {
		b.WriteString(d)
		b.WriteByte(';')
	}
	return b.String()
}

func opArgsSpace(name string, maxLen int, alphabet []string, prefix string, check func(string, *Stats) string) Space {
	k := seqCount(len(alphabet), 0, maxLen)
	return Space{Name: name, Desc: fmt.Sprintf("every mnemonic with every argument list of length 0..%d over %d values", maxLen, len(alphabet)),
		N: k * uint64(len(opNames)),
		At: func(i uint64) string {
			op := opNames[i%uint64(len(opNames))]
			s := prefix + op
			for _, x := range seqAt(len(alphabet), 0, i/uint64(len(opNames))) {
				s += " " + alphabet[x]
			}
			return s
		}, Check: check}
}

var opFrames = []string{
	"a:\nX\nproto 1 2\nb a", "// d\nX\na:\nX\nb a\nX\n", "return\nX\nc:\nX\nb c", "#pragma version 9\nX\n#pragma version 8\nX", "X\n#pragma version 9\nX",
	"b a\nX\na:\nX", "err\nX\nb a\nX\na:", "a:\nb b\nX\nb:\nX\nb a", "//#pragma mode logicsig\n// c\nX\na:\nX", "#pragma version 10\nc:\nX", "X", "X // c\nX\n//\nX",
	"#pragma version 5\nX\nlbl:\nX\nlbl2:\nX", "lbl:\nX\nb lbl", "b lbl\nX\nlbl:",
}

// Label names that are easily taken for one another, or for something else.
var labelNames = []string{"a", "A", "aa", "ab", "ba", "a1", "1a", "_a", "a_", "é", "è", "É", "e", "x:y", "x", "a.b", "a-b", "0", "00", "1", "0x1", "int", "retsub", "b", "Int", "a/b", "a\"b", "#a", "base64", "(a)", "😀",
	strings.Repeat("n", 64) + "a", strings.Repeat("n", 64) + "b", strings.Repeat("n", 64), strings.Repeat("n", 255) + "a", strings.Repeat("n", 255) + "b", strings.Repeat("n", 256)}

var nameFrames = []string{"b N\nint 1\nM:\nint 2\nN:\nint 3\nbz M\nerr", "b N\nM:\nint 1\nN:\n", "N:\nint 1\nb M\nM:", "int 1\nbz N\nint 1\nreturn\nM:\nint 2\nreturn\nN:\nint 3",
	"callsub N\nint 1\nreturn\nM:\nint 2\nretsub\nN:\ncallsub M\nretsub", "int 1\nswitch M N\nerr\nN:\nint 2\nreturn\nM:\nint 3\n", "N:\nM:\nb N"}

// nameSpace has every pair of label names in small programs.
func nameSpace(check func(string, *Stats) string) Space {
	n := len(labelNames)
	return prodSpace("label names", "every pair of label names (similar ones, long ones, ones like other words) in small programs", []int{len(nameFrames), n, n}, func(ix []int) string {
		return "#pragma version 8\n" + strings.NewReplacer("N", labelNames[ix[1]], "M", labelNames[ix[2]]).Replace(nameFrames[ix[0]])
	}, check)
}

// opFrameSpaces puts every mnemonic, and every pair of them, into small programs.
func opFrameSpaces(check func(string, *Stats) string) []Space {
	n := len(opNames)
	return []Space{
		prodSpace("mnemonics in place", "every mnemonic in every place of small programs", []int{len(opFrames), n}, func(ix []int) string {
			return strings.ReplaceAll(opFrames[ix[0]], "X", defaultLine(opNames[ix[1]]))
		}, check),
		prodSpace("mnemonic pairs", "every pair of mnemonics, in a loop and after it", []int{n, n}, func(ix []int) string {
			x, y := defaultLine(opNames[ix[0]]), defaultLine(opNames[ix[1]])
			return "#pragma version 7\n// d\na:\n" + x + "\n" + y + "\nb a\n" + y + "\n" + x
		}, check),
	}
}

func init() {
	register(&Prop{ID: "A01", Assumptions: []string{"texts outside the alphabets and bounds listed in coverage.spaces are not explored"},
		Spaces: func(tier string) []Space {
			return []Space{
				seqSpace("bytes", "raw text", byteAlphabet, 0, pick(tier, 4, 5), "", checkA01),
				seqSpace("tokens", "tokens joined by spaces", tokenAlphabet, 0, pick(tier, 3, 4), " ", checkA01),
				seqSpace("lines", "lines", lineAlphabet, 0, pick(tier, 3, 4), "\n", checkA01),
				mapSpace(seqSpace("lines-crlf", "lines ended by CRLF", lineAlphabet, 0, pick(tier, 3, 4), "\r\n", checkA01), func(s string) string { return s + "\r\n" }),
				opArgsSpace("opargs", pick(tier, 2, 3), []string{"0", "1", "x", "Sender", "256", `"`, "0x61", "-1", "\n"}, "", checkA01),
				hugeFamilySpace(tier, pick(tier, 140, 600), checkA01),
				opFrameSpaces(checkA01)[0], opFrameSpaces(checkA01)[1],
			}
		}})
}

// ---------- A02 ----------

func checkA02(src string, st *Stats) string {
	want := refAnalyze0(src)
	lx := &teal.Lexer{Source: []byte(src)}
	var got []rTok
	limit := len(src) + 4
	for lx.Scan() {
		got = append(got, obsTok(lx.Curr()))
		if len(got) > limit {
			return "more tokens than characters"
		}
	}
	if len(src) < 200 {
		st.State(fmt.Sprint(got))
	}
	st.Step(len(got))
	if len(got) != len(want) {
		return fmt.Sprintf("tokens differ:\n  got:  %v\n  want: %v", clip(got), clip(want))
	}
	for i := range got {
		if !tokEq(got[i], want[i]) {
			return fmt.Sprintf("token %d differs:\n  got:  %v\n  want: %v", i, got[i], want[i])
		}
	}
	nbroken := 0
	for _, t := range want {
		if t.broken {
			nbroken++
		}
	}
	if n := len(lx.Errors()); (n > 0) != (nbroken > 0) || n != nbroken {
		return fmt.Sprintf("%d lexical errors, %d unterminated strings", n, nbroken)
	}
	// going back and forth over the tokens gives the same tokens
	if len(got) > 0 && len(got) < 64 {
		for i := len(got) - 1; i >= 0; i-- {
			if !lx.Return() {
				return "cannot go back"
			}
			if !tokEq(obsTok(lx.Curr()), want[i]) {
				return fmt.Sprintf("going back to token %d gives %v", i, obsTok(lx.Curr()))
			}
		}
	}
	// the analysis reports the same tokens
	if len(src) < 400 {
		if pt := obsToks(teal.Process(src).Tokens); !toksEq(pt, want) {
			return fmt.Sprintf("analysis tokens differ:\n  got:  %v\n  want: %v", pt, want)
		}
	}
	// losslessness, independent of the reference lexer
	return checkLossless(src, got)
}

func clip(ts []rTok) []rTok {
	if len(ts) > 30 {
		return ts[:30]
	}
	return ts
}

func refAnalyze0(src string) []rTok {
	var res []rTok
	for li, l := range splitSource(src) {
		res = append(res, lexLine(l.text, li)...)
		if l.eol != "" {
			res = append(res, rTok{val: l.eol, line: li, b: len(l.text), e: len(l.text) + len(l.eol), kind: "EOL"})
		}
	}
	return res
}

func checkLossless(src string, ts []rTok) string {
	// walk tokens by absolute offset
	lineStart := 0
	line := 0
	pos := 0
	for _, t := range ts {
		if t.line != line {
			return fmt.Sprintf("token %v not on line %d", t, line)
		}
		b, e := lineStart+t.b, lineStart+t.e
		if b < pos || e < b || e > len(src) {
			return fmt.Sprintf("token %v out of order or out of text", t)
		}
		if strings.Trim(src[pos:b], " \t") != "" {
			return fmt.Sprintf("text %q lost before %v", src[pos:b], t)
		}
		pos = e
		if t.kind == "EOL" {
			line++
			lineStart = e
			if src[b:e] != "\n" && src[b:e] != "\r\n" && src[b:e] != "\r" {
				return fmt.Sprintf("line end token covers %q", src[b:e])
			}
		} else if strings.ContainsAny(src[b:e], "\r\n") {
			return fmt.Sprintf("token %v spans lines", t)
		}
	}
	if strings.Trim(src[pos:], " \t") != "" {
		return fmt.Sprintf("text %q lost at the end", src[pos:])
	}
	return ""
}

func init() {
	register(&Prop{ID: "A02", Spaces: func(tier string) []Space {
		ctx := []string{"%s", "a%s", "%sa", `"%s"`, `"%s`, "//%s", "a %s b", "%s\n%s", "x:%s", `"a"%s"b"`}
		return []Space{
			seqSpace("bytes", "raw text", byteAlphabet[:14], 0, pick(tier, 5, 6), "", checkA02),
			prodSpace("all-bytes", "all pairs of byte values in 10 contexts", []int{len(ctx), 256, 257}, func(ix []int) string {
				s := string([]byte{byte(ix[1])})
				if ix[2] < 256 {
					s += string([]byte{byte(ix[2])})
				}
				return strings.ReplaceAll(ctx[ix[0]], "%s", s)
			}, checkA02),
			seqSpace("strings", "string literal contents", []string{"a", `\`, `"`, " ", "\n", "//", "\r", "\t", "n"}, 0, pick(tier, 6, 7), "", func(s string, st *Stats) string {
				return checkA02(`byte "`+s+`" x // y`, st)
			}),
			seqSpace("tokens", "tokens joined by spaces", tokenAlphabet, 0, pick(tier, 3, 4), " ", checkA02),
			hugeFamilySpace(tier, pick(tier, 300, 1200), checkA02),
			opFrameSpaces(checkA02)[0], opFrameSpaces(checkA02)[1],
		}
	}})
}

// ---------- A03 ----------

func dumpResult(r *teal.ProcessResult) string {
	var b strings.Builder
	fmt.Fprintf(&b, "mode=%v version=%d\n", r.Mode, r.Version)
	if r.VersionToken != nil {
		fmt.Fprintf(&b, "vtok=%v\n", obsTok(*r.VersionToken))
	}
	for _, v := range r.Versions {
		fmt.Fprintf(&b, "ver %+v\n", v)
	}
	for _, d := range r.Diagnostics {
		fmt.Fprintf(&b, "diag %v %s\n", obsDiag(d), d.String())
	}
	for _, s := range r.Symbols {
		fmt.Fprintf(&b, "sym %s %d %d %d %q %q\n", s.Name(), s.Line(), s.Begin(), s.End(), s.Docs(), s.Signature())
	}
	toks := func(n string, ts []teal.Token) {
		for _, t := range ts {
			fmt.Fprintf(&b, "%s %v\n", n, obsTok(t))
		}
	}
	toks("ref", r.SymbolRefs)
	toks("miss", r.MissRefs)
	toks("tok", r.Tokens)
	toks("op", r.Ops)
	toks("num", r.Numbers)
	toks("str", r.Strings)
	toks("key", r.Keywords)
	toks("mcr", r.Macros)
	for _, l := range r.Lines {
		toks("line", l)
		b.WriteByte('\n')
	}
	for _, o := range r.Listing {
		fmt.Fprintf(&b, "entry %v | %s\n", obsOp(o), o.String())
	}
	for _, x := range r.Redundants {
		fmt.Fprintf(&b, "red %d %s\n", x.Line(), x.String())
	}
	var ks []string
	for k, v := range r.RefCounts {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	fmt.Fprintf(&b, "refc %q\n", ks)
	for l := -1; l <= len(r.Lines); l++ {
		for c := 0; c < 12; c += 3 {
			fmt.Fprintf(&b, "doc %q sym %q ", r.DocAt(l, c), r.SymOrRefAt(rng{l, c, l, c}))
			h := r.InlayHints(rng{l, c, l, c})
			fmt.Fprintf(&b, "hints %d %d\n", len(h.Named), len(h.Decoded))
			var vs []string
			for _, v := range r.ArgValsAt(l, c) {
				vs = append(vs, v.Name+"|"+v.Docs)
			}
			// the candidates for integer constants come from a map: their order is free
			if l >= 0 && l < len(r.Lines) && len(r.Lines[l]) > 0 && strings.Contains(r.Lines[l][0].String(), "int") {
				sort.Strings(vs)
			}
			fmt.Fprintf(&b, "vals %q\n", vs)
		}
	}
	return b.String()
}

// useResult exercises everything a client may do with a result.
func useResult(r *teal.ProcessResult) {
	_ = r.Listing.String()
	r.Listing.Lint()
	r.Listing.Optimize()
	vm := teal.NewVm(r)
	for i := 0; i < 40 && vm.Branch != nil && vm.Error == nil; i++ {
		vm.Step()
		if len(vm.Branches) > 40 {
			break
		}
	}
	var st Stats
	st.states = map[uint64]struct{}{}
	queryAll(r, len(r.Lines), 5, &st)
}

func checkA03(c string, st *Stats) string {
	parts := strings.SplitN(c, "\x00", 2)
	src := parts[0]
	other := ""
	if len(parts) > 1 {
		other = parts[1]
	}
	r0 := teal.Process(src)
	d0 := dumpResult(r0)
	st.State(d0)
	for k := 0; k < 5; k++ {
		ro := teal.Process(other)
		useResult(ro)
		if d := dumpResult(teal.Process(src)); d != d0 {
			return "a later analysis of the same text differs:\n" + firstDiff(d0, d)
		}
		st.Step(1)
	}
	useResult(r0)
	if d := dumpResult(r0); d != d0 {
		return "using a result changed it:\n" + firstDiff(d0, d)
	}
	if d := dumpResult(teal.Process(src)); d != d0 {
		return "using a result changed a later analysis:\n" + firstDiff(d0, d)
	}
	// concurrent analyses
	var wg sync.WaitGroup
	out := make([]string, 3)
	for k := range out {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if k == 2 {
				teal.Process(other)
				out[k] = d0
				return
			}
			out[k] = dumpResult(teal.Process(src))
		}()
	}
	wg.Wait()
	for _, o := range out {
		if o != d0 {
			return "concurrent analysis differs:\n" + firstDiff(d0, o)
		}
	}
	st.Step(3)
	return ""
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "", ""
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("  line %d:\n  first: %s\n  now:   %s", i, x, y)
		}
	}
	return ""
}

var purityTexts = []string{
	"", "int 1", "a:\nb:\nc:\nd:", "bz a\nbz b\nbz c\nbz d", "a:\na:\nb:\nb:\nc:\nc:\nb a", "#pragma version 8\n//#pragma mode logicsig\narg_0\n// doc\nx:\nproto 1 2\ncallsub x\nretsub",
	"a:\nb a", "log\nbogus\nint x\nbyte \"a", "// d1\n// d2\nsub:\nproto 3 4\nretsub\nother:\ncallsub sub", "#pragma version 3\nbury 1\n#pragma version 9\nbury 1", "switch a b c\nmatch d e f\nb g",
	"x:\nbnz x\nb x\ny:\nint 1\nb y\nz:\nb z\nb y", "intcblock 1 2 3\nbytecblock 0x01 0x02\nbyte base64 YQ==\nmethod \"a()void\"",
	"store 1\nload 1\nint 1\nbz q\nint 2\nstore 1\nq:\nload 1\nreturn", "replace\nextract\nerr\nerr\nsha256\nsha256", "sub:\nproto 1 1\nb sub\nsub:\nproto 9 9",
	"txn \ntxna \nglobal \nitxn_field \nint ", "#pragma version 3\ntxn \nasset_params_get \nglobal ", "#pragma version 8\ntxn \nasset_params_get \nacct_params_get \nbyte ", "#pragma version 5\n//#pragma mode logicsig\ntxn \ngtxnsa 0 \nitxn \necdsa_verify ",
}

func init() {
	register(&Prop{ID: "A03", Assumptions: []string{"the concurrent analyses run under the race detector: goroutines that share no unsynchronised memory have one equivalence class of interleavings, so a schedule without a race report stands for all of them; state shared under locks or atomics is only compared by its results"}, Spaces: func(tier string) []Space {
		n := len(purityTexts)
		var prod []int
		prod = []int{n, n}
		if tier == "thorough" {
			prod = []int{n, n, n}
		}
		lines := []string{"a:", "b:", "c:", "bz a", "bz b", "bz c", "b d", "int 1", "a: //x", "// doc", "proto 1 2", "#pragma version 8"}
		return []Space{
			prodSpace("pairs", "all texts analysed after/with all other texts", prod, func(ix []int) string {
				o := purityTexts[ix[1]]
				if len(ix) > 2 {
					o += "\n" + purityTexts[ix[2]]
				}
				return purityTexts[ix[0]] + "\x00" + o
			}, checkA03),
			seqSpace("lines", "programs analysed repeatedly", lines, 0, pick(tier, 3, 4), "\n", func(s string, st *Stats) string {
				return checkA03(s+"\x00"+"x:\ny:\nbz a\nbz b\nint 1\nproto 5 6", st)
			}),
			prodSpace("labels", "1..40 labels/uses/duplicates/missing", []int{40, 4}, func(ix []int) string {
				k := ix[0] + 1
				switch ix[1] {
				case 0:
					return numbered(k, func(i int) string { return fmt.Sprintf("l%d:\n", i) }) + "\x00"
				case 1:
					return numbered(k, func(i int) string { return fmt.Sprintf("bz l%d\n", i) }) + "\x00x:"
				case 2:
					return numbered(k, func(i int) string { return fmt.Sprintf("l%d:\nl%d:\n", i, i) }) + "\x00"
				}
				return "switch" + numbered(k, func(i int) string { return fmt.Sprintf(" l%d", i) }) + "\x00"
			}, checkA03),
		}
	}})
}

// ---------- A04 ----------

func checkDiagShape(res *teal.ProcessResult, ref *rRes) string {
	for _, d := range res.Diagnostics {
		o := obsDiag(d)
		if o.line < 0 || o.line >= len(ref.lines) {
			return fmt.Sprintf("diagnostic %v %q on a line that does not exist", o, d.String())
		}
		if o.b < 0 || o.b > o.e || o.e > len(ref.lines[o.line].text) {
			return fmt.Sprintf("diagnostic %v %q outside its line %q", o, d.String(), ref.lines[o.line].text)
		}
		if o.sev < 1 || o.sev > 4 || o.rule == "" || d.String() == "" {
			return fmt.Sprintf("diagnostic %v %q lacks severity, rule or message", o, d.String())
		}
	}
	return ""
}

func syntaxOnly(r string) bool { return r == "SYNTAX" }

func checkA04(src string, st *Stats) string { return checkA04k(src, []int{1, 3}, st) }

func checkA04k(src string, ks []int, st *Stats) string {
	res := teal.Process(src)
	ref := refAnalyze(src)
	if m := checkDiagShape(res, ref); m != "" {
		return m
	}
	all := func(string) bool { return true }
	got := diagStrings(diagsWhere(res, all), syntaxOnly)
	want := diagStrings(append(append(append([]rDiag{}, ref.parse...), ref.gate...), ref.lint...), syntaxOnly)
	st.State(strings.Join(got, ";"))
	st.Step(1)
	if m := diffStr("diagnostics", got, want); m != "" {
		return m
	}
	// an unterminated string is reported somewhere in that string (which always ends its line)
	at := map[int]rDiag{}
	for _, g := range diagsWhere(res, syntaxOnly) {
		at[g.line] = g
	}
	for _, d := range ref.parse {
		if g := at[d.line]; d.rule == "SYNTAX" && (g.b < d.b || g.e > d.e) {
			return fmt.Sprintf("unterminated string at %d:%d-%d reported at %d-%d", d.line, d.b, d.e, g.b, g.e)
		}
	}
	base := diagMsgs(res, 0)
	for _, k := range ks {
		for i, nl := range []string{"\n", "\r\n", " \t\n"} {
			if len(src) > 60000 && (k != ks[0] || i > 0) {
				break // once is enough for the very long texts
			}
			r2 := teal.Process(rep(nl, k) + src)
			st.Step(1)
			if m := diffStr(fmt.Sprintf("diagnostics after inserting %d lines (%q)", k, nl), diagMsgs(r2, k), base); m != "" {
				return m
			}
		}
	}
	return ""
}

func diagMsgs(r *teal.ProcessResult, shift int) []string {
	var res []string
	for _, d := range r.Diagnostics {
		o := obsDiag(d)
		o.line -= shift
		res = append(res, o.String()+" "+d.String())
	}
	return sorted(res)
}

func init() {
	register(&Prop{ID: "A04", Spaces: func(tier string) []Space {
		return []Space{
			seqSpace("bytes", "raw text", byteAlphabet[:12], 0, pick(tier, 4, 5), "", checkA04),
			seqSpace("tokens", "tokens joined by spaces", tokenAlphabet, 0, pick(tier, 3, 4), " ", checkA04),
			seqSpace("lines", "lines", lineAlphabet, 0, pick(tier, 3, 4), "\n", checkA04),
			opArgsSpace("opargs", pick(tier, 2, 3), []string{"0", "x", "Sender", "256", `"s"`, "-1", "//c"}, "  ", checkA04),
			prodSpace("shift", "inserted line counts 0..300 before 12 texts", []int{12, pick(tier, 300, 3000)}, func(ix []int) string {
				return fmt.Sprintf("%d\x00%s", ix[1], purityTexts[ix[0]+1]+"\nbogus\n x:\nint 300 1")
			}, func(c string, st *Stats) string {
				p := strings.SplitN(c, "\x00", 2)
				k, _ := strconv.Atoi(p[0])
				return checkA04k(p[1], []int{k}, st)
			}),
			hugeFamilySpace(tier, pick(tier, 100, 400), checkA04),
			opFrameSpaces(checkA04)[0], opFrameSpaces(checkA04)[1],
		}
	}})
}

// ---------- A05 / A06 / A07 / A08 shared comparison ----------

func cmpListing(res *teal.ProcessResult, ref *rRes) string {
	got := obsListing(res.Listing)
	if len(got) != len(ref.listing) {
		return fmt.Sprintf("listing has %d entries, want %d", len(got), len(ref.listing))
	}
	for i := range got {
		if !opEq(got[i], ref.listing[i]) {
			return fmt.Sprintf("line %d %q: listing entry\n  got:  %v\n  want: %v", i, clipS(ref.lines[i].text), clipS(got[i].String()), clipS(ref.listing[i].String()))
		}
	}
	return ""
}

func clipS(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func cmpParse(res *teal.ProcessResult, ref *rRes) string {
	f := ruleIn("PARSE", "SYNTAX")
	return diffStr("syntax errors", diagStrings(diagsWhere(res, f), syntaxOnly), diagStrings(ref.parse, syntaxOnly))
}

func checkSyntax(src string, st *Stats) string {
	res := teal.Process(src)
	ref := refAnalyze(src)
	st.Step(len(ref.listing))
	st.State(kindSig(ref))
	return first(cmpListing(res, ref), cmpParse(res, ref))
}

func inProgram(line string) string {
	return "#pragma version 10\nint 1\n" + line + "\nerr\nlbl:\n" + line
}

func init() {
	vals := []string{"0", "255", "256", "-1", "127", "-128", "x", "18446744073709551616", "Sender", "0x61", `"s"`, "Accounts", "// c"}
	charFrames := []string{"W", "err W", "int 1 W", "b x W", "txn Sender W", "byte 0x61 W", "switch x W", "int W", "byte W", "b W", "proto W 1", "frame_dig W", "txn W", "method W", "pushbytess W W", "#pragma version W", "#pragma W 8", "int 1 2 W"}
	var chars []rune
	for c := rune(0x20); c < 0x7f; c++ {
		chars = append(chars, c)
	}
	chars = append(chars, 0, 1, 0x0b, 0x0c, 0x7f, 0x80, 0x85, 0xa0, 0xe9, 0x2028, 0xfeff, 0xfffd, 0x1f600)
	vals3 := []string{"0", "255", "256", "-129", "x", "Sender", "Accounts", "base64"}
	register(&Prop{ID: "A05", Spaces: func(tier string) []Space {
		u8 := func(c string, st *Stats) string { return checkSyntax(inProgram(c), st) }
		var sweep []string
		for _, op := range opNames {
			for k, im := range opTab[op].imm {
				if im.kind != "u8" && im.kind != "i8" {
					continue
				}
				for v := -300; v <= 600; v++ {
					s := op
					for j, im2 := range opTab[op].imm {
						if j == k {
							s += " " + strconv.Itoa(v)
						} else if !im2.optional || j < k || op == "extract" {
							s += " " + defaultArg(im2.kind)
						}
					}
					sweep = append(sweep, s)
				}
			}
		}
		for _, op := range opNames {
			for k, im := range opTab[op].imm {
				if im.kind != "u8" && im.kind != "i8" {
					continue
				}
				for _, v := range []string{"0255", "0256", "00000001", "000", "0000000000000000000000000001", "0127", "-0128", "-01", "-0", "-00", "+5", "+0", "+255", "1_0", "0b1", "0o7", "0x10", "0X1", "1.0", "1e1", "'1'", "\"1\"", "１", "1,", "--1", "4294967297", "18446744073709551617", "340282366920938463463374607431768211457"} {
					s := op
					for j, im2 := range opTab[op].imm {
						if j == k {
							s += " " + v
						} else if !im2.optional || j < k || op == "extract" {
							s += " " + defaultArg(im2.kind)
						}
					}
					sweep = append(sweep, s)
				}
			}
		}
		sp := []Space{
			opArgsSpace("args", 2, vals, "", u8),
			opArgsSpace("args3", pick(tier, 3, 4), vals3, "", u8),
			listSpace("small-int-sweep", "every small-integer argument of every mnemonic, values -300..600 and unusual spellings", sweep, u8),
			listSpace("mnemonics", "mnemonic spellings: prefixes, suffixes, case, doubled", mnemonicVariants(), u8),
			seqSpace("tokens", "tokens joined by spaces", tokenAlphabet, 0, pick(tier, 3, 4), " ", checkSyntax),
			seqSpace("lines", "programs", lineAlphabet, 0, pick(tier, 3, 4), "\n", checkSyntax),
			hugeFamilySpace(tier, pick(tier, 140, 600), checkSyntax),
			opFrameSpaces(checkSyntax)[0], opFrameSpaces(checkSyntax)[1], nameSpace(checkSyntax),
			prodSpace("characters", "every word of one or two characters as a line, as an argument and after the arguments", []int{len(charFrames), len(chars), len(chars) + 1}, func(ix []int) string {
				w := string(chars[ix[1]])
				if ix[2] > 0 {
					w += string(chars[ix[2]-1])
				}
				return "#pragma version 9\nx:\n" + strings.ReplaceAll(charFrames[ix[0]], "W", w) + "\nint 1"
			}, checkSyntax),
		}
		if tier == "thorough" {
			sp = append(sp, opArgsSpace("args3-all", 3, vals, "", u8))
		}
		return sp
	}})

	byteSpell := []string{"0X61", "0X", "0x61 0X61", "x61", "61", "0x 61", "00x61", "0b01", "-0x61", "'a'", "`a`", "a", "true"}
	for _, w := range []string{"base64", "b64", "base32", "b32"} {
		for _, w := range []string{w, strings.ToUpper(w), strings.ToUpper(w[:1]) + w[1:], w + "x", "x" + w, w[:len(w)-1], w + ":"} {
			byteSpell = append(byteSpell, w, w+" MFRA====", w+"(MFRA====)", w+" (MFRA====)", w+"( MFRA==== )", w+" \"MFRA====\"", w+"MFRA====", w+"(MFRA====", w+" MFRA====)", w+"[MFRA====]", w+"=MFRA====")
		}
	}
	register(&Prop{ID: "A06", Spaces: func(tier string) []Space {
		lit := func(op string) func(string, *Stats) string {
			return func(s string, st *Stats) string {
				return checkSyntax("#pragma version 10\n"+op+" "+s+"\nerr", st)
			}
		}
		all := []string{"int", "pushint", "pushints 1", "intcblock"}
		ball := []string{"byte", "pushbytes", "bytecblock 0x", "pushbytess"}
		var bounds []string
		for k := 0; k <= 65; k++ {
			for d := -1; d <= 1; d++ {
				v := bigPow(k, d)
				if v == nil || v.Sign() < 0 {
					continue
				}
				for _, f := range []string{"%d", "0x%x", "0X%X", "0o%o", "0%o", "0b%b", "-%d", "+%d", "%d.0", "0x%x_", "_%d"} {
					bounds = append(bounds, fmt.Sprintf(f, v))
				}
			}
		}
		for n := range constInts {
			bounds = append(bounds, n, strings.ToLower(n), strings.ToUpper(n), n+"x", n[:len(n)-1])
		}
		sort.Strings(bounds)
		enc := encodings()
		return []Space{
			seqSpace("int-literals", "integer literal spellings", []string{"0", "1", "7", "8", "a", "F", "x", "b", "o", "_", "-", "9"}, 1, pick(tier, 4, 5), "", lit("int")),
			prodSpace("int-bounds", "powers of two and neighbours in every base, constant names", []int{len(all), len(bounds)}, func(ix []int) string { return all[ix[0]] + " " + bounds[ix[1]] }, func(c string, st *Stats) string { return checkSyntax(c+"\nerr", st) }),
			prodSpace("bytes-all", "all 1-byte and 2-byte values in every byte literal form", []int{len(enc), 256 + pick(tier, 4096, 65536)}, func(ix []int) string {
				v := ix[1]
				b := []byte{byte(v)}
				if v >= 256 {
					v -= 256
					if tier != "thorough" {
						b = []byte{byte(v >> 6 << 2), byte(v&63) << 2}
					} else {
						b = []byte{byte(v >> 8), byte(v)}
					}
				}
				return "byte " + enc[ix[0]](b)
			}, func(c string, st *Stats) string { return checkSyntax(c+"\nerr", st) }),
			prodSpace("bytes-len", "byte literals of every length 0..N in every form and instruction", []int{len(enc), len(ball), pick(tier, 150, 700)}, func(ix []int) string {
				b := make([]byte, ix[2])
				for i := range b {
					b[i] = byte(i*37 + ix[2])
				}
				return ball[ix[1]] + " " + enc[ix[0]](b)
			}, func(c string, st *Stats) string { return checkSyntax("#pragma version 8\n"+c+"\nerr", st) }),
			seqSpace("string-escapes", "string literal contents", []string{"a", `\`, `"`, "n", "x", "4", "1", " ", "é", "//", "t", "r"}, 0, pick(tier, 5, 6), "", func(s string, st *Stats) string {
				return checkSyntax(`byte "`+s+`"`, st)
			}),
			seqSpace("base-bodies", "base32/base64/hex bodies", []string{"A", "Q", "=", "a", "2", "7", "1", "/", "-", "(", ")"}, 0, pick(tier, 4, 5), "", func(s string, st *Stats) string {
				return first(checkSyntax("byte base64 "+s, st), checkSyntax("byte b32 "+s, st), checkSyntax("byte b64("+s, st), checkSyntax("byte base32("+s+")", st), checkSyntax("byte 0x"+s, st), checkSyntax("byte "+s, st))
			}),
			seqSpace("byte-arrays", "arrays of byte literals", []string{"0x61", "base64 YQ==", `"a b"`, "b32(ME)", "base64", `"`, "0x6", "b64(YQ==)", `""`}, 0, pick(tier, 4, 5), " ", func(s string, st *Stats) string {
				return first(checkSyntax("bytecblock "+s, st), checkSyntax("#pragma version 8\npushbytess "+s+"// c", st))
			}),
			seqSpace("signatures", "method signature literals", []string{`"`, "a", "(", `\`, " ", ")", ","}, 0, pick(tier, 5, 6), "", func(s string, st *Stats) string { return checkSyntax("method "+s, st) }),
			prodSpace("spellings", "prefixes and encoding words in every spelling", []int{len(ball), len(byteSpell)}, func(ix []int) string { return ball[ix[0]] + " " + byteSpell[ix[1]] }, func(c string, st *Stats) string {
				return checkSyntax("#pragma version 8\n"+c+"\nerr", st)
			}),
			listSpace("addresses", "addresses: valid, each single-character corruption, truncations", addressCases(), lit("addr")),
		}
	}})

	register(&Prop{ID: "A07", Spaces: func(tier string) []Space {
		modes := []string{"", "//#pragma mode logicsig\n", "// #pragma mode logicsig \n", "//#pragma mode app\n", "int 1 //#pragma mode logicsig\n", "//#pragma mode logicsig2\n", "//#PRAGMA MODE LOGICSIG\n", "//#pragma Mode logicsig\n", "//#pragma  mode logicsig\n", "//\t#pragma mode logicsig\t\r\n", "///#pragma mode logicsig\n", "//pragma mode logicsig\n", "//#pragma mode logicsig // x\n", "//#pragma mode logic\n", "//#pragma mode\n"}
		lines := []string{"int 1", "#pragma version 4", "#pragma version 8", "//#pragma mode logicsig", "loads", "log", "arg_0", "bury 1", "a:", "// x", "bogus", "  box_get 1", "ed25519verify", "#pragma version 0"}
		return []Space{
			prodSpace("op-version-mode", "every mnemonic x version x mode spelling", []int{len(opNames), 15, len(modes)}, func(ix []int) string {
				p := ""
				switch {
				case ix[1] == 13:
					p = "#pragma version 255\n"
				case ix[1] == 14:
					p = "#pragma version 0\n"
				case ix[1] > 0:
					p = fmt.Sprintf("#pragma version %d\n", ix[1])
				}
				return p + modes[ix[2]] + "\t" + defaultLine(opNames[ix[0]]) + " // c"
			}, checkGate),
			prodSpace("op-badargs", "gating also on lines whose arguments are wrong", []int{len(opNames), 11, 2, 3}, func(ix []int) string {
				l := opNames[ix[0]]
				if ix[3] == 1 {
					l += " bad"
				} else if ix[3] == 2 {
					l = defaultLine(l) + " 1 2 3"
				}
				return fmt.Sprintf("#pragma version %d\n%s%s", ix[1]+1, modes[ix[2]], l)
			}, checkGate),
			seqSpace("programs", "placement of pragmas, mode lines and instructions", lines, 0, pick(tier, 4, 5), "\n", checkGate),
			hugeFamilySpace(tier, pick(tier, 140, 600), checkGate),
			opFrameSpaces(checkGate)[0], opFrameSpaces(checkGate)[1],
		}
	}})

	register(&Prop{ID: "A08", Spaces: func(tier string) []Space {
		type slot struct {
			op  string
			k   int
			opt bool
		}
		var slots []slot
		for _, op := range opNames {
			for k, im := range opTab[op].imm {
				if isFieldKind(im.kind) {
					slots = append(slots, slot{op, k, false})
					if k+1 < len(opTab[op].imm) && opTab[op].imm[k+1].optional {
						slots = append(slots, slot{op, k, true})
					}
				}
			}
		}
		var names []string
		for _, fs := range fieldTab {
			for _, f := range fs {
				names = append(names, f.name)
			}
		}
		sort.Strings(names)
		mk := func(s slot, v string) string {
			l := s.op
			for j, im := range opTab[s.op].imm {
				if j == s.k {
					l += " " + v
				} else if !im.optional || s.opt {
					l += " " + defaultArg(im.kind)
				}
			}
			return l
		}
		var odd []string
		for _, n := range names {
			odd = append(odd, strings.ToLower(n), n+"s", n[:len(n)-1], n[1:], n+":", "\""+n+"\"")
		}
		for v := -2; v <= 300; v++ {
			odd = append(odd, strconv.Itoa(v))
		}
		odd = append(odd, "0x1", "01", "+1", "1_0", "", "invalidTxnField")
		return []Space{
			prodSpace("names", "every field argument x every field name x version 1..10", []int{len(slots), len(names), 10}, func(ix []int) string {
				return fmt.Sprintf("#pragma version %d\n%s\nerr", ix[2]+1, mk(slots[ix[0]], names[ix[1]]))
			}, checkSyntax),
			prodSpace("odd", "every field argument x misspelt names and numbers -2..300", []int{len(slots), len(odd)}, func(ix []int) string {
				return fmt.Sprintf("#pragma version 9\n%s\nerr", mk(slots[ix[0]], odd[ix[1]]))
			}, checkSyntax),
			prodSpace("moving-version", "the version in force at the line decides", []int{len(slots), len(names), 3}, func(ix []int) string {
				l := mk(slots[ix[0]], names[ix[1]])
				return fmt.Sprintf("%s\n#pragma version %d\n%s\n//#pragma mode logicsig\n%s", l, []int{2, 5, 7}[ix[2]], l, l)
			}, checkSyntax),
		}
	}})
}

func checkGate(src string, st *Stats) string {
	res := teal.Process(src)
	ref := refAnalyze(src)
	f := ruleIn("LINT0007", "LINT0008")
	got := diagStrings(diagsWhere(res, f), nil)
	st.State(strings.Join(got, ";"))
	st.Step(len(ref.listing))
	if m := diffStr("gating diagnostics", got, diagStrings(ref.gate, nil)); m != "" {
		return m
	}
	var vers []string
	for _, v := range res.Versions {
		if v.StartLine() != v.Line || v.EndLine() != v.Line || v.StartCharacter() != v.Begin || v.EndCharacter() != v.End {
			return fmt.Sprintf("required version %+v has an inconsistent range", v)
		}
		vers = append(vers, fmt.Sprintf("%d:%d-%d>=%d", v.Line, v.Begin, v.End, v.Version))
	}
	mode := "app"
	if res.Mode == teal.ModeSig {
		mode = "logicsig"
	}
	if mode != ref.mode {
		return fmt.Sprintf("mode %s, want %s", mode, ref.mode)
	}
	return diffSet("required versions", vers, ref.vers)
}

func mnemonicVariants() []string {
	var res []string
	for _, op := range opNames {
		args := strings.TrimPrefix(defaultLine(op), op)
		for _, n := range []string{op, strings.ToUpper(op), op + op, op + "_", "_" + op, op[:len(op)-1], op[1:], op + "s", op + "0", op + ",", "\"" + op + "\"", op + "//", op + ";"} {
			res = append(res, n+args)
		}
	}
	return res
}

// ---------- A09 ----------

func checkA09(src string, st *Stats) string {
	res := teal.Process(src)
	ref := refAnalyze(src)
	st.Step(len(ref.listing))
	var gs, ws []string
	for _, s := range res.Symbols {
		gs = append(gs, fmt.Sprintf("%s %d:%d-%d %q %q", s.Name(), s.Line(), s.Begin(), s.End(), s.Docs(), s.Signature()))
		if s.StartLine() != s.Line() || s.EndLine() != s.Line() || s.StartCharacter() != s.Begin() || s.EndCharacter() != s.End() {
			return fmt.Sprintf("symbol %s has an inconsistent range", s.Name())
		}
	}
	for _, s := range ref.syms {
		ws = append(ws, fmt.Sprintf("%s %d:%d-%d %q %q", s.name, s.line, s.b, s.e, s.docs, s.sig))
	}
	if len(src) < 2000 {
		st.State(strings.Join(gs, ";") + fmt.Sprint(posToks(obsToks(res.SymbolRefs))))
	}
	if m := diffStr("symbols", gs, ws); m != "" {
		return m
	}
	if m := diffStr("references", posToks(obsToks(res.SymbolRefs)), posToks(ref.refs)); m != "" {
		return m
	}
	if m := diffStr("missing references", posToks(obsToks(res.MissRefs)), posToks(ref.miss)); m != "" {
		return m
	}
	var gc, wc []string
	for k, v := range res.RefCounts {
		if v != 0 {
			gc = append(gc, fmt.Sprintf("%s=%d", k, v))
		}
	}
	for k, v := range ref.refc {
		wc = append(wc, fmt.Sprintf("%s=%d", k, v))
	}
	if m := diffSet("reference counts", gc, wc); m != "" {
		return m
	}
	// lookups by position and by name
	if len(src) > 3000 {
		return ""
	}
	names := map[string]bool{}
	for li := range ref.rows {
		for c := 0; c <= len(ref.lines[li].text)+1; c++ {
			p := rng{li, c, li, c}
			want := ""
			for _, s := range ref.syms {
				if s.line == li && c >= s.b && c <= s.e && want == "" {
					want = s.name
				}
			}
			var refsHere []rTok
			for _, t := range ref.refs {
				if t.line == li && c >= t.b && c <= t.e {
					refsHere = append(refsHere, t)
				}
			}
			if want == "" && len(refsHere) > 0 {
				want = refsHere[0].val
			}
			st.Step(1)
			if g := res.SymOrRefAt(p); g != want {
				return fmt.Sprintf("name at %d:%d is %q, want %q", li, c, g, want)
			}
			if m := diffStr(fmt.Sprintf("references at %d:%d", li, c), posToks(obsToks(res.SymbolRefsWithin(p))), posToks(refsHere)); m != "" {
				return m
			}
			if want != "" {
				names[want] = true
			}
			var gd, wd []string
			for _, s := range res.SymbolsForRefWithin(p) {
				gd = append(gd, fmt.Sprintf("%s@%d", s.Name(), s.Line()))
			}
			if len(refsHere) > 0 {
				for _, s := range ref.syms {
					if s.name == refsHere[0].val {
						wd = append(wd, fmt.Sprintf("%s@%d", s.name, s.line))
					}
				}
			}
			if m := diffStr(fmt.Sprintf("definitions for reference at %d:%d", li, c), gd, wd); m != "" {
				return m
			}
		}
	}
	for n := range names {
		var gd, wd []string
		for _, s := range res.SymByName(n) {
			gd = append(gd, fmt.Sprintf("%s@%d", s.Name(), s.Line()))
		}
		for _, s := range ref.syms {
			if s.name == n {
				wd = append(wd, fmt.Sprintf("%s@%d", s.name, s.line))
			}
		}
		if m := diffStr("symbols by name", gd, wd); m != "" {
			return m
		}
		var wr []rTok
		for _, t := range ref.refs {
			if t.val == n {
				wr = append(wr, t)
			}
		}
		if m := diffStr("references by name", posToks(obsToks(res.SymRefByName(n))), posToks(wr)); m != "" {
			return m
		}
	}
	return ""
}

func init() {
	register(&Prop{ID: "A09", Spaces: func(tier string) []Space {
		lines := []string{"a:", "b:", "// d1", "b a", "switch a b a", "proto 1 2", "callsub c", "int 1", "", "b a b", " a: // x", "match", "proto 7 8", "bnz  b  // b a", "//#pragma mode logicsig", "aa: junk", "switch", "b"}
		names := []string{"a", "b", "int", "err", "aa", "A", "0", "x:y", "é", "a//b", "\"q\"", "#pragma", "a:", ":", "::", ":a", "a::", "b:", "_", "-", "a,b", "$", "%d"}
		return []Space{
			seqSpace("programs", "programs over labels, uses, comments, prototypes", lines, 0, pick(tier, 4, 5), "\n", checkA09),
			prodSpace("names", "label names against used names, in every control-flow instruction", []int{len(names), len(names), 6, 2}, func(ix []int) string {
				op := []string{"b", "bz", "bnz", "callsub", "switch", "match"}[ix[2]]
				nl := []string{"\n", "\r\n"}[ix[3]]
				return "// doc" + nl + names[ix[0]] + ":" + nl + op + " " + names[ix[1]] + nl + "proto 2 3" + nl + op + " " + names[ix[0]]
			}, checkA09),
			seqSpace("tokens", "tokens joined by spaces", tokenAlphabet, 0, pick(tier, 3, 4), " ", checkA09),
			hugeFamilySpace(tier, pick(tier, 140, 600), checkA09),
			opFrameSpaces(checkA09)[0], opFrameSpaces(checkA09)[1], nameSpace(checkA09),
		}
	}})
}

// ---------- L01..L03 ----------

func checkLint(rules func(string) bool, redKind string) func(src string, st *Stats) string {
	return func(src string, st *Stats) string {
		res := teal.Process(src)
		ref := refAnalyze(src)
		st.Step(len(ref.listing))
		// LINT0005 carries two findings; tell them apart by message
		sel := func(ds []rDiag) []rDiag { return onlyRules(ds, rules) }
		got := diagStrings(sel(diagsWhere(res, func(string) bool { return true })), nil)
		if len(src) < 2000 {
			st.State(strings.Join(got, ";"))
		}
		if m := diffStr("lint findings", got, diagStrings(sel(ref.lint), nil)); m != "" {
			return m
		}
		// the same findings from linting the listing itself
		var gl, wl []string
		for _, e := range res.Listing.Lint() {
			if rules(e.Rule()) {
				gl = append(gl, fmt.Sprintf("%d sev%d %s", e.Line(), int(e.Severity()), e.Rule()))
				if e.Error() == "" {
					return "empty lint message"
				}
			}
		}
		for _, d := range sel(ref.lint) {
			wl = append(wl, fmt.Sprintf("%d sev%d %s", d.line, d.sev, d.rule))
		}
		if m := diffSet("lint findings of the listing", gl, wl); m != "" {
			return m
		}
		// messages name the label concerned
		for _, d := range res.Diagnostics {
			if !rules(d.Rule()) {
				continue
			}
			if d.Rule() == "LINT0001" || d.Rule() == "LINT0002" {
				n := ref.listing[d.Line()].name
				if !strings.Contains(d.String(), n) {
					return fmt.Sprintf("finding %q does not name label %q", d.String(), n)
				}
			}
		}
		if redKind == "" {
			return ""
		}
		var gr, wr []string
		for _, x := range res.Redundants {
			kind := ""
			switch x.(type) {
			case *teal.RedundantLabelLine, teal.RedundantLabelLine:
				kind = "label"
			case *teal.RedundantBLine, teal.RedundantBLine:
				kind = "b"
			}
			if kind == redKind {
				gr = append(gr, fmt.Sprintf("%d %s", x.Line(), kind))
			}
		}
		for _, x := range ref.red {
			if strings.HasSuffix(x, " "+redKind) {
				wr = append(wr, x)
			}
		}
		return diffSet("removal suggestions", gr, wr)
	}
}

func init() {
	lblLines := []string{"a:", "b:", "b a", "bz b", "switch a b c", "int 1", "callsub a", "match b", "", "bnz c", "// x", "b: // y", "switch", "b a b"}
	l01 := checkLint(ruleIn("LINT0001", "LINT0002", "LINT0005"), "label")
	register(&Prop{ID: "L01", Spaces: func(tier string) []Space {
		return []Space{
			seqSpace("programs", "programs over labels and uses", lblLines, 0, pick(tier, 5, 6), "\n", l01),
			seqSpace("lines", "programs", lineAlphabet, 0, pick(tier, 3, 4), "\n", l01),
			hugeFamilySpace(tier, pick(tier, 140, 600), l01),
			opFrameSpaces(l01)[0], opFrameSpaces(l01)[1], nameSpace(l01),
		}
	}})
	flow := []string{"a:", "b a", "int 1", "err", "b:", "bz b", "return", "b b", "", "retsub", "// c", "callsub b", "#pragma version 8", "b zz", "switch a b", "bogus"}
	words := func(al []string, k int) []string {
		r, last := []string{""}, []string{""}
		for ; k > 0; k-- {
			var n []string
			for _, w := range last {
				for _, a := range al {
					n = append(n, w+a)
				}
			}
			r, last = append(r, n...), n
		}
		return r
	}
	targets, around := words([]string{" a", " b", " zz"}, 3), words([]string{"a:\n", "b:\n", "b a\n", "int 1\n", "err\n"}, 2)
	l02 := checkLint(ruleIn("LINT0003", "LINT0004", "LINT0005"), "b")
	register(&Prop{ID: "L02", Spaces: func(tier string) []Space {
		return []Space{
			seqSpace("programs", "programs over branches, labels, terminators", flow, 0, pick(tier, 5, 6), "\n", l02),
			seqSpace("loops", "loop bodies", []string{"a:", "b a", "int 1", "bz b", "b:", "err"}, 0, pick(tier, 7, 8), "\n", l02),
			seqSpace("lines", "programs", lineAlphabet, 0, pick(tier, 3, 4), "\n", l02),
			prodSpace("multiway", "every choice of up to 3 targets of a multiway branch, between up to 2 lines before and after it", []int{2, len(targets), len(around), len(around)}, func(ix []int) string {
				return "#pragma version 8\n" + around[ix[2]] + []string{"switch", "match"}[ix[0]] + targets[ix[1]] + "\n" + around[ix[3]]
			}, l02),
			hugeFamilySpace(tier, pick(tier, 140, 600), l02),
			opFrameSpaces(l02)[0], opFrameSpaces(l02)[1], nameSpace(l02),
		}
	}})
	l03lint := checkLint(ruleIn("LINT0006"), "")
	l03 := func(src string, st *Stats) string {
		if m := l03lint(src, st); m != "" {
			return m
		}
		res := teal.Process(src)
		ref := refAnalyze(src)
		if res.Version != ref.version {
			return fmt.Sprintf("version in force %d, want %d", res.Version, ref.version)
		}
		switch {
		case (res.VersionToken == nil) != (ref.vtok == nil):
			return "version token presence differs"
		case ref.vtok != nil && !tokEq(obsTok(*res.VersionToken), *ref.vtok):
			return fmt.Sprintf("version token %v, want %v", obsTok(*res.VersionToken), *ref.vtok)
		}
		st.State(fmt.Sprint(res.Version))
		return first(cmpListing(res, ref), cmpParse(res, ref), checkGate(src, st))
	}
	register(&Prop{ID: "L03", Spaces: func(tier string) []Space {
		prag := []string{"#pragma version 1", "#pragma version 8", "#pragma version 0", "#pragma version", "#pragma", "#pragma mode app", "#pragma version x", "#pragma version 5 6", "bury 1", "a:", "// c", "", "int 1", "#pragma version 3 // c", "#pragma version 256", "bogus", " #pragma version 0x4"}
		var vs []string
		for v := 0; v <= 1100; v++ {
			vs = append(vs, strconv.Itoa(v))
		}
		vs = append(vs, "65535", "65536", "65537", "4294967295", "4294967296", "4294967297", "18446744073709551615", "18446744073709551616", "-1", "+1", "1.0", "0b11", "0o7", "010", "0xff", "0x100", "1_0", "v1", "\"1\"", "1:", "version", "//1")
		return []Space{
			seqSpace("programs", "pragmas among instructions, labels, comments", prag, 0, pick(tier, 4, 5), "\n", l03),
			listSpace("values", "every version value 0..1100 and odd spellings", vs, func(v string, st *Stats) string {
				return first(l03("#pragma version "+v+"\nint 1\nbury 1", st), l03("#pragma version 3\n#pragma version "+v+"\nbury 1", st), l03("int 1\n\t#pragma\tversion\t"+v+"\t\nbury 1", st))
			}),
			seqSpace("pragma-tokens", "pragma lines", []string{"#pragma", "version", "8", "mode", "//c", "#pragmaversion", "Version", "0"}, 0, pick(tier, 4, 5), " ", func(s string, st *Stats) string { return l03(s+"\nbury 1", st) }),
			hugeFamilySpace(tier, pick(tier, 140, 600), l03),
			opFrameSpaces(l03)[0], opFrameSpaces(l03)[1],
		}
	}})
}
