package main

// E08 (completion, signature help), E09 (hover), E10 (semantic tokens), E11 (inlay hints and configuration).

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/dragmz/teal"
)

//go:embed docs.json
var docsJSON []byte

type opDoc struct {
	Doc, Full, Sig, FullSig string
	Args                    []string
}

var docs struct {
	Ops    map[string]opDoc
	Fields map[string]map[string]string
}

func init() {
	if err := json.Unmarshal(docsJSON, &docs); err != nil {
		panic(err)
	}
}

// argAt: which argument of its instruction the cursor is in (-1: none)
func argAt(row []rTok, c int) int {
	for i := 1; i < len(row); i++ {
		if row[i].b <= c && c <= row[i].e {
			return i - 1
		}
	}
	n := 0
	for i := 1; i < len(row); i++ {
		if row[i].e < c {
			n = i
		}
	}
	return n
}

func clampArg(imm []immSpec, k int) int {
	if k >= len(imm) && len(imm) > 0 && imm[len(imm)-1].array {
		return len(imm) - 1
	}
	return k
}

func rowOf(r *rRes, l int) []rTok {
	if l < 0 || l >= len(r.rows) {
		return nil
	}
	return r.rows[l]
}

// lineComment: column at which a comment starts on the line, -1 if none
func lineComment(r *rRes, l int) int {
	for _, t := range r.tokens {
		if t.line == l && t.kind == "Comment" {
			return t.b
		}
	}
	return -1
}

// wantArgVals: what an argument of a kind accepts by name in the document
func wantArgVals(r *rRes, kind string) []string {
	var res []string
	switch {
	case kind == "label":
		for _, s := range r.syms {
			d := ""
			if s.sig != "" {
				d = " " + s.sig
			}
			res = append(res, fmt.Sprintf("%s|%s|%s", s.name, d, s.docs))
		}
	case kind == "const":
		for n, v := range constInts {
			if n != "unknown" {
				res = append(res, fmt.Sprintf("%s| = %d|", n, v))
			}
		}
	case isFieldKind(kind):
		for _, f := range fieldTab[fieldGroup(kind)] {
			if v, ok := fieldUsable(kind, f); ok && v <= r.version {
				res = append(res, fmt.Sprintf("%s| = %d|%s", f.name, f.num, docs.Fields[fieldGroup(kind)][f.name]))
			}
		}
	}
	return sorted(res)
}

type jItem struct {
	Label        string `json:"label"`
	Kind         int    `json:"kind"`
	InsertText   string `json:"insertText"`
	LabelDetails *struct {
		Detail, Description string
	} `json:"labelDetails"`
	Documentation json.RawMessage `json:"documentation"`
}

func (i jItem) doc() string {
	var m struct{ Value string }
	if json.Unmarshal(i.Documentation, &m) == nil {
		return m.Value
	}
	var s string
	json.Unmarshal(i.Documentation, &s)
	return s
}

func opVersion(r *rRes, s opSpec) uint64 {
	if r.mode == "logicsig" {
		return s.sig
	}
	return s.app
}

func checkE08(src string, st *Stats) string {
	return checkE08At(src, cursorPositions(src, 12), st)
}

// lastPositions: the cursor positions in the last lines of a text
func lastPositions(src string, lines, maxCol int) [][2]int {
	start, _ := textLines(src)
	var res [][2]int
	k := len(start) - lines
	if k < 0 {
		k = 0
	}
	for _, p := range cursorPositions(src[start[k]:], maxCol) {
		res = append(res, [2]int{p[0] + k, p[1]})
	}
	return res
}

// farSpace puts a small text far down and far right.
func farSpace(tails []string, check func(string, *Stats) string) Space {
	var far []string
	for _, n := range farLines {
		for _, t := range tails {
			far = append(far, rep("\n", n)+t)
			if n < 5000 {
				far = append(far, rep("int 1\n", n)+t, rep(" ", n)+t, "txn Sender"+rep(" ", n)+t)
			}
		}
	}
	return listSpace("far", "texts far down and far right", far, check)
}

func checkE08At(src string, ps [][2]int, st *Stats) string {
	r := refAnalyze(src)
	s := &lspSess{}
	s.open(docURI, src)
	var cs, ss []int
	for _, p := range ps {
		cs = append(cs, s.req("textDocument/completion", posParams(docURI, p[0], p[1])))
		ss = append(ss, s.req("textDocument/signatureHelp", posParams(docURI, p[0], p[1])))
	}
	o, bad := s.run()
	if bad != "" {
		return bad
	}
	for i, p := range ps {
		if b := lineComment(r, p[0]); b >= 0 && p[1] >= b {
			continue // inside a comment
		}
		row := rowOf(r, p[0])
		if m := checkCompletion(r, o, row, cs[i], p); m != "" {
			return fmt.Sprintf("completion at %v: %s", p, m)
		}
		if m := checkSignature(r, o, row, ss[i], p); m != "" {
			return fmt.Sprintf("signature help at %v: %s", p, m)
		}
		st.Step(2)
	}
	st.State(fmt.Sprint(r.version, r.mode, kindSig(r)))
	return ""
}

func completionItems(o *lspOut, id int) ([]jItem, string) {
	var items []jItem
	m, ok := o.byID[strconv.Itoa(id)]
	if !ok || m.hasError {
		return nil, "no answer"
	}
	if json.Unmarshal(m.result, &items) != nil {
		var l struct{ Items []jItem }
		if json.Unmarshal(m.result, &l) != nil {
			return nil, "unusable answer " + clipS(string(m.result))
		}
		items = l.Items
	}
	return items, ""
}

func checkCompletion(r *rRes, o *lspOut, row []rTok, id int, p [2]int) string {
	items, bad := completionItems(o, id)
	if bad != "" {
		return bad
	}
	if len(row) == 0 || p[1] <= row[0].e {
		prefix := ""
		if len(row) > 0 {
			prefix = row[0].val
		}
		offered := map[string]bool{}
		for _, it := range items {
			if it.Kind == 15 || it.Label == "" {
				continue // snippets
			}
			spec, ok := opTab[it.Label]
			if !ok {
				return fmt.Sprintf("offers %q, which is no mnemonic", it.Label)
			}
			v := opVersion(r, spec)
			if v == 0 || v > r.version {
				return fmt.Sprintf("offers %q, which version %d in %s mode does not have", it.Label, r.version, r.mode)
			}
			if offered[it.Label] {
				return fmt.Sprintf("offers %q twice", it.Label)
			}
			offered[it.Label] = true
			d := docs.Ops[it.Label]
			if it.doc() != d.Doc {
				return fmt.Sprintf("documents %q as %q", it.Label, it.doc())
			}
			if it.LabelDetails == nil || it.LabelDetails.Description != fmt.Sprintf("v%d", v) {
				return fmt.Sprintf("details of %q do not say it exists since version %d", it.Label, v)
			}
			if strings.TrimSpace(it.LabelDetails.Detail) != strings.TrimSpace(d.Sig) {
				return fmt.Sprintf("details of %q give the arguments as %q", it.Label, it.LabelDetails.Detail)
			}
			ins := it.InsertText
			if ins == "" {
				ins = it.Label
			}
			want := it.Label
			for k, arg := range d.Args {
				want += fmt.Sprintf(" ${%d:%s}", k+1, arg)
			}
			if ins != want {
				return fmt.Sprintf("inserts %q for %q", it.InsertText, it.Label)
			}
		}
		for _, n := range opNames {
			if v := opVersion(r, opTab[n]); v > 0 && v <= r.version && strings.HasPrefix(n, prefix) && !offered[n] {
				return fmt.Sprintf("does not offer %q", n)
			}
		}
		return ""
	}
	var got []string
	for _, it := range items {
		if it.Label == "" {
			continue
		}
		d := ""
		if it.LabelDetails != nil {
			d = it.LabelDetails.Detail
		}
		got = append(got, it.Label+"|"+d+"|"+it.doc())
	}
	var want []string
	if spec, ok := opTab[row[0].val]; ok {
		if k := clampArg(spec.imm, argAt(row, p[1])); k < len(spec.imm) {
			want = wantArgVals(r, spec.imm[k].kind)
		}
	}
	return diffStr("offered values", sorted(got), want)
}

func checkSignature(r *rRes, o *lspOut, row []rTok, id int, p [2]int) string {
	var h struct {
		Signatures []struct {
			Label           string
			Documentation   json.RawMessage
			Parameters      []struct{ Label string }
			ActiveParameter *int
		}
		ActiveSignature, ActiveParameter *int
	}
	if e := o.result(id, &h); e != "" {
		return e
	}
	if len(row) == 0 || row[0].kind != "Value" || opTab[row[0].val].name == "" {
		if len(h.Signatures) > 0 {
			return "shown where there is no instruction"
		}
		return ""
	}
	if len(h.Signatures) != 1 {
		return fmt.Sprintf("%d signatures", len(h.Signatures))
	}
	g := h.Signatures[0]
	d := docs.Ops[row[0].val]
	if strings.TrimSpace(g.Label) != strings.TrimSpace(d.FullSig) {
		return fmt.Sprintf("signature %q, want %q", g.Label, d.FullSig)
	}
	var ps []string
	for _, x := range g.Parameters {
		ps = append(ps, x.Label)
	}
	if m := diffStr("parameters", ps, d.Args); m != "" {
		return m
	}
	if doc := (jItem{Documentation: g.Documentation}).doc(); doc != d.Full {
		return fmt.Sprintf("documentation %q, want %q", doc, d.Full)
	}
	imm := opTab[row[0].val].imm
	k := clampArg(imm, argAt(row, p[1]))
	a := g.ActiveParameter
	if a == nil {
		a = h.ActiveParameter
	}
	if k < len(imm) {
		if a == nil || *a != k {
			return fmt.Sprintf("active argument is not %d", k)
		}
	} else if a != nil && *a >= 0 && *a < len(imm) {
		return fmt.Sprintf("active argument %d although the cursor is past all arguments", *a)
	}
	return ""
}

func versionPrefixes(tier string) []string {
	res := []string{"", "#pragma version 2\n", "#pragma version 5\n", "#pragma version 9\n"}
	if tier == "thorough" {
		for _, v := range []int{0, 1, 3, 4, 6, 7, 8, 10, 11} {
			res = append(res, fmt.Sprintf("#pragma version %d\n", v))
		}
	}
	return res
}

// ---------- E09 ----------

func wantHover(r *rRes, l, c int) string {
	row := rowOf(r, l)
	for i, t := range row {
		if t.kind != "Value" || t.b > c || t.e < c {
			continue
		}
		if i == 0 {
			return docs.Ops[t.val].Full
		}
		spec := opTab[row[0].val]
		k := clampArg(spec.imm, i-1)
		if k >= len(spec.imm) || !isFieldKind(spec.imm[k].kind) {
			return ""
		}
		g := fieldGroup(spec.imm[k].kind)
		for _, f := range fieldTab[g] {
			n, num := decimal(t.val)
			if f.name == t.val || num && !strings.HasPrefix(t.val, "-") && n == f.num {
				return fmt.Sprintf("%s = %d\n%s", f.name, f.num, docs.Fields[g][f.name])
			}
		}
		return ""
	}
	return ""
}

func checkE09(src string, st *Stats) string {
	return checkE09At(src, cursorPositions(src, 14), st)
}

func checkE09At(src string, ps [][2]int, st *Stats) string {
	r := refAnalyze(src)
	s := &lspSess{}
	s.open(docURI, src)
	var ids []int
	for _, p := range ps {
		ids = append(ids, s.req("textDocument/hover", posParams(docURI, p[0], p[1])))
	}
	o, bad := s.run()
	if bad != "" {
		return bad
	}
	for i, p := range ps {
		var h *struct {
			Contents json.RawMessage
		}
		if e := o.result(ids[i], &h); e != "" {
			return e
		}
		got := ""
		if h != nil && h.Contents != nil {
			got = strings.ReplaceAll((jItem{Documentation: h.Contents}).doc(), "\r\n", "\n")
		}
		want := wantHover(r, p[0], p[1])
		st.Step(1)
		st.State(want)
		if strings.TrimRight(got, "\n") != strings.TrimRight(want, "\n") {
			return fmt.Sprintf("hover at %v shows %q, want %q", p, clipS(got), clipS(want))
		}
	}
	return ""
}

// ---------- E10 ----------

type semTok struct{ line, b, n, typ, mod int }

func (t semTok) String() string {
	return fmt.Sprintf("%d:%d+%d type%d mod%d", t.line, t.b, t.n, t.typ, t.mod)
}

func decodeSem(data []uint32) ([]semTok, string) {
	if len(data)%5 != 0 {
		return nil, fmt.Sprintf("encoding of %d numbers", len(data))
	}
	var res []semTok
	l, c := 0, 0
	for i := 0; i < len(data); i += 5 {
		if data[i] > 0 {
			c = 0
		}
		l += int(data[i])
		c += int(data[i+1])
		res = append(res, semTok{l, c, int(data[i+2]), int(data[i+3]), int(data[i+4])})
	}
	return res, ""
}

func wantSem(r *rRes) []semTok {
	var res []semTok
	add := func(ts []rTok, typ int) {
		for _, t := range ts {
			res = append(res, semTok{t.line, t.b, t.e - t.b, typ, 0})
		}
	}
	add(r.mcrs, 4)
	add(r.ops, 0)
	add(r.nums, 6)
	add(r.strs, 1)
	add(r.keys, 0)
	for _, t := range r.tokens {
		if t.kind == "Comment" {
			add([]rTok{t}, 2)
		}
	}
	for _, y := range r.syms {
		res = append(res, semTok{y.line, y.b, y.e - y.b, 3, 0})
	}
	add(r.refs, 1)
	sort.SliceStable(res, func(i, j int) bool {
		return res[i].line < res[j].line || res[i].line == res[j].line && res[i].b < res[j].b
	})
	return res
}

func semStrs(ts []semTok) []string {
	var res []string
	for _, t := range ts {
		res = append(res, t.String())
	}
	return res
}

func checkE10(src string, st *Stats) string {
	r := refAnalyze(src)
	s := &lspSess{}
	s.open(docURI, src)
	init := s.req("initialize", `{}`)
	id := s.req("textDocument/semanticTokens/full", docParams(docURI))
	o, bad := s.run()
	if bad != "" {
		return bad
	}
	var cap struct {
		Capabilities struct {
			SemanticTokensProvider *struct {
				Legend struct{ TokenTypes []string }
			}
		}
	}
	if e := o.result(init, &cap); e != "" {
		return e
	}
	if cap.Capabilities.SemanticTokensProvider == nil {
		return "semantic tokens not announced"
	}
	legend := cap.Capabilities.SemanticTokensProvider.Legend.TokenTypes
	var res struct{ Data []uint32 }
	if e := o.result(id, &res); e != "" {
		return e
	}
	got, bad := decodeSem(res.Data)
	if bad != "" {
		return bad
	}
	names := map[int]string{0: "keyword", 1: "string", 2: "comment", 3: "method", 4: "macro", 6: "number"}
	var gs, ws []string
	name := func(t semTok, n string) string { return fmt.Sprintf("%d:%d+%d %s mod%d", t.line, t.b, t.n, n, t.mod) }
	for i, t := range got {
		if t.typ < 0 || t.typ >= len(legend) {
			return fmt.Sprintf("token type %d is not in the legend", t.typ)
		}
		if i > 0 && got[i-1].line == t.line && got[i-1].b+got[i-1].n > t.b {
			return fmt.Sprintf("tokens %v and %v overlap", got[i-1], t)
		}
		gs = append(gs, name(t, legend[t.typ]))
	}
	for _, t := range wantSem(r) {
		ws = append(ws, name(t, names[t.typ]))
	}
	st.Step(len(ws) + 1)
	st.State(strings.Join(ws, ","))
	return diffStr("semantic tokens", gs, ws)
}

// case: tokens as "line,index,length,type,mod" separated by blanks, in any order
func checkEncode(c string, st *Stats) string {
	var ts teal.SemanticTokens
	var want []semTok
	for _, w := range strings.Fields(c) {
		var t semTok
		fmt.Sscanf(w, "%d,%d,%d,%d,%d", &t.line, &t.b, &t.n, &t.typ, &t.mod)
		ts = append(ts, teal.SemanticToken{Line: t.line, Index: t.b, Length: t.n, Type: t.typ, Modifiers: t.mod})
		want = append(want, t)
	}
	got, bad := decodeSem(ts.Encode())
	if bad != "" {
		return bad
	}
	sort.SliceStable(want, func(i, j int) bool {
		return want[i].line < want[j].line || want[i].line == want[j].line && want[i].b < want[j].b
	})
	st.Step(len(want))
	st.State(fmt.Sprint(want))
	return diffStr("decoded tokens", semStrs(got), semStrs(want))
}

// ---------- E11 ----------

var configValues = []string{"", "true", "false"}

// case: "<cfg 4 digits>\n<source>"
func checkE11(c string, st *Stats) string {
	cfg, src, _ := strings.Cut(c, "\n")
	return checkE11At(cfg, src, nil, st)
}

func checkE11All(src string, st *Stats) string {
	r := refAnalyze(src)
	ps := tokenEdges(r)
	if len(ps) > 40 {
		ps = append(append([][2]int{}, ps[:20]...), ps[len(ps)-20:]...)
	}
	var gs []rng
	for i, a := range ps {
		for _, b := range ps[i:] {
			gs = append(gs, rng{a[0], a[1], b[0], b[1]})
		}
	}
	return checkE11At("1111", src, gs, st)
}

func checkE11Plain(src string, st *Stats) string { return checkE11At("1111", src, nil, st) }

func checkE11At(cfg, src string, gs []rng, st *Stats) string {
	on := func(i int) bool { return cfg[i] != '2' }
	r := refAnalyze(src)
	if gs == nil {
		gs = []rng{{0, 0, len(r.rows) + 1, 0}}
	}
	var opts []string
	for i, n := range []string{"semanticTokens", "inlayNamed", "inlayDecoded", "lensRefs"} {
		if v := configValues[cfg[i]-'0']; v != "" {
			opts = append(opts, jq(n)+":"+v)
		}
	}
	s := &lspSess{}
	params := `{"initializationOptions":{` + strings.Join(opts, ",") + `}}`
	if len(opts) == 0 {
		params = `{}`
	}
	init := s.req("initialize", params)
	s.open(docURI, src)
	var ids []int
	for _, g := range gs {
		ids = append(ids, s.req("textDocument/inlayHint", rangeParams(docURI, g)))
	}
	lens := s.req("textDocument/codeLens", docParams(docURI))
	o, bad := s.run()
	if bad != "" {
		return bad
	}
	var cap struct {
		Capabilities struct {
			InlayHintProvider      json.RawMessage
			SemanticTokensProvider json.RawMessage
		}
	}
	if e := o.result(init, &cap); e != "" {
		return e
	}
	announced := func(v json.RawMessage) bool {
		return len(v) > 0 && string(v) != "null" && string(v) != "false"
	}
	if announced(cap.Capabilities.InlayHintProvider) != (on(1) || on(2)) {
		return fmt.Sprintf("inlay hints announced: %s", cap.Capabilities.InlayHintProvider)
	}
	if announced(cap.Capabilities.SemanticTokensProvider) != on(0) {
		return fmt.Sprintf("semantic tokens announced: %s", cap.Capabilities.SemanticTokensProvider)
	}
	hs := refHints(r)
	for i, g := range gs {
		var hl []struct {
			Position jPos
			Label    string
		}
		if e := o.result(ids[i], &hl); e != "" {
			return e
		}
		var got, want []string
		for _, h := range hl {
			got = append(got, fmt.Sprintf("%d:%d %q", h.Position.Line, h.Position.Character, h.Label))
		}
		for _, h := range hs {
			if touches(g, h.line, h.b, h.e) && on(map[bool]int{true: 1, false: 2}[h.named]) {
				want = append(want, fmt.Sprintf("%d:%d %q", h.line, h.e, h.text))
			}
		}
		st.Step(1)
		st.State(strings.Join(want, ","))
		if m := diffStr(fmt.Sprintf("hints in %v", g), sorted(got), sorted(want)); m != "" {
			return m
		}
	}
	var ls []struct{ Range jRange }
	if e := o.result(lens, &ls); e != "" {
		return e
	}
	n := 0
	if on(3) {
		for _, y := range r.syms {
			if r.refc[y.name] > 0 {
				n++
			}
		}
	}
	if len(ls) != n {
		return fmt.Sprintf("%d lenses, want %d", len(ls), n)
	}
	return ""
}

func init() {
	fieldValsOf := func() []string {
		seen := map[string]bool{}
		var vals []string
		add := func(s string) {
			if !seen[s] {
				seen[s] = true
				vals = append(vals, s)
			}
		}
		for _, g := range []string{"txn", "global", "asset", "holding", "app", "acct", "block", "ecdsa", "ec", "b64", "json", "vrf"} {
			for _, f := range fieldTab[g] {
				add(f.name)
			}
		}
		for n := 0; n <= 70; n++ {
			add(strconv.Itoa(n))
		}
		for _, x := range []string{"-1", "007", "255", "256", "257", "258", "511", "512", "65536", "65537", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551616", "1x", "0x1", "1.0", "sender", "SENDER", "\"Sender\"", "\"1\"", "Sender:", "//Sender"} {
			add(x)
		}
		return vals
	}
	register(&Prop{ID: "E08", Assumptions: []string{
		"which mnemonics are left out by what has been typed of the first word is free as long as those starting with that word are offered",
		"cursors inside comments are not judged; snippets and the order of items are free",
	}, Spaces: func(tier string) []Space {
		lines := []string{"", "b ", "b a", "a:", "int ", "txn  Sender", "\ttxna Acc 1 ", "switch a  b", "itxn_field ", "#pragma version 5", "// #pragma mode logicsig", "//doc", "proto 1 2", "gtxn 0 ", "x y z", "callsub a // c"}
		vers := func(op string, st *Stats) string {
			for _, mode := range []string{"", "// #pragma mode logicsig\n"} {
				for v := 0; v <= 11; v++ {
					pre := mode + fmt.Sprintf("#pragma version %d\n", v)
					if m := checkE08(pre+"l:\n"+op+"  \n", st); m != "" {
						return m
					}
					if v%4 == 1 {
						if m := checkE08(pre+"l:\n"+defaultLine(op)+" 1 2 ", st); m != "" {
							return m
						}
					}
				}
			}
			return ""
		}
		return []Space{
			seqSpace("programs", "every cursor position of small programs", lines, 0, pick(tier, 2, 3), "\n", checkE08),
			listSpace("versions", "every mnemonic in every version and mode, with and without arguments, every cursor position", opNames, vers),
			listSpace("prefixes", "every prefix of every mnemonic", func() []string {
				seen := map[string]bool{}
				var res []string
				for _, n := range opNames {
					for k := 1; k <= len(n); k++ {
						if !seen[n[:k]] {
							seen[n[:k]] = true
							res = append(res, n[:k])
						}
					}
				}
				return res
			}(), func(p string, st *Stats) string { return checkE08("#pragma version 9\n "+p, st) }),
			farSpace([]string{"txn ", "a:\nb ", "gtxna 0 Accounts 1 ", "int OptIn x y"}, func(src string, st *Stats) string {
				return checkE08At(src, lastPositions(src, 2, 14), st)
			}),
			hugeFamilySpace("quick", pick(tier, 40, 140), func(src string, st *Stats) string {
				return checkE08At(src+"\nb  1", lastPositions(src+"\nb  1", 2, 6), st)
			}),
		}
	}})
	register(&Prop{ID: "E09", Assumptions: []string{"documentation texts are those of the tree this was built on, checked against langspec.json", "numbers are written in decimal without plus sign"},
		Spaces: func(tier string) []Space {
			slots, fieldVals := fieldSlots(), fieldValsOf()
			vs := versionPrefixes(tier)
			return []Space{
				prodSpace("fields", "every field argument position with every field name of any kind and every number, in several versions", []int{len(slots), len(fieldVals), len(vs)}, func(ix []int) string {
					return vs[ix[2]] + slots[ix[0]](fieldVals[ix[1]])
				}, checkE09),
				listSpace("versions", "every mnemonic in every version and mode", opNames, func(op string, st *Stats) string {
					for _, mode := range []string{"", "// #pragma mode logicsig\n"} {
						for v := 0; v <= 11; v++ {
							if m := checkE09(mode+fmt.Sprintf("#pragma version %d\n", v)+op+" 0 \n "+op, st); m != "" {
								return m
							}
						}
					}
					return ""
				}),
				opArgsSpace("arguments", pick(tier, 2, 3), []string{"Sender", "1", "28", "x", "0x61"}, "", checkE09),
				seqSpace("programs", "every cursor position of small programs", []string{"int 1", " txn Sender", "err // err", "//err", "// txn Sender", "int:", "txn: Sender", "\tglobal\t3", "switch int err", "", "#pragma version 3", "txn //Fee", "byte \"err\"", "log extra"}, 0, pick(tier, 2, 3), "\n", checkE09),
				seqSpace("lineends", "under mixed line ends", []string{"err", "txn 1", "\n", "\r\n", "\r", " "}, 1, pick(tier, 5, 6), "", checkE09),
				farSpace([]string{"txn Sender", "a:\ngtxna 0 28 1", "err", "global 3 // c"}, func(src string, st *Stats) string {
					return checkE09At(src, lastPositions(src, 2, 14), st)
				}),
			}
		}})
	register(&Prop{ID: "E10", Assumptions: []string{"which of the announced types a category gets: macros for pragma words, methods for label definitions, strings for label arguments and named fields"},
		Spaces: func(tier string) []Space {
			slots, fieldVals := fieldSlots(), fieldValsOf()
			var pos, all []string
			for l := 0; l < 3; l++ {
				for c := 0; c < 3; c++ {
					pos = append(pos, fmt.Sprintf("%d,%d,%d,%d,%d", l, c*2, 1+c%2, (l+c)%9, l%2))
				}
			}
			for l := 0; l < 2; l++ {
				for c := 0; c < 2; c++ {
					for n := 1; n < 3; n++ {
						for t := 0; t < 3; t++ {
							all = append(all, fmt.Sprintf("%d,%d,%d,%d,%d", l, c*7, n, t*4, t))
						}
					}
				}
			}
			var big []string
			for k := 0; k < 5; k++ {
				for _, v := range []int{0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 1<<24 - 1, 1 << 24, 1<<31 - 1} {
					f := []int{3, 4, 5, 6, 7}
					f[k] = v
					big = append(big, fmt.Sprintf("%d,%d,%d,%d,%d", f[0], f[1], f[2], f[3], f[4]))
				}
			}
			var far []string
			for _, l := range []int{0, 1, 200, 256, 65536} {
				for _, c := range []int{0, 1, 127, 128, 255, 256, 300, 65535, 65536, 1 << 20} {
					if l < 2 || c < 2 || c == 256 {
						far = append(far, fmt.Sprintf("%d,%d,%d,%d,0", l, c, 1+(c+l)%300, (c+l)%5))
					}
				}
			}
			distinct := func(check func(string, *Stats) string) func(string, *Stats) string {
				return func(c string, st *Stats) string {
					seen := map[string]bool{}
					for _, w := range strings.Fields(c) {
						f := strings.SplitN(w, ",", 3)
						if seen[f[0]+","+f[1]] {
							return ""
						}
						seen[f[0]+","+f[1]] = true
					}
					return check(c, st)
				}
			}
			return []Space{
				seqSpace("programs", "programs of every kind of line", []string{"a:", "b a", "#pragma version 3", "int 1", "byte \"x\"", "byte b64 AA==", "txn Sender // c", "// d", "bogus x", "", "\tbyte base32(AA) ", "int pay", "switch a b", "method \"f()void\"", "addr " + zeroAddr, "txna 28 0", "frame_dig -1", "int 1 2"}, 0, pick(tier, 3, 4), "\n", checkE10),
				seqSpace("text", "all small texts", []string{"a:", "b", "int", "1", " ", "\n", "\r\n", "\r", "//", "\"", "#pragma", "version"}, 0, pick(tier, 4, 5), "", checkE10),
				opArgsSpace("arguments", 2, []string{"1", "0x61", "x", "Sender", "\"s\"", "b64", "pay", "Accounts"}, "#pragma version 9\nx:\n", checkE10),
				prodSpace("fields", "every field argument with every field word", []int{len(slots), len(fieldVals)}, func(ix []int) string { return "#pragma version 9\n" + slots[ix[0]](fieldVals[ix[1]]) }, checkE10),
				hugeFamilySpace(tier, 60, checkE10),
				opFrameSpaces(checkE10)[0], opFrameSpaces(checkE10)[1],
				seqSpace("blocks", "instructions with several arguments of every notation", []string{"b32 MFRA", "base64 AA==", "0x61", "\"s\"", "b64(AA==)", "1", "x", "pay"}, 0, pick(tier, 3, 5), " ", func(a string, st *Stats) string {
					for _, op := range []string{"bytecblock", "pushbytess", "intcblock", "pushints", "switch", "match", "byte", "txna", "bogus"} {
						if m := checkE10("#pragma version 9\nx:\n"+op+" "+a+"\nb x", st); m != "" {
							return m
						}
					}
					return ""
				}),
				seqSpace("encode values", "tokens with every attribute up to the largest", big, 0, 2, " ", distinct(checkEncode)),
				seqSpace("encode columns", "tokens far along the line and far down", far, 0, pick(tier, 3, 4), " ", distinct(checkEncode)),
				seqSpace("encode", "token sets in any order of up to 5 positions", pos, 0, pick(tier, 5, 6), " ", distinct(checkEncode)),
				seqSpace("encode attributes", "token sets with every combination of attributes", all, 0, pick(tier, 3, 4), " ", distinct(checkEncode)),
			}
		}})
	register(&Prop{ID: "E11", Assumptions: []string{"an empty hexadecimal literal counts as printable", "decimal numbers without plus sign"},
		Spaces: func(tier string) []Space {
			slots, fieldVals := fieldSlots(), fieldValsOf()
			vs := versionPrefixes(tier)
			lines := []string{"txn 1", "byte 0x6162", "byte 0x0a", "a:", "b a", "gtxn 0 28 // 0x61", "byte b64 0x61", "bytecblock 0x61 1 0x7e", "itxn_field 16", "int 0x61", "// txn 1", "pushbytes 0x20\t"}
			full := "#pragma version 8\ntxn 1\nbyte 0x6162\na:\nb a\n"
			var hexes []string
			for v := 0; v < 256; v++ {
				hexes = append(hexes, fmt.Sprintf("byte 0x%02x", v), fmt.Sprintf("byte 0x41%02X", v), fmt.Sprintf("pushbytess 0x%02x41 0x42", v))
			}
			return []Space{
				prodSpace("configuration", "every configuration, each option absent, on or off, over several programs", []int{3, 3, 3, 3, 4}, func(ix []int) string {
					return fmt.Sprintf("%d%d%d%d\n%s", ix[0], ix[1], ix[2], ix[3], []string{full, "txn 1", "byte 0x41\nx:", "c:\nbz c\nbnz c\nd:\nb c"}[ix[4]])
				}, checkE11),
				seqSpace("programs", "every range of small programs", lines, 0, pick(tier, 2, 3), "\n", checkE11All),
				seqSpace("more programs", "longer programs", lines, 3, pick(tier, 4, 5), "\n", checkE11Plain),
				prodSpace("fields", "every field argument with every number and name, in several versions", []int{len(slots), len(fieldVals), len(vs)}, func(ix []int) string { return vs[ix[2]] + slots[ix[0]](fieldVals[ix[1]]) }, checkE11Plain),
				listSpace("bytes", "every byte value", hexes, checkE11Plain),
				opArgsSpace("arguments", pick(tier, 2, 3), []string{"0x61", "1", "28", "b32", "base64", "0x6", "0xzz", "\"0x61\"", "0x"}, "", checkE11Plain),
				hugeFamilySpace(tier, 30, checkE11Plain),
				opFrameSpaces(checkE11Plain)[0],
			}
		}})
}
