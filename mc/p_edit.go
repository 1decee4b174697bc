package main

// E05 (rename), E06 (quick fixes), E07 (navigation), E12 (formatting): answers are judged by the text or the
// places they produce, against the reference analysis of the document.

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

const docURI = "file:///t.teal"

// occurrence of a label name: a definition (without its colon) or a label argument
type occ struct {
	name       string
	line, b, e int
	he         int // end of the region in which a cursor is on it
	def        bool
}

func occurrences(r *rRes) []occ {
	var res []occ
	for _, s := range r.syms {
		res = append(res, occ{s.name, s.line, s.b, s.b + len(s.name), s.e, true})
	}
	for _, t := range r.refs {
		res = append(res, occ{t.val, t.line, t.b, t.e, t.e, false})
	}
	return res
}

func occAt(os []occ, l, c int) *occ {
	for i := range os {
		if os[i].line == l && os[i].b <= c && c <= os[i].he {
			return &os[i]
		}
	}
	return nil
}

// every cursor position of a text, including past the end of lines and of the text
func cursorPositions(src string, maxCol int) [][2]int {
	_, length := textLines(src)
	var res [][2]int
	for l := 0; l <= len(length); l++ {
		w := 0
		if l < len(length) {
			w = length[l]
		}
		for c := 0; c <= w+1; c++ {
			if c > maxCol && c < w-maxCol {
				continue
			}
			res = append(res, [2]int{l, c})
		}
	}
	return res
}

func tokenEdges(r *rRes) [][2]int {
	seen := map[[2]int]bool{}
	var res [][2]int
	add := func(l, c int) {
		if c < 0 || seen[[2]int{l, c}] {
			return
		}
		seen[[2]int{l, c}] = true
		res = append(res, [2]int{l, c})
	}
	for l := range r.rows {
		add(l, 0)
		for _, t := range r.rows[l] {
			for _, c := range []int{t.b - 1, t.b, t.b + 1, t.e - 1, t.e, t.e + 1} {
				add(l, c)
			}
		}
		add(l, len(r.lines[l].text)+2)
	}
	add(len(r.rows), 0)
	add(len(r.rows)+1, 3)
	sort.Slice(res, func(i, j int) bool {
		return res[i][0] < res[j][0] || res[i][0] == res[j][0] && res[i][1] < res[j][1]
	})
	return res
}

func editsFor(os []occ, name, to string) []jEdit {
	var es []jEdit
	for _, o := range os {
		if o.name == name {
			es = append(es, jEdit{jRange{jPos{o.line, o.b}, jPos{o.line, o.e}}, to})
		}
	}
	return es
}

// ---------- E05 ----------

// newName: names a client may ask for, some of which are no labels
func newName(i int) string {
	odd := []string{"", "a", "b", "A", "x:", ":", "a b", " a", "a ", "//", "a//b", "\"", "int", "\n", "\\", "$1", "${1}", "%s", "%d%n", "é", "\u2028", "<a&b>", "\t", "0", "-1", "a:b"}
	if i < len(odd) {
		return odd[i]
	}
	return rep("n", []int{31, 32, 63, 64, 127, 128, 129, 255, 256, 5000}[i-len(odd)])
}

var renameTo = []string{"zz", "a", "x.y-long_name", "é😀<&>"}

func checkE05(src string, st *Stats) string {
	return checkE05At(src, cursorPositions(src, 40), renameTo, st)
}

func checkE05At(src string, ps [][2]int, names []string, st *Stats) string {
	r := refAnalyze(src)
	os := occurrences(r)
	s := &lspSess{}
	s.open(docURI, src)
	type q struct {
		p          [2]int
		prep       int
		renames    []int
		onlyRename bool
	}
	var qs []q
	for _, p := range ps {
		x := q{p: p, prep: s.req("textDocument/prepareRename", posParams(docURI, p[0], p[1]))}
		for _, n := range names {
			x.renames = append(x.renames, s.req("textDocument/rename", renameParams(docURI, p[0], p[1], n)))
		}
		qs = append(qs, x)
	}
	o, bad := s.run()
	if bad != "" {
		return bad
	}
	for _, x := range qs {
		at := occAt(os, x.p[0], x.p[1])
		var pr struct {
			Range       *jRange `json:"range"`
			Placeholder *string `json:"placeholder"`
		}
		if e := o.result(x.prep, &pr); e != "" {
			return e
		}
		got, want := "nothing", "nothing"
		if pr.Range != nil {
			got = pr.Range.String()
			if pr.Placeholder != nil {
				got += " " + *pr.Placeholder
			}
		}
		if at != nil {
			want = rstr(at.line, at.b, at.e) + " " + at.name
		}
		if got != want {
			return fmt.Sprintf("prepare-rename at %v answers %s, want %s", x.p, got, want)
		}
		for k, id := range x.renames {
			var we jWorkspaceEdit
			if e := o.result(id, &we); e != "" {
				return e
			}
			es, bad := we.of(docURI)
			if bad != "" {
				return bad
			}
			gotText, bad := applyEdits(src, es)
			if bad != "" {
				return fmt.Sprintf("renaming at %v to %q: %s", x.p, names[k], bad)
			}
			wantText := src
			if at != nil {
				wantText, _ = applyEdits(src, editsFor(os, at.name, names[k]))
			}
			st.Step(1)
			if gotText != wantText {
				return fmt.Sprintf("renaming at %v to %q gives %q, want %q", x.p, names[k], gotText, wantText)
			}
			st.State(gotText)
		}
	}
	return ""
}

// utf16Text re-reads byte-column edits as a protocol client does, which counts UTF-16 units.
func applyUTF16(src string, es []jEdit) (string, string) {
	start, length := textLines(src)
	conv := func(p jPos) jPos {
		if p.Line >= len(start) {
			return p
		}
		ln := src[start[p.Line] : start[p.Line]+length[p.Line]]
		u := 0
		for i, c := range ln {
			if u >= p.Character {
				return jPos{p.Line, i}
			}
			u++
			if c > 0xffff {
				u++
			}
		}
		return jPos{p.Line, len(ln)}
	}
	var xs []jEdit
	for _, e := range es {
		xs = append(xs, jEdit{jRange{conv(e.Range.Start), conv(e.Range.End)}, e.NewText})
	}
	return applyEdits(src, xs)
}

// checkE05Wide: rename in texts with characters outside ASCII, as a client of the protocol sees it.
func checkE05Wide(src string, st *Stats) string {
	r := refAnalyze(src)
	os := occurrences(r)
	if len(os) == 0 {
		return ""
	}
	start, _ := textLines(src)
	for _, at := range os {
		// the cursor stands at the start of the occurrence
		u := 0
		for _, c := range src[start[at.line] : start[at.line]+at.b] {
			u++
			if c > 0xffff {
				u++
			}
		}
		s := &lspSess{}
		s.open(docURI, src)
		id := s.req("textDocument/rename", renameParams(docURI, at.line, u, "zz"))
		o, bad := s.run()
		if bad != "" {
			return bad
		}
		var we jWorkspaceEdit
		if e := o.result(id, &we); e != "" {
			return e
		}
		es, bad := we.of(docURI)
		if bad != "" {
			return bad
		}
		got, bad := applyUTF16(src, es)
		if bad != "" {
			return bad
		}
		want, _ := applyEdits(src, editsFor(os, at.name, "zz"))
		st.Step(1)
		st.State(got)
		if got != want {
			return fmt.Sprintf("columns counted in UTF-16 units as the protocol has it, renaming %q gives %q, want %q", at.name, got, want)
		}
	}
	return ""
}

// ---------- E07 ----------

func checkE07(src string, st *Stats) string {
	return checkE07At(src, cursorPositions(src, 40), st)
}

func checkE07At(src string, ps [][2]int, st *Stats) string {
	r := refAnalyze(src)
	os := occurrences(r)
	s := &lspSess{}
	s.open(docURI, src)
	sym := s.req("textDocument/documentSymbol", docParams(docURI))
	lens := s.req("textDocument/codeLens", docParams(docURI))
	type q struct {
		p        [2]int
		def, hil int
	}
	var qs []q
	for _, p := range ps {
		qs = append(qs, q{p, s.req("textDocument/definition", posParams(docURI, p[0], p[1])), s.req("textDocument/documentHighlight", posParams(docURI, p[0], p[1]))})
	}
	o, bad := s.run()
	if bad != "" {
		return bad
	}
	var got, want []string
	var ds []struct {
		Name           string
		Range          jRange `json:"range"`
		SelectionRange jRange `json:"selectionRange"`
	}
	if e := o.result(sym, &ds); e != "" {
		return e
	}
	for _, d := range ds {
		got = append(got, fmt.Sprintf("%s %s %s", d.Name, d.Range, d.SelectionRange))
	}
	for _, y := range r.syms {
		want = append(want, fmt.Sprintf("%s %s %s", y.name, rstr(y.line, y.b, y.e), rstr(y.line, y.b, y.e)))
	}
	if m := diffStr("outline", got, want); m != "" {
		return m
	}
	var ls []struct {
		Range   jRange `json:"range"`
		Command *struct{ Title string }
	}
	if e := o.result(lens, &ls); e != "" {
		return e
	}
	got, want = nil, nil
	for _, l := range ls {
		t := "no title"
		if l.Command != nil {
			t = l.Command.Title
		}
		got = append(got, fmt.Sprintf("line %d %s", l.Range.Start.Line, t))
		if l.Range.End.Line != l.Range.Start.Line {
			return "a lens spans several lines: " + l.Range.String()
		}
	}
	for _, y := range r.syms {
		if n := r.refc[y.name]; n > 0 {
			want = append(want, fmt.Sprintf("line %d refs: %d", y.line, n))
		}
	}
	if m := diffStr("lenses", got, want); m != "" {
		return m
	}
	for _, x := range qs {
		at := occAt(os, x.p[0], x.p[1])
		var dl []struct {
			Uri   string `json:"uri"`
			Range jRange `json:"range"`
		}
		if e := o.result(x.def, &dl); e != "" {
			return e
		}
		got, want = nil, nil
		for _, d := range dl {
			if d.Uri != docURI {
				return "definition in another document " + d.Uri
			}
			got = append(got, d.Range.String())
		}
		if at != nil && !at.def {
			for _, y := range os {
				if y.def && y.name == at.name {
					want = append(want, rstr(y.line, y.b, y.e))
				}
			}
		}
		if m := diffStr(fmt.Sprintf("definitions at %v", x.p), got, want); m != "" {
			return m
		}
		var hl []struct {
			Range jRange `json:"range"`
		}
		if e := o.result(x.hil, &hl); e != "" {
			return e
		}
		got, want = nil, nil
		for _, h := range hl {
			got = append(got, h.Range.String())
		}
		if at != nil {
			for _, y := range os {
				if y.name == at.name {
					want = append(want, rstr(y.line, y.b, y.e))
				}
			}
		}
		st.Step(2)
		st.State(strings.Join(want, ","))
		if m := diffStr(fmt.Sprintf("highlights at %v", x.p), sorted(got), sorted(want)); m != "" {
			return m
		}
	}
	return ""
}

// ---------- E06 ----------

type hint struct {
	named      bool
	line, b, e int
	text       string
}

func decimal(s string) (int, bool) {
	d := strings.TrimPrefix(s, "-")
	if d == "" {
		return 0, false
	}
	for _, c := range d {
		if c < '0' || c > '9' {
			return 0, false
		}
	}
	n, err := strconv.Atoi(s)
	return n, err == nil
}

func hexText(s string) (string, bool) {
	if !strings.HasPrefix(s, "0x") || len(s)%2 != 0 {
		return "", false
	}
	var b []byte
	for i := 2; i < len(s); i += 2 {
		v, err := strconv.ParseUint(s[i:i+2], 16, 8)
		if err != nil || s[i] == '+' || s[i] == '-' || v < 0x20 || v > 0x7e {
			return "", false
		}
		b = append(b, byte(v))
	}
	return string(b), true
}

// refHints: what can be shown about the numeric field arguments and hexadecimal literals of a document.
func refHints(r *rRes) []hint {
	var res []hint
	for l, row := range r.rows {
		if len(row) == 0 || row[0].kind != "Value" {
			continue
		}
		spec, ok := opTab[row[0].val]
		if !ok {
			continue
		}
		encoded := false
		for i, t := range row[1:] {
			if i < len(spec.imm) && isFieldKind(spec.imm[i].kind) {
				if n, ok := decimal(t.val); ok {
					for _, f := range fieldTab[fieldGroup(spec.imm[i].kind)] {
						if _, usable := fieldUsable(spec.imm[i].kind, f); usable && f.num == n {
							res = append(res, hint{true, l, t.b, t.e, f.name})
						}
					}
				}
			}
			k := i
			if k >= len(spec.imm) && len(spec.imm) > 0 && spec.imm[len(spec.imm)-1].array {
				k = len(spec.imm) - 1
			}
			if k < len(spec.imm) && spec.imm[k].kind == "bytes" {
				if encoded {
					encoded = false
					continue
				}
				switch t.val {
				case "base32", "b32", "base64", "b64":
					encoded = true
					continue
				}
				if s, ok := hexText(t.val); ok {
					res = append(res, hint{false, l, t.b, t.e, s})
				}
			} else {
				encoded = false
			}
		}
	}
	return res
}

func touches(g rng, l, b, e int) bool {
	// g runs from its start to its end position; the token from (l,b) to (l,e)
	startOK := g.sl < l || g.sl == l && g.sc <= e
	endOK := g.el > l || g.el == l && g.ec >= b
	return startOK && endOK
}

func withoutLine(src string, n int) string {
	var b strings.Builder
	for i, l := range splitSource(src) {
		if i != n {
			b.WriteString(l.text + l.eol)
		}
	}
	return b.String()
}

func replaceAt(src string, l, b, e int, t string) string {
	s, _ := applyEdits(src, []jEdit{{jRange{jPos{l, b}, jPos{l, e}}, t}})
	return s
}

// wantFixes: what the fixes offered for a range turn the text into.
func wantFixes(src string, r *rRes, hs []hint, g rng) []string {
	var res []string
	for _, x := range r.red {
		var n int
		fmt.Sscanf(x, "%d", &n)
		if g.sl <= n && n <= g.el {
			res = append(res, "text "+withoutLine(src, n))
		}
	}
	for _, t := range r.miss {
		if touches(g, t.line, t.b, t.e) {
			res = append(res, "create "+t.val)
		}
	}
	for _, h := range hs {
		if touches(g, h.line, h.b, h.e) {
			t := h.text
			if !h.named {
				t = `"` + strings.ReplaceAll(strings.ReplaceAll(t, `\`, `\\`), `"`, `\"`) + `"`
			}
			res = append(res, "text "+replaceAt(src, h.line, h.b, h.e, t))
		}
	}
	for _, v := range r.vers {
		var l, b, e, n int
		fmt.Sscanf(v, "%d:%d-%d>=%d", &l, &b, &e, &n)
		if touches(g, l, b, e) {
			if r.vtok != nil {
				res = append(res, "text "+replaceAt(src, r.vtok.line, r.vtok.b, r.vtok.e, strconv.Itoa(n)))
			} else {
				res = append(res, fmt.Sprintf("pragma %d", n))
			}
		}
	}
	return sorted(res)
}

func nonblank(src string) []string {
	var res []string
	for _, l := range splitSource(src) {
		if strings.TrimSpace(l.text) != "" {
			res = append(res, l.text)
		}
	}
	return res
}

// describeFix: the resulting text, or what was added when the added line's surroundings are free.
func describeFix(src, got string, r *rRes) string {
	for v := 1; v <= 16; v++ {
		for _, eol := range []string{"\n", "\r\n"} {
			if got == fmt.Sprintf("#pragma version %d%s%s", v, eol, src) {
				return fmt.Sprintf("pragma %d", v)
			}
		}
	}
	a, b := nonblank(src), nonblank(got)
	if len(b) == len(a)+1 {
		i := 0
		for i < len(a) && a[i] == b[i] {
			i++
		}
		name := strings.TrimSuffix(strings.TrimSpace(b[i]), ":")
		if strings.TrimSpace(b[i]) == name+":" && strings.Join(a[i:], "\n") == strings.Join(b[i+1:], "\n") {
			if strings.HasPrefix(name, `"`) {
				return "create " + name // quoted names cannot be defined
			}
			n := refAnalyze(got)
			if len(n.syms) == len(r.syms)+1 {
				for _, y := range n.syms {
					if y.name == name {
						return "create " + name
					}
				}
			}
		}
	}
	return "text " + got
}

// fixWorks: after the fix the problem is gone and every other line means what it did.
func fixWorks(src, got string, h hint, r *rRes) string {
	n := refAnalyze(got)
	if len(n.listing) != len(r.listing) {
		return "the fix changes the number of lines"
	}
	for i := range n.listing {
		if h.named && i == h.line {
			// the name has to be usable at that version to be read back
			f, ok := lookupField(opTab[r.rows[i][0].val].imm[argIndex(r, h)].kind, h.text)
			if !ok {
				continue
			}
			if v, _ := fieldUsable(opTab[r.rows[i][0].val].imm[argIndex(r, h)].kind, f); v > r.inForce[i] {
				continue
			}
		}
		if r.listing[i].String() != n.listing[i].String() {
			return fmt.Sprintf("the fix changes the instruction of line %d from %v to %v", i, r.listing[i], n.listing[i])
		}
	}
	return ""
}

func argIndex(r *rRes, h hint) int {
	for i, t := range r.rows[h.line][1:] {
		if t.b == h.b {
			return i
		}
	}
	return 0
}

type jAction struct {
	Title   string          `json:"title"`
	Edit    *jWorkspaceEdit `json:"edit"`
	Command *struct {
		Command   string            `json:"command"`
		Arguments []json.RawMessage `json:"arguments"`
	} `json:"command"`
}

func checkE06(src string, st *Stats) string {
	r := refAnalyze(src)
	ps := tokenEdges(r)
	var gs []rng
	for i, a := range ps {
		for _, b := range ps[i:] {
			gs = append(gs, rng{a[0], a[1], b[0], b[1]})
		}
	}
	return checkE06At(src, r, gs, st)
}

// checkE06Few: only the ranges of single lines and of everything
func checkE06Few(src string, st *Stats) string {
	r := refAnalyze(src)
	gs := []rng{{0, 0, 0, 0}}
	if len(r.rows) < 140 {
		gs = append(gs, rng{0, 0, len(r.rows) + 1, 0})
	}
	for l := range r.rows {
		if l < 4 || l > len(r.rows)-4 {
			gs = append(gs, rng{l, 0, l, len(r.lines[l].text)}, rng{l, 0, l + 1, 0})
		}
	}
	return checkE06At(src, r, gs, st)
}

func checkE06At(src string, r *rRes, gs []rng, st *Stats) string {
	hs := refHints(r)
	s := &lspSess{}
	s.open(docURI, src)
	var ids []int
	for _, g := range gs {
		ids = append(ids, s.req("textDocument/codeAction", rangeParams(docURI, g)))
	}
	o, bad := s.run()
	if bad != "" {
		return bad
	}
	acts := make([][]jAction, len(gs))
	cmds := map[string]int{}
	var order []string
	for i, id := range ids {
		if e := o.result(id, &acts[i]); e != "" {
			return e
		}
		for _, a := range acts[i] {
			if a.Command != nil {
				k := jq(a.Command)
				if _, ok := cmds[k]; !ok {
					cmds[k] = len(order)
					order = append(order, k)
				}
			}
		}
	}
	// every distinct command is executed by the server; the edit it asks for is applied
	texts := make([]string, len(order))
	for i, k := range order {
		t, bad := execCommand(src, k)
		if bad != "" {
			return fmt.Sprintf("executing %s: %s", k, bad)
		}
		texts[i] = describeFix(src, t, r)
	}
	for i, g := range gs {
		var got []string
		for _, a := range acts[i] {
			if a.Command != nil {
				got = append(got, texts[cmds[jq(a.Command)]])
				continue
			}
			if a.Edit == nil {
				return fmt.Sprintf("action %q has no effect", a.Title)
			}
			es, bad := a.Edit.of(docURI)
			if bad != "" {
				return bad
			}
			t, bad := applyEdits(src, es)
			if bad != "" {
				return fmt.Sprintf("action %q: %s", a.Title, bad)
			}
			got = append(got, describeFix(src, t, r))
		}
		want := wantFixes(src, r, hs, g)
		st.Step(len(want) + 1)
		st.State(strings.Join(want, "|"))
		if m := diffStr(fmt.Sprintf("texts after the fixes offered for %v", g), sorted(got), want); m != "" {
			return m
		}
	}
	for i, h := range hs {
		if i >= 40 && i < len(hs)-40 {
			continue // each costs an analysis of the whole text
		}
		t := h.text
		if !h.named {
			t = `"` + strings.ReplaceAll(strings.ReplaceAll(t, `\`, `\\`), `"`, `\"`) + `"`
		}
		if m := fixWorks(src, replaceAt(src, h.line, h.b, h.e, t), h, r); m != "" {
			return m
		}
	}
	return ""
}

// checkSetVersion: the command sets the version it is given and changes nothing else.
func checkSetVersion(src string, st *Stats) string {
	r := refAnalyze(src)
	for _, v := range []string{"1", "2", "8", "9", "10", "11", "19", "99", "100", "101", "200", "255"} {
		got, bad := execCommand(src, `{"title":"","command":"teal.version.update","arguments":[{"uri":`+jq(docURI)+`,"version":`+v+`}]}`)
		if bad != "" {
			return fmt.Sprintf("setting version %s: %s", v, bad)
		}
		st.Step(1)
		st.State(got)
		ok := false
		if r.vtok != nil {
			ok = got == replaceAt(src, r.vtok.line, r.vtok.b, r.vtok.e, v)
		} else {
			for _, nl := range []string{"\n", "\r\n", "\r"} {
				ok = ok || got == "#pragma version "+v+nl+src
			}
		}
		if !ok {
			return fmt.Sprintf("setting version %s gives %q", v, clipS(got))
		}
	}
	return ""
}

// checkRemoveLabel: the command removes the definitions of a label and nothing else.
func checkRemoveLabel(src string, st *Stats) string {
	r := refAnalyze(src)
	seen := map[string]bool{"nowhere": true}
	names := []string{"nowhere"}
	for _, y := range r.syms {
		if !seen[y.name] && len(names) < 6 {
			seen[y.name] = true
			names = append(names, y.name)
		}
	}
	for _, n := range names {
		got, bad := execCommand(src, `{"title":"","command":"teal.label.remove","arguments":[{"uri":`+jq(docURI)+`,"name":`+jq(n)+`}]}`)
		if bad != "" {
			return fmt.Sprintf("removing label %q: %s", n, bad)
		}
		want := src
		for i := len(r.syms) - 1; i >= 0; i-- {
			if y := r.syms[i]; y.name == n {
				want = replaceAt(want, y.line, y.b, y.e, "")
			}
		}
		st.Step(1)
		st.State(want)
		if got != want {
			return fmt.Sprintf("removing label %q gives %q, want %q", n, clipS(got), clipS(want))
		}
	}
	return ""
}

func execCommand(src, cmd string) (string, string) {
	s := &lspSess{}
	s.open(docURI, src)
	id := s.req("workspace/executeCommand", cmd)
	o, bad := s.run()
	if bad != "" {
		return "", bad
	}
	if m, ok := o.byID[strconv.Itoa(id)]; !ok || m.hasError {
		return "", "the command fails: " + clipS(m.raw)
	}
	var es []jEdit
	n := 0
	for _, m := range o.msgs {
		if m.method != "workspace/applyEdit" {
			continue
		}
		n++
		var p struct {
			Edit jWorkspaceEdit `json:"edit"`
		}
		if json.Unmarshal(m.params, &p) != nil {
			return "", "unusable edit " + clipS(m.raw)
		}
		x, bad := p.Edit.of(docURI)
		if bad != "" {
			return "", bad
		}
		es = append(es, x...)
	}
	if n != 1 {
		return "", fmt.Sprintf("%d edits requested", n)
	}
	return applyEdits(src, es)
}

// ---------- E12 ----------

// layoutFree: the non-blank lines of a text as token sequences; whitespace in the Unicode sense does not count.
func layoutFree(src string) string {
	var b strings.Builder
	for _, l := range splitSource(src) {
		text := strings.TrimFunc(l.text, unicode.IsSpace)
		if text == "" {
			continue
		}
		for _, t := range lexLine(text, 0) {
			b.WriteString(t.kind + ":" + strings.TrimRightFunc(t.val, unicode.IsSpace) + "\x00")
		}
		b.WriteString("\n")
	}
	return b.String()
}

func formatOnce(src string) (string, string) {
	s := &lspSess{}
	s.open(docURI, src)
	id := s.req("textDocument/formatting", `{"textDocument":{"uri":`+jq(docURI)+`},"options":{"tabSize":4,"insertSpaces":true}}`)
	o, bad := s.run()
	if bad != "" {
		return "", bad
	}
	var es []jEdit
	if e := o.result(id, &es); e != "" {
		return "", e
	}
	return applyEdits(src, es)
}

func checkE12(src string, st *Stats) string {
	a, bad := formatOnce(src)
	if bad != "" {
		for _, l := range strings.Split(src, "\n") {
			if len(l) > 65000 {
				return "" // lines this long may be refused
			}
		}
		return bad
	}
	st.Step(1)
	st.State(a)
	if x, y := layoutFree(a), layoutFree(src); x != y {
		return fmt.Sprintf("formatting gives %q, which is not the same program", clipS(a))
	}
	ra, rs := refAnalyze(a), refAnalyze(src)
	if x, y := meaning(ra), meaning(rs); x != y && !oddEdges(rs) {
		return fmt.Sprintf("formatting gives %q, whose instructions differ: %s", clipS(a), firstDiff(x, y))
	}
	b, bad := formatOnce(a)
	if bad != "" {
		return bad
	}
	st.Step(1)
	if a != b {
		return fmt.Sprintf("formatting again changes %q to %q", clipS(a), clipS(b))
	}
	return ""
}

// oddEdges: some line has whitespace at its edges which the language counts as text (other than spaces and tabs, or
// within an unterminated string); formatting drops it.
func oddEdges(r *rRes) bool {
	for _, l := range r.lines {
		if strings.TrimFunc(l.text, unicode.IsSpace) != strings.Trim(l.text, " \t") {
			return true
		}
	}
	for _, t := range r.tokens {
		if t.broken && strings.TrimRightFunc(t.val, unicode.IsSpace) != t.val {
			return true
		}
	}
	return false
}

func meaning(r *rRes) string {
	var b strings.Builder
	for _, o := range r.listing {
		if o.kind != "empty" {
			b.WriteString(o.String() + "\n")
		}
	}
	return b.String()
}

func init() {
	names := []string{"a:", "b:", "ab:", " a: ", "b a", "bz b", "bnz ab", "callsub a", "switch a b a", "\tmatch  ab\ta", "int 1", "b", "b a b", "// a", "byte \"a\"", "b a // a", "a: // b a", "b x"}
	register(&Prop{ID: "E05", Assumptions: []string{"columns are counted in bytes as everywhere else in the program; the deviation from the protocol's UTF-16 units is a known finding"},
		Spaces: func(tier string) []Space {
			return []Space{
				seqSpace("programs", "every cursor position of every program of label lines", names, 0, pick(tier, 3, 4), "\n", checkE05),
				seqSpace("lineends", "every cursor position under mixed line ends", []string{"a:", "b a", "\n", "\r\n", "\r", " ", "\t"}, 1, pick(tier, 5, 6), "", checkE05),
				seqSpace("odd names", "label names with unusual characters", []string{"a\"b:", "b a\"b", "#x:", "b #x", "1:", "b 1", "b b", "b:", "a::", "b a:", "b \"a b\"", "b \"x\\\"y\"", "é:", "b é", "\"q\":", "int:", "callsub int"}, 1, pick(tier, 3, 4), "\n", checkE05),
				listSpace("protocol columns", "columns in UTF-16 units as the protocol has it", []string{"é:", "a:\nb a // é", "byte \"é\" // é\na:\nb a", "é:\nb é", "😀x:\nbz 😀x", "switch é a\na:"}, checkE05Wide),
				prodSpace("new names", "unusual and long new names", []int{3, 36}, func(ix []int) string {
					return []string{"a:\nb a\nswitch a b a\nb:", "x: // a\nbz a\n", "b:\ncallsub b\n\tb:\nb b"}[ix[0]] + "\x00" + strconv.Itoa(ix[1])
				}, func(c string, st *Stats) string {
					src, k, _ := strings.Cut(c, "\x00")
					n, _ := strconv.Atoi(k)
					return checkE05At(src, cursorPositions(src, 40), []string{newName(n)}, st)
				}),
				nameSpace(func(src string, st *Stats) string {
					return checkE05At(src, tokenEdges(refAnalyze(src)), []string{"zz"}, st)
				}),
				familySpace(tier, 20, func(src string, st *Stats) string {
					r := refAnalyze(src)
					ps := tokenEdges(r)
					if len(ps) > 60 {
						ps = append(append([][2]int{}, ps[:30]...), ps[len(ps)-30:]...)
					}
					return checkE05At(src, ps, []string{"zz"}, st)
				}),
			}
		}})
	register(&Prop{ID: "E07", Assumptions: []string{"a lens is shown on used labels only; the cursor right after the colon still is on the label"},
		Spaces: func(tier string) []Space {
			return []Space{
				seqSpace("programs", "every cursor position of every program of label lines", names, 0, pick(tier, 3, 4), "\n", checkE07),
				seqSpace("lineends", "every cursor position under mixed line ends", []string{"a:", "b a", "\n", "\r\n", "\r", " ", "\t"}, 1, pick(tier, 5, 6), "", checkE07),
				seqSpace("odd names", "label names with unusual characters", []string{"a\"b:", "b a\"b", "#x:", "b #x", ":", "b", "b b", "b:", "a::", "b a:", "b \"a b\"", "b \"x\\\"y\"", "é:", "b é", "\"q\":", "int:", "callsub int"}, 1, pick(tier, 3, 4), "\n", checkE07),
				nameSpace(func(src string, st *Stats) string {
					return checkE07At(src, tokenEdges(refAnalyze(src)), st)
				}),
				hugeFamilySpace(tier, 30, func(src string, st *Stats) string {
					r := refAnalyze(src)
					ps := tokenEdges(r)
					if len(ps) > 60 {
						ps = append(append([][2]int{}, ps[:30]...), ps[len(ps)-30:]...)
					}
					return checkE07At(src, ps, st)
				}),
			}
		}})
	register(&Prop{ID: "E06", Assumptions: []string{
		"the surroundings of an added label line (blank lines, line ends) are free; quoted strings as names of missing labels are excluded",
		"a version fix sets the last version pragma of the document, adding one in front when there is none",
		"columns are counted in bytes",
	}, Spaces: func(tier string) []Space {
		lines := []string{"a:", "b a", "bnz c", "#pragma version 3", "#pragma version x", "sha3_256", " bury 1", "txn 0", "byte 0x6162", "int 1", "// c", "return", "callsub c // t", ""}
		fixes := []string{"txn 1", "txna 28 0", "txn 26", "itxn_field 16", "itxn_field 5", "global 3 ", "byte 0x225c", "pushbytes 0x2022", "bytecblock 0x61 0x62 0x0a", "byte b64 0x61", "byte base32(0x61) 0x61", "gtxn 1 2", "gtxna 1 28 1", "asset_params_get 1", "txn 99", "txn 007", "byte 0x", "byte 0X61", "int 0x61", "ecdsa_verify 0", "json_ref 1", "block 0", "ec_add 1", "switch c a d c", "match e"}
		return []Space{
			seqSpace("programs", "every range of every program of fixable lines", lines, 0, pick(tier, 3, 4), "\n", checkE06),
			seqSpace("values", "every range of lines with numeric fields, literals and missing labels", append(append([]string{}, fixes...), "#pragma version 8"), 1, pick(tier, 2, 3), "\n", checkE06),
			seqSpace("lineends", "removals and additions under mixed line ends", []string{"a:", "b a", "b c", "bury 1", "\n", "\r\n", "\r", " "}, 1, pick(tier, 5, 6), "", checkE06Few),
			opArgsSpace("arguments", pick(tier, 2, 2), []string{"0", "1", "5", "28", "67", "0x41", "0x4g", "x", "b64", "\"s\"", "-1", "256"}, "#pragma version 8\n", checkE06Few),
			hugeFamilySpace(tier, 40, checkE06Few),
			opFrameSpaces(checkE06Few)[0],
			seqSpace("label removal", "the command removing a label, on programs of label lines", names, 0, pick(tier, 3, 4), "\n", checkRemoveLabel),
			familySpace("quick", 100, checkRemoveLabel),
			seqSpace("version update", "the command setting the version, on programs with and without version lines", []string{"", "#pragma version 2", "  #pragma  version  255 // c", "#pragma version", "#pragma version 0", "#pragma", "bury 1", "// x", "#pragma version 0x8"}, 0, pick(tier, 3, 4), "\n", checkSetVersion),
		}
	}})
	register(&Prop{ID: "E12", Assumptions: []string{"whitespace at the edges of a line is meant in the Unicode sense; lines shorter than 64 KiB"},
		Spaces: func(tier string) []Space {
			return []Space{
				seqSpace("lines", "programs of every kind of line", []string{"#pragma version 2", "a:", "\t b a  ", "int 1", "byte \"x  y\" ", "// c", " // d", "", "return", "b: // t", "log // u", "txn\tSender", "#pragma version", "byte \"//\"", "err"}, 0, pick(tier, 4, 5), "\n", checkE12),
				seqSpace("text", "all small texts of hazardous pieces", []string{"x", " ", "\t", "\n", "\r\n", "\r", "//", "a:", "\"", "return", "\u00a0"}, 0, pick(tier, 5, 6), "", checkE12),
				seqSpace("layout", "void instructions, labels, comments and blank lines in any order", []string{"assert", "l:", "//c", "int 1", "", "#pragma version 5"}, 5, pick(tier, 6, 7), "\n", checkE12),
				listSpace("instructions", "every mnemonic", opNames, func(op string, st *Stats) string {
					for _, s := range []string{defaultLine(op), "  " + defaultLine(op) + " // c\n\n\tl:\n" + defaultLine(op), "//x\n" + op, op + ":\n" + op} {
						if m := checkE12(s, st); m != "" {
							return m
						}
					}
					return ""
				}),
				prodSpace("long lines", "long comments, strings, words and rows of arguments", []int{5, 12}, func(ix []int) string {
					n := []int{4000, 4095, 4096, 8191, 8192, 16384, 32766, 32768, 50000, 65000, 65500, 65520}[ix[1]]
					return "int 1\n" + []string{"// " + rep("c", n), "byte \"" + rep("s", n) + "\"", rep("w", n) + ":", "switch" + rep(" a", n/2), "byte 0x" + rep("61", n/2)}[ix[0]] + "\n  err"
				}, checkE12),
				familySpace("quick", pick(tier, 100, 600), checkE12),
			}
		}})
}
