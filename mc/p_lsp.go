package main

// Checks of the language server as a reactive system: E01 (document state), E02 (request/response),
// E03 (life cycle), E04 (framing), E13 (diagnostics).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/dragmz/teal"
)

var lspURIs = []string{"file:///d/a.teal", "file:///d/A.teal", "untitled:x"}

// texts that differ in everything a query can show
var lspTexts = []string{
	"a:\nb a\nb c\n",
	"#pragma version 8\r\n\r\n// doc\r\nb:\r\ntxn 1\r\nbyte 0x6162\r\ncallsub b\r\nproto 1 2\r\n",
	"",
	"// #pragma mode logicsig\nint 1\rc:\rbnz c\rx",
	"b a\n a:\n\n",
}

// battery asks about everything of one document; the answers are a function of its text.
func battery(s *lspSess, uri string) []int {
	var ids []int
	q := func(m, p string) { ids = append(ids, s.req(m, p)) }
	full := rng{0, 0, 20, 20}
	q("textDocument/diagnostic", docParams(uri))
	q("textDocument/documentSymbol", docParams(uri))
	q("textDocument/codeLens", docParams(uri))
	q("textDocument/semanticTokens/full", docParams(uri))
	q("textDocument/formatting", docParams(uri))
	q("textDocument/inlayHint", rangeParams(uri, full))
	q("textDocument/codeAction", rangeParams(uri, full))
	for _, p := range [][2]int{{0, 0}, {1, 2}, {2, 2}, {4, 5}, {6, 8}} {
		q("textDocument/hover", posParams(uri, p[0], p[1]))
		q("textDocument/definition", posParams(uri, p[0], p[1]))
		q("textDocument/documentHighlight", posParams(uri, p[0], p[1]))
		q("textDocument/rename", renameParams(uri, p[0], p[1], "zz"))
		q("textDocument/prepareRename", posParams(uri, p[0], p[1]))
		q("textDocument/signatureHelp", posParams(uri, p[0], p[1]))
	}
	q("textDocument/completion", posParams(uri, 1, 2))
	q("textDocument/completion", posParams(uri, 4, 5))
	q("textDocument/completion", posParams(uri, 2, 0))
	q("workspace/executeCommand", `{"command":"teal.version.update","arguments":[{"uri":`+jq(uri)+`,"version":9}]}`)
	q("workspace/executeCommand", `{"command":"teal.label.create","arguments":[{"uri":`+jq(uri)+`,"name":"q"}]}`)
	q("workspace/executeCommand", `{"command":"teal.label.remove","arguments":[{"uri":`+jq(uri)+`,"name":"a"}]}`)
	return ids
}

// canonResult renders an answer; the order of completion items carries no meaning.
func canonResult(m rpcMsg, completion bool) string {
	if m.hasError {
		return "error"
	}
	if !completion {
		return string(m.result)
	}
	var items []json.RawMessage
	if json.Unmarshal(m.result, &items) != nil {
		return string(m.result)
	}
	var ss []string
	for _, i := range items {
		ss = append(ss, string(i))
	}
	sort.Strings(ss)
	return strings.Join(ss, "\n")
}

// batteryAnswers of a finished session: one string per query, server requests interleaved.
func batteryAnswers(o *lspOut, ids []int, uri string) []string {
	n := len(ids)
	var res []string
	for i, id := range ids {
		m, ok := o.byID[strconv.Itoa(id)]
		if !ok {
			res = append(res, "unanswered")
			continue
		}
		res = append(res, strings.ReplaceAll(canonResult(m, i >= n-6 && i < n-3), uri, "URI"))
	}
	return res
}

func editRequests(o *lspOut, uri string) []string {
	var res []string
	for _, m := range o.msgs {
		if m.hasMethod {
			res = append(res, m.method+" "+strings.ReplaceAll(string(m.params), uri, "URI"))
		}
	}
	return res
}

type freshAns struct {
	ans, reqs []string
	bad       string
}

var freshMu sync.Mutex
var freshCache = map[string]freshAns{}

// freshAnswers: what a fresh server says that was only given this text (closed: none).
func freshAnswers(open bool, text string) freshAns {
	key := "closed"
	if open {
		key = "open " + text
	}
	freshMu.Lock()
	defer freshMu.Unlock()
	if a, ok := freshCache[key]; ok {
		return a
	}
	s := &lspSess{}
	uri := "file:///fresh"
	if open {
		s.open(uri, text)
	}
	ids := battery(s, uri)
	o, bad := s.run()
	a := freshAns{bad: bad}
	if bad == "" {
		a.ans = batteryAnswers(o, ids, uri)
		a.reqs = editRequests(o, uri)
	}
	freshCache[key] = a
	return a
}

type docModel struct {
	open bool
	text string
}

// history step syntax: "o0:1" open uri 0 with text 1, "c0:1" change, "m0:1,2" two changes, "e0" empty change,
// "s0" save, "x0" close, "q0" battery, "f0" failing requests, "r0:1" replace by executing commands
func playHistory(steps []string, s *lspSess, docs []docModel) (requests int) {
	for _, w := range steps {
		u := int(w[1] - '0')
		uri := lspURIs[u]
		var ts []string
		if len(w) > 3 && w[0] != 'v' && w[0] != 'k' {
			for _, x := range strings.Split(w[3:], ",") {
				i, _ := strconv.Atoi(x)
				ts = append(ts, lspTexts[i])
			}
		}
		switch w[0] {
		case 'o':
			s.open(uri, ts[0])
			docs[u] = docModel{true, ts[0]}
		case 'c', 'm', 'e':
			s.change(uri, ts...)
			if docs[u].open && len(ts) > 0 {
				docs[u].text = ts[len(ts)-1]
			}
		case 's':
			s.note("textDocument/didSave", `{"textDocument":{"uri":`+jq(uri)+`},"text":"int 77\n"}`)
		case 'x':
			s.close(uri)
			docs[u] = docModel{}
		case 'q':
			battery(s, uri)
		case 'd':
			s.req("textDocument/diagnostic", docParams(uri))
		case 'v': // "v0:1,2": like c or o with a version number: v0:text,version,how
			f := strings.Split(w[3:], ",")
			v := `,"version":` + f[1]
			if f[1] == "" {
				v = ""
			}
			i, _ := strconv.Atoi(f[0])
			if f[2] == "o" {
				s.note("textDocument/didOpen", `{"textDocument":{"uri":`+jq(uri)+`,"languageId":"teal"`+v+`,"text":`+jqText(lspTexts[i])+`}}`)
				docs[u] = docModel{true, lspTexts[i]}
				break
			}
			s.note("textDocument/didChange", `{"textDocument":{"uri":`+jq(uri)+v+`},"contentChanges":[{"text":`+jqText(lspTexts[i])+`}]}`)
			if docs[u].open {
				docs[u].text = lspTexts[i]
			}
		case 'a': // commands, and the client's answer to the requested edits
			for _, x := range []string{`{"command":"teal.label.create","arguments":[{"uri":` + jq(uri) + `,"name":"q"}]}`, `{"command":"teal.line.remove","arguments":[{"uri":` + jq(uri) + `,"line":0}]}`, `{"command":"teal.version.update","arguments":[{"uri":` + jq(uri) + `,"version":7}]}`} {
				s.req("workspace/executeCommand", x)
			}
			for i := 1; i < 9; i++ {
				s.raw(fmt.Sprintf(`{"jsonrpc":"2.0","id":"%d","result":{"applied":true}}`, i))
			}
		case 'n': // an edit the client refuses, and messages of other kinds
			s.req("workspace/executeCommand", `{"command":"teal.label.create","arguments":[{"uri":`+jq(uri)+`,"name":"q"}]}`)
			s.raw(`{"jsonrpc":"2.0","id":"1","error":{"code":-1,"message":"no"}}`)
			s.note("initialized", "{}")
			s.note("$/setTrace", `{"value":"off"}`)
			s.note("workspace/didChangeConfiguration", `{"settings":{"teal":{"lensRefs":false}}}`)
			s.note("workspace/didChangeWatchedFiles", `{"changes":[{"uri":`+jq(uri)+`,"type":3}]}`)
			s.note("textDocument/willSave", `{"textDocument":{"uri":`+jq(uri)+`},"reason":1}`)
			s.note("$/cancelRequest", `{"id":1}`)
		case 'k': // "k0:3": a long exchange of changes and questions
			n, _ := strconv.Atoi(w[3:])
			for i := 0; i < n; i++ {
				s.change(uri, lspTexts[i%2])
				if i%3 != 1 {
					s.req("textDocument/documentSymbol", docParams(uri))
				}
				if docs[u].open {
					docs[u].text = lspTexts[i%2]
				}
			}
		case 'f':
			s.req("textDocument/hover", `{"textDocument":{"uri":`+jq(uri)+`},"position":{"line":"x"}}`)
			s.req("no/such", docParams(uri))
			s.note("textDocument/didChange", `{"textDocument":{"uri":`+jq(uri)+`},"contentChanges":[null]}`)
			s.note("textDocument/didOpen", `{"textDocument":null}`)
			s.raw("{")
		}
	}
	return
}

func checkE01(c string, st *Stats) string {
	steps := strings.Fields(c)
	s := &lspSess{}
	docs := make([]docModel, len(lspURIs))
	playHistory(steps, s, docs)
	st.Step(len(steps))
	before := s.n
	var ids [][]int
	for _, u := range lspURIs {
		ids = append(ids, battery(s, u))
	}
	o, bad := s.run()
	if bad != "" {
		return bad
	}
	if len(o.byID) != s.n {
		return fmt.Sprintf("%d requests, %d answers", s.n, len(o.byID))
	}
	_ = before
	for i, u := range lspURIs {
		got := batteryAnswers(o, ids[i], u)
		want := freshAnswers(docs[i].open, docs[i].text)
		if want.bad != "" {
			return want.bad
		}
		st.Step(len(got))
		for k := range got {
			if got[k] != want.ans[k] {
				return fmt.Sprintf("after this history, query %d of document %d answers\n  %s\na fresh server given its latest text answers\n  %s", k, i, clipS(got[k]), clipS(want.ans[k]))
			}
		}
	}
	// server requests: the last ones belong to the final batteries, in order
	var wantReqs []string
	for i, u := range lspURIs {
		for _, r := range freshAnswers(docs[i].open, docs[i].text).reqs {
			wantReqs = append(wantReqs, strings.ReplaceAll(r, "URI", u))
		}
	}
	gotReqs := editRequests(o, "\x00")
	if len(gotReqs) < len(wantReqs) {
		return fmt.Sprintf("%d edit requests, want at least %d", len(gotReqs), len(wantReqs))
	}
	gotReqs = gotReqs[len(gotReqs)-len(wantReqs):]
	if m := diffStr("edit requests of the final queries", gotReqs, wantReqs); m != "" {
		return m
	}
	var sum []string
	for _, d := range docs {
		sum = append(sum, fmt.Sprint(d.open, d.text))
	}
	st.State(strings.Join(sum, "|"))
	return ""
}

// pairTexts: small texts that share lengths, beginnings and ends
func pairTexts() []string {
	ls := []string{"a:", "b:", "b a", "b b", "err"}
	res := []string{"", "\n", "é:\nb a", "a:\r\nb b\r\n", "a:\rb b\r"}
	for _, x := range ls {
		res = append(res, x, x+"\n")
		for _, y := range ls {
			res = append(res, x+"\n"+y, x+"\n"+y+"\n")
		}
	}
	return res
}

var pairKinds = []string{"change", "change after a query", "through another text", "through the empty text", "twice", "reopen", "close and open", "other document alike", "back and forth", "asked by another", "empty and back"}

// case: "kind\x00old\x00new": a document goes from the old text to the new one
func checkE01Pair(c string, st *Stats) string {
	f := strings.SplitN(c, "\x00", 3)
	t1, t2 := f[1], f[2]
	u := lspURIs[0]
	s := &lspSess{}
	s.open(u, t1)
	if f[0] != "change" {
		s.req("textDocument/documentSymbol", docParams(u))
		s.req("textDocument/formatting", docParams(u))
	}
	switch f[0] {
	case "change", "change after a query":
		s.change(u, t2)
	case "through another text":
		s.change(u, t1+"int 7\n", t2)
	case "through the empty text":
		s.change(u, "", t2)
	case "empty and back":
		s.change(u, t2, "")
		s.change(u, t2, t1, "", t2)
	case "twice":
		s.change(u, t2, t2)
	case "reopen":
		s.open(u, t2)
	case "close and open":
		s.close(u)
		s.open(u, t2)
	case "other document alike":
		s.open(lspURIs[1], t2)
		s.req("textDocument/documentSymbol", docParams(lspURIs[1]))
		s.change(u, t2)
		s.change(lspURIs[1], t1)
	case "back and forth":
		s.change(u, t2)
		s.req("textDocument/documentSymbol", docParams(u))
		s.change(u, t1)
		s.change(u, t2)
	case "asked by another":
		s.open(lspURIs[1], t1)
		s.change(u, t2)
		s.req("textDocument/documentSymbol", docParams(lspURIs[1]))
	}
	ids := battery(s, u)
	o, bad := s.run()
	if bad != "" {
		return bad
	}
	want := freshAnswers(true, t2)
	if want.bad != "" {
		return want.bad
	}
	got := batteryAnswers(o, ids, u)
	st.Step(len(got))
	for k := range got {
		if got[k] != want.ans[k] {
			return fmt.Sprintf("%s from %q to %q: query %d answers\n  %s\na fresh server given the new text answers\n  %s", f[0], t1, t2, k, clipS(got[k]), clipS(want.ans[k]))
		}
	}
	st.State(f[0] + t2)
	return ""
}

var longNs = []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 129, 255, 257, 511, 513, 1023, 1025}

func cutLast(s, sep string) (string, string, bool) {
	i := strings.LastIndex(s, sep)
	if i < 0 {
		return s, "", false
	}
	return s[:i], s[i+len(sep):], true
}

// uriForms: identifiers a client may use; they are compared as they are
var uriForms = []string{
	"file:///d/a.teal", "file:///d/A.teal", "file:///D/a.teal", "FILE:///d/a.teal", "file:///d/a.teal/", "file:///d/a%2Eteal", "file:///d/a%2eteal", "file:///d/a.teal?x", "file:///d/a.teal#1", "file:///d/./a.teal", "file:///d//a.teal", "file:///d/x/../a.teal",
	"file://localhost/d/a.teal", "file:/d/a.teal", "file:///d/a.teal ", " file:///d/a.teal", "file:///d/a.teal\n", "/d/a.teal", "a.teal", "", "untitled:x", "untitled:X", "é", "e\u0301", "日本.teal", "a b", "a%20b", "a+b", "a\\b", "a/b", "c:/x", "c%3A/x", "C:/x", "\"q\"", "<&>", "null", "0",
	"file:///" + strings.Repeat("x", 300), "file:///" + strings.Repeat("x", 299) + "y", "file:///" + strings.Repeat("x", 3000) + "/a", "file:///" + strings.Repeat("x", 3000) + "/b",
}

// case: numbers of the identifiers in use; the first three are opened, changed, closed, the answers are asked of all
func checkE01URIs(c string, st *Stats) string {
	var us []string
	for _, f := range strings.Fields(c) {
		n, _ := strconv.Atoi(f)
		us = append(us, uriForms[n])
	}
	return e01Docs(us, st)
}

// case: a number of documents
func checkE01Many(c string, st *Stats) string {
	n, _ := strconv.Atoi(c)
	var us []string
	for i := 0; i < n; i++ {
		us = append(us, fmt.Sprintf("file:///m/%d.teal", i))
	}
	return e01Docs(us, st)
}

// e01Docs opens, changes and closes documents in turn and asks about each of them, open or closed.
func e01Docs(us []string, st *Stats) string {
	s := &lspSess{}
	docs := map[string]docModel{}
	for i, u := range us {
		t := lspTexts[i%len(lspTexts)]
		s.open(u, t)
		docs[u] = docModel{true, t}
	}
	for i, u := range us {
		switch i % 3 {
		case 0:
			t := lspTexts[(i+1)%len(lspTexts)]
			s.change(u, t)
			docs[u] = docModel{true, t}
		case 1:
			if len(us) > 2 {
				s.close(u)
				docs[u] = docModel{}
			}
		}
	}
	ids := make([][]int, len(us))
	for i := range us {
		k := len(us) - 1 - i
		ids[k] = battery(s, us[k])
	}
	o, bad := s.run()
	if bad != "" {
		return bad
	}
	for i, u := range us {
		want := freshAnswers(docs[u].open, docs[u].text)
		if want.bad != "" {
			return want.bad
		}
		got := batteryAnswers(o, ids[i], "\x00")
		st.Step(len(got))
		canon := func(t string) string {
			var v any
			if json.Unmarshal([]byte(t), &v) != nil {
				return t
			}
			return jq(v)
		}
		for k := range got {
			w := strings.ReplaceAll(want.ans[k], `"URI"`, jq(u))
			if g := got[k]; g != w && canon(g) != canon(w) {
				return fmt.Sprintf("document %d (%q): query %d answers\n  %s\na fresh server given its latest text answers\n  %s", i, clipS(u), k, clipS(g), clipS(w))
			}
		}
	}
	st.State(fmt.Sprint(len(us)))
	return ""
}

// ---------- E13 ----------

type jDiag struct {
	Range    jRange `json:"range"`
	Severity int    `json:"severity"`
	Message  string `json:"message"`
}

func wantDiags(text string) []string {
	var res []string
	for _, d := range teal.Process(text).Diagnostics {
		res = append(res, fmt.Sprintf("%d:%d-%d:%d sev%d %s", d.Line(), d.Begin(), d.Line(), d.End(), int(d.Severity()), d.String()))
	}
	return sorted(res)
}

func diagStrs(ds []jDiag) []string {
	var res []string
	for _, d := range ds {
		res = append(res, fmt.Sprintf("%s sev%d %s", d.Range, d.Severity, d.Message))
	}
	return sorted(res)
}

// a client that holds, per document, what it was last told (pulled or pushed)
func checkE13(c string, st *Stats) string {
	steps := strings.Fields(c)
	s := &lspSess{}
	docs := make([]docModel, len(lspURIs))
	type pull struct {
		id, doc int
		want    docModel
	}
	var pulls []pull
	for i := range steps {
		playHistory(steps[i:i+1], s, docs)
		if steps[i][0] == 'd' {
			u := int(steps[i][1] - '0')
			pulls = append(pulls, pull{s.n, u, docs[u]})
		}
	}
	for u, uri := range lspURIs {
		pulls = append(pulls, pull{s.req("textDocument/diagnostic", docParams(uri)), u, docs[u]})
	}
	o, bad := s.run()
	if bad != "" {
		return bad
	}
	for _, p := range pulls {
		var r struct {
			Kind  string  `json:"kind"`
			Items []jDiag `json:"items"`
		}
		if e := o.result(p.id, &r); e != "" {
			return e
		}
		if r.Kind != "full" {
			return fmt.Sprintf("diagnostic report of kind %q", r.Kind)
		}
		var want []string
		if p.want.open {
			want = wantDiags(p.want.text)
		}
		st.Step(len(want) + 1)
		if m := diffStr(fmt.Sprintf("diagnostics of document %d (text %q)", p.doc, clipS(p.want.text)), diagStrs(r.Items), want); m != "" {
			return m
		}
		st.State(strings.Join(want, ";"))
	}
	// pushed diagnostics, if any: the last push of a document is about its latest text
	held := map[string][]jDiag{}
	for _, m := range o.msgs {
		if m.method == "textDocument/publishDiagnostics" {
			var p struct {
				Uri         string  `json:"uri"`
				Diagnostics []jDiag `json:"diagnostics"`
			}
			if json.Unmarshal(m.params, &p) != nil {
				return "unusable published diagnostics: " + clipS(m.raw)
			}
			held[p.Uri] = p.Diagnostics
		}
	}
	for u, uri := range lspURIs {
		if ds, ok := held[uri]; ok {
			var want []string
			if docs[u].open {
				want = wantDiags(docs[u].text)
			}
			if m := diffStr("published diagnostics of "+uri, diagStrs(ds), want); m != "" {
				return m
			}
		}
	}
	return ""
}

// checkE13Text: one document, arbitrary text
func checkE13Text(src string, st *Stats) string {
	s := &lspSess{}
	s.open("file:///t", src)
	id := s.req("textDocument/diagnostic", docParams("file:///t"))
	o, bad := s.run()
	if bad != "" {
		return bad
	}
	var r struct {
		Items []jDiag `json:"items"`
	}
	if e := o.result(id, &r); e != "" {
		return e
	}
	want := wantDiags(src)
	st.Step(len(want) + 1)
	st.State(strings.Join(want, ";"))
	// the analysis itself is decided by A04..L03; here: nothing lost, nothing added, positions kept
	return diffStr("served diagnostics", diagStrs(r.Items), want)
}

func historyAlphabet(n int, texts []int, extra ...string) []string {
	var a []string
	for u := 0; u < n; u++ {
		for _, t := range texts {
			a = append(a, fmt.Sprintf("o%d:%d", u, t))
		}
		for _, t := range texts {
			a = append(a, fmt.Sprintf("c%d:%d", u, t))
		}
		a = append(a, fmt.Sprintf("x%d", u))
		for _, e := range extra {
			a = append(a, strings.ReplaceAll(e, "#", strconv.Itoa(u)))
		}
	}
	return a
}

func init() {
	register(&Prop{ID: "E01", Assumptions: []string{
		"full-text synchronisation as announced by the server; texts from a fixed set chosen to differ in every kind of answer",
		"the order of completion items carries no meaning",
	}, Spaces: func(tier string) []Space {
		pt := pairTexts()
		return []Space{
			prodSpace("pairs", "every ordered pair of related small texts, every way from one to the other", []int{len(pairKinds), len(pt), len(pt)}, func(ix []int) string {
				return pairKinds[ix[0]] + "\x00" + pt[ix[1]] + "\x00" + pt[ix[2]]
			}, checkE01Pair),
			seqSpace("histories", "notifications and queries over two documents and two texts", historyAlphabet(2, []int{0, 1}, "q#"), 0, pick(tier, 3, 4), " ", checkE01),
			seqSpace("changes", "multi-part changes, saves, failing requests on one document", []string{"o0:0", "o0:1", "c0:3", "c0:2", "c0:4", "m0:1,0", "m0:0,4", "e0:", "s0", "f0", "q0", "x0", "o1:3", "c1:1", "x1"}, 1, pick(tier, 3, 4), " ", checkE01),
			prodSpace("identifiers", "every pair of document identifiers that differ at all", []int{len(uriForms), len(uriForms)}, func(ix []int) string {
				return fmt.Sprintf("%d %d", ix[0], ix[1])
			}, func(c string, st *Stats) string {
				if f := strings.Fields(c); f[0] == f[1] {
					return checkE01URIs(f[0], st)
				}
				if m := checkE01URIs(c, st); m != "" {
					return m
				}
				f := strings.Fields(c)
				n, _ := strconv.Atoi(f[0])
				return checkE01URIs(fmt.Sprintf("%s %s %d", f[0], f[1], (n+1)%len(uriForms)), st)
			}),
			seqSpace("versions", "version numbers in every order, and none", []string{"v0:0,1,o", "v0:1,5,o", "v0:1,2,c", "v0:0,3,c", "v0:1,9,c", "v0:4,1,c", "v0:3,,c", "v0:1,null,c", "v0:3,0,o", "x0"}, 1, pick(tier, 3, 4), " ", checkE01),
			seqSpace("replies", "requested edits applied or refused by the client, and messages that concern no document", []string{"o0:0", "c0:1", "a0", "n0", "x0", "o1:4", "n1", "q0", "s0"}, 1, pick(tier, 3, 4), " ", checkE01),
			prodSpace("exchanges", "long exchanges", []int{2, pick(tier, 70, 300)}, func(ix []int) string {
				return fmt.Sprintf("%s k0:%d", []string{"o0:1 q0", "o1:1 o0:0 k1:3"}[ix[0]], ix[1])
			}, checkE01),
			prodSpace("long", "long texts of one length that differ at one place", []int{4, len(longNs), 6}, func(ix []int) string {
				return fmt.Sprintf("%s %d %d", []string{"change", "reopen", "close and open", "back and forth"}[ix[0]], longNs[ix[1]], ix[2])
			}, func(c string, st *Stats) string {
				c, k, _ := cutLast(c, " ")
				c, n, _ := cutLast(c, " ")
				nn, _ := strconv.Atoi(n)
				kk, _ := strconv.Atoi(k)
				ls := make([]string, nn)
				for i := range ls {
					ls[i] = []string{"b a", "b b"}[i%2]
				}
				t1 := "a:\n" + strings.Join(ls, "\n") + "\nb:"
				i := kk * (nn - 1) / 5
				ls[i] = []string{"b b", "b a"}[i%2]
				return checkE01Pair(c+"\x00"+t1+"\x00a:\n"+strings.Join(ls, "\n")+"\nb:", st)
			}),
			prodSpace("many", "many documents at once", []int{pick(tier, 40, 150)}, func(ix []int) string { return strconv.Itoa(ix[0]) }, checkE01Many),
			seqSpace("deep", "long histories over a small alphabet", []string{"o0:0", "c0:1", "q0", "x0", "o1:0", "c1:4"}, 4, pick(tier, 5, 6), " ", checkE01),
		}
	}})
	register(&Prop{ID: "E13", Assumptions: []string{"the analysis is the one of teal.Process, itself decided by A01..L03; served diagnostics carry no rule"},
		Spaces: func(tier string) []Space {
			return []Space{
				seqSpace("histories", "notifications and diagnostic requests over two documents", historyAlphabet(2, []int{0, 3, 4}, "d#", "s#"), 0, pick(tier, 4, 5), " ", checkE13),
				seqSpace("programs", "diagnostics of all small texts", []string{"a:", "b a", "\tint x", "byte \"é", "return", "#pragma version 2", "sha3_256", "// c", "  err  ", "int 1 2"}, 0, pick(tier, 4, 5), "\n", checkE13Text),
				seqSpace("lineends", "diagnostics under mixed line ends", []string{"x", " y", "a:", "\n", "\r\n", "\r", "\t"}, 0, pick(tier, 6, 7), "", checkE13Text),
				hugeFamilySpace(tier, 200, checkE13Text),
				opFrameSpaces(checkE13Text)[0], opFrameSpaces(checkE13Text)[1],
			}
		}})
}

// ---------- E02 ----------

type lspMethod struct {
	name   string
	params string
	kind   string // "state": may change documents or configuration
}

const u0 = `"file:///d/a.teal"`

var lspMethods = []lspMethod{
	{"initialize", `{"processId":1,"clientInfo":{"name":"x","version":"1"},"initializationOptions":{"semanticTokens":true,"inlayNamed":true,"inlayDecoded":true,"lensRefs":true}}`, "state"},
	{"textDocument/hover", `{"textDocument":{"uri":` + u0 + `},"position":{"line":1,"character":2}}`, ""},
	{"textDocument/definition", `{"textDocument":{"uri":` + u0 + `},"position":{"line":1,"character":2}}`, ""},
	{"textDocument/documentHighlight", `{"textDocument":{"uri":` + u0 + `},"position":{"line":1,"character":2}}`, ""},
	{"textDocument/completion", `{"textDocument":{"uri":` + u0 + `},"position":{"line":1,"character":2}}`, ""},
	{"textDocument/signatureHelp", `{"textDocument":{"uri":` + u0 + `},"position":{"line":1,"character":2}}`, ""},
	{"textDocument/prepareRename", `{"textDocument":{"uri":` + u0 + `},"position":{"line":1,"character":2}}`, ""},
	{"textDocument/rename", `{"textDocument":{"uri":` + u0 + `},"position":{"line":1,"character":2},"newName":"n"}`, ""},
	{"textDocument/documentSymbol", `{"textDocument":{"uri":` + u0 + `}}`, ""},
	{"textDocument/codeLens", `{"textDocument":{"uri":` + u0 + `}}`, ""},
	{"textDocument/semanticTokens/full", `{"textDocument":{"uri":` + u0 + `}}`, ""},
	{"textDocument/formatting", `{"textDocument":{"uri":` + u0 + `},"options":{"tabSize":4}}`, ""},
	{"textDocument/diagnostic", `{"textDocument":{"uri":` + u0 + `}}`, ""},
	{"textDocument/inlayHint", `{"textDocument":{"uri":` + u0 + `},"range":{"start":{"line":0,"character":0},"end":{"line":9,"character":0}}}`, ""},
	{"textDocument/inlineValue", `{"textDocument":{"uri":` + u0 + `},"range":{"start":{"line":0,"character":0},"end":{"line":9,"character":0}}}`, ""},
	{"textDocument/codeAction", `{"textDocument":{"uri":` + u0 + `},"range":{"start":{"line":0,"character":0},"end":{"line":9,"character":0}},"context":{"diagnostics":[{"range":{"start":{"line":0,"character":0},"end":{"line":0,"character":1}},"message":"m"}]}}`, ""},
	{"workspace/executeCommand", `{"command":"teal.version.update","arguments":[{"uri":` + u0 + `,"version":9}]}`, ""},
	{"workspace/executeCommand", `{"command":"teal.label.create","arguments":[{"uri":` + u0 + `,"name":"q"}]}`, ""},
	{"workspace/executeCommand", `{"command":"teal.label.remove","arguments":[{"uri":` + u0 + `,"name":"a"}]}`, ""},
	{"workspace/executeCommand", `{"command":"teal.line.remove","arguments":[{"uri":` + u0 + `,"line":1}]}`, ""},
	{"workspace/executeCommand", `{"command":"teal.value.replace","arguments":[{"uri":` + u0 + `,"range":{"start":{"line":0,"character":0},"end":{"line":0,"character":1}},"name":"v"}]}`, ""},
	{"textDocument/didOpen", `{"textDocument":{"uri":` + u0 + `,"languageId":"teal","version":1,"text":"a:\nb a\n"}}`, "state"},
	{"textDocument/didChange", `{"textDocument":{"uri":` + u0 + `,"version":2},"contentChanges":[{"text":"a:\nb a\n"}]}`, "state"},
	{"textDocument/didSave", `{"textDocument":{"uri":` + u0 + `}}`, ""},
	{"textDocument/didClose", `{"textDocument":{"uri":` + u0 + `}}`, "state"},
	{"initialized", `{}`, ""},
	{"$/cancelRequest", `{"id":1}`, ""},
	{"no/such", `{"x":1}`, "unknown"},
	{"$/setTrace", `{"value":"off"}`, "unknown"},
	{"", `{}`, "empty"},
}

// jsonVariants: the value itself and every single-node replacement or removal in it.
var nodeValues = []string{"null", "{}", "[]", `"x"`, `""`, "-1", "0", "7", "255", "2147483648", "9007199254740991", "1e300", "1.5", "true", `[null]`, `[{}]`, `{"uri":"file:///nope"}`, `"file:///nope"`}

func jsonVariants(src string) []string {
	var v any
	if err := json.Unmarshal([]byte(src), &v); err != nil {
		panic(err)
	}
	res := []string{src}
	var walk func(node any, set func(any) string)
	walk = func(node any, set func(any) string) {
		for _, nv := range nodeValues {
			res = append(res, set(json.RawMessage(nv)))
		}
		switch n := node.(type) {
		case map[string]any:
			var keys []string
			for k := range n {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				old := n[k]
				delete(n, k)
				res = append(res, set(n))
				n[k] = old
				walk(old, func(x any) string {
					n[k] = x
					s := set(n)
					n[k] = old
					return s
				})
			}
			n["extra"] = map[string]any{"deep": []any{1, nil}}
			res = append(res, set(n))
			delete(n, "extra")
		case []any:
			for i := range n {
				old := n[i]
				walk(old, func(x any) string {
					n[i] = x
					s := set(n)
					n[i] = old
					return s
				})
			}
			res = append(res, set(append(append([]any{}, n...), n...)))
		}
	}
	walk(v, func(x any) string { return jq(x) })
	seen := map[string]bool{}
	var out []string
	for _, r := range res {
		if !seen[r] {
			seen[r] = true
			out = append(out, r)
		}
	}
	return out
}

const probeURI = "file:///probe.teal"
const probeText = "p:\nb p\nb missing\n"

func probe(s *lspSess, uri string) []int {
	return []int{
		s.req("textDocument/documentSymbol", docParams(uri)),
		s.req("textDocument/diagnostic", docParams(uri)),
		s.req("textDocument/hover", posParams(uri, 1, 0)),
		s.req("textDocument/rename", renameParams(uri, 0, 0, "n")),
	}
}

func probeAnswers(o *lspOut, ids []int) []string {
	var res []string
	for _, id := range ids {
		m, ok := o.byID[strconv.Itoa(id)]
		if !ok {
			res = append(res, fmt.Sprintf("request %d unanswered", id))
			continue
		}
		res = append(res, string(m.result)+string(m.errv))
	}
	return res
}

var probeOnce sync.Once
var probeWant, probeOwnWant []string

func probeRef() ([]string, []string) {
	probeOnce.Do(func() {
		for k, t := range []string{probeText, "a:\nb a\n"} {
			uri := []string{probeURI, "file:///d/a.teal"}[k]
			s := &lspSess{}
			s.open(uri, t)
			ids := probe(s, uri)
			o, bad := s.run()
			if bad != "" {
				panic(bad)
			}
			a := probeAnswers(o, ids)
			if k == 0 {
				probeWant = a
			} else {
				probeOwnWant = a
			}
		}
	})
	return probeWant, probeOwnWant
}

// a case is a list of lines, each a raw JSON-RPC body
func checkE02(c string, st *Stats) string {
	s := &lspSess{n: 100000}
	s.open(probeURI, probeText)
	s.open("file:///d/a.teal", "a:\nb a\n")
	var want []string // ids, as JSON text
	pure := true
	mustSucceed := map[string]bool{}
	mustFail := map[string]bool{}
	for _, body := range strings.Split(c, "\n") {
		if strings.HasPrefix(body, "!") {
			body = body[1:]
			var m map[string]json.RawMessage
			json.Unmarshal([]byte(body), &m)
			mustSucceed[string(m["id"])] = true
		}
		var m map[string]json.RawMessage
		if json.Unmarshal([]byte(body), &m) == nil {
			var name string
			json.Unmarshal(m["method"], &name)
			if id, ok := m["id"]; ok && string(id) != "null" && name != "" {
				want = append(want, string(id))
				switch name {
				case "no/such", "$/setTrace":
					mustFail[string(id)] = true
				}
			}
			switch name {
			case "textDocument/didOpen", "textDocument/didChange", "textDocument/didClose":
				pure = false
			}
		}
		s.raw(body)
	}
	ids := probe(s, probeURI)
	own := probe(s, "file:///d/a.teal")
	o, bad := s.run()
	if bad != "" {
		return bad
	}
	st.Step(len(want) + 8)
	asked := map[string]bool{}
	for _, m := range o.msgs {
		if m.hasMethod && m.id != "" {
			if asked[m.id] {
				return "two requests of the server have the id " + m.id
			}
			asked[m.id] = true
		}
	}
	for _, id := range want {
		m, ok := o.byID[id]
		if !ok {
			return "request " + id + " not answered"
		}
		if mustSucceed[id] && m.hasError {
			return "a well-formed request fails: " + clipS(m.raw)
		}
		if mustFail[id] && !m.hasError {
			return "a request of unknown kind succeeds: " + clipS(m.raw)
		}
	}
	if len(o.byID) != len(want)+8 {
		var extra []string
		for id, m := range o.byID {
			extra = append(extra, id+": "+clipS(m.raw))
		}
		return fmt.Sprintf("%d requests but %d answers: %v", len(want)+8, len(o.byID), clipS(fmt.Sprint(sorted(extra))))
	}
	pw, ow := probeRef()
	if m := diffStr("answers to later requests on another document", probeAnswers(o, ids), pw); m != "" {
		return m
	}
	if pure {
		if m := diffStr("answers to later requests on the same document", probeAnswers(o, own), ow); m != "" {
			return m
		}
	}
	var kinds []string
	for _, id := range want {
		kinds = append(kinds, fmt.Sprint(o.byID[id].hasError))
	}
	st.State(strings.Join(kinds, ",") + fmt.Sprint(len(o.msgs)))
	return ""
}

func rpcBody(id, method, params string) string {
	s := `{"jsonrpc":"2.0"`
	if id != "" {
		s += `,"id":` + id
	}
	s += `,"method":` + jq(method)
	if params != "" {
		s += `,"params":` + params
	}
	return s + "}"
}

func init() {
	register(&Prop{ID: "E02", Assumptions: []string{
		"ids are strings or integers below 2^53, distinct within a session",
		"the announced length of a message fits in memory",
	}, Spaces: func(tier string) []Space {
		var singles, valid []string
		for mi, m := range lspMethods {
			vs := append([]string{""}, jsonVariants(m.params)...)
			if tier == "thorough" {
				// two simultaneous mutations
				for _, v := range jsonVariants(m.params) {
					if strings.HasPrefix(v, "{") && len(v) < 400 {
						vs = append(vs, jsonVariants(v)...)
					}
				}
				seen := map[string]bool{}
				var u []string
				for _, v := range vs {
					if !seen[v] {
						seen[v] = true
						u = append(u, v)
					}
				}
				vs = u
			}
			for _, v := range vs {
				singles = append(singles, rpcBody("1", m.name, v))
			}
			for _, v := range vs[:min(len(vs), 60)] {
				singles = append(singles, rpcBody("", m.name, v))
			}
			for _, id := range []string{`0`, `-7`, `"s"`, `""`, `"1"`, `2147483648`, `9007199254740991`, `"é\n"`, `null`} {
				b := rpcBody(id, m.name, m.params)
				if m.kind != "unknown" && m.kind != "empty" && id != "null" {
					b = "!" + b
				}
				valid = append(valid, b)
			}
			_ = mi
		}
		singles = append(singles,
			`{"jsonrpc":"2.0","id":5,"result":null}`, `{"jsonrpc":"2.0","id":5,"result":{}}`, `{"jsonrpc":"2.0","id":"1","error":{"code":1,"message":"x"}}`,
			`{"jsonrpc":"2.0","id":5}`, `{}`, `{"id":5,"method":null}`, `null`, `[]`, `5`, `"x"`, `{"jsonrpc":"2.0","id":5,"method":7}`, `{`)
		var shapes []string
		for i, m := range lspMethods {
			shapes = append(shapes, m.name+"\x00"+m.params+"\x00v")
			shapes = append(shapes, m.name+"\x00"+`{"textDocument":{"uri":"file:///nope"},"position":{"line":5,"character":5},"command":"x"}`+"\x00")
			shapes = append(shapes, m.name+"\x00"+`null`+"\x00")
			_ = i
		}
		pairs := func(k int) Space {
			dims := make([]int, k)
			for i := range dims {
				dims[i] = len(shapes)
			}
			return prodSpace(fmt.Sprintf("sequences%d", k), fmt.Sprintf("all sequences of %d messages over %d message shapes", k, len(shapes)), dims, func(ix []int) string {
				var b []string
				for j, x := range ix {
					f := strings.Split(shapes[x], "\x00")
					b = append(b, rpcBody(strconv.Itoa(j+1), f[0], f[1]))
				}
				return strings.Join(b, "\n")
			}, checkE02)
		}
		// the server's own requests
		cmds := []string{`{"command":"teal.label.create","arguments":[{"uri":` + u0 + `,"name":"x"}]}`, `{"command":"teal.label.remove","arguments":[{"uri":` + u0 + `,"name":"a"}]}`,
			`{"command":"teal.line.remove","arguments":[{"uri":` + u0 + `,"line":0}]}`, `{"command":"teal.version.update","arguments":[{"uri":` + u0 + `,"version":5}]}`}
		own := prodSpace("own requests", "every number of commands, each of which makes the server ask the client for an edit", []int{len(cmds) + 1, pick(tier, 300, 1200)}, func(ix []int) string {
			var b []string
			for j := 0; j < ix[1]; j++ {
				k := ix[0]
				if k == len(cmds) {
					k = j % len(cmds)
				}
				b = append(b, "!"+rpcBody(strconv.Itoa(j+1), "workspace/executeCommand", cmds[k]))
			}
			return strings.Join(append(b, rpcBody("99999", "no/such", "{}")), "\n")
		}, checkE02)
		// positions far outside, on every positional method
		coords := []string{"-9007199254740991", "-2147483649", "-1", "0", "1", "2", "3", "4", "2147483647", "9007199254740991"}
		var posm []lspMethod
		for _, m := range lspMethods {
			if strings.Contains(m.params, `"position"`) {
				posm = append(posm, m)
			}
		}
		pos := prodSpace("positions", "every positional request at every combination of small, negative and huge coordinates", []int{len(posm), len(coords), len(coords)}, func(ix []int) string {
			m := posm[ix[0]]
			ok := "!"
			if ix[1] < 3 || ix[2] < 3 {
				ok = "" // negative coordinates may be refused
			}
			return ok + rpcBody("1", m.name, fmt.Sprintf(`{"textDocument":{"uri":%s},"position":{"line":%s,"character":%s},"newName":"n"}`, u0, coords[ix[1]], coords[ix[2]]))
		}, checkE02)
		var rngm []lspMethod
		for _, m := range lspMethods {
			if strings.Contains(m.params, `"range":{"start"`) && m.name != "workspace/executeCommand" {
				rngm = append(rngm, m)
			}
		}
		rc := []string{"-9007199254740991", "-1", "0", "1", "9007199254740991"}
		rgs := prodSpace("ranges", "every range request at every combination of coordinates", []int{len(rngm), len(rc), len(rc), len(rc), len(rc)}, func(ix []int) string {
			m := rngm[ix[0]]
			ok := "!"
			for _, x := range ix[1:] {
				if x < 2 {
					ok = ""
				}
			}
			return ok + rpcBody("1", m.name, fmt.Sprintf(`{"textDocument":{"uri":%s},"range":{"start":{"line":%s,"character":%s},"end":{"line":%s,"character":%s}},"context":{"diagnostics":[]}}`, u0, rc[ix[1]], rc[ix[2]], rc[ix[3]], rc[ix[4]]))
		}, checkE02)
		sp := []Space{
			listSpace("mutations", "every method with every single replacement or removal of a node of its parameters, as request and notification", singles, checkE02),
			listSpace("ids", "every method with every kind of id", valid, checkE02),
			pos, rgs, own, pairs(2),
			prodSpace("documents", "every method on every hazardous text", []int{len(lspMethods), len(hazardTexts)}, func(ix []int) string {
				return fmt.Sprintf("%d %d", ix[0], ix[1])
			}, checkHazard),
		}
		if tier == "thorough" {
			sp = append(sp, prodSpace("sequences3", "sequences of three messages, the middle one over all shapes", []int{len(shapes), len(shapes), len(shapes)}, func(ix []int) string {
				var b []string
				for j, x := range ix {
					f := strings.Split(shapes[x], "\x00")
					b = append(b, rpcBody(strconv.Itoa(j+1), f[0], f[1]))
				}
				return strings.Join(b, "\n")
			}, checkE02))
		}
		return sp
	}})
}

var hazardTexts = func() []string {
	res := []string{"", "\n", "\"", "byte \"", ":", "a:", "b", "b ", "#pragma", "#pragma version", "int 1 2", "//", "\t", "\r", "é:\nb é", "switch", "txn -1", "txn 999999999999", "byte 0x", "byte 0xz", "byte base64(", "method \"", "#pragma version 0\n", "x\x00y", "intcblock", "\u2028", "b a b", "frame_dig -129"}
	for _, n := range opNames {
		res = append(res, n, defaultLine(n)+" extra")
	}
	for _, n := range []int{65533, 65534, 65535, 65536, 65537} {
		res = append(res, strings.Repeat("x", n), "//"+strings.Repeat("x", n-2)+"\nint 1")
	}
	return res
}()

func checkHazard(c string, st *Stats) string {
	var mi, ti int
	fmt.Sscanf(c, "%d %d", &mi, &ti)
	text := hazardTexts[ti]
	s := &lspSess{n: 1000}
	s.open(probeURI, probeText)
	s.open("file:///d/a.teal", text)
	m := lspMethods[mi]
	if m.name == "textDocument/didOpen" || m.name == "textDocument/didChange" || m.kind == "empty" {
		return ""
	}
	n := 0
	if strings.Contains(m.params, `"position"`) {
		lines := splitSource(text)
		for l := 0; l <= len(lines); l++ {
			w := 0
			if l < len(lines) {
				w = len(lines[l].text)
			}
			for ch := 0; ch <= w+1 && ch < 40; ch++ {
				n++
				s.raw(rpcBody(strconv.Itoa(n), m.name, fmt.Sprintf(`{"textDocument":{"uri":%s},"position":{"line":%d,"character":%d},"newName":"n"}`, u0, l, ch)))
			}
			if n > 600 {
				break
			}
		}
	} else {
		n = 1
		s.raw(rpcBody("1", m.name, m.params))
	}
	ids := probe(s, probeURI)
	o, bad := s.run()
	if bad != "" {
		return bad
	}
	st.Step(n)
	if len(o.byID) != n+len(ids) {
		return fmt.Sprintf("%d requests but %d answers", n+len(ids), len(o.byID))
	}
	for i := 1; i <= n; i++ {
		r, ok := o.byID[strconv.Itoa(i)]
		if !ok {
			return fmt.Sprintf("request %d not answered", i)
		}
		if r.hasError && m.kind != "unknown" && m.name != "textDocument/formatting" {
			return fmt.Sprintf("request %d on an open document fails: %s", i, clipS(r.raw))
		}
	}
	pw, _ := probeRef()
	st.State(fmt.Sprint(len(o.msgs), mi))
	return diffStr("answers to later requests on another document", probeAnswers(o, ids), pw)
}

// ---------- E03 ----------

var lifeSyms = []string{"init", "inited", "open", "close", "hover", "unknown", "note", "badjson", "reply", "shutdown", "exit"}
var lifeMore = []string{"initopt", "open", "hover", "idclose", "shutdown", "exit", "exitreq"}

func lifeBody(sym string, id int) (body string, request bool) {
	n := strconv.Itoa(id)
	switch sym {
	case "init":
		return rpcBody(n, "initialize", "{}"), true
	case "inited":
		return rpcBody("", "initialized", "{}"), false
	case "open":
		return rpcBody("", "textDocument/didOpen", `{"textDocument":{"uri":"u","text":"int 1"}}`), false
	case "close":
		return rpcBody("", "textDocument/didClose", `{"textDocument":{"uri":"u"}}`), false
	case "hover":
		return rpcBody(n, "textDocument/hover", `{"textDocument":{"uri":"u"},"position":{"line":0,"character":0}}`), true
	case "unknown":
		return rpcBody(n, "no/such", "{}"), true
	case "note":
		return rpcBody("", "$/no", "{}"), false
	case "badjson":
		return "{", false
	case "reply":
		return `{"jsonrpc":"2.0","id":"1","result":null}`, false
	case "shutdown":
		return rpcBody(n, "shutdown", "null"), true
	case "exit":
		return rpcBody("", "exit", "null"), false
	case "exitreq": // exit is a notification; a client that sends it with an id means the same
		return rpcBody(n, "exit", "null"), true
	case "initopt":
		return rpcBody(n, "initialize", `{"processId":1,"rootUri":null,"capabilities":{},"initializationOptions":{"semanticTokens":true,"inlayNamed":true,"inlayDecoded":true,"lensRefs":true}}`), true
	case "cmd":
		return rpcBody(n, "workspace/executeCommand", `{"command":"teal.label.create","arguments":[{"uri":"u","name":"x"}]}`), true
	case "other":
		return rpcBody("", "textDocument/didOpen", `{"textDocument":{"uri":"u`+n+`","text":"int 1"}}`), false
	case "edit":
		return rpcBody("", "textDocument/didChange", `{"textDocument":{"uri":"u"},"contentChanges":[{"text":"err"}]}`), false
	case "idclose":
		return rpcBody(n, "textDocument/didClose", `{"textDocument":{"uri":"u"}}`), true
	}
	if k, err := strconv.Atoi(sym[1:]); err == nil {
		m := lspMethods[k]
		if sym[0] == 'm' { // any method, as a notification
			return rpcBody("", m.name, m.params), false
		}
		return rpcBody(n, m.name, m.params), true // 'r': any request
	}
	panic(sym)
}

func lifeAny(sym string) bool {
	return sym[0] == 'r' && len(sym) > 1 && sym[1] <= '9'
}

// lifeModel: expected answers ("ok"/"err" by id) and exit code (-1: input ended without exit)
func lifeModel(syms []string) (want []string, code int) {
	open, down := false, false
	for i, sym := range syms {
		id := i + 1
		res := ""
		switch sym {
		case "init", "initopt":
			res = "ok"
		case "open":
			if !down {
				open = true
			}
		case "close", "idclose":
			open = false
		case "hover", "cmd":
			res = "err"
			if open {
				res = "ok"
			}
		case "unknown":
			res = "err"
		case "shutdown":
			res = "ok"
		case "exit", "exitreq":
			if down {
				return want, 0
			}
			return want, 1
		default:
			if lifeAny(sym) && down {
				res = "err"
			}
		}
		if res != "" {
			if down {
				res = "err"
			}
			want = append(want, fmt.Sprintf("%d:%s", id, res))
		}
		if sym == "shutdown" {
			down = true
		}
	}
	return want, -1
}

func lifeInput(syms []string) string {
	var in strings.Builder
	for i, sym := range syms {
		b, _ := lifeBody(sym, i+1)
		in.WriteString(frame(b))
	}
	return in.String()
}

func lifeCompare(syms []string, o *lspOut, st *Stats) string {
	down := func(before []string) bool {
		for _, y := range before {
			if y == "shutdown" {
				return true
			}
		}
		return false
	}
	want, code := lifeModel(syms)
	var got []string
	for _, m := range o.msgs {
		if m.hasMethod {
			continue
		}
		s := "ok"
		if m.hasError {
			s = "err"
		}
		if k, e := strconv.Atoi(m.id); e == nil && k >= 1 && k <= len(syms) && (syms[k-1] == "exitreq" || syms[k-1] == "idclose") {
			continue // whether notifications sent with an id are answered is E02's business
		}
		if k, e := strconv.Atoi(m.id); e == nil && k >= 1 && k <= len(syms) && lifeAny(syms[k-1]) && !down(syms[:k]) {
			continue // as is what other requests answer
		}
		got = append(got, m.id+":"+s)
	}
	st.Step(len(syms))
	st.State(fmt.Sprint(want, code))
	if m := diffStr("answers", sorted(got), sorted(want)); m != "" {
		return m
	}
	if code >= 0 && o.code != code {
		return fmt.Sprintf("exit code %d, want %d", o.code, code)
	}
	return ""
}

// checkE03Busy: words of the form name*count stand for so many messages
func checkE03Busy(c string, st *Stats) string {
	var syms []string
	for _, w := range strings.Fields(c) {
		name, k, _ := strings.Cut(w, "*")
		n, err := strconv.Atoi(k)
		if err != nil {
			n = 1
		}
		for ; n > 0; n-- {
			syms = append(syms, name)
		}
	}
	return checkE03(strings.Join(syms, " "), st)
}

func checkE03(c string, st *Stats) string {
	syms := strings.Fields(c)
	o, bad := lspServe(strings.NewReader(lifeInput(syms)))
	if bad != "" {
		return bad
	}
	return lifeCompare(syms, o, st)
}

// checkE03Live: the input stays open after the last message, so the server must end by itself exactly on exit.
func checkE03Live(c string, st *Stats) string {
	syms := strings.Fields(c)
	_, code := lifeModel(syms)
	r := &gatedReader{data: []byte(lifeInput(syms)), gate: make(chan struct{}), idle: make(chan struct{})}
	type res struct {
		o   *lspOut
		bad string
	}
	done := make(chan res, 1)
	go func() {
		o, bad := lspServe(r)
		done <- res{o, bad}
	}()
	select {
	case x := <-done:
		if x.bad != "" {
			return x.bad
		}
		if code < 0 {
			return "the server ended although it was not told to exit and its input is open"
		}
		return lifeCompare(syms, x.o, st)
	case <-r.idle:
		close(r.gate)
		x := <-done
		if x.bad != "" {
			return x.bad
		}
		if code >= 0 {
			return "the server went on reading after it was told to exit"
		}
		return lifeCompare(syms, x.o, st)
	}
}

// gatedReader serves its data, then blocks (announcing that it is being read) until the gate opens, then ends.
type gatedReader struct {
	data []byte
	gate chan struct{}
	idle chan struct{}
	once sync.Once
}

func (g *gatedReader) Read(p []byte) (int, error) {
	if len(g.data) > 0 {
		// one message at a time: stop at the end of a body
		n := copy(p, g.data)
		if i := bytes.Index(g.data[:n], []byte("}Content-Length")); i >= 0 {
			n = i + 1
		}
		g.data = g.data[n:]
		return n, nil
	}
	g.once.Do(func() { close(g.idle) })
	<-g.gate
	return 0, io.EOF
}

// runProcess runs a built command on an input.
func runProcess(bin string, args []string, in string) (out []byte, code int, bad string) {
	cmd := exec.Command(bin, args...)
	cmd.Stdin = strings.NewReader(in)
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !t.Stop() {
		return ob.Bytes(), -1, "the process did not end"
	}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		return ob.Bytes(), ee.ExitCode(), ""
	}
	return ob.Bytes(), 0, ""
}

func checkE03Process(c string, st *Stats) string {
	bin := os.Getenv("MC_TEALSP")
	if bin == "" {
		return ""
	}
	syms := strings.Fields(c)
	out, code, bad := runProcess(bin, nil, lifeInput(syms))
	if bad != "" {
		return bad
	}
	fs, bad := parseFrames(out)
	if bad != "" {
		return bad
	}
	o := &lspOut{code: code}
	for _, f := range fs {
		m, bad := parseRPC(f)
		if bad != "" {
			return bad
		}
		o.msgs = append(o.msgs, m)
	}
	return lifeCompare(syms, o, st)
}

func init() {
	register(&Prop{ID: "E03", Assumptions: []string{"shutdown is sent as a request and exit as a notification, as the protocol has it"},
		Spaces: func(tier string) []Space {
			busy := []string{"open", "other", "edit", "close", "hover", "cmd", "unknown", "note", "badjson", "reply"}
			busyNs := []int{1, 2, 3, 4, 8, 33, 130}
			if tier == "thorough" {
				busyNs = append(busyNs, 5, 6, 7, 257, 1025)
			}
			busyEnds := []string{"", "exit", "shutdown exit", "shutdown hover exit", "shutdown open hover cmd shutdown exit", "hover shutdown", "hover"}
			proc := []string{"", "exit", "shutdown exit", "init shutdown exit", "init inited open hover shutdown exit", "shutdown hover exit", "init exit", "open exit", "shutdown shutdown exit", "badjson exit", "badjson shutdown badjson exit", "hover", "shutdown", "init inited open hover unknown note badjson reply close hover shutdown init hover open exit"}
			var anyMsg []string
			for k, m := range lspMethods {
				if m.kind == "empty" {
					continue
				}
				anyMsg = append(anyMsg, fmt.Sprintf("m%d", k))
				switch m.name {
				case "textDocument/didOpen", "textDocument/didChange", "textDocument/didSave", "textDocument/didClose", "initialized", "$/cancelRequest":
				default:
					anyMsg = append(anyMsg, fmt.Sprintf("r%d", k))
				}
			}
			frames := []string{"init open %s %s shutdown hover exit", "init open %s shutdown %s hover unknown exit", "init open shutdown %s %s hover cmd exit", "init open %s %s hover exit", "%s open hover %s exit", "shutdown %s %s shutdown hover exit"}
			return []Space{
				prodSpace("any methods", "every pair of messages of any method, as notification or request, before, around and after shutdown", []int{len(frames), len(anyMsg), len(anyMsg)}, func(ix []int) string {
					return fmt.Sprintf(frames[ix[0]], anyMsg[ix[1]], anyMsg[ix[2]])
				}, checkE03),
				seqSpace("sessions", "life-cycle messages", lifeSyms, 0, pick(tier, 5, 6), " ", checkE03),
				seqSpace("live", "life-cycle messages, input left open", lifeSyms, 0, pick(tier, 3, 4), " ", checkE03Live),
				seqSpace("long", "long sessions around shutdown and exit", []string{"hover", "open", "shutdown", "exit"}, 0, pick(tier, 7, 9), " ", checkE03),
				seqSpace("options", "life-cycle messages with client options, and notifications sent with an id", lifeMore, 0, pick(tier, 5, 6), " ", checkE03),
				prodSpace("busy", "sessions with many documents, commands, requests, failures or replies before the end", []int{len(busy), len(busy), len(busyNs), len(busyEnds)}, func(ix []int) string {
					n := busyNs[ix[2]]
					return fmt.Sprintf("init open %s*%d %s*%d %s", busy[ix[0]], n, busy[ix[1]], n, busyEnds[ix[3]])
				}, checkE03Busy),
				listSpace("process", "the built tealsp command on chosen sessions", proc, checkE03Process),
			}
		}})
}
