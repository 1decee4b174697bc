package main

// E04: message framing of both servers, for every way the bytes can arrive.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"

	"github.com/dragmz/teal/dbg"
	"github.com/dragmz/teal/lsp"
)

// serveRaw runs one of the servers on a reader and returns what it wrote.
func serveRaw(server string, in io.Reader) ([]byte, string) {
	var out bytes.Buffer
	switch server {
	case "lsp":
		s, err := lsp.New(in, &out)
		if err != nil {
			return nil, err.Error()
		}
		if _, err := s.Run(); err != nil {
			return nil, "server ended with error: " + err.Error()
		}
	case "dbg":
		s, err := dbg.New(in, &out)
		if err != nil {
			return nil, err.Error()
		}
		if _, err := s.Run(); err != nil {
			return nil, "server ended with error: " + err.Error()
		}
	}
	return out.Bytes(), ""
}

func msgReq(server string, id int, method, params string) string {
	if server == "dbg" {
		return fmt.Sprintf(`{"seq":%d,"type":"request","command":%s,"arguments":%s}`, id, jqText(method), params)
	}
	return fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"method":%s,"params":%s}`, id, jqText(method), params)
}

// answeredIDs: the ids of the answers in an output stream, in order; the stream is parsed strictly.
func answeredIDs(server string, out []byte) ([]string, string) {
	fs, bad := parseFrames(out)
	if bad != "" {
		return nil, bad
	}
	var ids []string
	for _, f := range fs {
		var m map[string]json.RawMessage
		if err := json.Unmarshal(f, &m); err != nil {
			return nil, fmt.Sprintf("a written message is not valid JSON: %q", clipS(string(f)))
		}
		key := "id"
		if server == "dbg" {
			key = "request_seq"
		}
		if _, ok := m["method"]; ok {
			continue
		}
		if v, ok := m[key]; ok && string(v) != "null" {
			ids = append(ids, string(v))
		}
	}
	return ids, ""
}

// frameBodies: a small session of each server, requests numbered from 1.
func frameBodies(server string) []string {
	if server == "dbg" {
		return []string{
			msgReq("dbg", 1, "initialize", `{"adapterID":"é","linesStartAt1":true}`),
			msgReq("dbg", 2, "setBreakpoints", `{"source":{"name":"naïve 😀","path":"/nope"},"breakpoints":[{"line":1},{"line":3}]}`),
			msgReq("dbg", 3, "threads", `{}`),
			msgReq("dbg", 4, "nö-such", `{"x":"\u2028"}`),
			msgReq("dbg", 5, "scopes", `{"frameId":0}`),
		}
	}
	return []string{
		msgReq("lsp", 1, "initialize", `{}`),
		rpcBody("", "textDocument/didOpen", `{"textDocument":{"uri":"u:é","text":"é😀:\nb é😀\n"}}`),
		msgReq("lsp", 2, "textDocument/documentSymbol", `{"textDocument":{"uri":"u:é"}}`),
		msgReq("lsp", 3, "nö/such", `{}`),
		msgReq("lsp", 4, "textDocument/definition", `{"textDocument":{"uri":"u:é"},"position":{"line":1,"character":3}}`),
	}
}

var frameBase = map[string][]byte{}

func frameBaseline(server string, bodies []string) ([]byte, string) {
	key := server + strings.Join(bodies, "\x00")
	freshMu.Lock()
	defer freshMu.Unlock()
	if b, ok := frameBase[key]; ok {
		return b, ""
	}
	var in strings.Builder
	for _, b := range bodies {
		in.WriteString(frame(b))
	}
	out, bad := serveRaw(server, strings.NewReader(in.String()))
	if bad != "" {
		return nil, bad
	}
	ids, bad := answeredIDs(server, out)
	if bad != "" {
		return nil, bad
	}
	var want []string
	for _, b := range bodies {
		var m struct {
			Id, Seq int
		}
		if json.Unmarshal([]byte(b), &m) == nil && m.Id+m.Seq > 0 {
			want = append(want, strconv.Itoa(m.Id+m.Seq))
		}
	}
	if m := diffStr("answered requests", ids, want); m != "" {
		return nil, m
	}
	if len(frameBase) > 64 {
		frameBase = map[string][]byte{}
	}
	frameBase[key] = out
	return out, ""
}

// chunkReader delivers data in pieces ending at the given offsets; mode bits: 1 empty reads in between,
// 2 the end of the input comes together with the last piece.
type chunkReader struct {
	data []byte
	cuts []int
	pos  int
	mode int
	gap  bool
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.pos >= len(r.data) {
		return 0, io.EOF
	}
	if r.mode&1 != 0 && !r.gap {
		r.gap = true
		return 0, nil
	}
	r.gap = false
	end := len(r.data)
	for _, c := range r.cuts {
		if c > r.pos {
			end = c
			break
		}
	}
	n := copy(p, r.data[r.pos:end])
	r.pos += n
	if r.mode&2 != 0 && r.pos >= len(r.data) {
		return n, io.EOF
	}
	return n, nil
}

func sameOut(got, want []byte) string {
	if bytes.Equal(got, want) {
		return ""
	}
	a, bad := parseFrames(got)
	if bad != "" {
		return bad
	}
	b, _ := parseFrames(want)
	for i := range a {
		if i >= len(b) || !bytes.Equal(a[i], b[i]) {
			return fmt.Sprintf("message %d written is %s, otherwise %s", i, clipS(string(a[i])), clipS(string(bytes.Join(b[min(i, len(b)):min(i+1, len(b))], nil))))
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("%d messages written, otherwise %d", len(a), len(b))
	}
	return ""
}

// case: "server bodies mode cut,cut,..." or "server bodies mode *size"
func checkE04Split(c string, st *Stats) string {
	f := strings.Fields(c)
	bodies := frameBodies(f[0])
	nb, _ := strconv.Atoi(f[1])
	bodies = bodies[:nb]
	want, bad := frameBaseline(f[0], bodies)
	if bad != "" {
		return bad
	}
	var in strings.Builder
	for _, b := range bodies {
		in.WriteString(frame(b))
	}
	r := &chunkReader{data: []byte(in.String())}
	r.mode, _ = strconv.Atoi(f[2])
	if strings.HasPrefix(f[3], "*") {
		n, _ := strconv.Atoi(f[3][1:])
		for k := n; k < len(r.data); k += n {
			r.cuts = append(r.cuts, k)
		}
	} else {
		for _, x := range strings.Split(f[3], ",") {
			k, _ := strconv.Atoi(x)
			r.cuts = append(r.cuts, k)
		}
	}
	out, bad := serveRaw(f[0], r)
	if bad != "" {
		return bad
	}
	st.Step(len(r.cuts) + 1)
	st.State(fmt.Sprint(f[0], r.cuts))
	if m := sameOut(out, want); m != "" {
		return "with the input arriving in these pieces: " + m
	}
	return ""
}

// case: "server n": the input ends after n bytes; the complete messages before are handled
func checkE04Cut(c string, st *Stats) string {
	f := strings.Fields(c)
	n, _ := strconv.Atoi(f[1])
	var in strings.Builder
	var done []string
	for _, b := range frameBodies(f[0]) {
		in.WriteString(frame(b))
		if in.Len() <= n {
			done = append(done, b)
		}
	}
	want, bad := frameBaseline(f[0], done)
	if bad != "" {
		return bad
	}
	out, bad := serveRaw(f[0], strings.NewReader(in.String()[:n]))
	if bad != "" {
		return bad
	}
	st.Step(1)
	st.State(fmt.Sprint(f[0], len(done)))
	return sameOut(out, want)
}

func inputLen(server string, n int) int {
	l := 0
	for _, b := range frameBodies(server)[:n] {
		l += len(frame(b))
	}
	return l
}

var headerShapes = func() []string {
	names := []string{"Content-Length", "content-length", "CONTENT-LENGTH", "Content-length"}
	seps := []string{": ", ":", ":   ", ":\t"}
	var res []string
	for _, n := range names {
		for _, s := range seps {
			for _, tail := range []string{"", " ", "\t "} {
				res = append(res, n+s+"#"+tail+"\r\n")
			}
		}
	}
	ct := "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n"
	base := "Content-Length: #\r\n"
	res = append(res, ct+base, base+ct, "X-Content-Length: 3\r\n"+base, base+"X-Content-Length: 3\r\n", "X-A: 1\r\n"+ct+base+"X-B: \r\n", base+"X-Long: "+strings.Repeat("y", 5000)+"\r\n",
		"X-C: Content-Length: 4\r\n"+base, base+"X-C: Content-Length: 4\r\n", "Content-Type: a\r\nX-A: b\r\nX-A: c\r\ncontent-length:#\r\n", "Content-Length: 0#\r\n", "Content-Length: 000#\r\n")
	return res
}()

// case: "server shape shape shape": one header shape per message, repeated
func checkE04Headers(c string, st *Stats) string {
	f := strings.Fields(c)
	bodies := frameBodies(f[0])
	want, bad := frameBaseline(f[0], bodies)
	if bad != "" {
		return bad
	}
	var in strings.Builder
	for i, b := range bodies {
		k, _ := strconv.Atoi(f[1+i%(len(f)-1)])
		in.WriteString(strings.Replace(headerShapes[k], "#", strconv.Itoa(len(b)), 1) + "\r\n" + b)
	}
	out, bad := serveRaw(f[0], strings.NewReader(in.String()))
	if bad != "" {
		return bad
	}
	st.Step(len(bodies))
	st.State(c)
	if m := sameOut(out, want); m != "" {
		return fmt.Sprintf("with headers written as in %q: %s", clipS(in.String()), m)
	}
	return ""
}

// case: "server kind length": a body of exactly that length between two others
func checkE04Length(c string, st *Stats) string {
	f := strings.Fields(c)
	server := f[0]
	n, _ := strconv.Atoi(f[2])
	meth := map[string]string{"lsp": "textDocument/codeLens", "dbg": "threads"}[server]
	mk := func(pad string) string {
		if f[1] == "space" {
			return msgReq(server, 2, meth, `{"textDocument":{"uri":"u"}}`)[:1] + pad + msgReq(server, 2, meth, `{"textDocument":{"uri":"u"}}`)[1:]
		}
		return msgReq(server, 2, meth, `{"textDocument":{"uri":"u"},"pad":"`+pad+`"}`)
	}
	base := len(mk(""))
	if n < base {
		return ""
	}
	pad := ""
	switch f[1] {
	case "space":
		pad = strings.Repeat(" ", n-base)
	case "ascii":
		pad = strings.Repeat("x", n-base)
	case "wide":
		pad = strings.Repeat("é", (n-base)/2) + strings.Repeat("z", (n-base)%2)
	}
	body := mk(pad)
	if len(body) != n {
		return "internal: bad length"
	}
	pre := msgReq(server, 1, "initialize", `{}`)
	if server == "lsp" {
		pre = rpcBody("", "textDocument/didOpen", `{"textDocument":{"uri":"u","text":"a:\nb a\n"}}`)
	}
	post := msgReq(server, 3, meth, `{"textDocument":{"uri":"u"}}`)
	want, bad := frameBaseline(server, []string{pre, msgReq(server, 2, meth, `{"textDocument":{"uri":"u"}}`), post})
	if bad != "" {
		return bad
	}
	out, bad := serveRaw(server, strings.NewReader(frame(pre)+frame(body)+frame(post)))
	if bad != "" {
		return bad
	}
	st.Step(3)
	st.State(c)
	if m := sameOut(out, want); m != "" {
		return fmt.Sprintf("with a body of %d bytes: %s", n, m)
	}
	return ""
}

// case: "server kind length": a response whose text has that many characters
func checkE04Out(c string, st *Stats) string {
	f := strings.Fields(c)
	n, _ := strconv.Atoi(f[2])
	units := map[string]string{"ascii": "q", "wide": "é", "astral": "😀", "html": "<", "sep": "\u2028", "ctl": "\x01", "quote": "“", "indic": "\u0800", "repl": "\ufffd", "amp": "&", "del": "\x7f", "last": "\U0010ffff"}
	name := ""
	if f[1] == "mix" {
		for _, k := range strings.Split(f[2], ",") {
			name += units[k]
		}
		name += "e"
		n = len([]rune(name)) - 1
	} else {
		name = strings.Repeat(units[f[1]], n) + "e"
	}
	var in string
	if f[0] == "lsp" {
		in = frame(rpcBody("", "textDocument/didOpen", `{"textDocument":{"uri":"u","text":`+jqText(name+":\n")+`}}`)) + frame(msgReq("lsp", 1, "textDocument/documentSymbol", `{"textDocument":{"uri":"u"}}`)) + frame(msgReq("lsp", 2, "shutdown", "null"))
	} else {
		in = frame(msgReq("dbg", 1, "setBreakpoints", `{"source":{"name":`+jqText(name)+`},"breakpoints":[{"line":1}]}`)) + frame(msgReq("dbg", 2, "threads", "{}"))
	}
	out, bad := serveRaw(f[0], strings.NewReader(in))
	if bad != "" {
		return bad
	}
	ids, bad := answeredIDs(f[0], out)
	if bad != "" {
		return bad
	}
	st.Step(2)
	st.State(c)
	if m := diffStr("answered requests", ids, []string{"1", "2"}); m != "" {
		return m
	}
	fs, _ := parseFrames(out)
	var got string
	if f[0] == "lsp" {
		var m struct {
			Result []struct{ Name string }
		}
		if json.Unmarshal(fs[0], &m) == nil && len(m.Result) == 1 {
			got = m.Result[0].Name
		}
	} else {
		var m struct {
			Body struct {
				Breakpoints []struct{ Source struct{ Name string } }
			}
		}
		if json.Unmarshal(fs[0], &m) == nil && len(m.Body.Breakpoints) == 1 {
			got = m.Body.Breakpoints[0].Source.Name
		}
	}
	if got != name {
		return fmt.Sprintf("a text of %d characters comes back as %q", n+1, clipS(got))
	}
	return ""
}

var mixKinds = []string{"ascii", "wide", "astral", "html", "sep", "ctl", "quote", "indic", "repl", "amp", "del", "last"}

var badBodies = []string{"", " ", "{", "}", "nul", "[", "\xff\xfe", `{"a":}`, `{"id":1,"method":"x"`, "null", "5", "[]", `"x"`, "true", "{}", `{"id":{},"method":{}}`, `{"seq":"x","type":7}`, "\x00", `{"jsonrpc":"2.0","id":9,"method":"shutdown"}{}`, "Content-Length: 3\r\n\r\n{}"}

// case: "server sym sym ...": V is a valid request, a number is an unusable body
func checkE04Bad(c string, st *Stats) string {
	f := strings.Fields(c)
	return runBad(f[0], f[1:], st, func(in string) ([]byte, string) { return serveRaw(f[0], strings.NewReader(in)) })
}

func runBad(server string, syms []string, st *Stats, serve func(string) ([]byte, string)) string {
	var in strings.Builder
	var want []string
	meth := map[string]string{"lsp": "textDocument/diagnostic", "dbg": "threads"}[server]
	syms = append(append([]string{}, syms...), "V")
	for i, s := range syms {
		if s == "V" {
			want = append(want, strconv.Itoa(i+1))
			in.WriteString(frame(msgReq(server, i+1, meth, `{"textDocument":{"uri":"u"}}`)))
			continue
		}
		k, _ := strconv.Atoi(s)
		in.WriteString(frame(badBodies[k]))
	}
	out, bad := serve(in.String())
	if bad != "" {
		return bad
	}
	ids, bad := answeredIDs(server, out)
	if bad != "" {
		return bad
	}
	st.Step(len(syms))
	st.State(fmt.Sprint(server, ids))
	return diffStr("answered requests", ids, want)
}

// the built commands
func checkE04Process(c string, st *Stats) string {
	f := strings.Fields(c)
	bin, args := os.Getenv("MC_TEALSP"), []string{}
	server := "lsp"
	switch f[0] {
	case "tealsp-dbg":
		args, server = []string{"dbg"}, "dbg"
	case "tealdbg":
		bin, server = os.Getenv("MC_TEALDBG"), "dbg"
	}
	if bin == "" {
		return ""
	}
	return runBad(server, f[1:], st, func(in string) ([]byte, string) {
		out, code, bad := runProcess(bin, args, in)
		if bad == "" && code != 0 {
			bad = fmt.Sprintf("the command ended with code %d", code)
		}
		return out, bad
	})
}

func around(ns ...int) []int {
	var res []int
	for _, n := range ns {
		for d := -3; d <= 3; d++ {
			res = append(res, n+d)
		}
	}
	return res
}

func init() {
	servers := []string{"lsp", "dbg"}
	register(&Prop{ID: "E04", Assumptions: []string{
		"headers end lines with CR LF and give the length once, in decimal, as the protocols require",
		"an empty read is not the end of the input, and at most a few come in a row",
	}, Spaces: func(tier string) []Space {
		var single []string
		for _, s := range servers {
			n := inputLen(s, 5)
			for m := 0; m < 4; m++ {
				for k := 1; k < n; k++ {
					single = append(single, fmt.Sprintf("%s 5 %d %d", s, m, k))
				}
				for k := 1; k <= pick(tier, 130, 400); k++ {
					single = append(single, fmt.Sprintf("%s 5 %d *%d", s, m, k))
				}
			}
		}
		var ends []string
		for _, s := range servers {
			for k := 0; k <= inputLen(s, 5); k++ {
				ends = append(ends, fmt.Sprintf("%s %d", s, k))
			}
		}
		nb := pick(tier, 2, 4)
		n0, n1 := inputLen("lsp", nb), inputLen("dbg", nb)
		pairs := func(s string, n int) Space {
			return prodSpace("two cuts "+s, fmt.Sprintf("every pair of cut points of %d messages", nb), []int{n - 1, n - 1}, func(ix []int) string {
				a, b := ix[0]+1, ix[1]+1
				return fmt.Sprintf("%s %d %d %d,%d", s, nb, (a+b)%2, min(a, b), max(a, b))
			}, checkE04Split)
		}
		h := len(headerShapes)
		var lens, outs []string
		var ls []int
		for n := 60; n <= pick(tier, 700, 5200); n++ {
			ls = append(ls, n)
		}
		ls = append(ls, around(1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072)...)
		if tier == "thorough" {
			ls = append(ls, around(262144, 524288)...)
		}
		for _, s := range servers {
			for _, k := range []string{"space", "ascii", "wide"} {
				if k == "ascii" {
					for _, n := range around(1000000, 1<<20, 1<<22, 1<<24) {
						lens = append(lens, fmt.Sprintf("%s %s %d", s, k, n))
					}
				}
				for _, n := range ls {
					lens = append(lens, fmt.Sprintf("%s %s %d", s, k, n))
				}
			}
			for _, k := range []string{"ascii", "wide", "astral", "html", "sep", "ctl"} {
				for n := 0; n <= pick(tier, 150, 1200); n++ {
					outs = append(outs, fmt.Sprintf("%s %s %d", s, k, n))
				}
				for _, n := range around(1024, 2048, 4096, 16384, 32768, 65536) {
					outs = append(outs, fmt.Sprintf("%s %s %d", s, k, n))
				}
			}
		}
		syms := []string{"V"}
		for i := range badBodies {
			syms = append(syms, strconv.Itoa(i))
		}
		sp := []Space{
			listSpace("cuts", "every single cut point and every piece size, with empty reads and an early end of input", single, checkE04Split),
			listSpace("ends", "the input ending after every number of bytes", ends, checkE04Cut),
			pairs("lsp", n0), pairs("dbg", n1),
			prodSpace("headers", "header spelling, order and extra fields, two shapes alternating", []int{2, h, h}, func(ix []int) string {
				return fmt.Sprintf("%s %d %d", servers[ix[0]], ix[1], ix[2])
			}, checkE04Headers),
			listSpace("lengths", "received bodies of every length", lens, checkE04Length),
			mapSpace(seqSpace("mixed lsp", "written texts mixing characters of every width", mixKinds, 1, pick(tier, 3, 4), ",", checkE04Out), func(c string) string { return "lsp mix " + c }),
			mapSpace(seqSpace("mixed dbg", "written texts mixing characters of every width", mixKinds, 1, pick(tier, 3, 4), ",", checkE04Out), func(c string) string { return "dbg mix " + c }),
			listSpace("written", "written bodies of every length and kind of character", outs, checkE04Out),
		}
		for _, s := range servers {
			sp = append(sp, mapSpace(seqSpace("unusable "+s, "unusable bodies among requests", syms, 1, pick(tier, 3, 4), " ", checkE04Bad), func(c string) string { return s + " " + c }))
		}
		for _, p := range []string{"tealsp", "tealsp-dbg", "tealdbg"} {
			sp = append(sp, mapSpace(seqSpace("process "+p, "the built command on unusable bodies among requests", syms, 1, pick(tier, 1, 2), " ", checkE04Process), func(c string) string { return p + " " + c }))
		}
		return sp
	}})
}
