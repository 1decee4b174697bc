package main

// In-memory client of the language server: builds framed sessions, runs the real server on them and
// parses its output strictly.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"

	"github.com/dragmz/teal/lsp"
)

func frame(body string) string {
	return fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(body), body)
}

func jq(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// parseFrames cuts an output stream in messages; every byte has to belong to one.
func parseFrames(out []byte) ([][]byte, string) {
	var res [][]byte
	for len(out) > 0 {
		length := -1
		for {
			i := bytes.Index(out, []byte("\r\n"))
			if i < 0 {
				return res, fmt.Sprintf("output ends within a header: %q", clipS(string(out)))
			}
			h := string(out[:i])
			out = out[i+2:]
			if h == "" {
				break
			}
			k, v, ok := strings.Cut(h, ":")
			if !ok || strings.TrimSpace(k) != k {
				return res, fmt.Sprintf("output has a malformed header line %q", clipS(h))
			}
			if strings.EqualFold(k, "Content-Length") {
				n, err := strconv.Atoi(strings.TrimSpace(v))
				if err != nil || n < 0 || length >= 0 {
					return res, fmt.Sprintf("output has a bad length header %q", h)
				}
				length = n
			}
		}
		if length < 0 {
			return res, "output message without length"
		}
		if len(out) < length {
			return res, fmt.Sprintf("output message announces %d bytes, %d follow", length, len(out))
		}
		res = append(res, out[:length])
		out = out[length:]
	}
	return res, ""
}

type rpcMsg struct {
	raw                            string
	id, method                     string // id as JSON text, "" if absent or null
	hasMethod, hasResult, hasError bool
	params, result, errv           json.RawMessage
}

func parseRPC(body []byte) (rpcMsg, string) {
	var m map[string]json.RawMessage
	if err := json.Unmarshal(body, &m); err != nil {
		return rpcMsg{}, fmt.Sprintf("output message is not a JSON object: %q", clipS(string(body)))
	}
	r := rpcMsg{raw: string(body)}
	if v, ok := m["id"]; ok && string(v) != "null" {
		r.id = string(v)
	}
	if v, ok := m["method"]; ok {
		r.hasMethod = true
		json.Unmarshal(v, &r.method)
	}
	r.params = m["params"]
	r.result, r.hasResult = m["result"]
	r.errv, r.hasError = m["error"]
	if s, ok := m["jsonrpc"]; !ok || string(s) != `"2.0"` {
		return r, fmt.Sprintf("output message without jsonrpc version: %s", clipS(r.raw))
	}
	return r, ""
}

type lspSess struct {
	in strings.Builder
	n  int
}

func (s *lspSess) raw(body string) { s.in.WriteString(frame(body)) }

func (s *lspSess) note(method, params string) {
	s.raw(`{"jsonrpc":"2.0","method":` + jq(method) + `,"params":` + params + `}`)
}

// req sends a request and returns its id.
func (s *lspSess) req(method, params string) int {
	s.n++
	s.raw(`{"jsonrpc":"2.0","id":` + strconv.Itoa(s.n) + `,"method":` + jq(method) + `,"params":` + params + `}`)
	return s.n
}

func (s *lspSess) open(uri, text string) {
	s.note("textDocument/didOpen", `{"textDocument":{"uri":`+jq(uri)+`,"languageId":"teal","version":1,"text":`+jqText(text)+`}}`)
}

func (s *lspSess) change(uri string, texts ...string) {
	var cs []string
	for _, t := range texts {
		cs = append(cs, `{"text":`+jqText(t)+`}`)
	}
	s.note("textDocument/didChange", `{"textDocument":{"uri":`+jq(uri)+`,"version":2},"contentChanges":[`+strings.Join(cs, ",")+`]}`)
}

func (s *lspSess) close(uri string) { s.note("textDocument/didClose", docParams(uri)) }

// jqText renders a text as JSON without changing any character (texts here are valid UTF-8).
func jqText(t string) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(t); err != nil {
		panic(err)
	}
	return strings.TrimSuffix(b.String(), "\n")
}

func docParams(uri string) string { return `{"textDocument":{"uri":` + jq(uri) + `}}` }

func posParams(uri string, l, c int) string {
	return fmt.Sprintf(`{"textDocument":{"uri":%s},"position":{"line":%d,"character":%d}}`, jq(uri), l, c)
}

func renameParams(uri string, l, c int, name string) string {
	return fmt.Sprintf(`{"textDocument":{"uri":%s},"position":{"line":%d,"character":%d},"newName":%s}`, jq(uri), l, c, jq(name))
}

func rangeParams(uri string, r rng) string {
	return fmt.Sprintf(`{"textDocument":{"uri":%s},"range":%s,"context":{"diagnostics":[]}}`, jq(uri), rangeJSON(r))
}

func rangeJSON(r rng) string {
	return fmt.Sprintf(`{"start":{"line":%d,"character":%d},"end":{"line":%d,"character":%d}}`, r.sl, r.sc, r.el, r.ec)
}

type lspOut struct {
	msgs []rpcMsg
	byID map[string]rpcMsg // responses
	code int
}

// lspServe runs the server on the whole input to its end.
func lspServe(in io.Reader) (*lspOut, string) {
	var out bytes.Buffer
	s, err := lsp.New(in, &out)
	if err != nil {
		return nil, "server not created: " + err.Error()
	}
	code, err := s.Run()
	if err != nil {
		return nil, "server ended with error: " + err.Error()
	}
	o := &lspOut{code: code, byID: map[string]rpcMsg{}}
	fs, bad := parseFrames(out.Bytes())
	if bad != "" {
		return o, bad
	}
	for _, f := range fs {
		m, bad := parseRPC(f)
		if bad != "" {
			return o, bad
		}
		o.msgs = append(o.msgs, m)
		if !m.hasMethod {
			if m.id == "" {
				return o, "response without id: " + clipS(m.raw)
			}
			if _, ok := o.byID[m.id]; ok {
				return o, "request " + m.id + " answered twice: " + clipS(m.raw)
			}
			if m.hasResult == m.hasError {
				return o, "response has not exactly one of result and error: " + clipS(m.raw)
			}
			o.byID[m.id] = m
		}
	}
	return o, ""
}

func (s *lspSess) run() (*lspOut, string) { return lspServe(strings.NewReader(s.in.String())) }

// result decodes the result of request id in v.
func (o *lspOut) result(id int, v any) string {
	m, ok := o.byID[strconv.Itoa(id)]
	if !ok {
		return fmt.Sprintf("request %d not answered", id)
	}
	if m.hasError {
		return fmt.Sprintf("request %d failed: %s", id, m.errv)
	}
	if err := json.Unmarshal(m.result, v); err != nil {
		return fmt.Sprintf("request %d: unusable result %s: %v", id, clipS(string(m.result)), err)
	}
	return ""
}

type jPos struct {
	Line      int `json:"line"`
	Character int `json:"character"`
}

type jRange struct {
	Start jPos `json:"start"`
	End   jPos `json:"end"`
}

func (r jRange) String() string {
	return fmt.Sprintf("%d:%d-%d:%d", r.Start.Line, r.Start.Character, r.End.Line, r.End.Character)
}

func rstr(l, b, e int) string { return fmt.Sprintf("%d:%d-%d:%d", l, b, l, e) }

type jEdit struct {
	Range   jRange `json:"range"`
	NewText string `json:"newText"`
}

type jWorkspaceEdit struct {
	Changes         map[string][]jEdit `json:"changes"`
	DocumentChanges []struct {
		TextDocument struct {
			Uri string `json:"uri"`
		} `json:"textDocument"`
		Edits []jEdit `json:"edits"`
	} `json:"documentChanges"`
}

// edits of one document; edits of any other document are an error.
func (w jWorkspaceEdit) of(uri string) ([]jEdit, string) {
	var res []jEdit
	for u, es := range w.Changes {
		if u != uri && len(es) > 0 {
			return nil, "edit of another document " + u
		}
		res = append(res, es...)
	}
	for _, d := range w.DocumentChanges {
		if d.TextDocument.Uri != uri && len(d.Edits) > 0 {
			return nil, "edit of another document " + d.TextDocument.Uri
		}
		res = append(res, d.Edits...)
	}
	return res, ""
}

// textLines: starting offsets of the lines of a text and their length without line end, as an editor sees them
// (LF, CRLF, CR), including the final, possibly empty, line.
func textLines(src string) (start, length []int) {
	i, cur := 0, 0
	for i < len(src) {
		switch src[i] {
		case '\r':
			start, length = append(start, cur), append(length, i-cur)
			if i+1 < len(src) && src[i+1] == '\n' {
				i++
			}
			i++
			cur = i
		case '\n':
			start, length = append(start, cur), append(length, i-cur)
			i++
			cur = i
		default:
			i++
		}
	}
	return append(start, cur), append(length, len(src)-cur)
}

func offsetOf(start, length []int, n int, p jPos) int {
	if p.Line >= len(start) {
		return n
	}
	c := p.Character
	if c > length[p.Line] {
		c = length[p.Line]
	}
	return start[p.Line] + c
}

// applyEdits applies the edits like an editor: all refer to the original text and may not overlap.
func applyEdits(src string, es []jEdit) (string, string) {
	start, length := textLines(src)
	type e struct {
		b, e int
		t    string
	}
	var xs []e
	for _, ed := range es {
		if ed.Range.Start.Line < 0 || ed.Range.Start.Character < 0 || ed.Range.End.Line < 0 || ed.Range.End.Character < 0 {
			return "", "edit with a negative position " + ed.Range.String()
		}
		x := e{offsetOf(start, length, len(src), ed.Range.Start), offsetOf(start, length, len(src), ed.Range.End), ed.NewText}
		if x.b > x.e {
			return "", "edit with an inverted range " + ed.Range.String()
		}
		xs = append(xs, x)
	}
	sort.SliceStable(xs, func(i, j int) bool { return xs[i].b < xs[j].b })
	var b strings.Builder
	cur := 0
	for i, x := range xs {
		if x.b < cur || i > 0 && x.b == xs[i-1].b {
			return "", fmt.Sprintf("overlapping edits at offset %d", x.b)
		}
		b.WriteString(src[cur:x.b])
		b.WriteString(x.t)
		cur = x.e
	}
	b.WriteString(src[cur:])
	return b.String(), ""
}
