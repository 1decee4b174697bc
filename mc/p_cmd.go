package main

// E14 (what the server announces is what it does) and T01 (the built commands behave like the servers they wrap,
// whatever the transport and options).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/dragmz/teal/dbg"
	"github.com/dragmz/teal/lsp"
)

// ---------- E14 ----------

// announced: a capability is there unless missing, null or false.
func announced(v json.RawMessage) bool {
	s := strings.TrimSpace(string(v))
	return s != "" && s != "null" && s != "false"
}

var e14Docs = []string{
	"",
	"#pragma version 8\nint 1\nbyte 0x6162\ntxn 1\nb a\na:\n// c\nbogus\n",
	"a:\nb a\nb q\nunused:\ncallsub a\nint 1\nreturn\nint 2\n#pragma version 3\n",
	"// doc\nsub:\nproto 1 1\nretsub\nmethod \"f()void\"\nbyte base64 YQ==\ntxna ApplicationArgs 0\r\nswitch a sub\n",
	"int 1\nbnz x\nbnz x\nx:\nx:\nbox_create\nbyte b32 MFRA\nint pay",
}

// case: "options\ndocument": options is a digit 0..2 per option (off, on, absent) or the text of the parameters
func checkE14(c string, st *Stats) string {
	head, di, _ := strings.Cut(c, "\n")
	var n, id int
	fmt.Sscan(di, &n, &id)
	src := e14Docs[n]
	params := head
	on := []bool{true, true, true, true}
	if len(head) == 4 && !strings.ContainsAny(head, "{nu") {
		var os []string
		for i, k := range []string{"semanticTokens", "inlayNamed", "inlayDecoded", "lensRefs"} {
			switch head[i] {
			case '0':
				os = append(os, `"`+k+`":false`)
				on[i] = false
			case '1':
				os = append(os, `"`+k+`":true`)
			}
		}
		params = `{"capabilities":{},"initializationOptions":{` + strings.Join(os, ",") + `}}`
	}
	s := &lspSess{n: id - 1}
	init := s.req("initialize", params)
	s.note("initialized", "{}")
	s.open(docURI, src)
	o, bad := s.run()
	if bad != "" {
		return bad
	}
	var res struct{ Capabilities map[string]json.RawMessage }
	if e := o.result(init, &res); e != "" {
		return e
	}
	caps := res.Capabilities
	st.Step(1)
	var sync struct {
		Change    int
		OpenClose bool
	}
	kind := -1
	if json.Unmarshal(caps["textDocumentSync"], &kind) != nil {
		if err := json.Unmarshal(caps["textDocumentSync"], &sync); err != nil || !sync.OpenClose {
			return fmt.Sprintf("synchronisation announced as %s", caps["textDocumentSync"])
		}
		kind = sync.Change
	}
	if kind != 1 {
		return fmt.Sprintf("announces synchronisation kind %d, but takes whole texts (1)", kind)
	}
	for k, want := range map[string]bool{
		"documentHighlightProvider": true, "documentSymbolProvider": true, "codeActionProvider": true, "executeCommandProvider": true, "renameProvider": true, "completionProvider": true, "documentFormattingProvider": true,
		"definitionProvider": true, "hoverProvider": true, "signatureHelpProvider": true, "codeLensProvider": true, "diagnosticProvider": true,
		"semanticTokensProvider": on[0], "inlayHintProvider": on[1] || on[2],
	} {
		st.Step(1)
		if got := announced(caps[k]); got != want {
			return fmt.Sprintf("%s announced: %v (%s), want %v", k, got, caps[k], want)
		}
	}
	var comp struct{ TriggerCharacters []string }
	json.Unmarshal(caps["completionProvider"], &comp)
	if fmt.Sprint(comp.TriggerCharacters) != "[ ]" {
		return fmt.Sprintf("completion is triggered by %q, want a space", comp.TriggerCharacters)
	}
	var ren struct{ PrepareProvider bool }
	json.Unmarshal(caps["renameProvider"], &ren)
	var ex struct{ Commands []string }
	if err := json.Unmarshal(caps["executeCommandProvider"], &ex); err != nil {
		return "unusable list of commands " + string(caps["executeCommandProvider"])
	}
	known := map[string]bool{}
	for _, k := range ex.Commands {
		if known[k] {
			return "command announced twice: " + k
		}
		known[k] = true
	}
	for _, k := range []string{"teal.label.create", "teal.label.remove", "teal.value.replace", "teal.line.remove", "teal.version.update"} {
		if !known[k] {
			return "command not announced: " + k
		}
	}
	var legend []string
	if announced(caps["semanticTokensProvider"]) {
		var sp struct {
			Full   json.RawMessage
			Legend struct{ TokenTypes, TokenModifiers []string }
		}
		if err := json.Unmarshal(caps["semanticTokensProvider"], &sp); err != nil || !announced(sp.Full) {
			return "unusable semantic tokens provider " + string(caps["semanticTokensProvider"])
		}
		if sp.Legend.TokenTypes == nil || sp.Legend.TokenModifiers == nil {
			return "semantic tokens provider without legend " + string(caps["semanticTokensProvider"])
		}
		legend = sp.Legend.TokenTypes
	}

	// everything announced is served, on every document and at every place
	full := rng{0, 0, 1000, 0}
	type q struct{ cap, method, params string }
	qs := []q{
		{"documentSymbolProvider", "textDocument/documentSymbol", docParams(docURI)},
		{"codeActionProvider", "textDocument/codeAction", rangeParams(docURI, full)},
		{"documentFormattingProvider", "textDocument/formatting", `{"textDocument":{"uri":` + jq(docURI) + `},"options":{"tabSize":4,"insertSpaces":true}}`},
		{"codeLensProvider", "textDocument/codeLens", docParams(docURI)},
		{"diagnosticProvider", "textDocument/diagnostic", docParams(docURI)},
		{"semanticTokensProvider", "textDocument/semanticTokens/full", docParams(docURI)},
		{"inlayHintProvider", "textDocument/inlayHint", rangeParams(docURI, full)},
		{"inlineValueProvider", "textDocument/inlineValue", fmt.Sprintf(`{"textDocument":{"uri":%s},"range":%s,"context":{"frameId":0,"stoppedLocation":%s}}`, jq(docURI), rangeJSON(full), rangeJSON(full))},
	}
	for _, p := range cursorPositions(src, 3) {
		for _, m := range []string{"documentHighlight", "completion", "definition", "hover", "signatureHelp"} {
			qs = append(qs, q{m + "Provider", "textDocument/" + m, posParams(docURI, p[0], p[1])})
		}
		if ren.PrepareProvider {
			qs = append(qs, q{"renameProvider", "textDocument/prepareRename", posParams(docURI, p[0], p[1])})
		}
	}
	s = &lspSess{}
	s.req("initialize", params)
	s.note("initialized", "{}")
	s.open(docURI, src)
	ids := map[int]q{}
	for _, x := range qs {
		if announced(caps[x.cap]) {
			ids[s.req(x.method, x.params)] = x
		}
	}
	if o, bad = s.run(); bad != "" {
		return bad
	}
	var acts []struct {
		Title   string
		Kind    string
		Command *struct {
			Command   string
			Arguments []json.RawMessage
		}
	}
	var lens []struct {
		Command *struct{ Command string }
	}
	for id, x := range ids {
		st.Step(1)
		var v json.RawMessage
		if e := o.result(id, &v); e != "" {
			return x.cap + " is announced, but " + x.method + " " + x.params + ": " + e
		}
		switch x.method {
		case "textDocument/codeAction":
			if err := json.Unmarshal(v, &acts); err != nil {
				return "unusable code actions " + clipS(string(v))
			}
		case "textDocument/codeLens":
			if err := json.Unmarshal(v, &lens); err != nil {
				return "unusable lenses " + clipS(string(v))
			}
		case "textDocument/semanticTokens/full":
			var t struct{ Data []uint32 }
			if err := json.Unmarshal(v, &t); err != nil {
				return "unusable tokens " + clipS(string(v))
			}
			ts, bad := decodeSem(t.Data)
			if bad != "" {
				return bad
			}
			for _, k := range ts {
				if k.typ >= len(legend) || k.mod != 0 {
					return fmt.Sprintf("token %v is not described by the legend %q", k, legend)
				}
			}
		}
	}
	for _, l := range lens {
		if l.Command != nil && l.Command.Command != "" && !known[l.Command.Command] {
			return "a lens runs a command that is not announced: " + l.Command.Command
		}
	}
	// every offered command is announced, and runs
	s = &lspSess{}
	s.req("initialize", params)
	s.open(docURI, src)
	var cmds []int
	for _, a := range acts {
		if a.Command == nil {
			continue
		}
		if !known[a.Command.Command] {
			return fmt.Sprintf("the action %q runs the command %q, which is not announced", a.Title, a.Command.Command)
		}
		cmds = append(cmds, s.req("workspace/executeCommand", jq(map[string]any{"command": a.Command.Command, "arguments": a.Command.Arguments})))
	}
	if o, bad = s.run(); bad != "" {
		return bad
	}
	for _, id := range cmds {
		var v json.RawMessage
		st.Step(1)
		if e := o.result(id, &v); e != "" {
			return "an offered command fails: " + e
		}
	}
	st.State(fmt.Sprint(head, n, len(acts), len(lens)))
	return ""
}

// ---------- T01 ----------

// memory runs a server in memory on the whole input; code is its exit status.
func memory(server, in string) (out []byte, code int, failed bool) {
	var b bytes.Buffer
	var run func() (int, error)
	if server == "lsp" {
		s, err := lsp.New(strings.NewReader(in), &b)
		if err != nil {
			return nil, 0, true
		}
		run = s.Run
	} else {
		s, err := dbg.New(strings.NewReader(in), &b)
		if err != nil {
			return nil, 0, true
		}
		run = s.Run
	}
	code, err := run()
	return b.Bytes(), code, err != nil
}

var t01Transports = []string{"stdio", "debug", "tcp", "net-tcp", "unix", "tcp-debug", "talk", "tcp-talk"}

const t01Big = "#pragma version 8\nbyte 0x6162\nb é\nbz <&>\u2028\u2029\x7f\nint 1 // 😀\n"

func t01Msg(server, sym string, id int) string {
	if server == "lsp" {
		r := func(m, p string) string {
			return fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"method":%q,"params":%s}`, id, m, p)
		}
		s := &lspSess{}
		switch sym {
		case "init":
			return frame(r("initialize", "{}"))
		case "open":
			s.open(docURI, t01Big)
			return s.in.String()
		case "big":
			s.open("file:///big", strings.Repeat("bogus é\n", 3000))
			return s.in.String()
		case "change":
			s.change(docURI, "x:\nb x")
			return s.in.String()
		case "close":
			s.close(docURI)
			return s.in.String()
		case "hover":
			return frame(r("textDocument/hover", posParams(docURI, 1, 1)))
		case "tokens":
			return frame(r("textDocument/semanticTokens/full", docParams(docURI)))
		case "actions":
			return frame(r("textDocument/codeAction", rangeParams(docURI, rng{0, 0, 9, 0})))
		case "unknown":
			return frame(r("x/y", "{}"))
		case "bad":
			return frame("{")
		case "shutdown":
			return frame(r("shutdown", "null"))
		case "exit":
			return frame(`{"jsonrpc":"2.0","method":"exit"}`)
		case "half":
			return "Content-Length: 100\r\n\r\n{"
		}
		panic(sym)
	}
	if sym == "bad" {
		return frame("{")
	}
	if sym == "half" {
		return "Content-Length: 100\r\n\r\n{"
	}
	cmd, a := dapTyped(sym[0])
	if a == "" {
		a = "null"
	}
	return frame(msgReq("dbg", id, cmd, a))
}

var t01Lsp = []string{"init", "open", "big", "change", "close", "hover", "tokens", "actions", "unknown", "bad", "shutdown", "exit"}
var t01Dbg = []string{"i", "L", "E", "B", "n", "c", "t", "s", "v", "bad", "X", "d"}

// case: "command transport symbols..."
func checkT01(c string, st *Stats) string {
	f := strings.Fields(c)
	bin, server := os.Getenv("MC_TEALSP"), "lsp"
	var args []string
	switch f[0] {
	case "tealsp-dbg":
		args, server = []string{"dbg"}, "dbg"
	case "tealdbg":
		bin, server = os.Getenv("MC_TEALDBG"), "dbg"
	}
	if bin == "" {
		return ""
	}
	var in string
	var counts []int
	var parts []string
	for i, s := range f[2:] {
		m := t01Msg(server, s, i+1)
		parts = append(parts, m)
		in += m
		if strings.HasSuffix(f[1], "talk") {
			out, _, _ := memory(server, in)
			fs, bad := parseFrames(out)
			if bad != "" {
				return bad
			}
			counts = append(counts, len(fs))
		}
	}
	want, wcode, wfail := memory(server, in)
	dir, err := os.MkdirTemp(scratch(), "t01")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if strings.Contains(f[1], "debug") {
		args = append(args, "-debug", filepath.Join(dir, "log"))
		if len(parts)%2 == 1 {
			// the log of an earlier session
			if err := os.WriteFile(filepath.Join(dir, "log"), []byte("old\n"), 0o644); err != nil {
				panic(err)
			}
		}
	}
	var ln net.Listener
	switch {
	case strings.HasPrefix(f[1], "tcp"), f[1] == "net-tcp":
		if ln, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
			panic(err)
		}
		if f[1] == "net-tcp" {
			args = append(args, "-net=tcp")
		}
		args = append(args, "-addr", ln.Addr().String())
	case f[1] == "unix":
		if ln, err = net.Listen("unix", filepath.Join(dir, "s")); err != nil {
			panic(err)
		}
		args = append(args, "-net", "unix", "-addr", filepath.Join(dir, "s"))
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	var stdout, stderr bytes.Buffer
	cmd.Stderr = &stderr
	var w io.WriteCloser
	var r io.Reader
	var done func()
	if ln == nil {
		w, _ = cmd.StdinPipe()
		p, _ := cmd.StdoutPipe()
		r = p
		done = func() { w.Close() }
	} else {
		defer ln.Close()
		cmd.Stdout = &stdout
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(60*time.Second, func() {
		cmd.Process.Kill()
		if ln != nil {
			ln.Close()
		}
	})
	defer t.Stop()
	wait := cmd.Wait
	if ln != nil {
		// over a connection the process can be awaited at once: it never connects if it has ended
		ended := make(chan error, 1)
		wait = func() error { return <-ended }
		go func() {
			err := cmd.Wait()
			// (a connection made before the end is still in the queue, and accepted)
			time.AfterFunc(2*time.Second, func() { ln.Close() })
			ended <- err
		}()
		conn, err := ln.Accept()
		if err != nil {
			wait()
			return fmt.Sprintf("%v does not connect to its client: %v %s", args, err, clipS(stderr.String()))
		}
		defer conn.Close()
		w, r = conn, conn
		done = func() { conn.(interface{ CloseWrite() error }).CloseWrite() }
	}
	var got []byte
	if counts == nil {
		go func() {
			io.WriteString(w, in)
			done()
		}()
		got, _ = io.ReadAll(r)
	} else {
		// one message at a time, each sent only after everything due to the previous ones has arrived
		buf := make([]byte, 65536)
		for i, m := range parts {
			io.WriteString(w, m)
			for {
				if fs, _ := parseFrames(got); len(fs) >= counts[i] {
					break
				}
				n, err := r.Read(buf)
				got = append(got, buf[:n]...)
				if err != nil {
					break
				}
			}
		}
		done()
		rest, _ := io.ReadAll(r)
		got = append(got, rest...)
	}
	err = wait()
	if !t.Stop() {
		return fmt.Sprintf("%s %v did not answer and end as the server in memory does (%d of %d bytes)", f[0], args, len(got), len(want))
	}
	code := 0
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		code = ee.ExitCode()
	}
	st.Step(len(parts) + 1)
	st.State(fmt.Sprint(len(want), wcode))
	if stdout.Len() > 0 {
		return fmt.Sprintf("%v writes %q to its standard output besides the connection", args, clipS(stdout.String()))
	}
	if wfail && code == 0 || !wfail && code != wcode&0xff {
		return fmt.Sprintf("%s %v ends with status %d, the server with %d (failed: %v)", f[0], args, code, wcode, wfail)
	}
	gf, bad := parseFrames(got)
	if bad != "" {
		return bad
	}
	wf, _ := parseFrames(want)
	var gs, ws []string
	for _, x := range gf {
		gs = append(gs, clipS(string(x)))
	}
	for _, x := range wf {
		ws = append(ws, clipS(string(x)))
	}
	if !bytes.Equal(got, want) {
		if m := diffStr("messages", gs, ws); m != "" {
			return m
		}
		for i := range gf {
			if !bytes.Equal(gf[i], wf[i]) {
				return fmt.Sprintf("message %d differs: %q, want %q", i, clipS(string(gf[i])), clipS(string(wf[i])))
			}
		}
	}
	return ""
}

// case: "command how": options that cannot be honoured
func checkT01Bad(c string, st *Stats) string {
	f := strings.Fields(c)
	bin := os.Getenv("MC_TEALSP")
	var args []string
	switch f[0] {
	case "tealsp-dbg":
		args = []string{"dbg"}
	case "tealdbg":
		bin = os.Getenv("MC_TEALDBG")
	}
	if bin == "" {
		return ""
	}
	dir, err := os.MkdirTemp(scratch(), "t01")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	switch f[1] {
	case "nobody":
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		a := ln.Addr().String()
		ln.Close()
		args = append(args, "-addr", a)
	case "nosocket":
		args = append(args, "-net", "unix", "-addr", filepath.Join(dir, "none"))
	case "badnet":
		args = append(args, "-net", "nonet", "-addr", "127.0.0.1:1")
	case "badlog":
		args = append(args, "-debug", filepath.Join(dir, "none", "log"))
	case "dirlog":
		args = append(args, "-debug", dir)
	case "badflag":
		args = append(args, "-nosuchflag")
	}
	out, code, bad := runProcess(bin, args, "")
	if bad != "" {
		return bad
	}
	st.Step(1)
	st.State(c)
	if code == 0 || len(out) > 0 {
		return fmt.Sprintf("%s %v ends with status %d and writes %q", f[0], args, code, clipS(string(out)))
	}
	return ""
}

func init() {
	register(&Prop{ID: "E14", Assumptions: []string{"answers to announced requests are judged by the other E properties; here only that they are served", "a second initialize request is not judged"},
		Spaces: func(tier string) []Space {
			forms := []string{"{}", "null", `{"initializationOptions":null}`, `{"initializationOptions":{}}`, `{"processId":1,"rootUri":"file:///x","capabilities":{"textDocument":{}},"initializationOptions":{"other":5,"semanticTokens":true},"trace":"off","workspaceFolders":null}`}
			var fixed []string
			for _, f := range forms {
				for i := range e14Docs {
					fixed = append(fixed, fmt.Sprintf("%s\n%d", f, i))
				}
			}
			return []Space{
				prodSpace("options", "every option off, on or absent, with several documents", []int{3, 3, 3, 3, len(e14Docs)}, func(ix []int) string {
					return fmt.Sprintf("%d%d%d%d\n%d", ix[0], ix[1], ix[2], ix[3], ix[4])
				}, checkE14),
				prodSpace("first ids", "every option off, on or absent, asked for with several request ids", []int{3, 3, 3, 3, 6}, func(ix []int) string {
					return fmt.Sprintf("%d%d%d%d\n%d %d", ix[0], ix[1], ix[2], ix[3], ix[4]%len(e14Docs), []int{0, 1, 2, 100, 4294967296, -5}[ix[4]])
				}, checkE14),
				listSpace("forms", "forms of the initialisation parameters", fixed, checkE14),
			}
		}})
	register(&Prop{ID: "T01", Assumptions: []string{"the servers in memory are judged by the E and D properties; here the commands are compared with them byte for byte, which the sequential servers allow"},
		Spaces: func(tier string) []Space {
			var sp []Space
			var bads []string
			for _, cmd := range []string{"tealsp", "tealsp-dbg", "tealdbg"} {
				syms := t01Lsp
				if cmd != "tealsp" {
					syms = t01Dbg
				}
				var long []string
				for _, tr := range t01Transports {
					if cmd == "tealsp-dbg" && tr != "stdio" && tr != "debug" && tr != "talk" {
						continue
					}
					k := pick(tier, 2, 3)
					pre := cmd + " " + tr + " "
					sp = append(sp, mapSpace(seqSpace(cmd+" "+tr, "sessions of the built command", syms, 0, k, " ", checkT01), func(c string) string { return pre + c }))
					if cmd == "tealsp" {
						long = append(long, pre+"init open hover tokens actions change hover tokens close big hover unknown shutdown hover exit", pre+"init open half", pre+"init shutdown exit hover", pre+"init open exit", pre+"half", pre+"big big big big tokens")
					} else {
						long = append(long, pre+"i L B c t s v n n t s v c c t d", pre+"i E c t s v bad n", pre+"i X n t L n n half", pre+"half")
					}
				}
				sp = append(sp, listSpace(cmd+" long", "longer sessions over every transport", long, checkT01))
				for _, b := range []string{"nobody", "nosocket", "badnet", "badlog", "dirlog", "badflag"} {
					if cmd != "tealsp-dbg" || b == "badlog" || b == "dirlog" || b == "badflag" {
						bads = append(bads, cmd+" "+b)
					}
				}
			}
			return append(sp, listSpace("refused", "options that cannot be honoured", bads, checkT01Bad))
		}})
}
