package main

// D01: the debug adapter answers every request exactly once, whatever its arguments and state.

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
)

var dapBase = []struct{ cmd, args string }{
	{"initialize", `{"adapterID":"a","clientID":"c","clientName":"n","linesStartAt1":true,"columnsStartAt1":false,"pathFormat":"path"}`},
	{"launch", `{"program":"@P","noDebug":false}`},
	{"setBreakpoints", `{"source":{"name":"p","path":"@P"},"breakpoints":[{"line":2},{"line":4}],"lines":[2],"sourceModified":false}`},
	{"setFunctionBreakpoints", `{"breakpoints":[{"name":"main"}]}`},
	{"setInstructionBreakpoints", `{"breakpoints":[{"instructionReference":"1"}]}`},
	{"setExceptionBreakpoints", `{"filters":["all"]}`},
	{"configurationDone", `{}`},
	{"threads", `{}`},
	{"pause", `{"threadId":0}`},
	{"continue", `{"threadId":0,"singleThread":true}`},
	{"next", `{"threadId":0,"singleThread":true,"granularity":"line"}`},
	{"stackTrace", `{"threadId":0,"startFrame":0,"levels":20}`},
	{"scopes", `{"frameId":0}`},
	{"variables", `{"variablesReference":2,"start":0,"count":1,"filter":"indexed"}`},
	{"evaluate", `{"expression":"1+1","frameId":0,"context":"repl"}`},
	{"disconnect", `{"restart":false,"terminateDebuggee":true}`},
	{"terminate", `{"restart":false}`},
	{"stepIn", `{"threadId":0}`},
	{"stepOut", `{"threadId":0}`},
	{"source", `{"sourceReference":1}`},
	{"restart", `{}`},
	{"attach", `{"program":"@P"}`},
	{"", `{}`},
	{"Launch", `{"program":"@P"}`},
	{"nö-süch 😀", `{"x":[1]}`},
}

var dapStates = []string{
	"",
	"i",
	"iL",
	"iBL",
	"iLn",
	"iLnnnc",
	"iLccc",
	"BLB",
	"iEc",
	"iEnnn",
	"iLd",
}

const dapProg = "#pragma version 8\nint 1\nbz a\ncallsub f\nint 5\nstore 1\na:\nbyte 0x01\nreturn\nf:\nint 2\nretsub\n"
const dapErrProg = "int 1\npop\npop\nint 2\n"

// dapTyped: requests by letter.
func dapTyped(l byte) (string, string) {
	switch l {
	case 'i':
		return "initialize", `{"adapterID":"a"}`
	case 'L':
		return "launch", `{"program":` + jqText(progFile("L", dapProg)) + `}`
	case 'E':
		return "launch", `{"program":` + jqText(progFile("E", dapErrProg)) + `}`
	case 'X':
		return "launch", `{"program":"/nonexistent/x.teal"}`
	case 'D':
		return "launch", `{"program":` + jqText(scratch()) + `}`
	case 'B':
		return "setBreakpoints", `{"source":{"path":"p"},"breakpoints":[{"line":3},{"line":8},{"line":-4},{"line":400}]}`
	case 'b':
		return "setBreakpoints", `{"source":{"path":"p"},"breakpoints":[]}`
	case 'n':
		return "next", `{"threadId":0}`
	case 'm':
		return "next", `{"threadId":1}`
	case 'N':
		return "next", ""
	case 'c':
		return "continue", `{"threadId":0}`
	case 'C':
		return "continue", ""
	case 'p':
		return "pause", `{"threadId":0}`
	case 't':
		return "threads", ""
	case 's':
		return "stackTrace", `{"threadId":0}`
	case 'S':
		return "stackTrace", ""
	case 'o':
		return "scopes", `{"frameId":0}`
	case 'O':
		return "scopes", ""
	case 'v':
		return "variables", `{"variablesReference":2}`
	case 'w':
		return "variables", `{"variablesReference":3,"start":255,"count":5}`
	case 'x':
		return "variables", `{"variablesReference":14,"start":1}`
	case 'V':
		return "variables", ""
	case 'd':
		return "disconnect", `{}`
	case 'u':
		return "no-such", `{}`
	case 'I':
		return "initialize", ""
	case 'f':
		return "configurationDone", ""
	case 'e':
		return "evaluate", `{"expression":"x"}`
	}
	panic(string(l))
}

const dapLetters = "iLEXDBbnmNcCptsSoOvwxVduIfe"

func (c *dapClient) typed(seq string) string {
	for i := 0; i < len(seq); i++ {
		cmd, args := dapTyped(seq[i])
		if _, _, _, bad := c.call(cmd, args); bad != "" {
			return fmt.Sprintf("request %d (%c): %s", i, seq[i], bad)
		}
	}
	return ""
}

// case: a string of letters
func checkD01Seq(c string, st *Stats) string {
	d := newDap(st)
	defer d.stop()
	st.State(c)
	if m := d.typed(c); m != "" {
		return m
	}
	return d.end()
}

// case: "state\ncommand\narguments"
func checkD01Args(c string, st *Stats) string {
	f := strings.SplitN(c, "\n", 3)
	d := newDap(st)
	defer d.stop()
	if m := d.typed(f[0]); m != "" {
		return m
	}
	st.State(c)
	args := strings.ReplaceAll(f[2], `"@P"`, jqText(progFile("L", dapProg)))
	_, _, _, bad := d.call(f[1], args)
	if bad != "" {
		return bad
	}
	// the adapter goes on
	if m := d.typed("tsovwnct"); m != "" {
		return "afterwards: " + m
	}
	return d.end()
}

// case: "state\nmessage": a whole message with its own seq 500
func checkD01Raw(c string, st *Stats) string {
	f := strings.SplitN(c, "\n", 2)
	d := newDap(st)
	defer d.stop()
	if m := d.typed(f[0]); m != "" {
		return m
	}
	st.State(c)
	between, _, bad := d.exchange(f[1])
	if bad != "" {
		return bad
	}
	var m struct {
		Seq     json.RawMessage `json:"seq"`
		Type    json.RawMessage `json:"type"`
		Command json.RawMessage `json:"command"`
	}
	json.Unmarshal([]byte(f[1]), &m)
	n := 0
	for _, x := range between {
		if x.Type == "response" {
			n++
			if string(x.RequestSeq) != string(m.Seq) {
				return fmt.Sprintf("answered request %s instead of %s", x.RequestSeq, m.Seq)
			}
			var cmd string
			if json.Unmarshal(m.Command, &cmd) == nil && cmd != x.Command {
				return fmt.Sprintf("the answer names command %q instead of %q", x.Command, cmd)
			}
		}
	}
	want := 0
	if string(m.Type) == `"request"` {
		want = 1
	}
	if n != want {
		return fmt.Sprintf("%s has %d answers, want %d", clipS(f[1]), n, want)
	}
	if m := d.typed("ts"); m != "" {
		return "afterwards: " + m
	}
	return d.end()
}

// case: "letters\nprogram": the program is launched, then these requests
func checkD01Program(c string, st *Stats) string {
	f := strings.SplitN(c, "\n", 2)
	r := refAnalyze(f[1])
	m := newModel(r)
	if ok, _ := modelRun(m, 3000); !ok {
		return ""
	}
	d := newDap(st)
	defer d.stop()
	st.State(c)
	if _, _, _, bad := d.call("launch", `{"program":`+jqText(progFile("H", f[1]))+`}`); bad != "" {
		return "launching: " + bad
	}
	if m := d.typed(f[0]); m != "" {
		return m
	}
	for id := -1; id < 4; id++ {
		for _, q := range []struct{ cmd, args string }{
			{"stackTrace", fmt.Sprintf(`{"threadId":%d}`, id)},
			{"scopes", fmt.Sprintf(`{"frameId":%d}`, id)},
		} {
			if _, _, _, bad := d.call(q.cmd, q.args); bad != "" {
				return bad
			}
		}
		for k := 0; k <= 5; k++ {
			for _, w := range []string{"", `,"start":1`, `,"start":1,"count":1`, `,"start":3,"count":9000`, `,"start":-2,"count":-1`} {
				if _, _, _, bad := d.call("variables", fmt.Sprintf(`{"variablesReference":%d%s}`, id*10+k, w)); bad != "" {
					return bad
				}
			}
		}
	}
	return d.end()
}

// case: "command letters": the built adapter
func checkD01Process(c string, st *Stats) string {
	f := strings.Fields(c)
	bin, args := os.Getenv("MC_TEALDBG"), []string(nil)
	if f[0] == "tealsp" {
		bin, args = os.Getenv("MC_TEALSP"), []string{"dbg"}
	}
	if bin == "" {
		return ""
	}
	var in strings.Builder
	var want []string
	for i := 0; i < len(f[1]); i++ {
		cmd, a := dapTyped(f[1][i])
		if a == "" {
			a = "null"
		}
		in.WriteString(frame(msgReq("dbg", i+1, cmd, a)))
		want = append(want, strconv.Itoa(i+1))
	}
	out, code, bad := runProcess(bin, args, in.String())
	if bad != "" {
		return bad
	}
	st.Step(len(f[1]))
	st.State(c)
	if code != 0 {
		return fmt.Sprintf("the adapter exits with %d", code)
	}
	ids, bad := answeredIDs("dbg", out)
	if bad != "" {
		return bad
	}
	if m := diffStr("answered requests", ids, want); m != "" {
		return m
	}
	fs, _ := parseFrames(out)
	last := 0
	for _, x := range fs {
		var m dapMsg
		json.Unmarshal(x, &m)
		n, err := strconv.Atoi(string(m.Seq))
		if err != nil || n <= last {
			return fmt.Sprintf("sequence number %s follows %d", m.Seq, last)
		}
		last = n
	}
	return ""
}

func init() {
	register(&Prop{ID: "D01", Spaces: func(tier string) []Space {
		var letters []string
		for _, r := range dapLetters {
			letters = append(letters, string(r))
		}
		var args []string
		for _, b := range dapBase {
			for _, s := range dapStates {
				for _, v := range append(jsonVariants(b.args), "") {
					args = append(args, s+"\n"+b.cmd+"\n"+v)
				}
			}
		}
		var raw []string
		for _, s := range []string{"", "iL", "iLn"} {
			for _, b := range dapBase {
				for _, seq := range []string{"500", "0", "-7", "2147483648", "9007199254740991"} {
					for _, typ := range []string{`"request"`, `"response"`, `"event"`, `""`, `"x"`, `"Request"`} {
						raw = append(raw, fmt.Sprintf("%s\n"+`{"seq":%s,"type":%s,"command":%s,"arguments":%s}`, s, seq, typ, jqText(b.cmd), strings.ReplaceAll(b.args, "@P", "/nonexistent")))
					}
				}
			}
			for _, cmd := range []string{"null", "5", "[]", "{}", "true", `""`} {
				raw = append(raw, fmt.Sprintf("%s\n"+`{"seq":500,"type":"request","command":%s,"arguments":{}}`, s, cmd))
			}
			raw = append(raw, s+"\n"+`{"seq":500,"type":"request"}`, s+"\n"+`{"seq":500,"type":"request","arguments":{}}`, s+"\n"+`{"type":"request","seq":500,"command":"threads","extra":{"a":[1]}}`,
				s+"\n"+`{"arguments":null,"command":"next","seq":500,"type":"request"}`, s+"\n"+` {"seq" : 500 , "type":"request", "command":"\u0074hreads"} `)
		}
		hazards := []string{
			"", "\n", "// c", "a:", "b a\na:", "a:\nb a\n", "b nowhere\n", "callsub a\na:\n", "retsub\n", "a:\ncallsub a\n", "int 1\nbz a\n", "a:\nint 1\nbz b\nb:\n", "err", "pop", "int", "nonsense\n", "\xff\xfe\n", "int 1\r\nint 2\r\n", "\"", "byte \"",
			"switch\n", "int 1\nswitch\n", "int 1\nswitch a a b\na:\nb:\n", "int 0\nmatch\n", "int 1\nint 1\nmatch a\na:\n", "proto 1 1\n", "callsub f\nf:\nproto 1 1\n", "int 1\ncallsub f\nf:\nproto 1 1\nframe_dig -1\nretsub\n", "frame_dig 0\n", "int 1\nframe_bury 0\n", "dig 5\n", "cover 9\n", "uncover 200\n", "dupn 255\n", "popn 4\n", "bury 0\n",
			"store 255\n", "load 255\n", "int 300\nint 1\nstores\n", "int 300\nloads\n", "gload 0 0\n", "txna ApplicationArgs 0\n", "itxn_begin\nitxn_submit\n", "pushints 1 2 3\n", "pushbytess 0x01 0x02\n", "intcblock 1 2\nintc 5\n", "bytecblock\nbytec_0\n", "#pragma version 99\nint 1\n", "#pragma version 1\n#pragma version 2\n", "a:\na:\nb a\n", "return", "int 1\nreturn\nint 2", "assert", "int 1\nassert\n", "ed25519verify\n", "ecdsa_verify Secp256r1\n", "int 1\nec_add BN254g1\n",
			"byte 0x" + strings.Repeat("00", 5000) + "\n", strings.Repeat("int 1\n", 400), strings.Repeat("a1:\n", 50) + "int 1", "byte base64 AA==\nlen\nb64 \n", "// é😀\nint 1\n", "é:\nb é\n",
		}
		// every instruction on a line of its own, on an empty and on a filled stack
		for _, o := range allOps() {
			hazards = append(hazards, defaultLine(o)+"\n", "int 1\nbyte 0x01\nint 1\nbyte 0x02\nint 1\n"+defaultLine(o)+"\nint 1\n")
		}
		var prog []string
		for _, h := range hazards {
			for _, l := range []string{"", "n", "nn", "c", "Bc", "cc", "cn", "nnnnnnn", "npmc"} {
				prog = append(prog, l+"\n"+h)
			}
		}
		sp := []Space{
			listSpace("arguments", "every command in every state with each node of its arguments replaced or removed", args, checkD01Args),
			listSpace("messages", "sequence numbers, message types and commands of every shape", raw, checkD01Raw),
			seqSpace("sequences", "every sequence of requests", letters, 1, pick(tier, 3, 4), "", checkD01Seq),
			listSpace("programs", "odd programs launched, run and inspected", prog, checkD01Program),
		}
		for _, p := range []string{"tealdbg", "tealsp"} {
			sp = append(sp, mapSpace(seqSpace("process "+p, "the built command on sequences of requests", letters, 1, pick(tier, 1, 2), "", checkD01Process), func(c string) string { return p + " iL" + c + "t" }))
		}
		return sp
	}})
}

func allOps() []string {
	var r []string
	for o := range opTab {
		r = append(r, o)
	}
	return sorted(r)
}
