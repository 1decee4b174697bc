package main

// Reference model of the analyser. Deliberately plain: one pass per line, tables frozen in ops.txt/fields.txt.

import (
	"bytes"
	_ "embed"
	"encoding/base32"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"crypto/sha512"
)

//go:embed ops.txt
var opsTxt string

//go:embed fields.txt
var fieldsTxt string

type immSpec struct {
	kind     string
	array    bool
	optional bool
}

type opSpec struct {
	name     string
	sig, app uint64
	imm      []immSpec
}

type fieldSpec struct {
	name   string
	num    int
	ver    uint64
	typ    string // u, b, -
	array  bool
	itxVer uint64
}

var opTab = map[string]opSpec{}
var opNames []string
var fieldTab = map[string][]fieldSpec{} // group -> fields
var constInts = map[string]uint64{
	"unknown": 0, "pay": 1, "keyreg": 2, "acfg": 3, "axfer": 4, "afrz": 5, "appl": 6,
	"Payment": 1, "KeyRegistration": 2, "AssetConfig": 3, "AssetTransfer": 4, "AssetFreeze": 5, "ApplicationCall": 6,
	"NoOp": 0, "OptIn": 1, "CloseOut": 2, "ClearState": 3, "UpdateApplication": 4, "DeleteApplication": 5,
}

func init() {
	for _, l := range strings.Split(strings.TrimSpace(opsTxt), "\n") {
		f := strings.Fields(l)
		s := opSpec{name: f[0]}
		s.sig, _ = strconv.ParseUint(f[1], 10, 64)
		s.app, _ = strconv.ParseUint(f[2], 10, 64)
		for _, k := range f[3:] {
			im := immSpec{}
			if strings.HasSuffix(k, "?") {
				im.optional = true
				k = k[:len(k)-1]
			}
			if strings.HasSuffix(k, "*") {
				im.array = true
				k = k[:len(k)-1]
			}
			im.kind = k
			s.imm = append(s.imm, im)
		}
		opTab[s.name] = s
		opNames = append(opNames, s.name)
	}
	sort.Strings(opNames)
	for _, l := range strings.Split(strings.TrimSpace(fieldsTxt), "\n") {
		f := strings.Fields(l)
		s := fieldSpec{name: f[1], typ: f[4]}
		s.num, _ = strconv.Atoi(f[2])
		s.ver, _ = strconv.ParseUint(f[3], 10, 64)
		if f[0] == "txn" {
			s.array = f[5] == "1"
			s.itxVer, _ = strconv.ParseUint(f[6], 10, 64)
		}
		fieldTab[f[0]] = append(fieldTab[f[0]], s)
	}
}

func isFieldKind(k string) bool {
	switch k {
	case "txn", "txna", "itxn", "json", "ecdsa", "global", "holding", "asset", "app", "acct", "vrf", "b64", "block", "ec":
		return true
	}
	return false
}

func fieldGroup(k string) string {
	if k == "txna" || k == "itxn" {
		return "txn"
	}
	return k
}

// fieldUsable tells whether a field may be named in an argument of kind k, and from which version on.
func fieldUsable(k string, f fieldSpec) (uint64, bool) {
	switch k {
	case "txna":
		return f.ver, f.array
	case "itxn":
		return f.itxVer, f.itxVer > 0
	}
	return f.ver, true
}

func lookupField(k, name string) (fieldSpec, bool) {
	for _, f := range fieldTab[fieldGroup(k)] {
		if f.name == name {
			return f, true
		}
	}
	return fieldSpec{}, false
}

// ---- lexing ----

type rTok struct {
	val        string
	line, b, e int
	kind       string // Value, Comment, EOL
	broken     bool   // unterminated string
}

type rLine struct {
	text string // without line end
	eol  string
}

// splitSource cuts a text at LF, CRLF and CR.
func splitSource(src string) []rLine {
	var res []rLine
	cur := 0
	i := 0
	for i < len(src) {
		switch src[i] {
		case '\r':
			n := 1
			if i+1 < len(src) && src[i+1] == '\n' {
				n = 2
			}
			res = append(res, rLine{src[cur:i], src[i : i+n]})
			i += n
			cur = i
		case '\n':
			res = append(res, rLine{src[cur:i], "\n"})
			i++
			cur = i
		default:
			i++
		}
	}
	if cur < len(src) {
		res = append(res, rLine{src[cur:], ""})
	}
	return res
}

func lexLine(text string, line int) []rTok {
	var res []rTok
	i := 0
	for {
		for i < len(text) && (text[i] == ' ' || text[i] == '\t') {
			i++
		}
		if i >= len(text) {
			return res
		}
		if strings.HasPrefix(text[i:], "//") {
			return append(res, rTok{val: text[i+2:], line: line, b: i, e: len(text), kind: "Comment"})
		}
		if text[i] == '"' {
			j := i + 1
			closed := false
			for j < len(text) {
				if text[j] == '\\' && j+1 < len(text) {
					j += 2
					continue
				}
				if text[j] == '"' {
					closed = true
					break
				}
				j++
			}
			if !closed {
				return append(res, rTok{val: text[i:], line: line, b: i, e: len(text), kind: "Value", broken: true})
			}
			res = append(res, rTok{val: `"` + strings.ReplaceAll(text[i+1:j], `\"`, `"`) + `"`, line: line, b: i, e: j + 1, kind: "Value"})
			i = j + 1
			continue
		}
		j := i
		for j < len(text) && text[j] != ' ' && text[j] != '\t' {
			j++
		}
		res = append(res, rTok{val: text[i:j], line: line, b: i, e: j, kind: "Value"})
		i = j
	}
}

// ---- analysis ----

type rOp struct {
	kind   string // empty, label, pragma, op
	name   string
	vals   []string
	labels []string
}

func (o rOp) String() string {
	return fmt.Sprintf("%s %s %q", o.kind, o.name, o.vals)
}

type rDiag struct {
	line, b, e int
	sev        int
	rule       string
}

func (d rDiag) String() string {
	return fmt.Sprintf("%d:%d-%d sev%d %s", d.line, d.b, d.e, d.sev, d.rule)
}

type rSym struct {
	name       string
	line, b, e int
	docs, sig  string
}

type rRes struct {
	lines   []rLine
	tokens  []rTok   // all, including EOL
	rows    [][]rTok // per line, comment cut off unless first
	listing []rOp

	parse   []rDiag // SYNTAX, PARSE
	gate    []rDiag // LINT0007/8
	lint    []rDiag // LINT0001..6
	red     []string
	vers    []string // line:b-e>=v
	inForce []uint64
	modes   []string

	version uint64
	vtok    *rTok
	mode    string

	syms []rSym
	refs []rTok
	miss []rTok
	refc map[string]int

	ops, nums, strs, keys, mcrs []rTok
}

type badArg struct{ t rTok }

type rArgs struct {
	r    *rRes
	ts   []rTok
	i    int // next
	vers uint64
}

func (a *rArgs) more() bool { return a.i < len(a.ts) }
func (a *rArgs) need() rTok {
	if a.i >= len(a.ts) {
		panic(badArg{a.ts[len(a.ts)-1]})
	}
	a.i++
	return a.ts[a.i-1]
}

// decimal number in [lo,hi], with optional sign characters accepted by allowSign
func refSmall(s string, lo, hi int64, sign bool) (int64, bool) {
	d := s
	neg := false
	if sign && len(d) > 0 && (d[0] == '+' || d[0] == '-') {
		neg = d[0] == '-'
		d = d[1:]
	}
	if len(d) == 0 {
		return 0, false
	}
	v := new(big.Int)
	for _, c := range []byte(d) {
		if c < '0' || c > '9' {
			return 0, false
		}
		v.Mul(v, big.NewInt(10))
		v.Add(v, big.NewInt(int64(c-'0')))
	}
	if neg {
		v.Neg(v)
	}
	if !v.IsInt64() || v.Int64() < lo || v.Int64() > hi {
		return 0, false
	}
	return v.Int64(), true
}

// refUint parses an integer literal: decimal, 0x, 0o/0 octal, 0b, with single underscores between digits
// (as allowed for prefixed literals and decimal literals of base-0 parsing).
func refUint(s string) (uint64, bool) {
	base := int64(10)
	d := s
	low := strings.ToLower(s)
	prefixed := false
	switch {
	case strings.HasPrefix(low, "0x") && len(s) > 2:
		base, d, prefixed = 16, s[2:], true
	case strings.HasPrefix(low, "0b") && len(s) > 2:
		base, d, prefixed = 2, s[2:], true
	case strings.HasPrefix(low, "0o") && len(s) > 2:
		base, d, prefixed = 8, s[2:], true
	case len(s) > 1 && s[0] == '0':
		base, d, prefixed = 8, s[1:], true
	}
	if d == "" {
		return 0, false
	}
	v := new(big.Int)
	prevDigit := prefixed
	digits := 0
	for _, c := range []byte(d) {
		if c == '_' {
			if !prevDigit {
				return 0, false
			}
			prevDigit = false
			continue
		}
		x := int64(99)
		switch {
		case c >= '0' && c <= '9':
			x = int64(c - '0')
		case c >= 'a' && c <= 'f':
			x = int64(c-'a') + 10
		case c >= 'A' && c <= 'F':
			x = int64(c-'A') + 10
		}
		if x >= base {
			return 0, false
		}
		v.Mul(v, big.NewInt(base))
		v.Add(v, big.NewInt(x))
		prevDigit = true
		digits++
	}
	if !prevDigit || digits == 0 || !v.IsUint64() {
		return 0, false
	}
	return v.Uint64(), true
}

func refB32(s string) ([]byte, bool) {
	if b, err := base32.StdEncoding.WithPadding(base32.NoPadding).DecodeString(s); err == nil {
		return b, true
	}
	if b, err := base32.StdEncoding.DecodeString(s); err == nil {
		return b, true
	}
	return nil, false
}

func refString(val string) ([]byte, bool) {
	// val: quotes kept, \" already unescaped by the lexer
	s := val[1 : len(val)-1]
	var out []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c != '\\' {
			out = append(out, c)
			continue
		}
		i++
		if i >= len(s) {
			return nil, false
		}
		switch s[i] {
		case 'n':
			out = append(out, '\n')
		case 'r':
			out = append(out, '\r')
		case 't':
			out = append(out, '\t')
		case '\\':
			out = append(out, '\\')
		case '"':
			out = append(out, '"')
		case 'x':
			if i+2 >= len(s)+0 && i+2 > len(s)-1 {
				return nil, false
			}
			b, err := hex.DecodeString(s[i+1 : i+3])
			if err != nil {
				return nil, false
			}
			out = append(out, b...)
			i += 2
		default:
			return nil, false
		}
	}
	return out, true
}

func (a *rArgs) bytesArg() string {
	t := a.need()
	enc := func(b []byte) string { return "0x" + hex.EncodeToString(b) }
	v := t.val
	for _, p := range []string{"base32(", "b32(", "base64(", "b64("} {
		if strings.HasPrefix(v, p) {
			c := strings.IndexByte(v, ')')
			if c < 0 {
				panic(badArg{t})
			}
			var b []byte
			var ok bool
			if strings.Contains(p, "32") {
				b, ok = refB32(v[len(p):c])
			} else {
				var err error
				b, err = base64.StdEncoding.DecodeString(v[len(p):c])
				ok = err == nil
			}
			if !ok {
				panic(badArg{t})
			}
			a.r.strs = append(a.r.strs, t)
			return enc(b)
		}
	}
	if strings.HasPrefix(v, "0x") {
		b, err := hex.DecodeString(v[2:])
		if err != nil {
			panic(badArg{t})
		}
		a.r.strs = append(a.r.strs, t)
		return enc(b)
	}
	switch v {
	case "base32", "b32", "base64", "b64":
		a.r.keys = append(a.r.keys, t)
		t2 := a.need()
		var b []byte
		var ok bool
		if strings.Contains(v, "32") {
			b, ok = refB32(t2.val)
		} else {
			var err error
			b, err = base64.StdEncoding.DecodeString(t2.val)
			ok = err == nil
		}
		if !ok {
			panic(badArg{t2})
		}
		a.r.strs = append(a.r.strs, t2)
		return enc(b)
	}
	if !t.broken && len(v) > 1 && v[0] == '"' && v[len(v)-1] == '"' {
		b, ok := refString(v)
		if !ok {
			panic(badArg{t})
		}
		a.r.strs = append(a.r.strs, t)
		return enc(b)
	}
	panic(badArg{t})
}

func refAddress(s string) bool {
	b, err := base32.StdEncoding.WithPadding(base32.NoPadding).DecodeString(s)
	if err != nil || len(b) != 36 || len(s) != 58 {
		return false
	}
	h := sha512.Sum512_256(b[:32])
	return bytes.Equal(h[28:], b[32:])
}

func (a *rArgs) read(kind string) string {
	if kind == "bytes" {
		return a.bytesArg()
	}
	t := a.need()
	switch kind {
	case "u8":
		v, ok := refSmall(t.val, 0, 255, false)
		if !ok {
			panic(badArg{t})
		}
		a.r.nums = append(a.r.nums, t)
		return strconv.FormatInt(v, 10)
	case "i8":
		v, ok := refSmall(t.val, -128, 127, true)
		if !ok {
			panic(badArg{t})
		}
		a.r.nums = append(a.r.nums, t)
		return strconv.FormatInt(v, 10)
	case "u64", "const":
		if kind == "const" {
			if v, ok := constInts[t.val]; ok {
				a.r.nums = append(a.r.nums, t)
				return strconv.FormatUint(v, 10)
			}
		}
		v, ok := refUint(t.val)
		if !ok {
			panic(badArg{t})
		}
		a.r.nums = append(a.r.nums, t)
		return strconv.FormatUint(v, 10)
	case "label":
		a.r.refs = append(a.r.refs, t)
		return t.val
	case "sig":
		if t.broken || len(t.val) < 2 || t.val[0] != '"' || t.val[len(t.val)-1] != '"' {
			panic(badArg{t})
		}
		b, ok := refString(t.val)
		if !ok {
			panic(badArg{t})
		}
		a.r.strs = append(a.r.strs, t)
		return string(b)
	case "addr":
		if !refAddress(t.val) {
			panic(badArg{t})
		}
		a.r.strs = append(a.r.strs, t)
		return t.val
	}
	// field
	if f, ok := lookupField(kind, t.val); ok {
		min, usable := fieldUsable(kind, f)
		if !usable || min > a.vers {
			panic(badArg{t})
		}
		a.r.strs = append(a.r.strs, t)
		return strconv.Itoa(f.num)
	}
	v, ok := refSmall(t.val, 0, 255, false)
	if !ok {
		panic(badArg{t})
	}
	a.r.nums = append(a.r.nums, t)
	return strconv.FormatInt(v, 10)
}

func canonName(name string, nargs int) string {
	switch name {
	case "txn":
		if nargs == 2 {
			return "txna"
		}
	case "gtxn":
		if nargs == 3 {
			return "gtxna"
		}
	case "gtxns":
		if nargs == 2 {
			return "gtxnsa"
		}
	case "replace":
		if nargs == 1 {
			return "replace2"
		}
		return "replace3"
	case "extract":
		if nargs == 0 {
			return "extract3"
		}
	}
	return name
}

func labelUser(n string) bool {
	switch n {
	case "b", "bz", "bnz", "switch", "match", "callsub":
		return true
	}
	return false
}

func refAnalyze(src string) *rRes {
	r := &rRes{version: 1, mode: "app", refc: map[string]int{}}
	r.lines = splitSource(src)
	all := r.lines
	for li, l := range all {
		ts := lexLine(l.text, li)
		r.tokens = append(r.tokens, ts...)
		if l.eol != "" {
			r.tokens = append(r.tokens, rTok{val: l.eol, line: li, b: len(l.text), e: len(l.text) + len(l.eol), kind: "EOL"})
		} else if len(ts) == 0 {
			// a final line without any token is not a line
			r.lines = all[:li]
			break
		}
		for _, t := range ts {
			if t.broken {
				r.parse = append(r.parse, rDiag{li, t.b, t.e, 1, "SYNTAX"})
			}
		}
		row := ts
		for i := 1; i < len(row); i++ {
			if row[i].kind == "Comment" {
				row = row[:i]
				break
			}
		}
		r.rows = append(r.rows, row)
	}

	var comments []string
	curLabel := ""
	protos := map[string]string{}

	for li := range r.rows {
		row := r.rows[li]
		entry := rOp{kind: "empty"}
		func() {
			defer func() {
				if x := recover(); x != nil {
					ba, ok := x.(badArg)
					if !ok {
						panic(x)
					}
					r.parse = append(r.parse, rDiag{li, ba.t.b, ba.t.e, 1, "PARSE"})
				}
			}()
			if len(row) == 0 {
				return
			}
			t0 := row[0]
			if t0.kind == "Comment" {
				if strings.TrimSpace(t0.val) == "#pragma mode logicsig" {
					r.mode = "logicsig"
				} else {
					comments = append(comments, t0.val)
				}
				return
			}
			if strings.HasSuffix(t0.val, ":") {
				n := t0.val[:len(t0.val)-1]
				if n == "" {
					panic(badArg{t0})
				}
				r.syms = append(r.syms, rSym{name: n, line: li, b: t0.b, e: t0.e, docs: strings.Join(comments, "\n")})
				comments = nil
				curLabel = n
				entry = rOp{kind: "label", name: n}
				return
			}
			if t0.val == "#pragma" {
				r.mcrs = append(r.mcrs, t0)
				a := &rArgs{r: r, ts: row, i: 1}
				k := a.need()
				if k.val != "version" {
					panic(badArg{k})
				}
				r.mcrs = append(r.mcrs, k)
				vt := a.need()
				v, ok := refUint(vt.val)
				if !ok {
					panic(badArg{vt})
				}
				r.nums = append(r.nums, vt)
				r.vtok = &vt
				if v < 1 || v > 255 {
					panic(badArg{vt})
				}
				if a.more() {
					panic(badArg{a.need()})
				}
				r.version = v
				entry = rOp{kind: "pragma", vals: []string{strconv.FormatUint(v, 10)}}
				return
			}
			spec, ok := opTab[t0.val]
			if !ok {
				panic(badArg{t0})
			}
			r.ops = append(r.ops, t0)
			min := spec.app
			if r.mode == "logicsig" {
				min = spec.sig
			}
			if min == 0 {
				r.gate = append(r.gate, rDiag{li, t0.b, t0.e, 1, "LINT0007"})
			}
			if min > r.version {
				r.gate = append(r.gate, rDiag{li, t0.b, t0.e, 1, "LINT0008"})
				r.vers = append(r.vers, fmt.Sprintf("%d:%d-%d>=%d", li, row[0].b, row[len(row)-1].e, min))
			}
			a := &rArgs{r: r, ts: row, i: 1, vers: r.version}
			var vals []string
			opt := false
			for _, im := range spec.imm {
				if im.array {
					for a.more() {
						vals = append(vals, a.read(im.kind))
					}
					break
				}
				if im.optional && !opt {
					if !a.more() {
						break
					}
					opt = true
				}
				vals = append(vals, a.read(im.kind))
			}
			entry = rOp{kind: "op", name: canonName(t0.val, len(vals)), vals: vals}
			if labelUser(entry.name) {
				entry.labels = vals
				for _, v := range vals {
					r.refc[v]++
				}
			}
			if entry.name == "proto" && curLabel != "" {
				protos[curLabel] = fmt.Sprintf("in: %s, out: %s", vals[0], vals[1])
			}
			if a.more() {
				panic(badArg{a.need()})
			}
		}()
		r.listing = append(r.listing, entry)
		r.inForce = append(r.inForce, r.version)
		r.modes = append(r.modes, r.mode)
	}
	defs := map[string]bool{}
	for i := range r.syms {
		defs[r.syms[i].name] = true
		r.syms[i].sig = protos[r.syms[i].name]
	}
	for _, t := range r.refs {
		if !defs[t.val] {
			r.miss = append(r.miss, t)
		}
	}
	refLint(r)
	return r
}

// ---- lint ----

func (o rOp) instr() bool { return o.kind == "op" }

func refLint(r *rRes) {
	l := r.listing
	defs := map[string][]int{}
	uses := map[string][]int{}
	for i, o := range l {
		if o.kind == "label" {
			defs[o.name] = append(defs[o.name], i)
		}
		for _, n := range o.labels {
			uses[n] = append(uses[n], i)
		}
	}
	add := func(i, sev int, rule string) {
		row := r.rows[i]
		b, e := 0, 0
		if len(row) > 0 {
			b, e = row[0].b, row[len(row)-1].e
		}
		r.lint = append(r.lint, rDiag{i, b, e, sev, rule})
	}
	dead, begun := false, false // after an unconditional transfer; after an instruction or pragma
	for i, o := range l {
		switch {
		case o.kind == "label":
			if len(defs[o.name]) > 1 {
				add(i, 1, "LINT0001")
			}
			if len(uses[o.name]) == 0 {
				add(i, 2, "LINT0002")
				r.red = append(r.red, fmt.Sprintf("%d label", i))
			}
		}
		for _, n := range o.labels {
			if len(defs[n]) == 0 {
				add(i, 1, "LINT0005")
			}
		}
		if o.kind == "op" && o.name == "b" {
			for j := i + 1; j < len(l); j++ {
				if l[j].kind == "label" {
					if l[j].name == o.labels[0] {
						add(i, 2, "LINT0004")
						r.red = append(r.red, fmt.Sprintf("%d b", i))
					}
					break
				}
				if l[j].instr() {
					break
				}
			}
			for j := i - 1; j >= 0; j-- {
				if l[j].kind == "label" && l[j].name == o.labels[0] {
					esc := false
					for k := j; k <= i; k++ {
						if l[k].kind != "op" {
							continue
						}
						switch l[k].name {
						case "err", "return", "retsub":
							esc = true
						}
						for _, n := range l[k].labels {
							for _, d := range defs[n] {
								if d < j || d > i {
									esc = true
								}
							}
						}
					}
					if !esc {
						add(i, 1, "LINT0005")
					}
					break
				}
			}
		}
		// unreachable: the nearest of the unconditional transfers and referenced labels above is a transfer
		if o.instr() && dead {
			add(i, 2, "LINT0003")
		}
		if o.kind == "label" && len(uses[o.name]) > 0 {
			dead = false
		}
		if o.kind == "op" && (o.name == "b" || o.name == "return" || o.name == "err") {
			dead = true
		}
		if o.kind == "pragma" && begun {
			add(i, 1, "LINT0006")
		}
		if o.kind == "op" || o.kind == "pragma" {
			begun = true
		}
	}
}

func sortedDiags(ds ...[]rDiag) []string {
	var res []string
	for _, d := range ds {
		for _, x := range d {
			res = append(res, x.String())
		}
	}
	sort.Strings(res)
	return res
}
