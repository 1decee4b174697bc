package main

// Observation of the implementation through its exported API, in the vocabulary of the reference model.

import (
	"encoding/hex"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/dragmz/teal"
)

func leaves(v reflect.Value, out *[]string) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			if l, ok := v.Interface().(*teal.LabelExpr); ok {
				*out = append(*out, l.Name)
				return
			}
			leaves(v.Elem(), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if !f.IsExported() || f.Name == "Format" {
				continue
			}
			leaves(v.Field(i), out)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			*out = append(*out, "0x"+hex.EncodeToString(v.Bytes()))
			return
		}
		for i := 0; i < v.Len(); i++ {
			leaves(v.Index(i), out)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		*out = append(*out, strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		*out = append(*out, strconv.FormatUint(v.Uint(), 10))
	case reflect.String:
		*out = append(*out, v.String())
	}
}

func obsOp(op teal.Op) rOp {
	switch o := op.(type) {
	case *teal.LabelExpr:
		return rOp{kind: "label", name: o.Name}
	case *teal.PragmaExpr:
		return rOp{kind: "pragma", vals: []string{strconv.Itoa(int(o.Version))}}
	case *teal.EmptyExpr:
		return rOp{kind: "empty"}
	case *teal.CommentExpr:
		return rOp{kind: "empty"}
	}
	r := rOp{kind: "op"}
	s := op.String()
	if i := strings.IndexByte(s, ' '); i >= 0 {
		s = s[:i]
	}
	r.name = s
	leaves(reflect.ValueOf(op), &r.vals)
	if g, ok := op.(*teal.GtxnasExpr); ok {
		r.vals = []string{strconv.Itoa(int(g.Index)), strconv.Itoa(int(g.Field))}
	}
	if labelUser(r.name) {
		r.labels = r.vals
	}
	return r
}

func obsListing(l teal.Listing) []rOp {
	res := make([]rOp, len(l))
	for i, o := range l {
		res[i] = obsOp(o)
	}
	return res
}

func opEq(a, b rOp) bool {
	if a.kind != b.kind || a.name != b.name || len(a.vals) != len(b.vals) {
		return false
	}
	for i := range a.vals {
		if a.vals[i] != b.vals[i] {
			return false
		}
	}
	return true
}

func obsTok(t teal.Token) rTok {
	return rTok{val: t.String(), line: t.Line(), b: t.Begin(), e: t.End(), kind: string(t.Type())}
}

func obsToks(ts []teal.Token) []rTok {
	res := make([]rTok, len(ts))
	for i, t := range ts {
		res[i] = obsTok(t)
	}
	return res
}

func tokEq(a, b rTok) bool {
	return a.val == b.val && a.line == b.line && a.b == b.b && a.e == b.e && a.kind == b.kind
}

func toksEq(a, b []rTok) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !tokEq(a[i], b[i]) {
			return false
		}
	}
	return true
}

func (t rTok) String() string {
	return fmt.Sprintf("%s %d:%d-%d %q", t.kind, t.line, t.b, t.e, t.val)
}

func posToks(ts []rTok) []string {
	var res []string
	for _, t := range ts {
		res = append(res, fmt.Sprintf("%d:%d-%d %q", t.line, t.b, t.e, t.val))
	}
	return res
}

func sorted(s []string) []string {
	c := append([]string{}, s...)
	sort.Strings(c)
	return c
}

func strsEq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func obsDiag(d teal.Diagnostic) rDiag {
	return rDiag{d.Line(), d.Begin(), d.End(), int(d.Severity()), d.Rule()}
}

func diagsWhere(r *teal.ProcessResult, f func(rule string) bool) []rDiag {
	var res []rDiag
	for _, d := range r.Diagnostics {
		if f(d.Rule()) {
			res = append(res, obsDiag(d))
		}
	}
	return res
}

func ruleIn(rules ...string) func(string) bool {
	return func(s string) bool {
		for _, r := range rules {
			if r == s {
				return true
			}
		}
		return false
	}
}

func onlyRules(ds []rDiag, f func(string) bool) []rDiag {
	var res []rDiag
	for _, d := range ds {
		if f(d.rule) {
			res = append(res, d)
		}
	}
	return res
}

// diffStr compares two string lists and explains the first difference.
func diffStr(what string, got, want []string) string {
	if strsEq(got, want) {
		return ""
	}
	return fmt.Sprintf("%s differ:\n  got:  %q\n  want: %q", what, got, want)
}

func diffSet(what string, got, want []string) string {
	return diffStr(what, sorted(got), sorted(want))
}

// lineDiags renders diagnostics without exact columns for syntax errors (line only).
func diagStrings(ds []rDiag, lineOnly func(string) bool) []string {
	var res []string
	for _, d := range ds {
		if lineOnly != nil && lineOnly(d.rule) {
			res = append(res, fmt.Sprintf("%d sev%d %s", d.line, d.sev, d.rule))
		} else {
			res = append(res, d.String())
		}
	}
	return sorted(res)
}

func first(msgs ...string) string {
	for _, m := range msgs {
		if m != "" {
			return m
		}
	}
	return ""
}
