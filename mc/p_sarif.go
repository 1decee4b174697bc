package main

// R01: the command-line reporter, run as a process on scratch directories.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/dragmz/teal"
)

type sarifDoc struct {
	Version string `json:"version"`
	Runs    []struct {
		Tool struct {
			Driver struct {
				Rules []struct {
					Id               string `json:"id"`
					ShortDescription struct {
						Text string `json:"text"`
					} `json:"shortDescription"`
				} `json:"rules"`
			} `json:"driver"`
		} `json:"tool"`
		Artifacts []struct {
			Location struct {
				Uri string `json:"uri"`
			} `json:"location"`
		} `json:"artifacts"`
		Results []struct {
			Level   string `json:"level"`
			RuleId  string `json:"ruleId"`
			Message struct {
				Text string `json:"text"`
			} `json:"message"`
			RuleIndex *int `json:"ruleIndex"`
			Locations []struct {
				PhysicalLocation struct {
					ArtifactLocation struct {
						Uri   string `json:"uri"`
						Index *int   `json:"index"`
					} `json:"artifactLocation"`
					Region struct {
						StartLine   int `json:"startLine"`
						StartColumn int `json:"startColumn"`
					} `json:"region"`
				} `json:"physicalLocation"`
			} `json:"locations"`
		} `json:"results"`
	} `json:"runs"`
}

// runIn runs the reporter in a directory.
func runIn(dir, path string) (stdout []byte, code int, bad string) {
	cmd := exec.Command(os.Getenv("MC_TEALSARIF"), "-path", path)
	cmd.Dir = dir
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !t.Stop() {
		return nil, -1, "the reporter did not end"
	}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		return ob.Bytes(), ee.ExitCode(), ""
	}
	return ob.Bytes(), 0, ""
}

func sarifLevel(s teal.DiagnosticSeverity) string {
	switch s {
	case teal.DiagErr:
		return "error"
	case teal.DiagWarn:
		return "warning"
	}
	return "note"
}

func viaJSON(s string) string {
	b, _ := json.Marshal(s)
	var r string
	json.Unmarshal(b, &r)
	return r
}

// checkReport: the report covers exactly these files.
func checkReport(out []byte, files map[string]string, st *Stats) string {
	var d sarifDoc
	if err := json.Unmarshal(out, &d); err != nil {
		return fmt.Sprintf("the report is not JSON: %v: %q", err, clipS(string(out)))
	}
	if d.Version != "2.1.0" || len(d.Runs) != 1 {
		return fmt.Sprintf("report of version %q with %d runs", d.Version, len(d.Runs))
	}
	r := d.Runs[0]
	rules := map[string]bool{}
	for _, x := range r.Tool.Driver.Rules {
		if rules[x.Id] {
			return fmt.Sprintf("rule %s is described twice", x.Id)
		}
		if x.ShortDescription.Text == "" {
			return fmt.Sprintf("rule %s has no description", x.Id)
		}
		rules[x.Id] = true
	}
	var arts, want []string
	got := map[string][]string{}
	paths := make([]string, len(r.Artifacts))
	for i, a := range r.Artifacts {
		u, err := url.Parse(a.Location.Uri)
		if err != nil || u.Scheme != "file" || u.RawQuery != "" || u.Fragment != "" {
			return fmt.Sprintf("artifact %q is not a file", a.Location.Uri)
		}
		paths[i] = u.Path
		arts = append(arts, u.Path)
	}
	for p := range files {
		want = append(want, p)
	}
	if m := diffStr("artifacts", sorted(arts), sorted(want)); m != "" {
		return m
	}
	for _, x := range r.Results {
		if !rules[x.RuleId] {
			return fmt.Sprintf("rule %q is not described", x.RuleId)
		}
		if x.RuleIndex != nil && (*x.RuleIndex < 0 || *x.RuleIndex >= len(r.Tool.Driver.Rules) || r.Tool.Driver.Rules[*x.RuleIndex].Id != x.RuleId) {
			return fmt.Sprintf("rule index %d is not that of %s", *x.RuleIndex, x.RuleId)
		}
		if len(x.Locations) != 1 {
			return fmt.Sprintf("a result has %d locations", len(x.Locations))
		}
		l := x.Locations[0].PhysicalLocation
		i := 0
		if l.ArtifactLocation.Index != nil {
			i = *l.ArtifactLocation.Index
		}
		if i < 0 || i >= len(paths) || r.Artifacts[i].Location.Uri != l.ArtifactLocation.Uri {
			return fmt.Sprintf("a result in %s refers to artifact %d of %q", l.ArtifactLocation.Uri, i, arts)
		}
		got[paths[i]] = append(got[paths[i]], fmt.Sprintf("%d:%d %s %s %s", l.Region.StartLine, l.Region.StartColumn, x.RuleId, x.Level, x.Message.Text))
	}
	for p, src := range files {
		var w []string
		for _, d := range teal.Process(src).Diagnostics {
			w = append(w, fmt.Sprintf("%d:%d %s %s %s", d.Line()+1, d.Begin()+1, d.Rule(), sarifLevel(d.Severity()), viaJSON(d.String())))
		}
		st.Step(1)
		st.State(strings.Join(w, "|"))
		if m := diffStr("results of "+filepath.Base(p)+" ("+clipS(src)+")", sorted(got[p]), sorted(w)); m != "" {
			return m
		}
	}
	return ""
}

// caseDir makes an empty directory for one case.
func caseDir() string {
	d, err := os.MkdirTemp(scratch(), "r-")
	if err != nil {
		panic(err)
	}
	if d, err = filepath.EvalSymlinks(d); err != nil {
		panic(err)
	}
	return d
}

func put(dir, rel, src string) string {
	p := filepath.Join(dir, filepath.FromSlash(rel))
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, []byte(src), 0o644); err != nil {
		panic(err)
	}
	return p
}

// case: sources separated by NUL; "dir" all below one directory, "file" each on its own
func checkR01Sources(c string, st *Stats) string {
	if os.Getenv("MC_TEALSARIF") == "" {
		return ""
	}
	f := strings.Split(c, "\x00")
	dir := caseDir()
	defer os.RemoveAll(dir)
	if f[0] == "file" {
		for i, src := range f[1:] {
			p := put(dir, []string{"x.teal", "x.txt", "noext"}[i%3], src)
			out, code, bad := runIn(dir, p)
			if bad != "" {
				return bad
			}
			if code != 0 {
				return fmt.Sprintf("exit code %d", code)
			}
			if m := checkReport(out, map[string]string{p: src}, st); m != "" {
				return m
			}
		}
		return ""
	}
	files := map[string]string{}
	for i, src := range f[1:] {
		rel := []string{"%d.teal", "d/%d.teal", "d/e/%d.teal", "z/%d.teal"}[i%4]
		files[put(dir, fmt.Sprintf(rel, i), src)] = src
	}
	out, code, bad := runIn(dir, dir)
	if bad != "" {
		return bad
	}
	if code != 0 {
		return fmt.Sprintf("exit code %d", code)
	}
	return checkReport(out, files, st)
}

var sarifEntries = []struct{ rel, src string }{
	{"a.teal", "nonsense\nint 1\n"},
	{"b.teal", ""},
	{"d/c.teal", "int x\nb nowhere\n"},
	{"d/e/f.teal", "nonsense\nint 1\n"},
	{"notes.txt", "not teal\n"},
	{"sp ace.teal", "int\n"},
	{"p%41.teal", "int 1\npop\n\n"},
	{"h#q?.teal", "byte \"\n"},
	{"é.teal", "// é\né\n"},
	{"g.teal/h.teal", "dup dup\n"},
	{"z.teal.bak", "nonsense\n"},
}

// case: "mask how extra": which entries exist, how the path is written, what else is there
func checkR01Layout(c string, st *Stats) string {
	if os.Getenv("MC_TEALSARIF") == "" {
		return ""
	}
	var mask int
	var how, extra string
	fmt.Sscan(c, &mask, &how, &extra)
	root := caseDir()
	defer os.RemoveAll(root)
	dir := filepath.Join(root, "top")
	os.MkdirAll(filepath.Join(dir, "empty"), 0o755)
	files := map[string]string{}
	for i, e := range sarifEntries {
		if mask&(1<<i) != 0 {
			p := put(dir, e.rel, e.src)
			if filepath.Ext(p) == ".teal" {
				files[p] = e.src
			}
		}
	}
	fail := false
	switch extra {
	case "dangling":
		os.Symlink("nowhere", filepath.Join(dir, "m.teal"))
		fail = true
	case "dangling-last":
		os.MkdirAll(filepath.Join(dir, "zz"), 0o755)
		os.Symlink("nowhere", filepath.Join(dir, "zz", "m.teal"))
		fail = true
	case "dirlink":
		os.Symlink("empty", filepath.Join(dir, "m.teal"))
		fail = true
	case "loop":
		os.Symlink("m.teal", filepath.Join(dir, "m.teal"))
		fail = true
	case "link":
		t := put(root, "outside.teal", "int 1\nfoo\n")
		os.Symlink(t, filepath.Join(dir, "m.teal"))
		files[filepath.Join(dir, "m.teal")] = "int 1\nfoo\n"
	case "otherlink":
		os.Symlink("nowhere", filepath.Join(dir, "m.txt"))
	}
	cwd, path := root, dir
	switch how {
	case "rel":
		path = "top"
	case "dot":
		cwd, path = dir, "."
	case "slash":
		path = dir + "/"
	case "dotdot":
		cwd, path = filepath.Join(dir, "empty"), ".."
	case "odd":
		path = "./top/../top//"
	case "missing":
		path, fail = filepath.Join(root, "missing"), true
	case "missing-file":
		path, fail = filepath.Join(dir, "missing.teal"), true
	case "under-file":
		put(dir, "plain.txt", "")
		path, fail = filepath.Join(dir, "plain.txt", "x.teal"), true
	case "none":
		path, fail = "", true
	}
	out, code, bad := runIn(cwd, path)
	if bad != "" {
		return bad
	}
	st.State(c)
	if fail {
		if code == 0 {
			return fmt.Sprintf("an input cannot be read, but the reporter exits with 0 and writes %q", clipS(string(out)))
		}
		var d sarifDoc
		if json.Unmarshal(out, &d) == nil && len(d.Runs) > 0 {
			return "an input cannot be read, but a report is written"
		}
		return ""
	}
	if code != 0 {
		return fmt.Sprintf("exit code %d", code)
	}
	return checkReport(out, files, st)
}

// case: "rel how": one file of an unusual name, alone or below others, in a directory or given directly
func checkR01Name(c string, st *Stats) string {
	if os.Getenv("MC_TEALSARIF") == "" {
		return ""
	}
	f := strings.SplitN(c, " ", 2)
	dir := caseDir()
	defer os.RemoveAll(dir)
	files := map[string]string{}
	add := func(rel, src string) string {
		p := put(dir, rel, src)
		if filepath.Ext(p) == ".teal" {
			files[p] = src
		}
		return p
	}
	p := add(f[1], "nonsense\nint 1\n")
	path := dir
	switch f[0] {
	case "with":
		add("a.teal", "int x\n")
		add("zz/zz.teal", "b q\n")
	case "direct":
		path = p
		files = map[string]string{p: "nonsense\nint 1\n"}
	}
	out, code, bad := runIn(dir, path)
	if bad != "" {
		return bad
	}
	if code != 0 {
		return fmt.Sprintf("exit code %d", code)
	}
	st.State(c)
	return checkReport(out, files, st)
}

func init() {
	register(&Prop{ID: "R01", Spaces: func(tier string) []Space {
		lines := []string{"int 1", "nonsense", "int x", "b a", "a:", "byte \"", "#pragma version 99", "txn Sender", "é  é", "int 1 2", "  return", "int 1;pop;int", "// é\tx"}
		n := pick(tier, 3, 4)
		count := seqCount(len(lines), 0, n)
		srcAt := func(i uint64) string {
			var o []string
			for _, k := range seqAt(len(lines), 0, i) {
				o = append(o, lines[k])
			}
			return strings.Join(o, "\n")
		}
		chunk := func(kind string, size uint64) Space {
			return Space{Name: kind + " sources", Desc: fmt.Sprintf("every program of up to %d lines, %d files per run", n, size), N: (count + size - 1) / size, At: func(i uint64) string {
				o := []string{kind}
				for k := i * size; k < (i+1)*size && k < count; k++ {
					o = append(o, srcAt(k))
				}
				return strings.Join(o, "\x00")
			}, Check: checkR01Sources}
		}
		var fixed []string
		for _, s := range append(lintSources(), "\xff\nint \xfe\n", "int 1\r\nfoo\r\n", "\tfoo", "é😀 x\n  é😀foo", strings.Repeat("foo\n", 300), strings.Repeat("\n", 1000)+"foo", strings.Repeat(" ", 300)+"foo", strings.Repeat("\n", 65536)+"foo\nb zz", strings.Repeat("\t", 65537)+"foo", strings.Repeat("foo\n", 5000), strings.Repeat("// ccc\n", 1<<18)+"foo\n", strings.Repeat("// "+strings.Repeat("c", 65536)+"\n", 80)+"foo\n", "int 1 "+strings.Repeat("x", 70000), "int 1 <&>\u2028\"\\\n", "byte \"\x00\x01\n") {
			fixed = append(fixed, "file\x00"+s)
		}
		layouts := prodSpace("layouts", "every set of files, in directories, with special characters in their names", []int{1 << len(sarifEntries)}, func(ix []int) string {
			return fmt.Sprintf("%d abs -", ix[0])
		}, checkR01Layout)
		hows := []string{"abs", "rel", "dot", "slash", "dotdot", "odd", "missing", "missing-file", "under-file", "none"}
		extras := []string{"-", "dangling", "dangling-last", "dirlink", "loop", "link", "otherlink"}
		paths := prodSpace("paths", "ways to write the path and inputs that cannot be read", []int{len(hows), len(extras), pick(tier, 16, 256)}, func(ix []int) string {
			m := ix[2]
			if tier == "quick" {
				m = ix[2]&7 | (ix[2]>>3)*0x3f0
			}
			return fmt.Sprintf("%d %s %s", m, hows[ix[0]], extras[ix[1]])
		}, checkR01Layout)
		fl := chunk("file", 1)
		if tier == "quick" {
			fl = chunk("file", 1)
			fl.N = seqCount(len(lines), 0, 2)
		}
		var many []string
		for k := 0; k <= pick(tier, 70, 300); k++ {
			// k files of which every third has no findings
			c := "dir"
			for i := 0; i < k; i++ {
				c += "\x00" + []string{"foo\n", "int 1\n", "\nb q\n"}[i%3]
			}
			many = append(many, c)
		}
		odd := []string{".teal", ".a.teal", ".h/x.teal", ".h/.x.teal", "d/.h/x.teal", "..teal", "...teal", "a..teal", "a.teal.teal", "a.b.teal", "_x.teal", "~x.teal", "x~.teal", "#x.teal", "-x.teal", "-path/x.teal", "node_modules/x.teal", "vendor/x.teal", ".git/x.teal", "testdata/x.teal", "tmp/x.teal", "x y/z .teal", " x.teal", "x .teal", "x+y.teal", "x&y=z.teal", "a:b.teal", "a%2Fb.teal", "%.teal", "%zz.teal", "a\\b.teal", "a*b.teal", "[a].teal", "{a}.teal", "a|b.teal", "a\"b.teal", "a'b.teal", "<a>.teal", "a\tb.teal", "a\nb.teal", "日本.teal", "😀/é.teal", "e\u0301.teal", "approval.teal", "clear.TEAL", "x.Teal", "x.teal ", "x.teal1", "xteal", "teal", "x.teal/y", "x.teal/y.teal/z.teal",
			strings.Repeat("n", 250) + ".teal", strings.Repeat("d/", 60) + "x.teal", strings.Repeat("dir.teal/", 20) + "x.teal", strings.Repeat(strings.Repeat("p", 100)+"/", 20) + "x.teal"}
		ways := []string{"alone", "with", "direct"}
		names := prodSpace("names", "files and directories of unusual names, alone, with others and given directly", []int{len(odd), len(ways)}, func(ix []int) string {
			return ways[ix[1]] + " " + odd[ix[0]]
		}, checkR01Name)
		return []Space{names, listSpace("many", "directories of every number of files", many, checkR01Sources), listSpace("fixed", "programs with every rule's diagnostics and unusual characters", fixed, checkR01Sources), paths, fl, chunk("dir", 40), layouts}
	}})
}

// lintSources: a program for each diagnostic rule, and combinations.
func lintSources() []string {
	return []string{
		"", "a:\n", "b a\n", "int 1\na:\na:\n", "b a\na:\n", "int 1\nreturn\nint 2\n", "a:\nb a\n", "#pragma version 2\nint 1\ncallsub a\na:\n", "#pragma version 8\n\n#pragma version 9\n", "int 1\nbz a\nint 2\n",
		"retsub\n", "pushint 1\n", "txn NumAccounts 1\n", "byte base64 %%\n", "addr x\n", "intc 0\n", "#pragma x\n", "#pragma version\n", "err\nerr\nerr\n", "int 99999999999999999999\n", "unused:\nint 1\nreturn\n", "callsub f\nint 1\nf:\nint 1\n",
		"#pragma version 8\nint 1\nswitch q q\n", "#pragma version 8\nint 1\nswitch q q r q\nmatch q q\n", "bogus\nbogus\nb q\nb q\n", "byte \"a\nbyte \"a\n",
	}
}
