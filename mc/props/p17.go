package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/mc/eng"
	"verif/mc/gram"
)

// The command line tool, built from the working tree by run.sh.
func cliPath() string {
	self, _ := os.Executable()
	return filepath.Join(filepath.Dir(self), "cli")
}

type cliResult struct {
	code        int
	out, errOut string
}

func runCLI(args []string) (cliResult, error) {
	cmd := exec.Command(cliPath(), args...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Start(); err != nil {
		eng.HarnessBug("cannot run the tool: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(60 * time.Second):
		_ = cmd.Process.Kill()
		<-done
		return cliResult{}, fmt.Errorf("the tool does not end")
	}
	r := cliResult{out: o.String(), errOut: e.String()}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		r.code = ee.ExitCode()
	}
	return r, nil
}

// cliArg is one flag as given, with its effect on the reference state.
type cliArg struct {
	args []string
	do   func(m *cliModel)
}

type cliModel struct {
	format, beautify, help, version, unknown, usage bool
	file                                            string
}

const (
	fileGood    = "good.sql"
	fileBad     = "bad.sql"
	fileWorse   = "worse.sql"
	fileMulti   = "multi.sql"
	fileEmpty   = "empty.sql"
	fileMissing = "missing.sql"
	fileDir     = "dir.sql"
)

var cliFiles = map[string]string{
	fileGood:  "SELECT a AS b FROM t -- c\n WHERE x = 'it''s'\r\n",
	fileBad:   "SELECT 1; SELECT (\n",
	fileWorse: "SELECT FROM FROM (",
	fileMulti: "SELECT 1;\nUSE db ; INSERT INTO t VALUES ('a\nb', 1);",
	fileEmpty: "",
}

func cliArgs() []cliArg {
	b := func(s string, f func(m *cliModel)) cliArg { return cliArg{[]string{s}, f} }
	file := func(n string) cliArg { return cliArg{[]string{"-f", "@" + n}, func(m *cliModel) { m.file = n }} }
	return []cliArg{
		b("-format", func(m *cliModel) { m.format = true }),
		b("--format=true", func(m *cliModel) { m.format = true }),
		b("-format=false", func(m *cliModel) { m.format = false }),
		b("-beautify", func(m *cliModel) { m.beautify = true }),
		b("--beautify", func(m *cliModel) { m.beautify = true }),
		b("-beautify=false", func(m *cliModel) { m.beautify = false }),
		b("-h", func(m *cliModel) { m.help = true }),
		b("-v", func(m *cliModel) { m.version = true }),
		file(fileGood), file(fileBad), file(fileWorse), file(fileMulti), file(fileEmpty), file(fileMissing), file(fileDir),
		{[]string{"--f=@" + fileGood}, func(m *cliModel) { m.file = fileGood }},
		b("-nosuch", func(m *cliModel) { m.unknown = true }),
	}
}

var cliLast = []string{"\x00none", "SELECT 1", "SELECT a FROM t; USE db", "SELECT (", "", " ", ";", "SELECT '\n', \"é\" /* c */", "\xff"}

// cliInputs hold what shells, format strings, encodings and editors give a
// meaning of its own.
var cliInputs = []string{
	"SELECT '%s %d %v %%'", "SELECT %s", "SELECT a %s (", "SELECT '%!'", "SELECT a % b, '%n'", "SELECT '$HOME ${PATH} ~ `x`'", "SELECT $HOME", "@good.sql", "~", "SELECT '<a href=\"x\">&amp;</a>'",
	"\ufeffSELECT 1", "\ufeff", "SELECT 1\x00", "\x00", "SELECT '\x00'", "SELECT 1\x1a", "SELECT '\xff\xfe'", "S\x00E\x00L\x00", "SELECT '\u2028\u00a0\u00e9'", "SELECT 1\r", "\r\nSELECT 1\r\n\r\n", "SELECT 1 \t\v\f\n",
	"-- only a comment", "-- c\nSELECT 1", "--", "-1", "/* c */", "/* c", "SELECT 1 -- c", "SELECT 1; -- c", "SELECT 1;;", ";;", "SELECT 1\n;\nSELECT 2\n", "SELECT '\\n\\t'", "SELECT \"a\"", "'SELECT 1'", "\"SELECT 1\"", "SELECT '''' , ''",
	"#!/bin/sh\nSELECT 1", "# c\nSELECT 1", "SELECT 1\\G", "\\q", "exit", "help", "version", "format", "SELECT 1 FORMAT JSON", "good.sql", "/dev/null", "SELECT 1 INTO OUTFILE 'x'",
}

var p17args = cliArgs()

// scratch holds the input files of this process.
var scratchDir string

func scratch() string {
	if scratchDir == "" {
		self, _ := os.Executable()
		d, err := os.MkdirTemp(filepath.Dir(self), "cli-scratch-")
		if err != nil {
			eng.HarnessBug("%v", err)
		}
		for n, s := range cliFiles {
			if err := os.WriteFile(filepath.Join(d, n), []byte(s), 0o644); err != nil {
				eng.HarnessBug("%v", err)
			}
		}
		_ = os.Mkdir(filepath.Join(d, fileDir), 0o755)
		scratchDir = d
	}
	return scratchDir
}

var helpText, versionText *string

// render is what the library says about the input.
func render(c *eng.Ctx, src string, m *cliModel) (string, error) {
	st, err := Parse(c, src)
	if err != nil {
		return "", err
	}
	if !m.format && !m.beautify {
		b, err := json.MarshalIndent(st, "", "  ")
		if err != nil {
			return "", err
		}
		return string(b) + "\n", nil
	}
	var o strings.Builder
	for _, s := range st {
		if m.beautify {
			f := p.NewFormatter().WithBeautify()
			f.WriteExpr(s)
			o.WriteString(f.String() + "\n")
		} else {
			o.WriteString(p.Format(s) + "\n")
		}
	}
	return o.String(), nil
}

// cliCheck: N are the flags (indexes), In[0] the last argument, In[1] (if any)
// the content of the file given by -f.
func cliCheck(c *eng.Ctx, k *eng.Case) error {
	dir := scratch()
	m := &cliModel{}
	var args []string
	for _, i := range k.N {
		if m.unknown {
			// nothing after an unknown flag is looked at
		} else {
			p17args[i].do(m)
		}
		for _, a := range p17args[i].args {
			args = append(args, strings.Replace(a, "@", dir+"/", 1))
		}
	}
	src := ""
	have := k.In[0] != "\x00none"
	if have {
		src = k.In[0]
	}
	if len(k.In) > 1 {
		f := filepath.Join(dir, "input.sql")
		if err := os.WriteFile(f, []byte(k.In[1]), 0o644); err != nil {
			eng.HarnessBug("%v", err)
		}
		args = append(args, "-f", f)
		m.file = "input.sql"
		src = k.In[1]
	}
	if have {
		args = append(args, k.In[0])
	}
	r, err := runCLI(args)
	c.Exec()
	if err != nil {
		return err
	}
	show := fmt.Sprintf("args %q: exit %d, stdout %q, stderr %q", args, r.code, cutStr(r.out), cutStr(r.errOut))
	if helpText == nil {
		h, err := runCLI([]string{"-h"})
		if err != nil {
			return err
		}
		v, err := runCLI([]string{"-v"})
		if err != nil {
			return err
		}
		if h.code != 0 || v.code != 0 || !strings.Contains(h.out, "Usage") || strings.TrimSpace(v.out) == "" || h.out == v.out {
			return fmt.Errorf("help or version request fails: %v / %v", h, v)
		}
		helpText, versionText = &h.out, &v.out
	}
	fails := func(code int, text string) error {
		if r.code != code || r.out != "" || r.errOut == "" || !strings.Contains(r.errOut, text) {
			return fmt.Errorf("should fail with exit %d, nothing on stdout and %q on stderr; %s", code, text, show)
		}
		c.Outcome("error " + text)
		return nil
	}
	switch {
	case m.unknown:
		if r.code == 0 || r.out != "" || r.errOut == "" {
			return fmt.Errorf("unknown flag accepted; %s", show)
		}
		return nil
	case m.version || m.help || m.file == "" && !have:
		ok := m.version && r.out == *versionText || (m.help || !m.version) && r.out == *helpText
		if r.code != 0 || !ok || r.errOut != "" {
			return fmt.Errorf("help or version expected; %s", show)
		}
		c.Outcome("help")
		return nil
	case m.file == fileMissing || m.file == fileDir:
		return fails(1, m.file)
	case m.file != "" && len(k.In) == 1:
		src = cliFiles[m.file]
	}
	want, perr := render(c, src, m)
	if perr != nil {
		c.Reject()
		return fails(1, firstLine(perr))
	}
	c.Accept()
	if r.code != 0 || r.out != want || r.errOut != "" {
		return fmt.Errorf("the library's text is %q; %s", cutStr(want), show)
	}
	c.Outcome(want)
	return nil
}

func cutStr(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func init() {
	eng.Register(&eng.Prop{
		ID: "P17",
		Notes: []string{
			"an input given as an argument does not begin with '-', which the tool takes for a flag, and holds no NUL byte",
			"the tool is built from the working tree and run in a scratch folder with its own input files",
		},
		Space: func(c *eng.Ctx) {
			defer func() {
				if scratchDir != "" {
					_ = os.RemoveAll(scratchDir)
				}
			}()
			i := 0
			do := func(n []int, in ...string) bool {
				i++
				if !c.Mine(i) {
					return true
				}
				c.Edges(int64(len(n)))
				return c.Do(&eng.Case{Kind: "cli", N: n, In: in})
			}
			depth := 3
			if c.Thorough {
				depth = 4
			}
			if c.Begin("cli/flags", fmt.Sprintf("every sequence of up to %d of %d flags, every last argument", depth, len(p17args))) {
				var rec func(n []int) bool
				rec = func(n []int) bool {
					for j, l := range cliLast {
						if len(n) == depth && j > 3 {
							break
						}
						if !do(append([]int{}, n...), l) {
							return false
						}
					}
					if len(n) == depth {
						return true
					}
					for a := range p17args {
						if !rec(append(n, a)) {
							return false
						}
					}
					return true
				}
				rec(nil)
			}
			modes := [][]int{{}, {0}, {3}, {0, 3}}
			if c.Begin("cli/statements", "every derivation(1,0,0) and (0,1,0), cut at every token, as argument and file, in every mode") {
				for _, s := range append(scriptParts(gram.Budget{Shape: 1}), scriptParts(gram.Budget{Lex: 1})...) {
					for mi, m := range modes {
						if !do(m, s) || !do(m, "\x00none", s+"\r\n;\n"+s) || !do(m, "SELECT 2", "\n"+s) {
							return
						}
						if mi > 0 {
							continue
						}
						t, _ := texts(s)
						for j := 1; j < len(t); j++ {
							cut := joinToks(t[:j])
							if !do(modes[j%4], cut) || !do(modes[(j+1)%4], "\x00none", cut) || !do(modes[(j+2)%4], "\x00none", s+";\n"+cut+"\n") {
								return
							}
						}
					}
				}
			}
			if c.Begin("cli/inputs", "unusual inputs and contents, in every mode") {
				for _, s := range cliInputs {
					for _, m := range modes {
						if s[0] != '-' && !strings.Contains(s, "\x00") && !do(m, s) {
							return
						}
						if !do(m, "\x00none", s) || !do(m, "SELECT 2", s) {
							return
						}
					}
				}
			}
			if c.Begin("cli/sizes", "every statement kind far from the start of a file, up to 20000 statements, tokens of up to 131073 bytes (arguments: 65537), in every mode") {
				for _, s := range scriptParts(gram.Budget{}) {
					for _, n := range []int{1025, 4097, 32769, 65537, 1 << 20} {
						for pi, pad := range scalePads {
							if !do(modes[pi%4], "\x00none", pad.fill(n)+s+";"+s) {
								return
							}
						}
					}
				}
				for _, m := range modes {
					for _, n := range []int{2, 10, 100, 1000, 20000} {
						if !do(m, "\x00none", strings.Repeat("USE db;\n", n)) || n < 10000 && !do(m, strings.Repeat("USE db;", n)) {
							return
						}
					}
					for _, s := range longTokens() {
						if !do(m, "\x00none", s) || len(s) < 66000 && !do(m, s) {
							return
						}
					}
				}
			}
			if c.Begin("cli/corpus", "every committed seed file, in every mode") {
				for _, f := range Corpus() {
					for _, m := range modes {
						if !do(m, "\x00none", f.sql) {
							return
						}
					}
				}
			}
		},
		Check: cliCheck,
	})
}
