package props

import (
	"encoding/json"
	"fmt"
	"iter"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/mc/astx"
	"verif/mc/eng"
	"verif/mc/gram"
)

// An op looks at parsed statements without changing them and says what it saw.
var isoOps = []struct {
	name string
	run  func(st []p.Expr) string
}{
	{"format", func(st []p.Expr) string {
		var b strings.Builder
		for _, s := range st {
			b.WriteString(p.Format(s))
			b.WriteByte('\n')
		}
		return b.String()
	}},
	{"beautify", func(st []p.Expr) string {
		var b strings.Builder
		for _, s := range st {
			b.WriteString(beautify(s, "\t"))
			b.WriteByte('\n')
		}
		return b.String()
	}},
	{"walk", func(st []p.Expr) string {
		var b strings.Builder
		for _, s := range st {
			p.Walk(s, func(e p.Expr) bool {
				b.WriteString(astx.TypeName(e))
				b.WriteByte(' ')
				b.WriteString(strconv.Itoa(int(e.Pos())))
				b.WriteByte('-')
				b.WriteString(strconv.Itoa(int(e.End())))
				b.WriteByte(' ')
				return true
			})
		}
		return b.String()
	}},
	{"visit", func(st []p.Expr) string {
		n := 0
		v := &p.DefaultASTVisitor{Visit: func(p.Expr) error { n++; return nil }}
		for _, s := range st {
			s.Accept(v)
		}
		return strconv.Itoa(n)
	}},
	{"json", func(st []p.Expr) string {
		b, err := json.Marshal(st)
		return string(b) + fmt.Sprint(err)
	}},
	{"string", func(st []p.Expr) string {
		var b strings.Builder
		for _, s := range st {
			for _, n := range astx.Nodes(s) {
				if x, ok := n.Expr.(fmt.Stringer); ok {
					b.WriteString(x.String())
					b.WriteByte(' ')
				}
			}
		}
		return b.String()
	}},
}

// isoRun parses and formats, and says all there is to be seen.
func isoRun(src string) (out string) {
	defer func() {
		if r := recover(); r != nil {
			if eng.IsBudget(r) {
				panic(r)
			}
			out = fmt.Sprintf("panic: %v", r)
		}
	}()
	st, err := p.NewParser(src).ParseStmts()
	var b strings.Builder
	if err != nil {
		b.WriteString(err.Error())
		b.WriteByte('\n')
	}
	for _, s := range st {
		b.WriteString(astx.DumpPos(s))
		b.WriteByte('\n')
		b.WriteString(p.Format(s))
		b.WriteByte('\n')
		b.WriteString(beautify(s, "  "))
		b.WriteByte('\n')
	}
	return b.String()
}

// IsoFresh is what the hidden -fresh mode prints: the result in a new process.
func IsoFresh(src string) string { return isoRun(src) }

var isoFirst = map[string]string{}

// isoRef is the result of src in a process that never did anything else.
func isoRef(src string) string {
	if r, ok := isoFirst[src]; ok {
		return r
	}
	self, err := os.Executable()
	if err != nil {
		eng.HarnessBug("%v", err)
	}
	cmd := exec.Command(self, "-fresh")
	cmd.Stdin = strings.NewReader(src)
	b, err := cmd.Output()
	if err != nil {
		eng.HarnessBug("fresh process: %v", err)
	}
	isoFirst[src] = string(b)
	return string(b)
}

func sameRun(what, want, got string) error {
	if want == got {
		return nil
	}
	return fmt.Errorf("%s%s", what, firstDiff(want, got))
}

// pureCheck: no operation changes the AST, and each sees the same whatever ran
// before it; a later parse of the text knows nothing of the first AST.
func pureCheck(c *eng.Ctx, k *eng.Case) error {
	src := srcOf(k)
	st, err := parseNote(c, src)
	if err != nil {
		return nil
	}
	dump := func(st []p.Expr) string {
		var b strings.Builder
		for _, s := range st {
			b.WriteString(astx.DumpPos(s))
			b.WriteByte('\n')
		}
		return b.String()
	}
	before := dump(st)
	c.Outcome(before)
	var first [8]string
	for round := 0; round < 2; round++ {
		for i := range isoOps {
			if round == 1 {
				i = len(isoOps) - 1 - i
			}
			o := isoOps[i].run(st)
			c.Exec()
			if d := dump(st); d != before {
				return fmt.Errorf("%s changed the AST%s", isoOps[i].name, firstDiff(before, d))
			}
			if round == 0 {
				first[i] = o
			} else if o != first[i] {
				return fmt.Errorf("%s differs on repetition%s", isoOps[i].name, firstDiff(first[i], o))
			}
		}
	}
	// another parse shares nothing with this one
	st2, err := Parse(c, src)
	if err != nil {
		return fmt.Errorf("rejected the second time: %s", firstLine(err))
	}
	if d := dump(st2); d != before {
		return fmt.Errorf("the second parse differs%s", firstDiff(before, d))
	}
	for _, s := range st {
		scramble(reflect.ValueOf(s), 0)
	}
	if d := dump(st2); d != before {
		return fmt.Errorf("two parses share nodes%s", firstDiff(before, d))
	}
	for i := range isoOps {
		if i < 2 {
			if o := isoOps[i].run(st2); o != first[i] {
				return fmt.Errorf("%s of a second parse differs%s", isoOps[i].name, firstDiff(first[i], o))
			}
		}
	}
	st3, err := Parse(c, src)
	if err != nil {
		return fmt.Errorf("rejected after an AST was edited: %s", firstLine(err))
	}
	if d := dump(st3); d != before {
		return fmt.Errorf("editing an AST changed a later parse%s", firstDiff(before, d))
	}
	return nil
}

// scramble overwrites every string, number and flag reachable from v.
func scramble(v reflect.Value, depth int) {
	if depth > 10000 {
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			scramble(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scramble(v.Field(i), depth+1)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i), depth+1)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("~")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int:
		if v.CanSet() {
			v.SetInt(-7)
		}
	}
}

// opSeqCheck: every sequence of operations on one AST, N = the operations.
func opSeqCheck(c *eng.Ctx, k *eng.Case) error {
	src := k.In[0]
	st, err := parseNote(c, src)
	if err != nil {
		return nil
	}
	for _, i := range k.N {
		got := isoOps[i].run(st)
		c.Exec()
		ref, rerr := Parse(c, src)
		if rerr != nil {
			return fmt.Errorf("rejected later: %s", firstLine(rerr))
		}
		if want := isoOps[i].run(ref); want != got {
			return fmt.Errorf("%s depends on what ran before%s", isoOps[i].name, firstDiff(want, got))
		}
	}
	return nil
}

// historyCheck runs the inputs one after another in this process; the result of
// the last (and of the first) is that of a process of its own.
func historyCheck(c *eng.Ctx, k *eng.Case) error {
	last := len(k.In) - 1
	for i, s := range k.In {
		c.Exec()
		got := isoRun(s)
		if i != last && i != 0 {
			continue
		}
		c.Outcome(got)
		if err := sameRun("another result after other calls", isoRef(s), got); err != nil {
			return err
		}
	}
	return nil
}

// laterCheck is historyCheck for many inputs: the reference is the result seen
// first in this process.
var laterFirst = map[string]string{}

func laterCheck(c *eng.Ctx, k *eng.Case) error {
	c.Exec()
	isoRun(k.In[0])
	c.Exec()
	got := isoRun(k.In[1])
	want, ok := laterFirst[k.In[1]]
	if !ok {
		if c.Replaying {
			want = isoRef(k.In[1])
		} else {
			want = got
		}
		laterFirst[k.In[1]] = want
	}
	return sameRun("another result after other calls", want, got)
}

// tourCheck runs all inputs of a list in one process, forwards and backwards,
// each of which must give what it gives in a process of its own.
func tourCheck(c *eng.Ctx, k *eng.Case) error {
	n := len(k.In)
	for j := 0; j < 2*n; j++ {
		i := j
		if j >= n {
			i = 2*n - 1 - j
		}
		c.Exec()
		eng.StepLimit(eng.DefaultSteps + 20000*int64(len(k.In[i])))
		got := isoRun(k.In[i])
		c.Outcome(got)
		if err := sameRun(fmt.Sprintf("another result after %d other calls for %q", j, cutStr(k.In[i])), isoRef(k.In[i]), got); err != nil {
			return err
		}
	}
	return nil
}

// kept is what a caller holds on to after a call.
type kept struct {
	st   []p.Expr
	err  error
	text []string // as handed out
	copy []string // as they were
	ast  string
}

func keep(src string) *kept {
	k := &kept{}
	k.st, k.err = p.NewParser(src).ParseStmts()
	if k.err != nil {
		k.text = append(k.text, k.err.Error())
	}
	var b strings.Builder
	for _, s := range k.st {
		j, err := json.Marshal(s)
		if err != nil {
			k.text = append(k.text, err.Error())
		}
		k.text = append(k.text, p.Format(s), beautify(s, "\t"), string(j))
		if x, ok := s.(fmt.Stringer); ok {
			k.text = append(k.text, x.String())
		}
		b.WriteString(astx.DumpPos(s))
	}
	for _, t := range k.text {
		k.copy = append(k.copy, strings.Clone(t))
	}
	k.ast = b.String()
	return k
}

func (k *kept) check() error {
	for i, t := range k.text {
		if t != k.copy[i] {
			return fmt.Errorf("a text handed out has changed: %s", firstDiff(k.copy[i], t))
		}
	}
	if k.err != nil && k.err.Error() != k.copy[0] {
		return fmt.Errorf("an error handed out has changed: %s", firstDiff(k.copy[0], k.err.Error()))
	}
	var b strings.Builder
	for _, s := range k.st {
		b.WriteString(astx.DumpPos(s))
	}
	if b.String() != k.ast {
		return fmt.Errorf("an AST handed out has changed: %s", firstDiff(k.ast, b.String()))
	}
	return nil
}

// handedOutCheck: what a call handed out stays as it is during the calls that
// follow, each of which is kept as well.
func handedOutCheck(c *eng.Ctx, k *eng.Case) error {
	var all []*kept
	for i, s := range k.In {
		eng.StepLimit(eng.DefaultSteps + 20000*int64(len(s)))
		c.Exec()
		all = append(all, keep(s))
		for j, x := range all {
			if err := x.check(); err != nil {
				return fmt.Errorf("call %d, after call %d: %w", j+1, i+1, err)
			}
		}
	}
	c.Outcome(all[0].ast)
	return nil
}

// bigInputs are inputs and outputs that outgrow buffers.
func bigInputs() []string {
	rep := func(s string, n int) string { return strings.TrimSuffix(strings.Repeat(s, n), ", ") }
	out := []string{
		strings.Repeat(" ", 5000) + "SELECT a FROM t", "SELECT a" + strings.Repeat("\n", 70000) + "FROM t WHERE b",
		"SELECT " + rep("a, ", 400), "SELECT " + rep("f(x, 'y') AS `z`, ", 2000), "SELECT '" + rep("s", 70000) + "'", "SELECT " + rep("n", 5000),
		strings.Repeat("USE d; ", 300), "INSERT INTO t VALUES " + rep("(1, 'a'), ", 1000), "SELECT " + rep("(", 300) + "a" + rep(")", 300), "SELECT 1 /*" + rep("c", 9000) + "*/",
	}
	for _, s := range out[:6] {
		out = append(out, s+" )", s+" '")
	}
	return out
}

// manyNames are n statements, and one of n items, that share no name.
func manyNames(n int) (out []string) {
	var l, q, s, m []string
	for i := 0; i < n; i++ {
		t := strconv.Itoa(i)
		l, q, s, m = append(l, "n"+t), append(q, "`q"+t+"`"), append(s, "'s"+t+"'"), append(m, "1"+t)
		out = append(out, "SELECT a"+t+" AS b"+t+", 'c"+t+"', 1"+t+" FROM d"+t+" WHERE f"+t+"(x) = g"+t+"."+"h"+t)
	}
	for _, x := range [][]string{l, q, s, m} {
		out = append(out, "SELECT "+strings.Join(x, ", "))
	}
	return out
}

// Task kinds of a schedule.
const (
	taskFull = iota // parse and format
	taskParse
	taskOps // all operations on an AST parsed before, shared by both tasks
)

func taskFn(kind int, src string, shared []p.Expr) func() string {
	switch kind {
	case taskOps:
		return func() string {
			var b strings.Builder
			for i := 0; i < 3; i++ {
				b.WriteString(isoOps[i].run(shared))
			}
			return b.String()
		}
	case taskParse:
		return func() string {
			st, err := p.NewParser(src).ParseStmts()
			if err != nil {
				return err.Error()
			}
			var b strings.Builder
			for _, s := range st {
				b.WriteString(astx.DumpPos(s))
			}
			return b.String()
		}
	}
	return func() string { return isoRun(src) }
}

// schedule runs two tasks under a controlled scheduler: the first for at[0]
// steps, the other for at[1] steps, and so on; after the last switch each runs
// to its end.  It returns the results and the steps each task took.
func schedule(fa, fb func() string, at []int) (res [2]string, steps [2]int) {
	var cur int
	left := -1 // steps until the next switch, -1: never
	var yields [2]func(struct{}) bool
	mk := func(i int, f func() string) func() (struct{}, bool) {
		next, _ := iter.Pull(func(yield func(struct{}) bool) {
			yields[i] = yield
			defer func() {
				if r := recover(); r != nil {
					res[i] = fmt.Sprintf("panic: %v", r)
				}
			}()
			res[i] = f()
		})
		return next
	}
	next := [2]func() (struct{}, bool){mk(0, fa), mk(1, fb)}
	eng.SetHook(func() {
		steps[cur]++
		if left > 0 {
			left--
			if left == 0 {
				yields[cur](struct{}{})
			}
		}
	})
	defer eng.SetHook(nil)
	var done [2]bool
	for i := 0; !(done[0] && done[1]); i++ {
		if done[cur] {
			cur = 1 - cur
		}
		left = -1
		if i < len(at) {
			left = at[i]
		}
		if _, ok := next[cur](); !ok {
			done[cur] = true
		}
		cur = 1 - cur
	}
	return
}

// solo runs a task alone, counting its steps.
func solo(f func() string) (string, int) {
	n := 0
	eng.SetHook(func() { n++ })
	defer eng.SetHook(nil)
	return f(), n
}

// schedCheck runs every schedule of two tasks with at most N[1] preemptions.
// In = the two inputs, N = task kind, preemptions, [stride].
func schedCheck(c *eng.Ctx, k *eng.Case) error {
	if !eng.Instrumented {
		eng.HarnessBug("no scheduler in this build")
	}
	kind, bound := k.N[0], k.N[1]
	stride := 1
	if len(k.N) > 2 {
		stride = k.N[2]
	}
	var shared []p.Expr
	if kind == taskOps {
		st, err := Parse(c, k.In[0])
		if err != nil {
			return nil
		}
		shared = st
	}
	fa, fb := taskFn(kind, k.In[0], shared), taskFn(kind, k.In[1], shared)
	wa, na := solo(fa)
	wb, nb := solo(fb)
	if kind == taskFull {
		if err := sameRun("another result than in a process of its own", isoRef(k.In[0]), wa); err != nil {
			return err
		}
		if err := sameRun("another result than in a process of its own", isoRef(k.In[1]), wb); err != nil {
			return err
		}
	}
	try := func(at ...int) error {
		eng.StepLimit(eng.DefaultSteps)
		c.Exec()
		c.Count("schedules")
		c.Edges(1)
		r, n := schedule(fa, fb, at)
		if n[0] != na || n[1] != nb {
			return fmt.Errorf("schedule %v: %d and %d steps instead of %d and %d: the calls interfere", at, n[0], n[1], na, nb)
		}
		if err := sameRun(fmt.Sprintf("schedule %v: the first call's result changed", at), wa, r[0]); err != nil {
			return err
		}
		return sameRun(fmt.Sprintf("schedule %v: the second call's result changed", at), wb, r[1])
	}
	c.MaxOf("steps_of_a_task", int64(na))
	for x := 1; x < na; x += stride {
		if bound == 1 {
			if err := try(x); err != nil {
				return err
			}
			continue
		}
		for y := 1; y < nb; y += stride {
			if err := try(x, y); err != nil {
				return err
			}
		}
		if c.TimeUp() {
			c.Incomplete()
			return nil
		}
	}
	return nil
}

// raceCheck runs pairs of calls truly concurrently in a build with the race
// detector, which decides by happens-before: N = shard, shards, or In = a pair.
func raceCheck(c *eng.Ctx, k *eng.Case) error {
	self, _ := os.Executable()
	bin := filepath.Join(filepath.Dir(self), "racer")
	if _, err := os.Stat(bin); err != nil {
		c.Incomplete()
		return nil
	}
	b, _ := json.Marshal(k.In)
	cmd := exec.Command(bin)
	cmd.Stdin = strings.NewReader(string(b))
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=2")
	out, err := cmd.CombinedOutput()
	n := len(k.In)
	c.Add("race_pairs", int64(n*n))
	c.Exec()
	if err != nil {
		s := string(out)
		if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
			s = s[i:]
		}
		if len(s) > 1500 {
			s = s[:1500]
		}
		return fmt.Errorf("concurrent calls interfere (%v): %s", err, s)
	}
	return nil
}

// dirty are inputs that leave the parser in unusual states.
var dirty = []string{
	"", ";", "SELECT", "SELECT 'a", "SELECT INTERVAL", "SELECT INTERVAL 1", "SELECT INTERVAL x, INTERVAL y FROM t", "SELECT (((((((a", "SELECT a FROM (SELECT b FROM (SELECT",
	"CREATE TABLE t (a Int8, b", "SELECT CASE WHEN a", "INSERT INTO t VALUES (1, (2", "SELECT a::Tuple(a Int8, b Array(", "SELECT {a:Int", "SELECT (x, y) -> x + y", "SELECT a ? b : c ? d : e",
	"select SELECT from FROM", "SELECT `a", "/* x", "SELECT 1a", "GRANT SELECT(a) ON *.* TO", "ALTER TABLE t ADD COLUMN", "SELECT a AS b, b AS a FROM t AS t SETTINGS x = 1, y = 'z' FORMAT JSON", "USE CASE", "SET a = 1, b = 2; SET c",
}

func init() {
	eng.Register(&eng.Prop{
		ID: "P13",
		Notes: []string{
			"the scheduler switches between any two statements of the parser package, not inside one; unsynchronised accesses inside a statement are left to the race detector's happens-before analysis of real concurrent runs",
			"two calls at a time; more goroutines add no new pairwise interference",
		},
		Space: func(c *eng.Ctx) {
			base := scriptParts(gram.Budget{})
			one := scriptParts(gram.Budget{Shape: 1})
			run := func(name, bound string, f func(do func(k *eng.Case) bool)) {
				if !c.Begin(name, bound) {
					return
				}
				i := 0
				f(func(k *eng.Case) bool {
					i++
					if !c.Mine(i) {
						return true
					}
					return c.Do(k)
				})
			}
			all := append(append([]string{}, base...), dirty...)
			run("history/pairs", "every ordered pair and triple a,b,a of statement kinds and malformed inputs, against a fresh process", func(do func(*eng.Case) bool) {
				for _, a := range all {
					for _, b := range all {
						if !do(&eng.Case{Kind: "history", In: []string{a, b}}) || !do(&eng.Case{Kind: "history", In: []string{a, b, a}}) {
							return
						}
					}
				}
			})
			run("history/repeated", "every statement kind and malformed input 2, 3, 10, 100 and 1000 times", func(do func(*eng.Case) bool) {
				for _, a := range all {
					for _, n := range []int{2, 3, 10, 100, 1000} {
						in := make([]string, n)
						for i := range in {
							in[i] = a
						}
						if !do(&eng.Case{Kind: "history", In: in}) {
							return
						}
					}
				}
			})
			run("history/tours", "all derivations(1,0,0) and (0,1,0) of a start one after another, forwards and backwards, each against a process of its own", func(do func(*eng.Case) bool) {
				for _, gr := range gram.Grammars {
					seen := map[string]bool{}
					var in []string
					for _, b := range []gram.Budget{{Shape: 1}, {Lex: 1}} {
						var st gram.Stats
						gr.Explore(b, 0, 1, &st, func(g *gram.G) bool {
							if s := g.Source(); !seen[s] {
								seen[s] = true
								in = append(in, s)
							}
							return true
						})
					}
					for i := 0; i < len(in); i += 40 { // in parts, for the shards' sake
						if !do(&eng.Case{Kind: "tour", In: in[max0(i-3):min(i+40, len(in))]}) {
							return
						}
					}
				}
			})
			run("history/names", "up to 20000 statements with names of their own, then every statement kind, against a process of its own", func(do func(*eng.Case) bool) {
				for _, n := range []int{10, 100, 300, 1100, 5000, 20000} {
					for i := 0; i < len(all); i += 10 {
						if !do(&eng.Case{Kind: "names", In: all[i:min(i+10, len(all))], N: []int{n}}) {
							return
						}
					}
				}
			})
			big := bigInputs()
			run("history/sizes", "every ordered pair of large inputs, and every large input before and after every statement kind, against a fresh process", func(do func(*eng.Case) bool) {
				for _, a := range big {
					for _, b := range big {
						if !do(&eng.Case{Kind: "history", In: []string{a, b}}) {
							return
						}
					}
					for _, b := range all {
						if !do(&eng.Case{Kind: "history", In: []string{a, b}}) || !do(&eng.Case{Kind: "history", In: []string{b, a, b}}) {
							return
						}
					}
				}
			})
			run("history/kept", "what every statement kind and malformed input handed out, after each of three others of every kind, and large inputs", func(do func(*eng.Case) bool) {
				every := append(append([]string{}, all...), big...)
				for i, a := range every {
					for j, b := range every {
						if i >= len(all) && j%4 != 0 && j < len(all) || j >= len(all) && i%4 != 0 && i < len(all) {
							continue
						}
						if !do(&eng.Case{Kind: "kept", In: []string{a, b, all[(i*7+j*13+1)%len(all)], a}}) {
							return
						}
					}
				}
			})
			run("race/pairs", "every pair of statement kinds and malformed inputs concurrently under the race detector", func(do func(*eng.Case) bool) {
				const part = 12
				for i := 0; i < len(all); i += part {
					for j := i; j < len(all); j += part {
						in := append([]string{}, all[i:min(i+part, len(all))]...)
						if j != i {
							in = append(in, all[j:min(j+part, len(all))]...)
						}
						if !do(&eng.Case{Kind: "race", In: in}) {
							return
						}
					}
				}
			})
			if eng.Instrumented {
				run("schedules/shared-ast", "all schedules with one preemption of the read-only operations on one AST, every statement kind", func(do func(*eng.Case) bool) {
					for _, a := range base {
						if !do(&eng.Case{Kind: "sched", In: []string{a, a}, N: []int{taskOps, 1}}) {
							return
						}
					}
				})
				run("schedules/one-preemption", "all schedules with one preemption of the ordered pairs of statement kinds and malformed inputs (quick: each with itself and every third other): parse", func(do func(*eng.Case) bool) {
					for i, a := range all {
						for j, b := range all {
							if !c.Thorough && i != j && (i+j)%3 != 0 {
								continue
							}
							if !do(&eng.Case{Kind: "sched", In: []string{a, b}, N: []int{taskParse, 1}}) {
								return
							}
						}
					}
				})
				run("schedules/one-preemption-format", "all schedules with one preemption of every statement kind against eight: parse and format", func(do func(*eng.Case) bool) {
					for i, a := range all {
						for j := 0; j < 8; j++ {
							if !do(&eng.Case{Kind: "sched", In: []string{a, all[(i+j*j*7)%len(all)]}, N: []int{taskFull, 1}}) {
								return
							}
						}
					}
				})
			} else if c.Begin("schedules/none", "the instrumented build failed") {
				c.Incomplete()
			}
			Derivs(c, "pure", gram.Budget{Shape: 2})
			Derivs(c, "pure", gram.Budget{Shape: 1, Lex: 1})
			Derivs(c, "pure", gram.Budget{Shape: 1, Size: 1})
			CorpusCases(c, "pure", 60000)
			Nests(c, "pure", nestDepths(c))
			run("opseqs", "every sequence of three read-only operations on every statement kind", func(do func(*eng.Case) bool) {
				n := len(isoOps)
				for _, a := range base {
					for x := 0; x < n*n*n; x++ {
						if !do(&eng.Case{Kind: "opseq", In: []string{a}, N: []int{x / n / n, x / n % n, x % n}}) {
							return
						}
					}
				}
			})
			run("history/derivations", "every derivation(1,0,0) after every statement kind and malformed input", func(do func(*eng.Case) bool) {
				for i, b := range one {
					if !c.Mine(i) {
						continue
					}
					for _, a := range all {
						if !c.Do(&eng.Case{Kind: "later", In: []string{a, b}}) {
							return
						}
					}
				}
			})
			if eng.Instrumented {
				run("schedules/two-preemptions", "all schedules with two preemptions of pairs of short inputs: parse", func(do func(*eng.Case) bool) {
					short := []string{"USE d", "SET a = 1"}
					if c.Thorough {
						short = []string{"SELECT a", "SELECT 'x' + 1", "SELECT INTERVAL a", "SELECT f(a) OVER w", "SET a = 1", "DROP TABLE t", "USE d", "SELECT a b c"}
					}
					for _, a := range short {
						for _, b := range short {
							if !do(&eng.Case{Kind: "sched", In: []string{a, b}, N: []int{taskParse, 2}}) {
								return
							}
						}
					}
				})
			}
			if c.Thorough {
				run("schedules/derivations", "all schedules with one preemption of every derivation(1,0,0) against every statement kind: parse", func(do func(*eng.Case) bool) {
					for i, b := range one {
						for j, a := range base {
							if (i+j)%8 == 0 && !do(&eng.Case{Kind: "sched", In: []string{a, b}, N: []int{taskParse, 1}}) {
								return
							}
						}
					}
				})
				Derivs(c, "pure", gram.Budget{Shape: 2, Lex: 1})
				Derivs(c, "pure", gram.Budget{Shape: 3})
			}
		},
		Check: func(c *eng.Ctx, k *eng.Case) error {
			switch k.Kind {
			case "pure":
				return pureCheck(c, k)
			case "opseq":
				return opSeqCheck(c, k)
			case "history":
				return historyCheck(c, k)
			case "kept":
				return handedOutCheck(c, k)
			case "tour":
				return tourCheck(c, k)
			case "names":
				for _, s := range manyNames(k.N[0]) {
					c.Exec()
					eng.StepLimit(eng.DefaultSteps + 20000*int64(len(s)))
					if st, err := p.NewParser(s).ParseStmts(); err == nil {
						p.Format(st[0])
					}
				}
				return tourCheck(c, k)
			case "later":
				return laterCheck(c, k)
			case "race":
				return raceCheck(c, k)
			}
			return schedCheck(c, k)
		},
	})
}
