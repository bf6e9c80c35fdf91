// Package eng runs one property's exploration: it shards the space over child
// processes, confirms and records violations, and writes the evidence file.
package eng

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/mc/gram"
)

// Case is one execution of the implementation together with its oracle.  It is
// self-contained: a replay file is a Case in JSON.
type Case struct {
	Kind    string   // which oracle of the property
	Gram    string   `json:",omitempty"` // grammar and choices, when derived
	Choices []int    `json:",omitempty"`
	In      []string `json:",omitempty"`
	N       []int    `json:",omitempty"`
	D       *gram.G  `json:"-"` // the derivation, if any
}

// Prop is one property.
type Prop struct {
	ID    string
	Space func(c *Ctx)
	// Check decides one case.  nil: holds.  It may also return ErrKnown to mark
	// a listed finding.
	Check func(c *Ctx, k *Case) error
	Notes []string // assumptions reported in the evidence
	Level string
}

var Props = map[string]*Prop{}

func Register(p *Prop) { Props[p.ID] = p }

// Viol is a confirmed violation.
type Viol struct {
	Case   Case
	Msg    string
	Size   int
	Crash  bool
	Replay string `json:"-"`
}

// Known is an entry of the known-findings file.
type Known struct{ Prop, ID, What string }

// SpaceCov is the coverage of one explored space.
type SpaceCov struct {
	Name       string `json:"name"`
	Bound      string `json:"bound"`
	Cases      int64  `json:"cases"`
	Accepted   int64  `json:"accepted_by_parser"`
	Rejected   int64  `json:"rejected_by_parser"`
	Choices    int64  `json:"choice_edges"`
	Exhaustive bool   `json:"exhaustive"`
}

// Result is what a shard reports.
type Result struct {
	Spaces   []*SpaceCov
	States   int64 // distinct cases (64-bit hash)
	Execs    int64 // calls into the implementation
	Samples  []string
	Viols    []Viol
	NViol    int64
	KnownHit map[string]int64
	Extra    map[string]int64
	Max      map[string]int64
	Done     bool
	Outcomes int64 // distinct observed outcomes
}

// Ctx is the state of one shard.
type Ctx struct {
	P         *Prop
	Tier      string
	Seed      int
	limit     int64
	Shard, N  int
	Deadline  time.Time
	Res       Result
	cur       *SpaceCov
	seen      map[uint64]struct{}
	outc      map[uint64]struct{}
	hseed     maphash.Seed
	page      []byte
	stop      bool
	ncase     int64
	Thorough  bool
	Replaying bool
	failKinds map[string]int
	KnownIDs  map[string]bool
}

// Begin opens a space.  It returns false when time is up.
func (c *Ctx) Begin(name, bound string) bool {
	c.cur = &SpaceCov{Name: name, Bound: bound}
	c.Res.Spaces = append(c.Res.Spaces, c.cur)
	if c.TimeUp() {
		return false
	}
	c.cur.Exhaustive = true
	return true
}

func (c *Ctx) TimeUp() bool {
	if c.stop {
		return true
	}
	if time.Now().After(c.Deadline) {
		c.stop = true
		if c.cur != nil {
			c.cur.Exhaustive = false
		}
	}
	return c.stop
}

// Incomplete marks the current space as not fully enumerated.
func (c *Ctx) Incomplete() { c.cur.Exhaustive = false }

// Edges counts choice edges of the model.
func (c *Ctx) Edges(n int64) { c.cur.Choices += n }

func (c *Ctx) Accept()               { c.cur.Accepted++ }
func (c *Ctx) Reject()               { c.cur.Rejected++ }
func (c *Ctx) Exec()                 { c.Res.Execs++ }
func (c *Ctx) Count(k string)        { c.Res.Extra[k]++ }
func (c *Ctx) Add(k string, n int64) { c.Res.Extra[k] += n }
func (c *Ctx) MaxOf(k string, v int64) {
	if v > c.Res.Max[k] {
		c.Res.Max[k] = v
	}
}

// Outcome records an observed outcome (for vacuity checks).
func (c *Ctx) Outcome(s string) {
	if len(c.outc) < 2_000_000 {
		c.outc[maphash.String(c.hseed, s)] = struct{}{}
	}
}

// Mine shards by a running index.
func (c *Ctx) Mine(i int) bool { return i%c.N == c.Shard }

const pageSize = 1 << 16

func (c *Ctx) setCurrent(k *Case) {
	if c.page == nil {
		return
	}
	// layout: 4 byte length, then a compact rendering
	b := c.page[4:]
	n := 0
	put := func(s string) {
		n += copy(b[n:], s)
	}
	put(k.Kind)
	put("\x00")
	put(k.Gram)
	put("\x00")
	for _, x := range k.Choices {
		var t [8]byte
		put(string(strconv.AppendInt(t[:0], int64(x), 10)))
		put(",")
	}
	put("\x00")
	for _, x := range k.N {
		var t [20]byte
		put(string(strconv.AppendInt(t[:0], int64(x), 10)))
		put(",")
	}
	for _, s := range k.In {
		put("\x00")
		put(s)
	}
	c.page[0] = byte(n)
	c.page[1] = byte(n >> 8)
	c.page[2] = byte(n >> 16)
	c.page[3] = 1
}

func parsePage(p []byte) (Case, bool) {
	if len(p) < 4 || p[3] != 1 {
		return Case{}, false
	}
	n := int(p[0]) | int(p[1])<<8 | int(p[2])<<16
	f := strings.Split(string(p[4:4+n]), "\x00")
	if len(f) < 4 {
		return Case{}, false
	}
	k := Case{Kind: f[0], Gram: f[1]}
	ints := func(s string) (o []int) {
		for _, x := range strings.Split(s, ",") {
			if x != "" {
				v, _ := strconv.Atoi(x)
				o = append(o, v)
			}
		}
		return
	}
	k.Choices, k.N, k.In = ints(f[2]), ints(f[3]), f[4:]
	return k, true
}

// Do runs one case.  It returns false when exploration should stop.
func (c *Ctx) Do(k *Case) bool {
	if c.stop {
		return false
	}
	c.ncase++
	if c.ncase&0xff == 0 && c.TimeUp() {
		return false
	}
	c.cur.Cases++
	c.setCurrent(k)
	if len(c.seen) < 4_000_000 {
		var h maphash.Hash
		h.SetSeed(c.hseed)
		h.WriteString(k.Kind)
		h.WriteByte(0)
		if len(k.In) > 0 {
			for _, s := range k.In {
				h.WriteString(s)
				h.WriteByte(0)
			}
		} else {
			h.WriteString(k.Gram)
			for _, x := range k.Choices {
				h.WriteByte(byte(x))
				h.WriteByte(byte(x >> 8))
			}
		}
		for _, x := range k.N {
			h.WriteByte(byte(x))
			h.WriteByte(byte(x >> 8))
		}
		c.seen[h.Sum64()] = struct{}{}
	}
	if c.cur.Cases <= 2 && len(c.Res.Samples) < 40 {
		c.Res.Samples = append(c.Res.Samples, c.cur.Name+": "+c.Describe(k))
	}
	err := c.runCheck(k)
	if err != nil {
		if collect != nil {
			if _, ok := err.(KnownErr); !ok {
				fmt.Fprintf(collect, "%q\t%q\n", err.Error(), c.Describe(k))
			}
			return !c.stop
		}
		c.fail(k, err)
	}
	return !c.stop
}

// collect, when set (MC_COLLECT=PREFIX, development only), receives every
// failure instead of the violation machinery.
var collect *bufio.Writer

func initCollect(shard int) {
	if p := os.Getenv("MC_COLLECT"); p != "" {
		f, err := os.Create(fmt.Sprintf("%s.%d", p, shard))
		if err == nil {
			collect = bufio.NewWriterSize(f, 1<<20)
		}
	}
}

// Describe renders a case for people.
func (c *Ctx) Describe(k *Case) string {
	s := k.Kind
	if k.D != nil {
		s += " " + k.D.Source()
	} else if len(k.In) == 0 && k.Gram != "" {
		s += fmt.Sprintf(" %s %v", k.Gram, k.Choices)
	}
	for _, x := range k.In {
		s += " " + strconv.Quote(trunc(x, 300))
	}
	if len(k.N) > 0 {
		s += fmt.Sprint(" ", k.N)
	}
	return s
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Renew gives the next call its own step budget.
func (c *Ctx) Renew() {
	if c.limit > 0 {
		StepLimit(c.limit)
	}
}

func (c *Ctx) runCheck(k *Case) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessBug); ok {
				panic(h)
			}
			if IsBudget(r) {
				err = fmt.Errorf("step budget exhausted (endless loop or blow-up)")
				return
			}
			st := string(debug.Stack())
			err = fmt.Errorf("panic: %v%s", r, firstFrame(st))
		}
		StepLimit(0)
	}()
	size := 0
	for _, s := range k.In {
		size += len(s)
	}
	// quadratic work is allowed (P02 measures it)
	c.limit = DefaultSteps + 2000*int64(size) + min(40*int64(size)*int64(size), 20*DefaultSteps)
	if c.P.ID == "P13" {
		c.limit *= 5 // its build counts every statement
	}
	StepLimit(c.limit)
	return c.P.Check(c, k)
}

func firstFrame(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "clickhouse-sql-parser/parser.") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return " in " + strings.TrimPrefix(l, "github.com/AfterShip/clickhouse-sql-parser/")
		}
	}
	return ""
}

type harnessBug string

// HarnessBug aborts the run: the harness itself is inconsistent.
func HarnessBug(f string, a ...any) { panic(harnessBug(fmt.Sprintf(f, a...))) }

// KnownErr marks a violation that is a listed finding.
type KnownErr struct{ ID string }

func (k KnownErr) Error() string { return "known finding " + k.ID }

// Listed says whether a finding is listed, and counts it.
func (c *Ctx) Listed(id string) bool {
	if c.KnownIDs[id] {
		c.Res.KnownHit[id]++
		return true
	}
	return false
}

func (c *Ctx) fail(k *Case, err error) {
	if ke, ok := err.(KnownErr); ok && c.KnownIDs[ke.ID] {
		c.Res.KnownHit[ke.ID]++
		return
	}
	c.Res.NViol++
	msg := err.Error()
	sig := k.Kind + "|" + normMsg(msg)
	c.failKinds[sig]++
	if c.failKinds[sig] > 3 || len(c.Res.Viols) >= 60 {
		if c.Res.NViol > 20000 {
			c.stop = true
			c.cur.Exhaustive = false
		}
		return
	}
	// the same case must fail every time
	for i := 0; i < 4; i++ {
		if e2 := c.runCheck(k); e2 == nil || e2.Error() != msg {
			if e2 != nil {
				continue // still failing, in another way
			}
			msg = "not reproducible (nondeterministic result): " + msg
			if c.P.ID != "P13" {
				c.Count("unstable_failures")
			}
			break
		}
	}
	kk := *k
	size := 0
	for _, s := range k.In {
		size += len(s)
	}
	if k.D != nil {
		size += len(k.D.Source())
	}
	c.Res.Viols = append(c.Res.Viols, Viol{Case: kk, Msg: msg, Size: size})
	if os.Getenv("MC_STOPFIRST") != "" { // for mutation runs
		c.stop = true
	}
}

func normMsg(m string) string {
	if i := strings.IndexAny(m, "\n:"); i > 0 {
		m = m[:i]
	}
	return trunc(m, 60)
}

// Main is the entry point of the mc binary.
type Options struct {
	Prop, Tier, Replay, Root string
	Shard, N, Seed           int
	Out, Page                string
	Seconds                  int
	Workers                  int
	Known                    []Known
}

func RunShard(o Options) {
	p := Props[o.Prop]
	c := newCtx(p, o)
	if o.Page != "" {
		f, err := os.OpenFile(o.Page, os.O_RDWR|os.O_CREATE, 0o644)
		if err == nil {
			f.Truncate(pageSize + 4)
			b, err := syscall.Mmap(int(f.Fd()), 0, pageSize+4, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			if err == nil {
				c.page = b[:pageSize]
			}
		}
	}
	initCollect(o.Shard)
	// Collecting at every few megabytes costs more than the checks themselves:
	// an untouched ballast and a high target make collections rare.
	ballast := make([]byte, 48<<20)
	debug.SetGCPercent(400)
	defer runtime.KeepAlive(ballast)
	p.Space(c)
	if collect != nil {
		collect.Flush()
	}
	c.Res.States = int64(len(c.seen))
	c.Res.Outcomes = int64(len(c.outc))
	c.Res.Done = true
	b, _ := json.Marshal(&c.Res)
	os.WriteFile(o.Out, b, 0o644)
}

func newCtx(p *Prop, o Options) *Ctx {
	c := &Ctx{P: p, Tier: o.Tier, Seed: o.Seed, Shard: o.Shard, N: o.N,
		Deadline: time.Now().Add(time.Duration(o.Seconds) * time.Second),
		seen:     map[uint64]struct{}{}, outc: map[uint64]struct{}{}, hseed: maphash.MakeSeed(),
		failKinds: map[string]int{}, Thorough: o.Tier == "thorough", KnownIDs: map[string]bool{}}
	c.Res.KnownHit = map[string]int64{}
	c.Res.Extra = map[string]int64{}
	c.Res.Max = map[string]int64{}
	for _, k := range o.Known {
		if k.Prop == p.ID {
			c.KnownIDs[k.ID] = true
		}
	}
	c.cur = &SpaceCov{}
	return c
}

// Replay re-runs one recorded case; exit 1 when it still violates.
func Replay(o Options) int {
	b, err := os.ReadFile(o.Replay)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r struct {
		Property string
		Case     Case
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	p := Props[r.Property]
	c := newCtx(p, o)
	c.Replaying = true
	k := &r.Case
	if k.Gram != "" {
		for _, g := range gram.Grammars {
			if g.Name == k.Gram {
				k.D = gram.Replay(g.Gen, k.Choices)
			}
		}
	}
	if err := c.runCheck(k); err != nil {
		fmt.Printf("still violates %s: %v\n  %s\n", r.Property, err, c.Describe(k))
		return 1
	}
	fmt.Println("holds")
	return 0
}

// RunParent forks the shards and merges their results.
func RunParent(o Options) int {
	p := Props[o.Prop]
	start := time.Now()
	if o.Workers == 0 {
		o.Workers = runtime.NumCPU()
	}
	work, err := os.MkdirTemp("", "mc-"+o.Prop+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(work)
	type child struct {
		cmd       *exec.Cmd
		out, page string
		stderr    *bytes.Buffer
		err       error
		hung      bool
		done      chan struct{}
	}
	var cs []*child
	self, _ := os.Executable()
	for i := 0; i < o.Workers; i++ {
		ch := &child{out: filepath.Join(work, fmt.Sprint("r", i)), page: filepath.Join(work, fmt.Sprint("p", i)), stderr: &bytes.Buffer{}, done: make(chan struct{})}
		ch.cmd = exec.Command(self, "-prop", o.Prop, "-tier", o.Tier, "-root", o.Root,
			"-shard", fmt.Sprint(i), "-n", fmt.Sprint(o.Workers), "-out", ch.out, "-page", ch.page,
			"-seconds", fmt.Sprint(o.Seconds), "-seed", fmt.Sprint(o.Seed))
		ch.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2500MiB")
		ch.cmd.Stderr = ch.stderr
		ch.cmd.Stdout = ch.stderr
		if err := ch.cmd.Start(); err != nil {
			fmt.Println(err)
			return 2
		}
		cs = append(cs, ch)
		go func() {
			// a hang is only possible outside the step-counted code; the grace
			// period is far above any single case
			t := time.AfterFunc(time.Duration(o.Seconds+45)*time.Second, func() {
				ch.hung = true
				ch.cmd.Process.Kill()
			})
			ch.err = ch.cmd.Wait()
			t.Stop()
			close(ch.done)
		}()
	}
	var m Result
	m.KnownHit, m.Extra, m.Max = map[string]int64{}, map[string]int64{}, map[string]int64{}
	byName := map[string]*SpaceCov{}
	bad := false
	for i, ch := range cs {
		<-ch.done
		var r Result
		b, e := os.ReadFile(ch.out)
		if e == nil {
			e = json.Unmarshal(b, &r)
		}
		if e != nil || !r.Done {
			pg, _ := os.ReadFile(ch.page)
			k, ok := parsePage(pg)
			txt := ch.stderr.String()
			if strings.Contains(txt, "harnessBug") || !ok {
				fmt.Fprintf(os.Stderr, "shard %d failed: %v\n%s\n", i, ch.err, trunc(txt, 4000))
				bad = true
				continue
			}
			msg := "process died: " + trunc(strings.SplitN(txt, "\n", 2)[0], 200)
			if ch.hung {
				// ran out of time inside one case: not believed as a hang
				// unless it reproduces alone
				if !hangsAlone(self, o, k, work) {
					fmt.Fprintf(os.Stderr, "shard %d overran its deadline\n", i)
					m.Spaces = append(m.Spaces, &SpaceCov{Name: "overrun", Bound: "shard killed at the deadline"})
					continue
				}
				msg = "hang"
			}
			m.NViol++
			m.Viols = append(m.Viols, Viol{Case: k, Msg: msg, Crash: true})
			continue
		}
		for _, s := range r.Spaces {
			t := byName[s.Name]
			if t == nil {
				cp := *s
				byName[s.Name] = &cp
				m.Spaces = append(m.Spaces, &cp)
				continue
			}
			t.Cases += s.Cases
			t.Accepted += s.Accepted
			t.Rejected += s.Rejected
			t.Choices += s.Choices
			t.Exhaustive = t.Exhaustive && s.Exhaustive
		}
		m.States += r.States
		m.Execs += r.Execs
		m.Outcomes += r.Outcomes
		if len(m.Samples) < 24 {
			for _, s := range r.Samples {
				if len(m.Samples) < 24 {
					m.Samples = append(m.Samples, s)
				}
			}
		}
		m.NViol += r.NViol
		m.Viols = append(m.Viols, r.Viols...)
		for k, v := range r.KnownHit {
			m.KnownHit[k] += v
		}
		for k, v := range r.Extra {
			m.Extra[k] += v
		}
		for k, v := range r.Max {
			if v > m.Max[k] {
				m.Max[k] = v
			}
		}
	}
	if bad {
		return 2
	}
	sort.SliceStable(m.Viols, func(i, j int) bool { return m.Viols[i].Size < m.Viols[j].Size })

	exhaustive := true
	var edges, cases int64
	for _, s := range m.Spaces {
		exhaustive = exhaustive && s.Exhaustive
		edges += s.Choices
		cases += s.Cases
	}
	level := p.Level
	if level == "" {
		level = "model_checking"
	}
	cov := map[string]any{
		"states":                        m.States,
		"transitions":                   edges,
		"traces_validated_against_impl": m.Execs,
		"samples":                       m.Samples,
		"exhaustive":                    exhaustive,
		"spaces":                        m.Spaces,
		"cases":                         cases,
		"distinct_outcomes":             m.Outcomes,
		"counters":                      m.Extra,
		"maxima":                        m.Max,
		"known_findings_hit":            m.KnownHit,
		"instrumented":                  Instrumented,
	}
	ev := map[string]any{
		"property": o.Prop, "tier": o.Tier, "seed": o.Seed, "level": level,
		"coverage": cov, "assumptions": p.Notes, "wall_s": time.Since(start).Seconds(), "violations": m.NViol,
	}
	os.MkdirAll(filepath.Join(o.Root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(o.Root, "evidence", o.Prop+".json"), b, 0o644)

	for _, k := range o.Known {
		if k.Prop == o.Prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", k.Prop, k.ID, k.What)
		}
	}
	fmt.Printf("%s %s: cases=%d distinct=%d executions=%d edges=%d outcomes=%d exhaustive=%v wall=%.1fs violations=%d\n",
		o.Prop, o.Tier, cases, m.States, m.Execs, edges, m.Outcomes, exhaustive, time.Since(start).Seconds(), m.NViol)
	for _, s := range m.Spaces {
		fmt.Printf("  %-28s %-46s cases=%d accepted=%d exhaustive=%v\n", s.Name, s.Bound, s.Cases, s.Accepted, s.Exhaustive)
	}
	if m.NViol == 0 {
		return 0
	}
	rdir := filepath.Join(o.Root, "build", "replay")
	os.MkdirAll(rdir, 0o755)
	for i := range m.Viols {
		v := &m.Viols[i]
		if i >= 20 {
			break
		}
		rep := map[string]any{"property": o.Prop, "message": v.Msg, "case": v.Case, "crash": v.Crash,
			"how": "bash /verif/run.sh -replay <this file>"}
		rb, _ := json.MarshalIndent(rep, "", " ")
		h := sha256.Sum256(rb)
		v.Replay = filepath.Join(rdir, o.Prop+"-"+hex.EncodeToString(h[:6])+".json")
		os.WriteFile(v.Replay, rb, 0o644)
		c := newCtx(p, o)
		k := v.Case
		if k.Gram != "" && len(k.In) == 0 {
			for _, g := range gram.Grammars {
				if g.Name == k.Gram {
					k.D = gram.Replay(g.Gen, k.Choices)
				}
			}
		}
		fmt.Printf("  %s\n    %s\n", trunc(v.Msg, 1500), trunc(c.Describe(&k), 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.Prop, v.Replay)
	}
	return 1
}

func hangsAlone(self string, o Options, k Case, work string) bool {
	b, _ := json.Marshal(map[string]any{"Property": o.Prop, "Case": k})
	f := filepath.Join(work, "hang.json")
	os.WriteFile(f, b, 0o644)
	cmd := exec.Command(self, "-replay", f, "-root", o.Root)
	done := make(chan error, 1)
	if cmd.Start() != nil {
		return false
	}
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
		return false
	case <-time.After(30 * time.Second):
		cmd.Process.Kill()
		return true
	}
}
