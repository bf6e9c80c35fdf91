package props

import (
	"errors"
	"fmt"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/mc/astx"
	"verif/mc/eng"
	"verif/mc/gram"
)

// recorder is a visitor that checks the protocol as it runs.
type recorder struct {
	p.DefaultASTVisitor
	parent  map[p.Expr]p.Expr // reference: enclosing node
	stack   []p.Expr
	visited map[p.Expr]int
	done    map[p.Expr]bool // visited since entered
	visits  int
	enters  int
	failAt  int // fail at this visit, -1: never
	failed  bool
	bad     string
}

var errStop = errors.New("stop here")

func (r *recorder) fault(f string, a ...any) {
	if r.bad == "" {
		r.bad = fmt.Sprintf(f, a...)
	}
}

func (r *recorder) Enter(e p.Expr) {
	r.enters++
	if r.failed {
		r.fault("Enter(%s) after the visitor failed", astx.TypeName(e))
	}
	pa, known := r.parent[e]
	switch {
	case !known:
		r.fault("Enter of a node that is not in the AST: %s", astx.TypeName(e))
	case pa == nil && len(r.stack) > 0:
		r.fault("root entered inside %s", astx.TypeName(r.stack[len(r.stack)-1]))
	case pa != nil && (len(r.stack) == 0 || r.stack[len(r.stack)-1] != pa):
		r.fault("%s entered outside its parent %s", astx.TypeName(e), astx.TypeName(pa))
	}
	r.stack = append(r.stack, e)
	r.done[e] = false
}

func (r *recorder) Leave(e p.Expr) {
	if len(r.stack) == 0 || r.stack[len(r.stack)-1] != e {
		r.fault("Leave(%s) does not match the last Enter", astx.TypeName(e))
		return
	}
	if !r.failed && !r.done[e] {
		r.fault("%s left without being visited", astx.TypeName(e))
	}
	r.stack = r.stack[:len(r.stack)-1]
}

func (r *recorder) visit(e p.Expr) error {
	if r.failed {
		r.fault("Visit(%s) after the visitor failed", astx.TypeName(e))
	}
	if len(r.stack) == 0 || r.stack[len(r.stack)-1] != e {
		r.fault("Visit(%s) outside its Enter/Leave", astx.TypeName(e))
	}
	r.visited[e]++
	r.done[e] = true
	i := r.visits
	r.visits++
	if i == r.failAt {
		r.failed = true
		return errStop
	}
	return nil
}

func runVisitor(root p.Expr, parent map[p.Expr]p.Expr, failAt int) (*recorder, error) {
	r := &recorder{parent: parent, visited: map[p.Expr]int{}, done: map[p.Expr]bool{}, failAt: failAt}
	r.DefaultASTVisitor.Visit = r.visit
	err := root.Accept(r)
	if len(r.stack) > 0 {
		r.fault("%d nodes not left", len(r.stack))
	}
	return r, err
}

func traversal(c *eng.Ctx, root p.Expr, stops bool) error {
	nodes := astx.Nodes(root)
	parent := make(map[p.Expr]p.Expr, len(nodes))
	for _, n := range nodes {
		if _, dup := parent[n.Expr]; dup {
			return fmt.Errorf("node reachable twice in the AST: %s at %s", astx.TypeName(n.Expr), n.Path)
		}
		if n.Parent >= 0 {
			parent[n.Expr] = nodes[n.Parent].Expr
		} else {
			parent[n.Expr] = nil
		}
	}
	// Walk
	var seq []p.Expr
	at := make(map[p.Expr]int, len(nodes))
	var bad string
	ok := p.Walk(root, func(e p.Expr) bool {
		if _, dup := at[e]; dup && bad == "" {
			bad = "Walk visits a node twice: " + astx.TypeName(e)
		}
		pa, known := parent[e]
		if !known && bad == "" {
			bad = "Walk visits a node that is not in the AST: " + astx.TypeName(e)
		}
		if pa != nil {
			if _, seen := at[pa]; !seen && bad == "" {
				bad = fmt.Sprintf("Walk visits %s before its parent %s", astx.TypeName(e), astx.TypeName(pa))
			}
		}
		at[e] = len(seq)
		seq = append(seq, e)
		return true
	})
	if bad != "" {
		return errors.New(bad)
	}
	if !ok {
		return fmt.Errorf("Walk returns false although the callback never did")
	}
	for _, n := range nodes {
		if _, seen := at[n.Expr]; !seen {
			return fmt.Errorf("Walk misses %s at %s", astx.TypeName(n.Expr), n.Path)
		}
	}
	// Accept
	r, err := runVisitor(root, parent, -1)
	if r.bad != "" {
		return fmt.Errorf("Accept: %s", r.bad)
	}
	if err != nil {
		return fmt.Errorf("Accept fails without a failing visitor: %v", err)
	}
	for _, n := range nodes {
		if r.visited[n.Expr] != 1 {
			return fmt.Errorf("Accept visits %s at %s %d times", astx.TypeName(n.Expr), n.Path, r.visited[n.Expr])
		}
	}
	// Find and FindAll agree with Walk
	all := p.FindAll(root, func(p.Expr) bool { return true })
	if len(all) != len(seq) {
		return fmt.Errorf("FindAll finds %d of %d nodes", len(all), len(seq))
	}
	for i := range all {
		if all[i] != seq[i] {
			return fmt.Errorf("FindAll order differs from Walk at %d", i)
		}
	}
	if f, ok := p.Find(root, func(p.Expr) bool { return false }); ok || f != nil {
		return fmt.Errorf("Find finds something although nothing matches")
	}
	c.Edges(int64(len(nodes)))
	if !stops {
		return nil
	}
	for i := range seq {
		if len(seq) > 240 && i > 60 && i < len(seq)-60 && i&(i-1) != 0 && i&(i+1) != 0 {
			continue
		}
		c.Edges(4)
		n := 0
		same := true
		cont := p.Walk(root, func(e p.Expr) bool {
			same = same && n < len(seq) && e == seq[n]
			n++
			return n != i+1
		})
		if n != i+1 || !same || cont {
			return fmt.Errorf("Walk stopped at node %d (%s): %d callbacks, same order %v, returns %v", i, astx.TypeName(seq[i]), n, same, cont)
		}
		n, same = 0, true
		cont = p.WalkWithBreak(root, func(e p.Expr) bool {
			same = same && n < len(seq) && e == seq[n]
			n++
			return n != i+1
		})
		if n != i+1 || !same || cont {
			return fmt.Errorf("WalkWithBreak stopped at node %d (%s): %d callbacks, same order %v, returns %v", i, astx.TypeName(seq[i]), n, same, cont)
		}
		n = 0
		f, ok := p.Find(root, func(e p.Expr) bool { n++; return e == seq[i] })
		if !ok || f != seq[i] || n != i+1 {
			return fmt.Errorf("Find of node %d (%s): found %v after %d calls", i, astx.TypeName(seq[i]), ok, n)
		}
		some := p.FindAll(root, func(e p.Expr) bool { return e == seq[i] || e == root })
		if want := 2; i == 0 {
			want = 1
			if len(some) != want {
				return fmt.Errorf("FindAll of the root finds %d", len(some))
			}
		} else if len(some) != want || some[0] != root || some[1] != seq[i] {
			return fmt.Errorf("FindAll of the root and node %d finds %d", i, len(some))
		}
		r, err := runVisitor(root, parent, i)
		if r.bad != "" {
			return fmt.Errorf("Accept failing at visit %d: %s", i, r.bad)
		}
		if err != errStop {
			return fmt.Errorf("Accept failing at visit %d returns %v", i, err)
		}
		if r.visits != i+1 {
			return fmt.Errorf("Accept failing at visit %d makes %d visits", i, r.visits)
		}
	}
	return nil
}

func init() {
	eng.Register(&eng.Prop{
		ID: "P08",
		Notes: []string{
			"the reference node set is every non-nil value implementing Expr that reflection reaches through the AST's fields",
			"stopping is tried at every node (in statements of more than 240 nodes: at the first and last 60, at powers of two and just before them)",
		},
		Space: func(c *eng.Ctx) {
			Derivs(c, "stop", gram.Budget{Shape: 2})
			Derivs(c, "stop", gram.Budget{Shape: 1, Lex: 1})
			Derivs(c, "stop", gram.Budget{Shape: 1, Size: 1})
			CorpusCases(c, "stop", 1<<20)
			Exprs(c, "stop")
			Nests(c, "stop", nestDepths(c))
			Derivs(c, "walk", gram.Budget{Shape: 2, Lex: 1})
			editSpaces(c, "walk")
			if c.Thorough {
				Derivs(c, "stop", gram.Budget{Shape: 3})
				Derivs(c, "stop", gram.Budget{Shape: 2, Lex: 1})
			}
			deepSpaces(c, "walk")
		},
		Check: func(c *eng.Ctx, k *eng.Case) error {
			st, err := parseNote(c, srcOf(k))
			if err != nil {
				return nil
			}
			for _, s := range st {
				if err := traversal(c, s, k.Kind == "stop"); err != nil {
					return err
				}
				c.Outcome(astx.TypeName(s))
			}
			return nil
		},
	})
}
