// Package gram holds the reference model of the accepted SQL language: a
// deviation-bounded, exhaustively enumerable generator.  Every derivation yields
// the source tokens, the canonical tokens the formatter must print for it, and
// the identifiers/literals the AST must contain.
package gram

// Class separates the two deviation budgets.
type Class int

const (
	Shape Class = iota // which clause / alternative / list length
	Lex                // how a leaf is spelled
	Size               // long lists
)

// Sizes are the extra list lengths of the Size dimension; after one of the big
// ones nothing else deviates, and the biggest come alone.
var Sizes = []int{0, 3, 4, 5, 7, 8, 16, 33, 65, 130, 260}

// Budget bounds the number of non-default choices per class.
type Budget struct{ Shape, Lex, Size int }

type point struct {
	n     int
	taken int
	class Class
}

// Ch replays a prefix of choices and takes choice 0 afterwards.
type Ch struct {
	pre []int
	pts []point
}

func (c *Ch) Choose(n int, class Class) int {
	if n <= 1 {
		return 0
	}
	i := len(c.pts)
	t := 0
	if i < len(c.pre) {
		t = c.pre[i]
		if t >= n {
			panic("gram: diverging replay")
		}
	}
	c.pts = append(c.pts, point{n, t, class})
	return t
}

func (c *Ch) Choices() []int {
	out := make([]int, len(c.pts))
	last := 0
	for i, p := range c.pts {
		out[i] = p.taken
		if p.taken != 0 {
			last = i + 1
		}
	}
	return out[:last]
}

// Stats of an exploration.
type Stats struct {
	Executions int64 // derivations run
	Points     int64 // choice points met (transitions)
}

// Explore enumerates every derivation of gen within the budget, simplest first
// inside a subtree.  visit returns false to stop.  Each derivation is visited
// once.
func Explore(gen func(*G), shape, lex int, st *Stats, visit func(*G) bool) bool {
	return ExploreShard(gen, Budget{shape, lex, 0}, 0, 1, st, visit)
}

// ExploreShard visits the derivations of one shard out of n.  Subtrees at two
// deviations are dealt out round robin; the nodes above them are generated by
// every shard but visited by one.
func ExploreShard(gen func(*G), b Budget, shard, n int, st *Stats, visit func(*G) bool) bool {
	e := &explorer{gen: gen, shard: shard, n: n, st: st, visit: visit}
	return e.explore(nil, b, 0)
}

type explorer struct {
	gen      func(*G)
	shard, n int
	ctr      int
	st       *Stats
	visit    func(*G) bool
}

func (e *explorer) explore(prefix []int, b Budget, depth int) bool {
	mine := true
	if depth <= 2 && e.n > 1 {
		mine = e.ctr%e.n == e.shard
		e.ctr++
		if !mine && depth == 2 {
			return true
		}
	}
	g := NewG(prefix)
	e.gen(g)
	if mine {
		e.st.Executions++
		e.st.Points += int64(len(g.ch.pts) - len(prefix))
		if !e.visit(g) {
			return false
		}
	}
	pts := g.ch.pts
	for i := len(prefix); i < len(pts); i++ {
		nb := b
		switch pts[i].class {
		case Shape:
			nb.Shape--
		case Lex:
			nb.Lex--
		case Size:
			nb.Size--
		}
		if nb.Shape < 0 || nb.Lex < 0 || nb.Size < 0 {
			continue
		}
		for alt := 1; alt < pts[i].n; alt++ {
			if pts[i].class == Size && Sizes[alt] > 40 {
				if Sizes[alt] > 100 && depth > 0 {
					break
				}
				nb = Budget{}
			}
			np := make([]int, i+1)
			for j := 0; j < i; j++ {
				np[j] = pts[j].taken
			}
			np[i] = alt
			if !e.explore(np, nb, depth+1) {
				return false
			}
		}
	}
	return true
}

// Replay runs gen with the given choices.
func Replay(gen func(*G), choices []int) *G {
	g := NewG(choices)
	gen(g)
	return g
}
