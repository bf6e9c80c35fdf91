// racer runs every pair of the given inputs concurrently: parse, format, and
// read-only operations on one shared AST.  It is built with -race, whose
// detector ends the process with status 66 when two accesses are not ordered.
package main

import (
	"encoding/json"
	"fmt"
	"os"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
)

func look(st []p.Expr) string {
	out := ""
	for _, s := range st {
		out += p.Format(s) + "\n"
		f := p.NewFormatter()
		f.WithBeautify()
		f.WriteExpr(s)
		out += f.String() + "\n"
		n := 0
		p.Walk(s, func(e p.Expr) bool { n += int(e.Pos()) + int(e.End()); return true })
		s.Accept(&p.DefaultASTVisitor{Visit: func(p.Expr) error { n++; return nil }})
		b, _ := json.Marshal(s)
		out += fmt.Sprint(n) + string(b) + "\n"
	}
	return out
}

func full(src string) string {
	defer func() { recover() }()
	st, err := p.NewParser(src).ParseStmts()
	return fmt.Sprint(err) + look(st)
}

func both(f, g func() string) (a, b string) {
	start := make(chan struct{})
	done := make(chan struct{})
	go func() { <-start; a = f(); done <- struct{}{} }()
	go func() { <-start; b = g(); done <- struct{}{} }()
	close(start)
	<-done
	<-done
	return
}

func main() {
	var in []string
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	bad := func(f string, a ...any) { fmt.Printf(f+"\n", a...); os.Exit(3) }
	for _, x := range in {
		for _, y := range in {
			a, b := both(func() string { return full(x) }, func() string { return full(y) })
			if w := full(x); a != w {
				bad("%q beside %q: %s\ninstead of %s", x, y, a, w)
			}
			if w := full(y); b != w {
				bad("%q beside %q: %s\ninstead of %s", y, x, b, w)
			}
		}
		if st, err := p.NewParser(x).ParseStmts(); err == nil {
			a, b := both(func() string { return look(st) }, func() string { return look(st) })
			if a != b {
				bad("two readers of %q differ: %s\nand %s", x, a, b)
			}
		}
	}
}
