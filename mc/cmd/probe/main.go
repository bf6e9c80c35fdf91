package main

import (
	"bufio"
	"fmt"
	"os"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
)

func one(s string) {
	defer func() {
		if r := recover(); r != nil {
			fmt.Printf("PANIC %v   <- %q\n", r, s)
		}
	}()
	st, err := p.NewParser(s).ParseStmts()
	if err != nil {
		fmt.Printf("ERR %T %s   <- %q\n", err, strings.ReplaceAll(err.Error(), "\n", "\\n"), s)
		return
	}
	fmt.Printf("OK %d %q\n", len(st), s)
	for _, x := range st {
		f := p.Format(x)
		fmt.Printf("   %T %q\n", x, f)
		st2, err := p.NewParser(f).ParseStmts()
		if err != nil {
			fmt.Printf("   REPARSE-ERR %s\n", strings.ReplaceAll(err.Error(), "\n", "\\n"))
		} else if len(st2) != 1 || p.Format(st2[0]) != f {
			fmt.Printf("   REPARSE-DIFF\n")
		}
	}
}
func main() {
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		one(strings.ReplaceAll(sc.Text(), "\\n", "\n"))
	}
}
