// Command steps prints the counted steps of parsing PRE U^n CORE V^n POST for
// doubling n (development aid; needs the instrumented build).
package main

import (
	"fmt"
	"os"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/mc/eng"
)

func main() {
	a := os.Args
	for n := 4; n <= 256; n *= 2 {
		s := a[1] + strings.Repeat(a[2], n) + a[3] + strings.Repeat(a[4], n) + a[5]
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Println(n, "BUDGET")
				}
			}()
			eng.StepLimit(100000000)
			st, err := p.NewParser(s).ParseStmts()
			x := eng.Steps()
			for _, e := range st {
				p.Format(e)
			}
			fmt.Println(n, x, eng.Steps()-x, err == nil)
		}()
	}
}
