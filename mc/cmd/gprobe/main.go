package main

import (
	"flag"
	"fmt"
	"sort"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/mc/gram"
)

func canonEq(a, b string) bool {
	x, e1 := gram.RefLex(a)
	y, e2 := gram.RefLex(b)
	if e1 != nil || e2 != nil || len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i].Text != y[i].Text {
			return false
		}
	}
	return true
}

func try(s string) (f string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("PANIC %v", r)
		}
	}()
	st, err := p.NewParser(s).ParseStmts()
	if err != nil {
		return "", err
	}
	if len(st) != 1 {
		return "", fmt.Errorf("nstmts=%d", len(st))
	}
	return p.Format(st[0]), nil
}

func main() {
	shape := flag.Int("s", 1, "")
	lex := flag.Int("l", 0, "")
	size := flag.Int("z", 0, "")
	only := flag.String("g", "", "")
	max := flag.Int("n", 60, "")
	flag.Parse()
	for _, gr := range gram.Grammars {
		if *only != "" && !strings.Contains(","+*only+",", ","+gr.Name+",") {
			continue
		}
		var st gram.Stats
		bad := map[string][]string{}
		nb := 0
		gr.Explore(gram.Budget{*shape, *lex, *size}, 0, 1, &st, func(g *gram.G) bool {
			src := g.Source()
			f, err := try(src)
			if err != nil {
				nb++
				m := strings.SplitN(err.Error(), "\n", 2)[0]
				if i := strings.Index(m, " "); strings.HasPrefix(m, "line") && i > 0 {
					m = m[strings.Index(m[5:], " ")+6:]
				}
				bad["ERR "+m] = append(bad["ERR "+m], src)
			} else if !canonEq(g.CanonText(), f) {
				nb++
				k := "FMT"
				bad[k] = append(bad[k], "\n     src   "+src+"\n     canon "+g.CanonText()+"\n     got   "+f)
			}
			return true
		})
		fmt.Printf("%s: derivations=%d bad=%d\n", gr.Name, st.Executions, nb)
		var ks []string
		for k := range bad {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			v := bad[k]
			fmt.Printf("  %s x%d\n", k, len(v))
			for i := 0; i < len(v) && i < *max; i++ {
				fmt.Printf("     %s\n", v[i])
			}
		}
	}
}
