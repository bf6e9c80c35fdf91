package main

import (
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"verif/mc/eng"
	"verif/mc/props"
)

func main() {
	var o eng.Options
	flag.StringVar(&o.Prop, "prop", "", "property id")
	flag.StringVar(&o.Tier, "tier", "", "quick or thorough")
	flag.StringVar(&o.Replay, "replay", "", "replay file")
	flag.StringVar(&o.Root, "root", ".", "verif root")
	flag.IntVar(&o.Shard, "shard", -1, "")
	flag.IntVar(&o.N, "n", 1, "")
	flag.StringVar(&o.Out, "out", "", "")
	flag.StringVar(&o.Page, "page", "", "")
	flag.IntVar(&o.Seconds, "seconds", 0, "")
	flag.IntVar(&o.Seed, "seed", -1, "")
	flag.IntVar(&o.Workers, "workers", 0, "")
	fresh := flag.Bool("fresh", false, "parse and format standard input (used by P13)")
	flag.Parse()
	if *fresh {
		b, _ := io.ReadAll(os.Stdin)
		os.Stdout.WriteString(props.IsoFresh(string(b)))
		return
	}
	if o.Tier == "" {
		o.Tier = os.Getenv("VERIF_TIER")
	}
	if o.Tier != "thorough" {
		o.Tier = "quick"
	}
	if o.Seed < 0 {
		o.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	}
	if o.Seconds == 0 {
		o.Seconds = 420
		if o.Tier == "thorough" {
			o.Seconds = 780
		}
	}
	o.Known = readKnown(filepath.Join(o.Root, "known-findings.txt"))
	if o.Replay != "" {
		os.Exit(eng.Replay(o))
	}
	if eng.Props[o.Prop] == nil {
		fmt.Println("unknown property", o.Prop)
		os.Exit(2)
	}
	if o.Shard >= 0 {
		eng.RunShard(o)
		return
	}
	os.Exit(eng.RunParent(o))
}

// readKnown parses lines `finding: property=<id> <finding-id> <what>`.
// Other lines (comments, `fixed:` records) suppress nothing.
func readKnown(path string) (out []eng.Known) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: property="), " ", 3)
		if len(f) == 3 {
			out = append(out, eng.Known{Prop: f[0], ID: f[1], What: f[2]})
		}
	}
	return
}
