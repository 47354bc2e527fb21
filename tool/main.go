package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"
	"time"
)

func main() {
	prop := flag.String("p", "", "property to check")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "the repository")
	out := flag.String("out", "/verif/evidence", "where the evidence goes")
	known := flag.String("known", "/verif/known_findings.txt", "findings that are known")
	dump := flag.String("dump", "", "print the abstract paths of the functions with this name")
	goos := flag.String("goos", "linux", "for -dump")
	list := flag.Bool("list", false, "list the properties")
	flag.Parse()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if *list {
		for _, c := range checks {
			fmt.Println(c.id, c.title)
		}
		return
	}
	if *dump != "" {
		dumpFuncs(*repo, *goos, *dump)
		return
	}
	all := *prop == "all"
	rc, n := 0, 0
	for _, c := range checks {
		if all || c.id == *prop {
			n++
			done := make(chan int, 1)
			go func() { done <- runCheck(c, *repo, *tier, *out, *known, seed) }()
			select {
			case r := <-done:
				rc |= r
			case <-time.After(800 * time.Second):
				rc |= violate(c, *out, []Viol{{Rule: "undecided", What: "the analysis takes too long"}}, *known)
			}
			resetTerms()
		}
	}
	if n == 0 {
		fmt.Printf("no check for %q\n", *prop)
		fmt.Printf("VIOLATION property=%s replay=none\n", *prop)
		rc = 1
	}
	os.Exit(rc)
}

func dumpFuncs(repo, goos, name string) {
	dir, _ := os.MkdirTemp("", "ninepdump")
	defer os.RemoveAll(dir)
	pr, err := load(repo, Config{GOOS: goos}, dir)
	if err != nil {
		fmt.Println(err)
		return
	}
	for _, f := range pr.All {
		if f.Name() != name {
			continue
		}
		if os.Getenv("SSA") != "" {
			f.WriteTo(os.Stdout)
		}
		x := newExec(pr)
		outs, err := x.Run(f, newState(), params(f), nil)
		fmt.Println("==", f, len(outs), "paths", x.steps, "steps", err, x.undec)
		for _, o := range outs {
			dumpOutcome(pr, o)
		}
		for _, o := range x.obl {
			if !o.ok {
				fmt.Println("   OBL", o.kind, o.desc, pr.Where(o.pos))
			}
		}
	}
}

func dumpOutcome(pr *Program, o Outcome) {
	fmt.Println("--", o.kind, o.rets, pr.Where(o.pos))
	for _, f := range o.st.facts {
		fmt.Println("     fact", f)
	}
	dumpEvents(pr, o.st.events(), "     ")
	for p, b := range o.st.bufs {
		fmt.Println("     buf", p, o.st.cont[b.obj], "@", b.head)
	}
}

func dumpEvents(pr *Program, es []*Event, ind string) {
	for _, e := range es {
		if e.kind == "store" && e.args[0].op == "elem" && e.args[0].args[0].op == "alloc" && os.Getenv("ALL") == "" {
			continue
		}
		fmt.Println(ind+"ev", e.kind, e.name, e.args, "->", e.res, pr.Where(e.pos))
		if e.loop != nil {
			for _, b := range e.loop.back {
				fmt.Println(ind + "   back:")
				dumpEvents(pr, b.events, ind+"      ")
			}
		}
	}
}
