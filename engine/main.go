package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func main() {
	if len(os.Args) < 2 {
		die("usage: gosym run|check|replay ...")
	}
	if f := os.Getenv("GOSYM_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	repo, verif := envOr("GOSYM_REPO", "/repo"), envOr("GOSYM_VERIF", "/verif")
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(18 << 30)
	switch os.Args[1] {
	case "check":
		// check -prop ID [-tier quick|thorough] [-v]
		prop, tier, v := "", envOr("VERIF_TIER", "quick"), false
		for i := 2; i < len(os.Args); i++ {
			switch os.Args[i] {
			case "-prop":
				i++
				prop = os.Args[i]
			case "-tier":
				i++
				tier = os.Args[i]
			case "-v":
				v = true
			}
		}
		rc := check(repo, verif, prop, tier, v)
		if os.Getenv("GOSYM_PROF") != "" {
			pprof.StopCPUProfile()
		}
		os.Exit(rc)
	case "selftest":
		n := 2000
		if len(os.Args) > 2 {
			n, _ = strconv.Atoi(os.Args[2])
		}
		os.Exit(selftest(1, n))
	case "replay":
		os.Exit(replay(repo, verif, os.Args[2]))
	case "run":
		// run PKG.FUNC [param=value ...] [unwind=N]
		pkg, fn, _ := strings.Cut(os.Args[2], ".")
		p, err := Prepare(repo, verif, pkg)
		if err != nil {
			die("%v", err)
		}
		defer p.Close()
		if err := p.BuildReplay(); err != nil {
			die("%v", err)
		}
		if err := p.Load(); err != nil {
			die("%v", err)
		}
		fmt.Fprintf(os.Stderr, "loaded in %.1fs (replay build %.1fs)\n", p.loadTime.Seconds(), p.buildTime.Seconds())
		sp := &Spec{Prop: "X00", Pkg: pkg, Func: fn, Params: map[string]int{}}
		for _, a := range os.Args[3:] {
			k, v, _ := strings.Cut(a, "=")
			n, _ := strconv.Atoi(v)
			switch k {
			case "unwind":
				sp.Unwind = n
			case "fork":
				sp.Fork = n == 1
			case "shards":
				sp.Shards = n
			case "shard":
				sp.shard = n
			case "lazy":
				sp.Lazy = n
			case "conc":
				sp.Conc = n == 1
			case "cut":
				sp.Cut = map[string]int{"github.com/danhhz/zeropb.Decode": n}
			case "split":
				sp.Split = n == 1
			default:
				sp.Params[k] = n
			}
		}
		r := p.RunSpec(sp, true)
		fmt.Printf("%s: %s, obligations %d discharged %d unknown %d, asserts %d, reached %v unreached %v, obs %d, queries %d, solver %.1fs, wall %.1fs\n", sp.Name(), r.status, r.obls, r.discharged, r.unknown, r.asserts,
			r.reached, r.unreached, r.obsChecked, r.queries, r.solverTime.Seconds(), r.wall.Seconds())
		for _, n := range r.notes {
			fmt.Println("  note:", n)
		}
		if r.violation != nil {
			fmt.Println("  VIOLATION", r.violation.Detail, p.saveCase(r.violation))
		}
	default:
		die("unknown command %s", os.Args[1])
	}
}
