package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

var (
	flagRepo   = flag.String("repo", "/repo", "repository to analyse")
	flagUnits  = flag.String("units", "", "run only the units whose names contain one of these (comma separated)")
	flagCheck  = flag.String("check", "", "decide this property")
	flagVerif  = flag.String("verif", ".", "directory of the evidence and the known findings")
	flagProf   = flag.String("cpuprofile", "", "profile the first 15 seconds")
	flagV      = flag.Bool("v", false, "verbose")
	flagThor   = flag.Bool("thorough", false, "also follow the first iterations of all loops exactly")
	flagDebug2 = flag.Bool("stages", false, "report the stages of confirming runs")
	flagDebug  = flag.Bool("debug", false, "debug the loop engine")
)

func newEngine(w *World) (*ai.Eng, string) {
	e := ai.NewEng(w.Prog, w.InModule)
	var ps []*ssa.Package
	for _, p := range w.Pkgs {
		if sp := w.SSA[p.PkgPath]; sp != nil && p.Name != "main" && !strings.Contains(p.PkgPath, "/_examples/") {
			ps = append(ps, sp)
		}
	}
	e.D.Obligations = false
	msg := e.InitPackages(ps, nil)
	return e, msg
}

func main() {
	flag.Parse()
	thorough = *flagThor
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(5 << 30)
	if *flagCheck != "" {
		os.Exit(check(*flagCheck, *flagVerif))
	}
	if *flagProf != "" {
		f, _ := os.Create(*flagProf)
		pprof.StartCPUProfile(f)
		go func() { time.Sleep(70 * time.Second); pprof.StopCPUProfile(); os.Exit(3) }()
	}
	t := time.Now()
	w, err := Load(*flagRepo)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	l, err := newLay(w)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	e, msg := newEngine(w)
	fmt.Println("loaded", time.Since(t), msg)
	e.Debug = *flagDebug
	for _, un := range units {
		if *flagUnits != "" {
			ok := false
			for _, s := range strings.Split(*flagUnits, ",") {
				ok = ok || strings.Contains(un.Name, s)
			}
			if !ok {
				continue
			}
		}
		u := execute(w, e, l, un)
		n := 0
		for _, k := range u.Checks {
			n += k
		}
		fmt.Printf("%-40s %4d findings %4d undecided %6d checks %5d outcomes %v\n", un.Name, len(u.Findings), len(u.Undecided), n, u.Outcomes, u.Wall.Round(time.Millisecond))
		for _, s := range u.Undecided {
			fmt.Println("   UNDECIDED", s)
		}
		for _, f := range u.Findings {
			fmt.Printf("   %s [%s] %s: %s (%s)\n", f.Prop, f.Rule, f.Pos, f.Msg, f.In)
			if *flagV {
				for _, p := range f.Path {
					fmt.Println("        ", p)
				}
			}
		}
	}
	fmt.Println("total", time.Since(t))
	_ = sort.Strings
}
