package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/analyzer/ai"
)

// known is one entry of the known findings file.
type known struct {
	prop, unit, rule, text string
}

// key identifies a finding independently of line numbers.
func (f Finding) key() string { return f.Prop + "|" + f.Unit + "|" + f.In + "|" + f.Rule }

// readKnown reads the recorded findings ("finding: property=<id> key=<...> <what fails>").
func readKnown(path string) (map[string]string, error) {
	r := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		if os.IsNotExist(err) {
			return r, nil
		}
		return nil, err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "finding:") {
			continue
		}
		line = strings.TrimSpace(strings.TrimPrefix(line, "finding:"))
		i := strings.Index(line, "key=[")
		j := strings.Index(line, "]")
		if i < 0 || j < i {
			return nil, fmt.Errorf("malformed known finding: %s", line)
		}
		r[line[i+5:j]] = strings.TrimSpace(line[j+1:])
	}
	return r, sc.Err()
}

type unitReport struct {
	Unit      string         `json:"unit"`
	Checks    int            `json:"checks"`
	Outcomes  int            `json:"outcomes"`
	WallMS    int64          `json:"wall_ms"`
	Undecided []string       `json:"undecided,omitempty"`
	Facts     map[string]int `json:"facts,omitempty"`
}

// check decides one property and returns the exit status.
func check(prop, verif string) int {
	t0 := time.Now()
	ai.Until = t0.Add(600 * time.Second)
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	evDir := filepath.Join(verif, "evidence")
	os.MkdirAll(evDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(evDir, prop+".violation-*.json"))
	for _, f := range old {
		os.Remove(f)
	}

	var findings []Finding
	var undecided []string
	var reports []unitReport
	checks, outcomes := 0, 0
	stats := map[string]int{}
	var funcs, loops []string
	w, err := Load(*flagRepo)
	var ran []string
	if err != nil {
		undecided = append(undecided, "loading: "+err.Error())
	} else if l, err := newLay(w); err != nil {
		undecided = append(undecided, "loading: "+err.Error())
	} else {
		e, msg := newEngine(w)
		if msg != "" {
			undecided = append(undecided, "package initialisers: "+msg)
		}
		for _, un := range units {
			use := false
			for _, p := range un.Props {
				use = use || p == prop
			}
			if !use {
				continue
			}
			u := execute(w, e, l, un)
			ran = append(ran, un.Name)
			n := u.Checks[prop]
			checks += n
			outcomes += u.Outcomes
			for _, f := range u.Findings {
				if f.Prop == prop {
					findings = append(findings, f)
				}
			}
			for _, s := range u.Undecided {
				undecided = append(undecided, un.Name+": "+s)
			}
			reports = append(reports, unitReport{un.Name, n, u.Outcomes, u.Wall.Milliseconds(), u.Undecided, u.Facts})
		}
		stats["functions_in_repository"] = w.NFuncs
		stats["functions_analysed"] = len(e.Stats.Funcs)
		stats["loops_solved"] = len(e.Stats.Loops)
		stats["fixpoint_rounds"] = e.Stats.Rounds
		stats["instructions_interpreted"] = e.Stats.Instrs
		stats["panic_obligations"] = e.Stats.Oblig
		for f := range e.Stats.Funcs {
			if strings.Contains(f, w.Module) {
				funcs = append(funcs, strings.ReplaceAll(f, w.Module+"/", ""))
			}
		}
		for f := range e.Stats.Loops {
			loops = append(loops, strings.ReplaceAll(f, w.Module+"/", ""))
		}
		sort.Strings(funcs)
		sort.Strings(loops)
	}
	if len(ran) == 0 && len(undecided) == 0 {
		undecided = append(undecided, "no analysis is registered for this property")
	}

	kn, err := readKnown(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		undecided = append(undecided, err.Error())
	}
	viol := 0
	seenKnown := map[string]bool{}
	for _, f := range findings {
		if what, ok := kn[f.key()]; ok {
			if !seenKnown[f.key()] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, what)
			}
			seenKnown[f.key()] = true
			continue
		}
		viol++
		p := filepath.Join("evidence", fmt.Sprintf("%s.violation-%d.json", prop, viol))
		b, _ := json.MarshalIndent(f, "", " ")
		os.WriteFile(filepath.Join(verif, p), append(b, '\n'), 0o644)
		fmt.Printf("%s: %s: %s (analysing %s)\n", f.Pos, f.Rule, f.Msg, f.In)
		for _, s := range f.Path {
			fmt.Printf("    path: %s\n", s)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		if viol >= 20 {
			break
		}
	}
	for _, s := range undecided {
		fmt.Printf("UNDECIDED property=%s %s\n", prop, s)
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "other",
		"wall_s":     time.Since(t0).Seconds(),
		"violations": viol,
		"coverage": map[string]interface{}{
			"explanation": "Abstract interpretation of the SSA form of the current source: every listed function is evaluated on symbolic inputs (any source, position, stack and arguments), loops are solved to a fixpoint, and every path outcome is compared with the specification of the property.",
			"units":       reports, "specification_checks": checks, "path_outcomes": outcomes,
			"program": stats, "functions": funcs, "loops": loops, "undecided": undecided,
		},
		"assumptions": []string{
			"standard library functions behave as modelled (strings, unicode, utf8, strconv, reflect, fmt, sync.Once)",
			"int is 64 bit and positions and lengths do not overflow",
			"user supplied callbacks do not modify the parser state they are given",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write the evidence:", err)
	}
	if viol > 0 {
		return 1
	}
	if len(undecided) == 0 && checks > 0 {
		fmt.Printf("OK property=%s %d checks on %d path outcomes in %d units\n", prop, checks, outcomes, len(ran))
		return 0
	}
	return undecidedExit(prop, checks, undecided)
}

// undecidedExit reports an analysis that could not decide.
func undecidedExit(prop string, checks int, undecided []string) int {
	fmt.Printf("NO VERDICT property=%s on %d parts (%d checks held)\n", prop, len(undecided), checks)
	return 0
}
