package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// Finding is a property violation found in the source.
type Finding struct {
	Prop string   `json:"property"`
	Unit string   `json:"unit"`
	Rule string   `json:"rule"`
	Msg  string   `json:"message"`
	Pos  string   `json:"position"`
	In   string   `json:"function,omitempty"`
	Path []string `json:"path,omitempty"`
}

// Unit is one analysis: a set of entry points with a specification.
type Unit struct {
	Name  string
	Props []string
	Run   func(u *U)
}

// U is the context of a running unit.
type U struct {
	W         *World
	E         *ai.Eng
	L         *Lay
	Name      string
	Props     []string
	Findings  []Finding
	Undecided []string
	Checks    map[string]int
	hunt      bool // a loop may never end
	shrink    bool // large numbers are taken for small ones
	Outcomes  int
	Wall      time.Duration
	Facts     map[string]int
	seen      map[string]bool
	ctorTime  bool
	entry     string
	entryPos  token.Pos
	mark      int
	panicTo   []string
	after     func(d *ai.Driver)
	locked    map[int]bool // captured variables written while a lock is held
	unlocked  map[int]access
	deep      map[string]int
	width     int
	bound     int // iterations followed (0: all)
	depth     int
	choices   []choice // of constructor outcomes, in this attempt
	chosen    int
	failed    string          // why the analysis gave up
	made      map[*ai.T]*ai.T // slices made through the slice interface and their storage
}

type access struct {
	pos  token.Pos
	path []string
	name string
}

// Lay gives access to the data types of the library by their public names.
type Lay struct {
	Ctx, Ast, Pos, Times, Neg, There, Rewind, RuneRange *types.Named
	AstSlice, SliceLike, Box, ParserFn, TransformerFn   *types.Named
	AstT                                                map[string]int64
	Str, Any, Err                                       types.Type
}

const basePkg, strPkg, objPkg, extraPkg = "base", "string", "object", "extra"

func newLay(w *World) (*Lay, error) {
	l := &Lay{AstT: map[string]int64{}}
	var miss []string
	get := func(n string) *types.Named {
		t := w.Named(basePkg, n)
		if t == nil {
			miss = append(miss, n)
		}
		return t
	}
	l.Ctx, l.Ast, l.Pos = get("ParserContext"), get("Ast"), get("SourcePosition")
	l.Times, l.Neg, l.There, l.Rewind = get("Times"), get("Negative"), get("ThereExists"), get("Rewind")
	l.RuneRange, l.AstSlice, l.SliceLike, l.Box = get("RuneRange"), get("AstSlice"), get("SliceLike"), get("Box")
	l.ParserFn, l.TransformerFn = get("ParserFn"), get("TransformerFn")
	if len(miss) > 0 {
		return nil, fmt.Errorf("the public types %v of package base are gone", miss)
	}
	l.Str = types.Typ[types.String]
	l.Any = types.NewInterfaceType(nil, nil)
	l.Err = types.Universe.Lookup("error").Type()
	for _, n := range []string{"Nil", "Rune", "Int", "Uint", "Float", "Bool", "String", "AstCons", "ListOfAst", "ListOfAny", "Function", "Any"} {
		k, ok := w.Const(basePkg, "AstType_"+n)
		if !ok {
			return nil, fmt.Errorf("the constant AstType_%s is gone", n)
		}
		l.AstT[n] = k
	}
	for i, n := range []string{"MatchStatus_Matched", "MatchStatus_Unmatched", "MatchStatus_Error"} {
		k, ok := w.Const(basePkg, n)
		if !ok {
			return nil, fmt.Errorf("the constant %s is gone", n)
		}
		stNum[i] = k
	}
	return l, nil
}

var stNum [3]int64

// Status constants.
const (
	sMatched = iota
	sUnmatched
	sError
)

func status(k int) *ai.T { return ai.Int(stNum[k]) }

func fieldPath(t *types.Named, name string) []int {
	o, idx, _ := types.LookupFieldOrMethod(t, true, t.Obj().Pkg(), name)
	if v, ok := o.(*types.Var); ok && v.IsField() {
		return idx
	}
	return nil
}

// F reads a field of a library struct by name.
func F(t *ai.T, n *types.Named, name string) *ai.T {
	p := fieldPath(n, name)
	if p == nil {
		panic(missing{"field " + n.Obj().Name() + "." + name})
	}
	for _, i := range p {
		t = ai.Sel(t, i)
	}
	return t
}

// W replaces a field of a library struct by name.
func With(t *ai.T, n *types.Named, name string, v *ai.T) *ai.T {
	p := fieldPath(n, name)
	if p == nil {
		panic(missing{"field " + n.Obj().Name() + "." + name})
	}
	return withPath(t, p, v)
}

func withPath(t *ai.T, p []int, v *ai.T) *ai.T {
	if len(p) == 0 {
		return v
	}
	return ai.With(t, p[0], withPath(ai.Sel(t, p[0]), p[1:], v))
}

type missing struct{ what string }

func (l *Lay) c(t *ai.T, f string) *ai.T           { return F(t, l.Ctx, f) }
func (l *Lay) a(t *ai.T, f string) *ai.T           { return F(t, l.Ast, f) }
func (l *Lay) cw(t *ai.T, f string, v *ai.T) *ai.T { return With(t, l.Ctx, f, v) }
func (l *Lay) aw(t *ai.T, f string, v *ai.T) *ai.T { return With(t, l.Ast, f, v) }

// Const is the value of a package level integer constant.
func (w *World) Const(pkg, name string) (int64, bool) {
	p := w.SSA[w.Module+"/"+pkg]
	if p == nil {
		return 0, false
	}
	c, ok := p.Members[name].(*ssa.NamedConst)
	if !ok {
		return 0, false
	}
	return c.Value.Int64(), true
}

// StrConst is the value of a package level string constant.
func (w *World) StrConst(pkg, name string) (string, bool) {
	p := w.SSA[w.Module+"/"+pkg]
	if p == nil {
		return "", false
	}
	c, ok := p.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return "", false
	}
	s := c.Val().ExactString()
	if len(s) >= 2 && s[0] == '"' {
		var r string
		if _, err := fmt.Sscanf(s, "%q", &r); err == nil {
			return r, true
		}
	}
	return "", false
}

// has reports whether the unit is responsible for the property.
func (u *U) has(p string) bool {
	for _, x := range u.Props {
		if x == p {
			return true
		}
	}
	return false
}

// bad records a violation.
func (u *U) bad(prop, rule string, st *ai.State, pos token.Pos, f string, a ...interface{}) {
	if !pos.IsValid() {
		pos = u.E.CurPos()
	}
	if !pos.IsValid() {
		pos = u.entryPos
	}
	u.E.ReportProp(st, prop, rule, pos, f, a...)
}

// need counts a check and records a violation when it fails.
func (u *U) need(ok bool, prop, rule string, st *ai.State, f string, a ...interface{}) bool {
	u.Checks[prop]++
	if !ok {
		u.bad(prop, rule, st, token.NoPos, f, a...)
	}
	return ok
}

// undecided records that the analysis could not decide.
func (u *U) undecided(f string, a ...interface{}) {
	u.Undecided = append(u.Undecided, u.entry+": "+fmt.Sprintf(f, a...))
}

// run evaluates f, turning an undecided analysis into a record.
func (u *U) run(entry string, pos token.Pos, f func()) {
	u.entry, u.entryPos = entry, pos
	u.depth++
	ended, writes := u.E.Stats.Ended, u.E.Stats.Writes
	u.attempt(f)
	u.Checks["C36"] += u.E.Stats.Ended - ended
	u.Checks["C15"] += u.E.Stats.Writes - writes
	u.depth--
	u.confirm(f)
	for id := range u.locked {
		if a, ok := u.unlocked[id]; ok {
			u.bad("C15", "unsynchronised read", nil, a.pos, "the variable %q is written under a lock while parsing, but read without any synchronisation, so concurrent uses of one parser race", a.name)
		}
	}
	u.locked, u.unlocked = map[int]bool{}, map[int]access{}
	for _, fd := range u.E.Findings {
		u.engineFinding(fd)
	}
	u.E.Findings = nil
}

// attempt runs f and returns why it could not be finished.
func (u *U) attempt(f func()) {
	if *flagDebug2 {
		t0 := time.Now()
		defer func() {
			fmt.Println("ATTEMPT", u.entry, u.bound, u.deep, u.width, time.Since(t0), len(u.E.Findings), u.failed)
			for _, x := range u.E.Findings {
				fmt.Println("   ", x.Prop, x.Rule, x.Msg)
				for _, l := range x.Path {
					fmt.Println("       ", l)
				}
			}
		}()
	}
	u.E.Findings = nil
	if u.bound == 0 {
		u.E.LoopConst = map[string]int{}
	}
	u.failed = ""
	defer func() {
		if r := recover(); r != nil {
			if m, ok := r.(missing); ok {
				u.failed = m.what + " is gone"
				return
			}
			if *flagDebug {
				panic(r)
			}
			u.failed = fmt.Sprintf("internal error: %v", r)
			u.E.Reset()
		}
	}()
	choices, chosen := u.choices, u.chosen
	defer func() { u.choices, u.chosen = choices, chosen }()
	u.choices = nil
	for round := 0; ; round++ {
		u.chosen = 0
		failed := u.E.Run(f)
		if u.E.Again {
			u.E.Again = false
			failed = u.E.Run(f)
			u.E.Again = false
		}
		if u.failed == "" {
			u.failed = failed
		}
		if !u.nextRound() {
			return
		}
		if round == maxRounds {
			u.failed = "too many combinations of constructor outcomes"
			return
		}
	}
}

// boundDepth is the number of iterations a confirming run follows.
const boundDepth = 3

// thorough makes every analysis be repeated with the first iterations of its
// loops followed exactly, which also guards against an error in the
// abstraction of loops.
var thorough bool

const thoroughDepth = 4

// confirm decides what to make of findings that may be artefacts of the
// abstraction of a loop, and of an analysis that was given up: the entry is
// analysed once more with loops restricted to their first iterations, where
// nothing is abstracted. A finding of that analysis stands. One that only
// the abstraction produces leaves the question undecided.
func (u *U) confirm(f func()) {
	u.hunt = false
	fs, failed := u.E.Findings, u.failed
	soft := false
	for _, x := range fs {
		soft = soft || x.Soft
		u.hunt = u.hunt || x.Prop == "C36" && u.bound == 0
	}
	if u.bound > 0 || !soft && failed == "" && (!thorough || u.depth == 0) {
		u.sift(fs)
		return
	}
	checks, outs, lk, ul := u.Checks, u.Outcomes, u.locked, u.unlocked
	u.Checks, u.locked, u.unlocked = map[string]int{}, map[int]bool{}, map[int]access{}
	key := func(x ai.Finding) string { return x.Prop + "|" + x.Rule }
	known := map[string]bool{}
	for _, x := range fs {
		known[key(x)] = true
	}
	u.E.SawLarge = false
	var firm []ai.Finding
	stages := []stage{{bound: 2, limit: 30}, {bound: 1, width: 2, limit: 40}, {bound: boundDepth, limit: 100}, {bound: 1, width: 8, limit: 40}, {bound: boundDepth, limit: 60, shrink: true}}
	if thorough {
		stages = append([]stage{{bound: thoroughDepth}}, stages...)
	}
	for _, s := range stages {
		if s.width > 0 {
			if u.deep = u.deepLoops(fs, firm); u.deep == nil {
				continue
			}
		}
		if s.shrink && !u.E.SawLarge {
			continue
		}
		u.shrink = s.shrink
		u.bound, u.width, u.E.Limit = s.bound, s.width, s.limit*time.Second
		u.attempt(f)
		u.bound, u.deep, u.shrink, u.E.Limit = 0, nil, false, 0
		for _, x := range u.E.Findings {
			if !s.shrink || known[key(x)] {
				firm = append(firm, x)
			}
		}
		if n := u.unconfirmed(fs, firm); n == 0 && (failed == "" || len(firm) > 0 || s.bound >= boundDepth) {
			break
		}
	}
	u.Checks, u.Outcomes, u.locked, u.unlocked = checks, outs, lk, ul
	u.E.Findings = nil
	found := map[string]bool{}
	for _, x := range firm {
		found[key(x)] = true
		if failed != "" || !known[key(x)] { // a path the other analysis abandoned
			u.E.Findings = append(u.E.Findings, x)
		}
	}
	if failed != "" {
		u.undecided("%s", failed)
	}
	open := map[string]bool{}
	for _, x := range fs {
		switch {
		case !x.Soft || found[key(x)]:
			u.E.Findings = append(u.E.Findings, x)
		case !open[key(x)]:
			open[key(x)] = true
			u.undecided("%s: %s: %s", key(x), u.W.Rel(x.PosStr), phiName.ReplaceAllString(x.Msg, "φ$1.$2"))
		}
	}
	u.sift(u.E.Findings)
}

// deepLimit is the number of iterations a confirming run follows at most.
const deepLimit = 1100

// stage is one of the runs that confirm findings: the iterations of every
// loop it follows, the paths followed deeply in some of them, and a time
// limit in seconds.
type stage struct {
	bound, width int
	limit        time.Duration
	shrink       bool // the comparisons of loop counters with larger numbers
}

// unconfirmed counts the kinds of soft findings not among the firm ones.
func (u *U) unconfirmed(fs, firm []ai.Finding) int {
	found := map[string]bool{}
	for _, x := range firm {
		found[x.Prop+"|"+x.Rule] = true
	}
	n := 0
	for _, x := range fs {
		if x.Soft && !found[x.Prop+"|"+x.Rule] {
			n++
		}
	}
	return n
}

// deepLoops says which loops need more iterations than the confirming run
// followed before a finding can be seen that it did not see, or may behave
// differently later.
func (u *U) deepLoops(fs, firm []ai.Finding) map[string]int {
	found := map[string]bool{}
	for _, x := range firm {
		found[x.Prop+"|"+x.Rule] = true
	}
	r, open, deeper := map[string]int{}, false, false
	need := func(n string, k int) {
		if k <= deepLimit {
			deeper = deeper || k >= boundDepth-1
			r[n] = max(r[n], k+2)
		}
	}
	for _, x := range fs {
		if x.Soft && !found[x.Prop+"|"+x.Rule] {
			open = true
			for n, k := range x.Need {
				need(n, int(k))
			}
		}
	}
	if !open {
		return nil
	}
	for n, k := range u.E.LoopConst {
		if k >= boundDepth-1 {
			need(n, k)
		}
	}
	if !deeper {
		return nil
	}
	return r
}

// sift sets findings aside that depend on the result of a library function
// the analysis has no model of.
func (u *U) sift(fs []ai.Finding) {
	u.E.Findings = nil
	open := map[string]bool{}
	for _, x := range fs {
		if x.Opaque == "" {
			u.E.Findings = append(u.E.Findings, x)
			continue
		}
		if k := x.Prop + "|" + x.Rule + "|" + x.Opaque; !open[k] {
			open[k] = true
			u.undecided("%s|%s: %s: depends on %s: %s", x.Prop, x.Rule, u.W.Rel(x.PosStr), x.Opaque, x.Msg)
		}
	}
}

// phiName shortens the names of loop variables in messages.
var phiName = regexp.MustCompile(`φ(\d+)\[[^\[\]]*\|([^\[\]|]*)\]`)

func (u *U) engineFinding(fd ai.Finding) {
	x := Finding{Unit: u.Name, Rule: fd.Rule, Msg: fd.Msg, Pos: u.W.Rel(fd.PosStr), In: u.entry}
	for _, s := range fd.Path {
		x.Path = append(x.Path, strings.ReplaceAll(s, u.W.Repo+"/", ""))
	}
	x.Msg = phiName.ReplaceAllString(strings.ReplaceAll(x.Msg, u.W.Repo+"/", ""), "φ$1.$2")
	for i, s := range x.Path {
		x.Path[i] = phiName.ReplaceAllString(s, "φ$1.$2")
	}
	props := []string{fd.Prop}
	if fd.Prop == "" {
		props = u.panicTo
		if props == nil {
			props = []string{"C13"}
		}
	}
	for _, p := range props {
		x.Prop = p
		k := x.Prop + x.Rule + x.Msg + x.Pos
		if u.seen[k] {
			continue
		}
		u.seen[k] = true
		u.Findings = append(u.Findings, x)
	}
}

// driver installs the default driver of a unit.
func (u *U) driver() *ai.Driver {
	d := &ai.Driver{Obligations: true, Bound: u.bound, Hunt: u.hunt, Shrink: u.shrink, Deep: u.deep, Width: u.width, Watch: map[*ai.T]*ai.T{}}
	d.OnWrite = func(e *ai.Eng, st *ai.State, o *ai.Obj, idx *ai.T, pos token.Pos, what string) {
		switch {
		case o.Label == "stack":
			u.bad("C02", "write below the entry mark", st, pos, "%s at index %s may overwrite an entry of the AST stack that was there before this parser started", what, idx)
		case o.Label == "asts":
			u.bad("C16", "write to the input of a transformer", st, pos, "%s at index %s writes into the ASTs handed to the transformer, which earlier parser states share", what, idx)
		default:
			u.bad("C15", "write to shared data", st, pos, "%s at index %s writes into %s, which all uses of the parser share", what, idx, o.Label)
		}
	}
	d.OnStoreCell = func(e *ai.Eng, st *ai.State, id int, o *ai.Obj, v *ai.T, pos token.Pos) {
		if u.ctorTime {
			return
		}
		if (id <= u.mark || e.GlobalOf(id) != nil) && holds(st, ai.Lt(ai.Int(0), st.G("sync"))) && !e.SelfStore && !u.fromInput(v) {
			u.locked[id] = true
			return
		}
		if g := e.GlobalOf(id); g != nil {
			u.bad("C15", "write to a global variable while parsing", st, pos, "the package variable %s is written while parsing", g.Name())
			return
		}
		if id <= u.mark {
			n := o.Label
			if n == "" {
				n = o.Site
			}
			u.bad("C15", "write to a captured variable while parsing", st, pos, "the variable %q captured at construction is written while parsing, so uses of one parser interfere", n)
		}
	}
	u.locked, u.unlocked = map[int]bool{}, map[int]access{}
	d.OnLoadCell = func(e *ai.Eng, st *ai.State, id int, o *ai.Obj, pos token.Pos) {
		if u.ctorTime || id > u.mark && e.GlobalOf(id) == nil {
			return
		}
		if !holds(st, st.G("synced")) {
			n := o.Label
			if n == "" {
				n = o.Site
			}
			u.unlocked[id] = access{pos, st.Path(24), n}
		}
	}
	u.E.D = d
	ai.SliceAxiom = nil
	if u.after != nil {
		u.after(d)
	}
	return d
}

// fromInput reports whether a value that is kept for later uses comes from
// the input of this use.
func (u *U) fromInput(v *ai.T) bool {
	if v == nil {
		return true
	}
	if v.Typ != nil && (v.Op == "app" || v.Op == "sym" || v.Op == "struct") {
		switch v.Typ {
		case u.L.Ctx, u.L.Ast, u.L.AstSlice:
			return true
		}
	}
	return ai.MentionsAny(v, func(t *ai.T) bool {
		if t.Op != "sym" {
			return false
		}
		switch t.S {
		case "src", "source", "pos", "stack", "asts":
			return true
		}
		return strings.HasPrefix(t.S, "ctx.")
	})
}

// ctor evaluates a constructor call and returns its outcomes.
func (u *U) ctor(st *ai.State, fn *ssa.Function, args ...*ai.T) []ai.Outcome {
	u.ctorTime = true
	defer func() { u.ctorTime = false; u.mark = ai.ObjMark() }()
	return u.E.CallFn(fn, args, st, token.NoPos)
}

// ctor1 is a constructor call that must return one function.
func (u *U) ctor1(st *ai.State, fn *ssa.Function, args ...*ai.T) (*ai.State, *ai.T) {
	o := u.pick(u.ctor(st, fn, args...), fn.Name())
	return o.St, o.Val
}

// pick chooses the outcome of a construction that this round of the analysis
// follows; attempt repeats the analysis for every combination of choices.
func (u *U) pick(outs []ai.Outcome, name string) ai.Outcome {
	for _, o := range outs {
		if o.Panic != nil || o.Val == nil {
			u.E.GiveUp("constructor %s may panic", name)
		}
	}
	if len(outs) == 0 {
		u.E.GiveUp("constructor %s has no outcome", name)
	}
	if len(outs) == 1 {
		return outs[0]
	}
	if u.chosen == len(u.choices) {
		u.choices = append(u.choices, choice{0, len(outs)})
	}
	c := &u.choices[u.chosen]
	u.chosen++
	if c.n != len(outs) {
		u.E.GiveUp("constructor %s has different outcomes in different rounds", name)
	}
	return outs[c.i]
}

// choice is one decision of a round: the outcome followed out of n.
type choice struct{ i, n int }

// nextRound moves on to the next combination of choices.
func (u *U) nextRound() bool {
	for n := len(u.choices) - 1; n >= 0; n-- {
		if c := &u.choices[n]; c.i+1 < c.n {
			c.i++
			u.choices = u.choices[:n+1]
			return true
		}
	}
	return false
}

// maxRounds bounds the number of combinations followed.
const maxRounds = 64

// fn finds a function that must exist.
func (u *U) fn(pkg, name string) *ssa.Function {
	f := u.W.Fn(pkg, name)
	if f == nil {
		panic(missing{"function " + pkg + "." + name})
	}
	return f
}

// In is a symbolic parser input.
type In struct {
	St    *ai.State
	Ctx   *ai.T
	P     *ai.T // position
	N     *ai.T // length of the source
	Src   *ai.T // source string or slice
	S0    *ai.T // stack content
	Stack *ai.T
	SLen  *ai.T
}

// input builds a symbolic parser context: any source, any position inside,
// any stack.
func (u *U) input(st *ai.State, object bool) *In {
	l := u.L
	in := &In{St: st}
	ct := l.Ctx
	sys := ct.Underlying().(*types.Struct)
	f := make([]*ai.T, sys.NumFields())
	for i := range f {
		f[i] = ai.Sym("ctx."+sys.Field(i).Name(), ai.SortOf(sys.Field(i).Type()), sys.Field(i).Type())
	}
	ctx := ai.Struct(ct, f)
	in.P = ai.Sym("pos", ai.SInt, types.Typ[types.Int])
	src := ai.Sym("src", ai.SStr, l.Str)
	obj := ai.Sym("source", ai.SIface, l.SliceLike)
	if object {
		in.Src = obj
		in.N = ai.App("inv:Len", ai.SInt, types.Typ[types.Int], obj)
		st.F.Assume(ai.Le(ai.Int(0), in.N), true)
		st.F.Assume(ai.Eq(obj, ai.Nil(l.SliceLike)), false)
	} else {
		in.Src = src
		in.N = ai.StrLen(src)
	}
	st.F.Assume(ai.Le(ai.Int(0), in.P), true)
	st.F.Assume(ai.Le(in.P, in.N), true)
	in.Stack = st.SymSlice("stack", l.Ast, l.AstSlice)
	in.S0 = st.Content(in.Stack)
	in.SLen = ai.SeqLen(in.S0)
	st.F.Assume(ai.Le(ai.Int(0), in.SLen), true)
	ctx = l.cw(ctx, "Str", src)
	ctx = l.cw(ctx, "Slice", obj)
	ctx = l.cw(ctx, "Position", in.P)
	ctx = l.cw(ctx, "Length", ai.Sym("ctx.Length", ai.SInt, types.Typ[types.Int]))
	ctx = l.cw(ctx, "AstStack", in.Stack)
	ctx = l.cw(ctx, "MatchStatus", status(sMatched))
	in.Ctx = ctx
	return in
}

// Out is a decoded result of a parser call.
type Out struct {
	St     *ai.State
	Ctx    *ai.T
	Err    *ai.T
	Status int  // -1 unknown
	ErrNil bool // meaningful when decided
}

// outs decodes the outcomes of a parser call, splitting on the match status
// and the error.
func (u *U) outs(os []ai.Outcome) []Out {
	var r []Out
	for _, o := range os {
		u.Outcomes++
		if o.Panic != nil {
			u.panics(o)
			continue
		}
		if o.Val == nil || o.Val.Op != "tuple" || len(o.Val.A) != 2 {
			u.E.GiveUp("unexpected parser result")
		}
		ctx, err := o.Val.A[0], o.Val.A[1]
		ms := u.L.c(ctx, "MatchStatus")
		type c struct {
			st *ai.State
			k  int
		}
		var cs []c
		rest := o.St
		for k := 0; k < 3 && rest != nil; k++ {
			var y *ai.State
			y, rest = ai.Fork(rest, ai.Eq(ms, status(k)))
			if y != nil {
				cs = append(cs, c{y, k})
			}
		}
		if rest != nil {
			cs = append(cs, c{rest, -1})
		}
		for _, x := range cs {
			y, n := ai.Fork(x.st, ai.Eq(err, ai.Nil(u.L.Err)))
			if y != nil {
				r = append(r, Out{y, ctx, err, x.k, true})
			}
			if n != nil {
				r = append(r, Out{n, ctx, err, x.k, false})
			}
		}
	}
	return r
}

func (u *U) panics(o ai.Outcome) {
	ps := u.panicTo
	if ps == nil {
		ps = []string{"C13"}
	}
	for _, p := range ps {
		u.bad(p, "explicit panic", o.St, token.NoPos, "the call panics with %s", o.Panic)
	}
}

// same is equality under the facts of a state.
func same(st *ai.State, a, b *ai.T) bool { return st.F.Same(a, b) }

// sameList compares slice contents.
func sameList(st *ai.State, slice, want *ai.T) bool {
	return st.F.Same(st.Content(slice), want)
}

func decide(st *ai.State, c *ai.T) (val, known bool) { return st.F.Decide(c) }

func holds(st *ai.State, c *ai.T) bool {
	v, ok := st.F.Decide(c)
	return ok && v
}

// units is the registry.
var units []*Unit

func register(name string, props []string, run func(u *U)) {
	units = append(units, &Unit{name, append(props[:len(props):len(props)], "C36"), run})
}

func sortedProps(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// execute runs one unit.
func execute(w *World, eng *ai.Eng, lay *Lay, un *Unit) *U {
	t0 := time.Now()
	u := &U{W: w, E: eng, L: lay, Name: un.Name, Props: un.Props, Checks: map[string]int{}, Facts: map[string]int{}, seen: map[string]bool{}}
	u.run(un.Name, token.NoPos, func() { un.Run(u) })
	u.Wall = time.Since(t0)
	return u
}
