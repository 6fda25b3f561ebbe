package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Outcome is one result of a call.
type Outcome struct {
	Val   *T // result value, tuple, or nil
	Panic *T // panic value when the call panics
	St    *State
}

// Finding is a reported problem.
type Finding struct {
	Prop   string
	Rule   string
	Msg    string
	Pos    token.Pos
	PosStr string
	Where  string
	Path   []string
	Stack  []string
	// Soft: the finding speaks about a value a loop abstraction lost track of.
	Soft bool
	// Opaque names a library function the analysis knows nothing about and
	// whose result the finding depends on.
	Opaque string
	// Need gives, for loops whose abstraction a soft finding depends on, a
	// number of iterations below which the finding cannot be seen.
	Need map[string]int64
}

// understood lists library functions whose results the specifications speak
// about, or that are known to give something other than what they are given.
var understood = []string{"strconv.", "time.", "(time.", "reflect.", "(reflect.", "math.", "errors.", "strings.ToLower", "strings.ToUpper", "strings.ToTitle", "strings.Title",
	"strings.Fields", "strings.Count", "strings.Split"}

// outside lists the packages whose functions read state outside of the
// program's values, and the functions of time that do.
var outside = map[string]bool{"math/rand": true, "math/rand/v2": true, "crypto/rand": true, "os": true, "os/user": true, "runtime": true, "runtime/debug": true,
	"net": true, "syscall": true, "flag": true, "io/ioutil": true, "os/exec": true, "hash/maphash": true,
	"time.Now": true, "time.Since": true, "time.Until": true, "time.Tick": true, "time.After": true}

// opaque is the first function among the terms that is not understood.
func (e *Eng) opaque(st *State, args []interface{}) string {
	name := ""
	hit := func(t *T) bool {
		return MentionsAny(t, func(x *T) bool {
			if x.Op != "app" || !strings.HasPrefix(x.S, "ext:") {
				return false
			}
			for _, p := range understood {
				if strings.HasPrefix(x.S[len("ext:"):], p) {
					return false
				}
			}
			name = x.S[len("ext:"):]
			return true
		})
	}
	for _, a := range args {
		if t, ok := a.(*T); ok && t != nil && hit(t) {
			return name
		}
	}
	if st != nil {
		st.F.Any(hit)
	}
	return name
}

// Driver customises the interpreter for one analysis.
type Driver struct {
	// OnFunc handles calls of unknown function values.
	OnFunc func(e *Eng, st *State, fn *T, args []*T, sig *types.Signature, pos token.Pos) ([]Outcome, bool)
	// OnStatic intercepts calls of known functions.
	OnStatic func(e *Eng, st *State, fn *ssa.Function, args []*T, pos token.Pos) ([]Outcome, bool)
	// OnInvoke handles interface method calls on unknown receivers.
	OnInvoke func(e *Eng, st *State, m *types.Func, recv *T, args []*T, pos token.Pos) ([]Outcome, bool)
	// OnWrite is told about a write into an array below its protected mark.
	OnWrite func(e *Eng, st *State, o *Obj, idx *T, pos token.Pos, what string)
	// OnStoreShared is told about writes to objects that existed before parsing.
	// The value is nil for maps.
	// OnSync is called before every operation of sync and sync/atomic; the
	// operation happens in each of the states it returns.
	OnSync      func(e *Eng, st *State, pos token.Pos) []*State
	OnStoreCell func(e *Eng, st *State, id int, o *Obj, v *T, pos token.Pos)
	// OnLoadCell is told about reads of single variables.
	OnLoadCell func(e *Eng, st *State, id int, o *Obj, pos token.Pos)
	// TypeAxiom may prove that an interface value has a dynamic type.
	TypeAxiom func(e *Eng, st *State, x *T, t types.Type) bool
	// Obligations tells whether panic freedom is checked.
	Obligations bool
	// Bound, when positive, replaces the abstraction of loops by their first
	// iterations.
	Bound int
	// Deep gives another number for some loops, of which only a few paths
	// are followed that far.
	Deep map[string]int
	// Hunt looks for loops that never end although numbers change in them.
	Hunt bool
	// Width is the number of those paths.
	Width int
	// Shrink takes large numbers that loop counters are compared with for
	// small ones.
	Shrink bool
	// Watch gives for a base sequence the distinguished index.
	Watch map[*T]*T
	// Axiom, for a base sequence, may add what is known about an element when
	// it is read; it may split the state.
	Axiom map[*T]func(st *State, idx, elem *T) []*State
	// Global gives the value of a global variable.
	Global func(e *Eng, g *ssa.Global) *T
	// GhostPart lists ghost variables that partition loop heads.
	Part func(name string) bool
	// Peel keeps the first iteration of a loop apart from the others.
	Peel bool
	// OnChar is told about the byte or, with width w, the decoded character c
	// read at the offset k of s; it may split the state.
	OnChar func(e *Eng, st *State, s, k, w, c *T, pos token.Pos) []*State
}

// Eng is the abstract interpreter.
type Eng struct {
	Prog      *ssa.Program
	Fset      *token.FileSet
	InModule  func(p *types.Package) bool
	D         *Driver
	Findings  []Finding
	Stats     Stats
	stack     []*ssa.Function
	recs      []callRec // as long as stack
	posStack  []token.Pos
	runEnd    time.Time
	closFn    map[string]*ssa.Function
	loopNames map[int64]string
	// SelfStore is set while a value is stored that was computed from the
	// one it replaces.
	SelfStore bool
	// Again asks for the analysis to be repeated, because something that was
	// met late concerns what came before.
	Again bool
	pools map[string]bool
	// SawLarge is set when a number that Shrink is about was met.
	SawLarge bool
	// LoopConst gives, by loop, the largest small number its function uses.
	LoopConst map[string]int
	methods   map[string]*types.Func // methods of deferred interface calls
	loopInfo  map[*ssa.Function]*loopData
	decided   map[*ssa.BasicBlock]map[*ssa.Phi]bool
	globals   map[*ssa.Global]int
	baseHeap  map[int]*Obj
	steps     int
	lastCall  token.Pos
	MaxSteps  int
	Limit     time.Duration // of a run, instead of the usual one
	Debug     bool
	globObj   map[int]*ssa.Global
	inited    map[*ssa.Package]bool
}

// Stats counts what was analysed.
type Stats struct {
	Funcs   map[string]bool
	Blocks  map[string]bool
	Instrs  int
	Calls   map[string]bool
	Loops   map[string]bool
	Rounds  int
	Oblig   int
	Writes  int // writes examined
	Ended   int // loops shown to come to an end
	Checks  int
	States  int
	Assumed map[string]bool
}

// Give up signal.
type giveUp struct{ msg string }

// GiveUp aborts the current analysis as undecided.
func (e *Eng) GiveUp(f string, a ...interface{}) {
	panic(giveUp{fmt.Sprintf(f, a...) + e.where()})
}

// Attempt runs f within an analysis and returns why it could not be finished.
func (e *Eng) Attempt(f func()) (undecided string) {
	stack, pos := e.stack, e.posStack
	defer func() {
		if r := recover(); r != nil {
			g, ok := r.(giveUp)
			if !ok {
				panic(r)
			}
			undecided = g.msg
			e.stack, e.posStack = stack, pos
		}
	}()
	f()
	return ""
}

func (e *Eng) where() string {
	if n := len(e.posStack); n > 0 {
		return " (in " + e.stack[n-1].String() + ")"
	}
	return ""
}

// NewEng makes an interpreter.
func NewEng(prog *ssa.Program, inModule func(*types.Package) bool) *Eng {
	return &Eng{
		Prog: prog, Fset: prog.Fset, InModule: inModule, D: &Driver{},
		closFn: map[string]*ssa.Function{}, loopNames: map[int64]string{}, LoopConst: map[string]int{}, decided: map[*ssa.BasicBlock]map[*ssa.Phi]bool{}, loopInfo: map[*ssa.Function]*loopData{},
		globals: map[*ssa.Global]int{}, baseHeap: map[int]*Obj{}, globObj: map[int]*ssa.Global{}, inited: map[*ssa.Package]bool{},
		MaxSteps: 4000000,
		Stats: Stats{Funcs: map[string]bool{}, Blocks: map[string]bool{}, Calls: map[string]bool{},
			Loops: map[string]bool{}, Assumed: map[string]bool{}},
	}
}

// Running tells whether a call of fn is in progress.
func (e *Eng) Running(fn *ssa.Function) bool {
	for _, f := range e.stack {
		if f == fn {
			return true
		}
	}
	return false
}

// Reset forgets the calls in progress.
func (e *Eng) Reset() { e.stack, e.posStack = nil, nil }

// Run performs f and reports whether the analysis was able to decide.
// With a time limit for each run and a limit of memory an analysis that grows
// out of hand becomes undecided instead of giving no answer at all.
const (
	runLimit = 150 * time.Second
	memLimit = 10 << 30
)

// Until, when set, is the time at which every run ends.
var Until time.Time

func (e *Eng) limits() {
	now := time.Now()
	if !e.runEnd.IsZero() && now.After(e.runEnd) {
		e.GiveUp("out of time")
	}
	if e.Stats.Instrs&0xffff == 0 {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > memLimit {
			e.GiveUp("out of memory")
		}
	}
}

func (e *Eng) Run(f func()) (undecided string) {
	lim := runLimit
	if e.Limit > 0 {
		lim = e.Limit
	}
	e.runEnd = time.Now().Add(lim)
	if !Until.IsZero() && Until.Before(e.runEnd) {
		e.runEnd = Until
	}
	defer func() {
		if r := recover(); r != nil {
			if g, ok := r.(giveUp); ok {
				undecided = g.msg
				e.stack, e.posStack = nil, nil
				return
			}
			panic(r)
		}
	}()
	e.steps = 0
	ambientObj = e.obj
	f()
	return ""
}

// Report adds a finding.
func (e *Eng) Report(st *State, rule string, pos token.Pos, f string, a ...interface{}) {
	fd := Finding{Rule: rule, Msg: fmt.Sprintf(f, a...), Pos: pos}
	if !pos.IsValid() && len(e.posStack) > 0 {
		pos = e.posStack[len(e.posStack)-1]
	}
	fd.PosStr = e.PosStr(pos)
	if st != nil {
		fd.Path = st.Path(24)
	}
	fd.Opaque = e.opaque(st, a)
	fd.Soft = e.soft(st, strings.HasPrefix(rule, "panic:") || strings.HasPrefix(rule, "write "), a)
	if fd.Soft && st != nil {
		fd.Need = e.iterations(st)
	}
	for i, fn := range e.stack {
		fd.Stack = append(fd.Stack, fn.String()+" ("+e.PosStr(e.posStack[i])+")")
	}
	if n := len(e.stack); n > 0 {
		fd.Where = e.stack[n-1].String()
	}
	e.Findings = append(e.Findings, fd)
}

// iterations looks at the counters of loops in a state for the number of
// iterations the loops have had.
func (e *Eng) iterations(st *State) map[string]int64 {
	var r map[string]int64
	for _, t := range st.F.Collect(func(t *T) bool { return t.Sort == SInt && t.Op == "sym" && strings.HasPrefix(t.S, "φ") }) {
		s := st.F.BoundsOf(t)
		if len(s) == 0 || s[0].Lo <= 0 {
			continue
		}
		if r == nil {
			r = map[string]int64{}
		}
		if n := e.loopNames[t.I]; r[n] < s[0].Lo {
			r[n] = s[0].Lo
		}
	}
	return r
}

// anyPhi reports that t mentions what a loop abstraction left behind.
func anyPhi(t *T) bool {
	return MentionsAny(t, func(x *T) bool {
		return x.Op == "sym" && strings.HasPrefix(x.S, "φ") || x.Op == "app" && x.S == "opaqueseq"
	})
}

// soft decides whether a finding may be an artefact of a loop abstraction.
func (e *Eng) soft(st *State, panics bool, args []interface{}) bool {
	n := 0
	for _, a := range args {
		if t, ok := a.(*T); ok && t != nil {
			n++
			if anyPhi(t) {
				return true
			}
		}
	}
	if n > 0 && !panics || st == nil {
		return false
	}
	return st.F.Any(anyPhi)
}

// ReportProp adds a finding about a property.
func (e *Eng) ReportProp(st *State, prop, rule string, pos token.Pos, f string, a ...interface{}) {
	e.Report(st, rule, pos, f, a...)
	e.Findings[len(e.Findings)-1].Prop = prop
}

// CurPos is the innermost call position inside the module.
func (e *Eng) CurPos() token.Pos {
	if n := len(e.posStack); n > 0 {
		if e.lastCall.IsValid() {
			return e.lastCall
		}
		return e.posStack[n-1]
	}
	return token.NoPos
}

// PosStr renders a position.
func (e *Eng) PosStr(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	x := e.Fset.Position(p)
	return fmt.Sprintf("%s:%d", x.Filename, x.Line)
}

// Oblige checks that cond holds and continues under the assumption that it does.
func (e *Eng) Oblige(st *State, rule string, cond *T, pos token.Pos, f string, a ...interface{}) bool {
	e.Stats.Oblig++
	v, ok := st.F.Decide(cond)
	if ok && v {
		return true
	}
	if e.D.Obligations {
		e.Report(st, rule, pos, "%s (cannot establish %s)", fmt.Sprintf(f, a...), cond)
	}
	if ok && !v {
		return false
	}
	return st.F.Assume(cond, true)
}

// Frame is an activation.
type Frame struct {
	fn        *ssa.Function
	env       map[ssa.Value]*T
	defers    []deferred
	loops     []*loopCtx
	iterConst bool
	// iterOpen: another one was not
	iterOpen  bool
	panicking *T
	recovered *bool
	parentPan *panicCell
	callPos   token.Pos
}

type panicCell struct {
	val       *T
	recovered bool
}

type deferred struct {
	fn   *T
	args []*T
	call *ssa.CallCommon
	pos  token.Pos
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]*T, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.loops = f.loops[:len(f.loops):len(f.loops)]
	return &n
}

// Clos makes a function value.
func (e *Eng) Clos(fn *ssa.Function, bind ...*T) *T {
	k := fn.String()
	if fn.Parent() != nil {
		k = fn.Parent().String() + "/" + fn.Name()
	}
	if old := e.closFn[k]; old != nil && old != fn {
		k = fmt.Sprintf("%s@%d", k, fn.Pos())
	}
	e.closFn[k] = fn
	return mk("clos", k, 0, SFunc, fn.Signature, append([]*T(nil), bind...), nil)
}

// FnOf returns the function of a closure value.
func (e *Eng) FnOf(c *T) *ssa.Function {
	if c.Op == "clos" {
		return e.closFn[c.S]
	}
	return nil
}

// Call analyses a call of a known function.
func (e *Eng) Call(fn *ssa.Function, args []*T, bind []*T, st *State, pos token.Pos) []Outcome {
	return e.callPan(fn, args, bind, st, pos, nil)
}

func (e *Eng) callPan(fn *ssa.Function, args []*T, bind []*T, st *State, pos token.Pos, pc *panicCell) []Outcome {
	if len(fn.Blocks) == 0 {
		return e.external(fn, args, st, pos)
	}
	n := 0
	for _, f := range e.stack {
		if f == fn {
			n++
		}
	}
	var rec callRec
	if n > 0 {
		rec = callRec{args, bind, make(map[int]*Obj, len(st.heap))}
		for id, o := range st.heap {
			rec.heap[id] = o
		}
		for i, f := range e.stack {
			if f == fn && e.recs[i].same(rec, st.F) {
				e.ReportProp(st, "C36", "recursion without end", pos, "%s calls itself with the arguments it was called with", shortFn(fn))
				return nil
			}
		}
	}
	if n > 2 || len(e.stack) > 60 {
		e.GiveUp("recursion through %s", fn)
	}
	e.stack = append(e.stack, fn)
	e.recs = append(e.recs[:len(e.stack)-1:len(e.stack)-1], rec)
	e.posStack = append(e.posStack, pos)
	defer func() {
		e.stack = e.stack[:len(e.stack)-1]
		e.posStack = e.posStack[:len(e.posStack)-1]
	}()
	e.Stats.Funcs[fn.String()] = true
	fr := &Frame{fn: fn, env: map[ssa.Value]*T{}, parentPan: pc, callPos: pos}
	if len(args) != len(fn.Params) {
		e.GiveUp("arity mismatch calling %s: %d vs %d", fn, len(args), len(fn.Params))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = bind[i]
	}
	exits := e.goTo(fr, nil, fn.Blocks[0], st)
	var outs []Outcome
	for _, x := range exits {
		if x.Panic != nil && len(x.fr.defers) > 0 {
			outs = append(outs, e.unwind(x)...)
			continue
		}
		outs = append(outs, Outcome{x.Val, x.Panic, x.St})
	}
	return outs
}

// unwind runs the deferred calls of a panicking frame.
func (e *Eng) unwind(x exit) []Outcome {
	type cur struct {
		pan *T
		st  *State
	}
	cs := []cur{{x.Panic, x.St}}
	for i := len(x.fr.defers) - 1; i >= 0; i-- {
		d := x.fr.defers[i]
		var next []cur
		for _, c := range cs {
			pc := &panicCell{val: c.pan}
			for _, o := range e.callDeferred(x.fr, d, c.st, pc) {
				p := c.pan
				// recovered is tracked in the ghost state of the outcome
				if o.St.ghost["$recovered"] == True {
					p = nil
					delete(o.St.ghost, "$recovered")
				}
				if o.Panic != nil {
					p = o.Panic
				}
				next = append(next, cur{p, o.St})
			}
		}
		cs = next
	}
	var outs []Outcome
	for _, c := range cs {
		if c.pan != nil {
			outs = append(outs, Outcome{nil, c.pan, c.st})
			continue
		}
		// recovered: the function returns its (named) results
		if x.fr.fn.Recover != nil {
			fr := x.fr.clone()
			fr.defers = nil
			fr.loops = nil
			for _, y := range e.execFrom(fr, x.fr.fn.Recover, 0, c.st) {
				outs = append(outs, Outcome{y.Val, y.Panic, y.St})
			}
		} else {
			res := x.fr.fn.Signature.Results()
			var vs []*T
			for i := 0; i < res.Len(); i++ {
				vs = append(vs, Zero(res.At(i).Type()))
			}
			var v *T
			if len(vs) == 1 {
				v = vs[0]
			} else if len(vs) > 1 {
				v = Tuple(vs...)
			}
			outs = append(outs, Outcome{v, nil, c.st})
		}
	}
	return outs
}

func (e *Eng) callDeferred(fr *Frame, d deferred, st *State, pc *panicCell) []Outcome {
	if d.fn != nil && d.fn.Op == "clos" {
		fn := e.closFn[d.fn.S]
		if o, ok := e.model(fn, d.args, st, d.pos); ok {
			return o
		}
		if len(fn.Blocks) > 0 {
			return e.callPan(fn, d.args, d.fn.A, st, d.pos, pc)
		}
	}
	return e.CallValue(d.fn, d.args, nil, st, d.pos)
}

// exit is how control leaves a frame.
type exit struct {
	fr    *Frame
	Val   *T
	Panic *T
	St    *State
}

type edgeExit struct {
	fr       *Frame
	from, to *ssa.BasicBlock
	st       *State
}

type loopCtx struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	backs  []arrival
	exits  []edgeExit
}

type arrival struct {
	fr *Frame
	st *State
}

func (e *Eng) goTo(fr *Frame, from, to *ssa.BasicBlock, st *State) []exit {
	if n := len(fr.loops); n > 0 {
		lc := fr.loops[n-1]
		if to == lc.head {
			nf := fr.clone()
			e.phis(nf, from, to)
			lc.backs = append(lc.backs, arrival{nf, st})
			return nil
		}
		if !lc.blocks[to] {
			lc.exits = append(lc.exits, edgeExit{fr, from, to, st})
			return nil
		}
	}
	nf := fr.clone()
	e.phis(nf, from, to)
	if lb := e.loopsOf(fr.fn).heads[to]; lb != nil {
		return e.loop(nf, to, lb, st)
	}
	return e.execFrom(nf, to, 0, st)
}

func (e *Eng) phis(fr *Frame, from, to *ssa.BasicBlock) {
	if from == nil {
		return
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var vals []*T
	var phs []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phs = append(phs, p)
		vals = append(vals, e.val(fr, p.Edges[pi]))
	}
	for i, p := range phs {
		fr.env[p] = vals[i]
	}
}

// val evaluates an operand.
func (e *Eng) val(fr *Frame, v ssa.Value) *T {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return e.Clos(x)
	case *ssa.Global:
		return e.globalPtr(x)
	case *ssa.Builtin:
		return mk("builtin", x.Name(), 0, SFunc, nil, nil, nil)
	}
	t := fr.env[v]
	if t == nil {
		e.GiveUp("no value for %s in %s", v.Name(), fr.fn)
	}
	return t
}

func constVal(c *ssa.Const) *T {
	if c.Value == nil {
		return Zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int:
		if SortOf(c.Type()) == SInt {
			if k, ok := constant.Int64Val(c.Value); ok {
				return Int(k)
			}
			return Sym("bigint:"+c.Value.ExactString(), SInt, c.Type())
		}
	}
	return mk("float", c.Value.ExactString(), 0, SOther, c.Type(), nil, nil)
}

func (e *Eng) globalPtr(g *ssa.Global) *T {
	id, ok := e.globals[g]
	if !ok {
		objSeq++
		id = objSeq
		e.globals[g] = id
		e.globObj[id] = g
	}
	return PtrTo(id)
}

// GlobalOf returns the global variable of an object.
func (e *Eng) GlobalOf(id int) *ssa.Global { return e.globObj[id] }

// obj fetches an object; globals materialise on first use.
func (e *Eng) obj(st *State, id int) *Obj {
	if o := st.heap[id]; o != nil {
		return o
	}
	if g := e.globObj[id]; g != nil {
		var v *T
		if e.D.Global != nil {
			v = e.D.Global(e, g)
		}
		t := g.Type().(*types.Pointer).Elem()
		if v == nil {
			if o := e.baseHeap[id]; o != nil {
				st.heap[id] = o
				return o
			}
			v = Sym("global:"+g.String(), SortOf(t), t)
			if e.inited[g.Pkg] {
				p := e.alloc(st, t, "global")
				o := *st.heap[int(p.I)]
				delete(st.heap, int(p.I))
				o.Label = "global " + g.String()
				st.heap[id] = &o
				return &o
			}
		}
		o := &Obj{Kind: 'c', Val: v, Typ: t, Label: "global " + g.String()}
		st.heap[id] = o
		return o
	}
	if o := e.baseHeap[id]; o != nil {
		st.heap[id] = o
		return o
	}
	return nil
}

func (e *Eng) execFrom(fr *Frame, b *ssa.BasicBlock, i int, st *State) []exit {
	e.Stats.Blocks[fmt.Sprintf("%s#%d", fr.fn, b.Index)] = true
	for ; i < len(b.Instrs); i++ {
		e.steps++
		e.Stats.Instrs++
		if e.Stats.Instrs&255 == 0 {
			e.limits()
		}
		if e.steps > e.MaxSteps*(1+4*min(1, len(e.D.Deep))) {
			e.GiveUp("step budget exceeded")
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			return e.goTo(fr, b, b.Succs[0], st)
		case *ssa.If:
			return e.branch(fr, b, in, st)
		case *ssa.Return:
			var v *T
			switch len(in.Results) {
			case 0:
			case 1:
				v = e.val(fr, in.Results[0])
			default:
				var vs []*T
				for _, r := range in.Results {
					vs = append(vs, e.val(fr, r))
				}
				v = Tuple(vs...)
			}
			return []exit{{fr, v, nil, st}}
		case *ssa.Panic:
			st.Note("%s: panic", e.PosStr(in.Pos()))
			return []exit{{fr, nil, e.val(fr, in.X), st}}
		case *ssa.RunDefers:
			if len(fr.defers) == 0 {
				continue
			}
			return e.runDefers(fr, b, i, st)
		case *ssa.Defer:
			d := deferred{pos: in.Pos()}
			fnv, args := e.prepareCall(fr, st, &in.Call, in.Pos())
			d.fn, d.args, d.call = fnv, args, &in.Call
			fr.defers = append(fr.defers, d)
		case *ssa.Store:
			p := e.val(fr, in.Addr)
			v := e.val(fr, in.Val)
			e.SelfStore = dependsOn(in.Val, in.Addr, 0)
			sts := e.store(st, p, v, in.Pos())
			e.SelfStore = false
			if len(sts) == 0 {
				return nil
			}
			if len(sts) > 1 {
				var out []exit
				for _, s2 := range sts {
					out = append(out, e.execFrom(fr.clone(), b, i+1, s2)...)
				}
				return out
			}
			st = sts[0]
		case *ssa.MapUpdate:
			sts := e.mapUpdate(st, e.val(fr, in.Map), e.val(fr, in.Key), e.val(fr, in.Value), in.Pos())
			if len(sts) == 0 {
				return nil
			}
			if len(sts) > 1 {
				var out []exit
				for _, s2 := range sts {
					out = append(out, e.execFrom(fr.clone(), b, i+1, s2)...)
				}
				return out
			}
			st = sts[0]
		case *ssa.Go, *ssa.Send, *ssa.Select:
			e.GiveUp("concurrency construct at %s", e.PosStr(in.Pos()))
		case ssa.Value:
			outs := e.value(fr, in, st)
			if len(outs) == 0 {
				return nil
			}
			if len(outs) == 1 && outs[0].Panic == nil {
				fr.env[in] = outs[0].Val
				st = outs[0].St
				continue
			}
			var res []exit
			for _, o := range outs {
				if o.Panic != nil {
					res = append(res, exit{fr, nil, o.Panic, o.St})
					continue
				}
				nf := fr.clone()
				nf.env[in] = o.Val
				res = append(res, e.execFrom(nf, b, i+1, o.St)...)
			}
			return res
		default:
			e.GiveUp("unsupported instruction %T at %s", in, e.PosStr(in.Pos()))
		}
	}
	return nil
}

func (e *Eng) runDefers(fr *Frame, b *ssa.BasicBlock, i int, st *State) []exit {
	nf := fr.clone()
	ds := nf.defers
	nf.defers = nil
	cur := []*State{st}
	var out []exit
	for k := len(ds) - 1; k >= 0; k-- {
		var next []*State
		for _, s := range cur {
			for _, o := range e.callDeferred(nf, ds[k], s, &panicCell{}) {
				delete(o.St.ghost, "$recovered")
				if o.Panic != nil {
					out = append(out, exit{nf, nil, o.Panic, o.St})
					continue
				}
				next = append(next, o.St)
			}
		}
		cur = next
	}
	for _, s := range cur {
		out = append(out, e.execFrom(nf.clone(), b, i+1, s)...)
	}
	return out
}

func (e *Eng) branch(fr *Frame, b *ssa.BasicBlock, in *ssa.If, st *State) []exit {
	c := e.val(fr, in.Cond)
	if n := len(fr.loops); n > 0 {
		lc := fr.loops[n-1]
		switch {
		case lc.blocks[b.Succs[0]] && lc.blocks[b.Succs[1]]:
		case c.Op != "bool":
			fr.iterOpen = true
		case controls(in.Cond, lc.head, 0):
			fr.iterConst = true
		}
	}
	if v, ok := st.F.Decide(c); ok {
		k := 1
		if v {
			k = 0
		}
		return e.goTo(fr, b, b.Succs[k], st)
	}
	s2 := st.Clone()
	f2 := fr.clone()
	var out []exit
	pos := in.Cond.Pos()
	st.turn(uint64(pos) << 1)
	s2.turn(uint64(pos)<<1 | 1)
	if st.F.Assume(c, true) {
		st.Note("%s: %s", e.PosStr(pos), c)
		out = append(out, e.goTo(fr, b, b.Succs[0], st)...)
	}
	if s2.F.Assume(c, false) {
		s2.Note("%s: %s", e.PosStr(pos), Not(c))
		out = append(out, e.goTo(f2, b, b.Succs[1], s2)...)
	}
	return out
}

// controls reports whether a condition is computed from the variables a loop
// steps through.
func controls(v ssa.Value, hd *ssa.BasicBlock, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() == hd {
			return true
		}
		for _, e := range x.Edges {
			if controls(e, hd, d+1) {
				return true
			}
		}
	case *ssa.BinOp:
		return controls(x.X, hd, d+1) || controls(x.Y, hd, d+1)
	case *ssa.Convert:
		return controls(x.X, hd, d+1)
	case *ssa.ChangeType:
		return controls(x.X, hd, d+1)
	case *ssa.Extract:
		return controls(x.Tuple, hd, d+1)
	case *ssa.Next:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return controls(x.Call.Args[0], hd, d+1)
		}
	case *ssa.UnOp:
		if _, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			_, basic := x.Type().Underlying().(*types.Basic)
			return basic
		}
		return x.Op != token.MUL && controls(x.X, hd, d+1)
	}
	return false
}

// dependsOn reports whether a value is computed from the variable at an
// address.
func dependsOn(v, addr ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		return x.Op == token.MUL && sameAddr(x.X, addr) || x.Op != token.MUL && dependsOn(x.X, addr, d+1)
	case *ssa.BinOp:
		return dependsOn(x.X, addr, d+1) || dependsOn(x.Y, addr, d+1)
	case *ssa.Convert:
		return dependsOn(x.X, addr, d+1)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return dependsOn(x.Call.Args[0], addr, d+1)
		}
	case *ssa.Slice:
		return dependsOn(x.X, addr, d+1)
	}
	return false
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && x.Field == y.Field && sameAddr(x.X, y.X)
}

// Fork splits a state on a condition.
func Fork(st *State, c *T) (t, f *State) {
	if v, ok := st.F.Decide(c); ok {
		if v {
			return st, nil
		}
		return nil, st
	}
	s2 := st.Clone()
	if !st.F.Assume(c, true) {
		st = nil
	}
	if !s2.F.Assume(c, false) {
		s2 = nil
	}
	return st, s2
}

func one(v *T, st *State) []Outcome { return []Outcome{{v, nil, st}} }

// value evaluates a value producing instruction.
func (e *Eng) value(fr *Frame, in ssa.Value, st *State) []Outcome {
	switch x := in.(type) {
	case *ssa.Alloc:
		return one(e.alloc(st, x.Type().Underlying().(*types.Pointer).Elem(), x.Comment), st)
	case *ssa.BinOp:
		return e.binop(fr, x, st)
	case *ssa.UnOp:
		return e.unop(fr, x, st)
	case *ssa.ChangeType:
		v := e.val(fr, x.X)
		if v.Op == "struct" {
			v = Struct(x.Type(), v.A)
		}
		return one(v, st)
	case *ssa.ChangeInterface:
		return one(e.val(fr, x.X), st)
	case *ssa.Convert:
		return e.convert(st, e.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.Extract:
		v := e.val(fr, x.Tuple)
		if v.Op != "tuple" {
			e.GiveUp("extract from %s", v)
		}
		return one(v.A[x.Index], st)
	case *ssa.Field:
		return one(e.sel(st, e.val(fr, x.X), x.Field), st)
	case *ssa.FieldAddr:
		p := e.val(fr, x.X)
		if p.Op == "nil" {
			if e.D.Obligations {
				e.Report(st, "panic:nil", x.Pos(), "nil pointer dereference")
			}
			return nil
		}
		p = e.needPtr(st, p, x.Pos())
		return one(PtrTo(int(p.I), append(append([]*T{}, p.A...), fldStep(x.Field))...), st)
	case *ssa.IndexAddr:
		return e.indexAddr(fr, x, st)
	case *ssa.Index:
		return e.index(fr, x, st)
	case *ssa.Lookup:
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			return e.mapLookup(st, e.val(fr, x.X), e.val(fr, x.Index), m.Elem(), x.CommaOk, x.Pos())
		}
		e.GiveUp("lookup at %s", e.PosStr(x.Pos()))
	case *ssa.MakeClosure:
		var b []*T
		for _, v := range x.Bindings {
			b = append(b, e.val(fr, v))
		}
		return one(e.Clos(x.Fn.(*ssa.Function), b...), st)
	case *ssa.MakeInterface:
		v := e.val(fr, x.X)
		return one(Iface(x.X.Type(), v), st)
	case *ssa.MakeSlice:
		return e.makeSlice(st, e.val(fr, x.Len), e.val(fr, x.Cap), x.Type(), x.Pos())
	case *ssa.MakeMap:
		return one(PtrTo(st.NewObj(&Obj{Kind: 'm', Val: rawSeq(nil), Typ: x.Type(), Site: e.PosStr(x.Pos())})), st)
	case *ssa.Slice:
		return e.slice(fr, x, st)
	case *ssa.TypeAssert:
		return e.typeAssert(st, e.val(fr, x.X), x.AssertedType, x.CommaOk, x.Pos())
	case *ssa.Call:
		return e.callCommon(fr, &x.Call, st, x.Pos())
	case *ssa.Range:
		v := e.val(fr, x.X)
		if v.Sort != SStr {
			e.GiveUp("range over map at %s", e.PosStr(x.Pos()))
		}
		id := st.NewObj(&Obj{Kind: 'i', Val: Tuple(v, Int(0))})
		return one(PtrTo(id), st)
	case *ssa.Next:
		return e.next(fr, x, st)
	case *ssa.SliceToArrayPointer:
		e.GiveUp("slice to array pointer")
	case *ssa.MultiConvert, *ssa.MakeChan:
		e.GiveUp("unsupported %T", x)
	}
	e.GiveUp("unsupported instruction %T", in)
	return nil
}

func (e *Eng) sel(st *State, v *T, i int) *T {
	if v.Op != "struct" {
		v = st.F.find(v)
	}
	return Sel(v, i)
}

func (e *Eng) alloc(st *State, t types.Type, site string) *T {
	if a, ok := t.Underlying().(*types.Array); ok {
		return PtrTo(st.NewObj(&Obj{Kind: 'a', Seq: zeroSeq(a), Fam: NewFam(), Prot: Int(0), Elem: a.Elem(), Typ: t, Site: site}))
	}
	if n := TypeStr(t); n == "strings.Builder" || n == "bytes.Buffer" {
		return PtrTo(st.NewObj(&Obj{Kind: 'b', Val: rawSeq(nil), Typ: t}))
	}
	return PtrTo(st.NewObj(&Obj{Kind: 'c', Val: Zero(t), Typ: t, Site: site}))
}

var lazyPtr = map[*T]int{}

func (e *Eng) needPtr(st *State, p *T, pos token.Pos) *T {
	if p.Op == "ptr" {
		return p
	}
	if q := st.F.find(p); q.Op == "ptr" {
		return q
	}
	if p.Op != "nil" && p.Typ != nil {
		if pt, ok := p.Typ.Underlying().(*types.Pointer); ok {
			id, ok := lazyPtr[p]
			if !ok {
				objSeq++
				id = objSeq
				lazyPtr[p] = id
				lazyRev[id] = p
			}
			if st.heap[id] == nil {
				st.heap[id] = &Obj{Kind: 'c', Val: App("deref", SortOf(pt.Elem()), pt.Elem(), p), Typ: pt.Elem(), Label: "opaque " + p.String()}
			}
			return PtrTo(id)
		}
	}
	e.GiveUp("pointer %s at %s", p, e.PosStr(pos))
	return nil
}

// Load reads through a pointer.
func (e *Eng) Load(st *State, p *T, pos token.Pos) []Outcome {
	if p.Op == "nil" || st.F.find(p).Op == "nil" {
		if e.D.Obligations {
			e.Report(st, "panic:nil", pos, "nil pointer dereference")
		}
		return nil
	}
	p = e.needPtr(st, p, pos)
	o := e.obj(st, int(p.I))
	if o == nil {
		e.GiveUp("dangling pointer %s", p)
	}
	switch o.Kind {
	case 'c':
		if e.D.OnLoadCell != nil {
			e.D.OnLoadCell(e, st, int(p.I), o, pos)
		}
		v := o.Val
		for _, s := range p.A {
			if s.Op == "f" {
				v = e.sel(st, v, int(s.I))
				continue
			}
			if v.Op == "arr" {
				outs := e.AtSeq(st, v.A[0], s.A[0], v.Typ.Underlying().(*types.Array).Elem())
				if len(outs) == 1 {
					v, st = outs[0].Val, outs[0].St
					continue
				}
			}
			e.GiveUp("array in cell %s", v)
		}
		return one(v, st)
	case 'a':
		if len(p.A) == 0 {
			return one(mk("arr", "", 0, SOther, o.Typ, []*T{o.Seq}, nil), st)
		}
		var outs []Outcome
		for _, r := range e.AtSeq(st, o.Seq, p.A[0].A[0], o.Elem) {
			v := r.Val
			for _, s := range p.A[1:] {
				if s.Op != "f" {
					e.GiveUp("nested array")
				}
				v = e.sel(r.St, v, int(s.I))
			}
			if v.Op == "app" && v.S == "byte" && e.D.OnChar != nil {
				for _, s := range e.D.OnChar(e, r.St, v.A[0], v.A[1], Int(1), v, pos) {
					outs = append(outs, Outcome{v, nil, s})
				}
				continue
			}
			outs = append(outs, Outcome{v, nil, r.St})
		}
		return outs
	}
	if o.Kind == 'b' && len(p.A) == 0 {
		return one(mk("builder", "", 0, SOther, o.Typ, []*T{o.Val}, nil), st)
	}
	e.GiveUp("load from %c object", o.Kind)
	return nil
}

// AtSeq reads element i of a sequence, forking when its position is not
// determined.
func (e *Eng) AtSeq(st *State, q, i *T, elem types.Type) []Outcome {
	off := Int(0)
	for k, g := range q.A {
		l := segLen(g)
		end := Add(off, l)
		last := k == len(q.A)-1
		in := Lt(i, end)
		v, ok := st.F.Decide(in)
		if last && !ok {
			// reading past the end is an obligation of the index operation
			v, ok = true, true
		}
		if ok && !v {
			off = end
			continue
		}
		if ok {
			return e.atSeg(st, g, Sub(i, off), elem)
		}
		a, b := Fork(st, in)
		var outs []Outcome
		if a != nil {
			a.Note("index %s < %s", i, end)
			outs = append(outs, e.atSeg(a, g, Sub(i, off), elem)...)
		}
		if b != nil {
			b.Note("index %s >= %s", i, end)
			outs = append(outs, e.AtSeq(b, q, i, elem)...)
		}
		return outs
	}
	return one(App("beyond", SortOf(elem), elem, q, i), st)
}

func (e *Eng) atSeg(st *State, g, j *T, elem types.Type) []Outcome {
	switch g.Op {
	case "elem":
		return one(g.A[0], st)
	case "comp":
		return one(Subst(g.A[2], Kappa, Add(g.A[0], j)), st)
	}
	b := g.A[0]
	if ax := e.D.Axiom[b]; ax != nil {
		var outs []Outcome
		for _, o := range e.atBase(st, g, j, elem) {
			for _, s := range ax(o.St, o.Val.A[1], o.Val) {
				outs = append(outs, Outcome{o.Val, nil, s})
			}
		}
		return outs
	}
	return e.atBase(st, g, j, elem)
}

func (e *Eng) atBase(st *State, g, j *T, elem types.Type) []Outcome {
	b := g.A[0]
	idx := Add(g.A[1], j)
	if e.D.Watch != nil {
		if w := e.D.Watch[b]; w != nil {
			c := Eq(idx, w)
			y, n := Fork(st, c)
			var outs []Outcome
			if y != nil {
				if n != nil {
					y.Note("index %s is the witness", idx)
				}
				outs = append(outs, Outcome{At(b, w, elem), nil, y})
			}
			if n != nil {
				outs = append(outs, Outcome{At(b, idx, elem), nil, n})
			}
			return outs
		}
	}
	if elem == nil {
		elem = b.Typ
	}
	return one(At(b, idx, elem), st)
}

// SetSeq replaces element i of a sequence.
func (e *Eng) SetSeq(st *State, q, i, v *T, pos token.Pos) *T { return e.setSeq(st, q, i, v, pos) }

// setSeq replaces element i.
func (e *Eng) setSeq(st *State, q, i, v *T, pos token.Pos) *T {
	h, t, ok := st.split(q, i)
	if ok {
		_, t2, ok2 := st.split(t, Int(1))
		if ok2 && len(t.A) > 0 {
			return NewSeq([]*T{h, Elem(v), t2})
		}
	}
	b := Fresh("stored", SSeq, nil)
	st.F.Assume(Eq(SeqLenBase(b), SeqLen(q)), true)
	return SeqOf(b)
}

func (e *Eng) update(st *State, old *T, path []*T, v *T) *T {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	if s.Op == "f" {
		if old.Typ == nil {
			e.GiveUp("update of %s", old)
		}
		return With(old, int(s.I), e.update(st, Sel(old, int(s.I)), path[1:], v))
	}
	e.GiveUp("update of array in cell")
	return nil
}

func (e *Eng) store(st *State, p, v *T, pos token.Pos) []*State {
	if p.Op == "nil" || st.F.find(p).Op == "nil" {
		if e.D.Obligations {
			e.Report(st, "panic:nil", pos, "nil pointer dereference")
		}
		return nil
	}
	p = e.needPtr(st, p, pos)
	id := int(p.I)
	o := e.obj(st, id)
	if o == nil {
		e.GiveUp("dangling pointer %s", p)
	}
	switch o.Kind {
	case 'c':
		e.Stats.Writes++
		if e.D.OnStoreCell != nil {
			e.D.OnStoreCell(e, st, id, o, v, pos)
		}
		c := *o
		c.Val = e.update(st, o.Val, p.A, v)
		st.heap[id] = &c
		return []*State{st}
	case 'a':
		if len(p.A) == 0 {
			c := *o
			if v.Op == "arr" {
				c.Seq = v.A[0]
				st.heap[id] = &c
				return []*State{st}
			}
			e.GiveUp("array store")
		}
		idx := p.A[0].A[0]
		e.checkProt(st, o, idx, Int(1), pos, "store")
		var res []*State
		nv := v
		if len(p.A) > 1 {
			for _, r := range e.AtSeq(st, o.Seq, idx, o.Elem) {
				nv = e.update(r.St, r.Val, p.A[1:], v)
				e.storeElem(r.St, id, o, idx, nv, pos)
				res = append(res, r.St)
			}
			return res
		}
		e.storeElem(st, id, o, idx, nv, pos)
		return []*State{st}
	case 'b':
		if len(p.A) == 0 && v.Op == "builder" {
			c := *o
			c.Val = v.A[0]
			st.heap[id] = &c
			return []*State{st}
		}
	}
	e.GiveUp("store to %c object at %s", o.Kind, e.PosStr(pos))
	return nil
}

func (e *Eng) storeElem(st *State, id int, o *Obj, idx, v *T, pos token.Pos) {
	st.clobber(o.Fam, id, idx, rawSeq([]*T{Elem(v)}))
	c := *o
	c.Seq = e.setSeq(st, o.Seq, idx, v, pos)
	st.heap[id] = &c
}

// StoreAt writes element i of a slice.
func (e *Eng) StoreAt(st *State, v, i, x *T, pos token.Pos) {
	v = st.ResolveSlice(v)
	e.storeElem(st, int(v.I), e.obj(st, int(v.I)), Add(v.A[0], i), x, pos)
}

// checkProt reports writes below the protected mark.
func (e *Eng) checkProt(st *State, o *Obj, idx, n *T, pos token.Pos, what string) {
	if e.D.OnWrite == nil {
		return
	}
	e.Stats.Oblig++
	e.Stats.Writes++
	if v, ok := st.F.Decide(Le(o.Prot, idx)); ok && v {
		return
	}
	if v, ok := st.F.Decide(Le(n, Int(0))); ok && v {
		return
	}
	e.D.OnWrite(e, st, o, idx, pos, what)
}

func (e *Eng) indexAddr(fr *Frame, x *ssa.IndexAddr, st *State) []Outcome {
	b := e.val(fr, x.X)
	i := e.val(fr, x.Index)
	if b.Sort == SPtr {
		p := e.needPtr(st, b, x.Pos())
		o := e.obj(st, int(p.I))
		if o.Kind == 'a' && len(p.A) == 0 {
			n := SeqLen(o.Seq)
			if !e.bounds(st, i, n, x.Pos()) {
				return nil
			}
			return one(PtrTo(int(p.I), idxStep(i)), st)
		}
		return one(PtrTo(int(p.I), append(append([]*T{}, p.A...), idxStep(i))...), st)
	}
	s := st.ResolveSlice(b)
	if s.Op == "nil" {
		if e.D.Obligations {
			e.Report(st, "panic:index", x.Pos(), "index of a nil slice")
		}
		return nil
	}
	if !e.bounds(st, i, s.A[1], x.Pos()) {
		return nil
	}
	return one(PtrTo(int(s.I), idxStep(Add(s.A[0], i))), st)
}

func (e *Eng) bounds(st *State, i, n *T, pos token.Pos) bool {
	return e.Oblige(st, "panic:index", Le(Int(0), i), pos, "index %s may be negative", i) &&
		e.Oblige(st, "panic:index", Lt(i, n), pos, "index %s may be out of range %s", i, n)
}

func (e *Eng) index(fr *Frame, x *ssa.Index, st *State) []Outcome {
	b := e.val(fr, x.X)
	i := e.val(fr, x.Index)
	if b.Sort == SStr {
		if !e.bounds(st, i, StrLen(b), x.Pos()) {
			return nil
		}
		c := StrAt(b, i)
		if c.Op == "app" && c.S == "byte" && e.D.OnChar != nil {
			var outs []Outcome
			for _, s := range e.D.OnChar(e, st, c.A[0], c.A[1], Int(1), c, x.Pos()) {
				outs = append(outs, Outcome{c, nil, s})
			}
			return outs
		}
		return one(c, st)
	}
	if b.Op == "arr" {
		if !e.bounds(st, i, SeqLen(b.A[0]), x.Pos()) {
			return nil
		}
		return e.AtSeq(st, b.A[0], i, x.Type())
	}
	e.GiveUp("index of %s", b)
	return nil
}

func (e *Eng) makeSlice(st *State, n, c *T, typ types.Type, pos token.Pos) []Outcome {
	if !e.Oblige(st, "panic:makeslice", Le(Int(0), n), pos, "make with negative length %s", n) ||
		!e.Oblige(st, "panic:makeslice", Le(n, c), pos, "make with length %s above capacity %s", n, c) {
		return nil
	}
	elem := typ.Underlying().(*types.Slice).Elem()
	var q *T
	if n.isInt() && n.I <= 64 {
		var g []*T
		for i := int64(0); i < n.I; i++ {
			g = append(g, Elem(Zero(elem)))
		}
		q = rawSeq(g)
	} else {
		q = NewSeq([]*T{CompSeg(Int(0), n, Zero(elem))})
	}
	id := st.NewObj(&Obj{Kind: 'a', Seq: q, Fam: NewFam(), Prot: Int(0), Elem: elem, Label: "fresh"})
	return one(SliceV(id, Int(0), n, c, typ), st)
}

func (e *Eng) slice(fr *Frame, x *ssa.Slice, st *State) []Outcome {
	b := e.val(fr, x.X)
	var lo, hi, mx *T
	lo = Int(0)
	if x.Low != nil {
		lo = e.val(fr, x.Low)
	}
	if x.High != nil {
		hi = e.val(fr, x.High)
	}
	if x.Max != nil {
		mx = e.val(fr, x.Max)
	}
	pos := x.Pos()
	if b.Sort == SStr {
		n := StrLen(b)
		if hi == nil {
			hi = n
		}
		if !(e.Oblige(st, "panic:slice", Le(Int(0), lo), pos, "string slice from %s may be negative", lo) &&
			e.Oblige(st, "panic:slice", Le(lo, hi), pos, "string slice [%s:%s] may be inverted", lo, hi) &&
			e.Oblige(st, "panic:slice", Le(hi, n), pos, "string slice to %s may exceed the length %s", hi, n)) {
			return nil
		}
		return one(Substr(b, lo, hi), st)
	}
	typ := x.Type()
	if b.Sort == SPtr {
		p := e.needPtr(st, b, pos)
		o := e.obj(st, int(p.I))
		if o.Kind != 'a' || len(p.A) > 0 {
			e.GiveUp("slice of %s", p)
		}
		n := SeqLen(o.Seq)
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		return one(SliceV(int(p.I), lo, Sub(hi, lo), Sub(mx, lo), typ), st)
	}
	s := st.ResolveSlice(b)
	if s.Op == "nil" {
		z := Int(0)
		for _, v := range []*T{lo, hi, mx} {
			if v != nil && !e.Oblige(st, "panic:slice", Eq(v, z), pos, "slice bound %s of a nil slice", v) {
				return nil
			}
		}
		return one(Nil(typ), st)
	}
	cp := s.A[2]
	if hi == nil {
		hi = s.A[1]
	}
	top := cp
	if mx != nil {
		top = mx
		if !e.Oblige(st, "panic:slice", Le(mx, cp), pos, "slice capacity %s may exceed %s", mx, cp) {
			return nil
		}
	}
	if !(e.Oblige(st, "panic:slice", Le(Int(0), lo), pos, "slice from %s may be negative", lo) &&
		e.Oblige(st, "panic:slice", Le(lo, hi), pos, "slice [%s:%s] may be inverted", lo, hi)) {
		return nil
	}
	if v, ok := st.F.Decide(Le(hi, s.A[1])); !ok || !v {
		// reslicing beyond the length exposes stale elements
		if !e.Oblige(st, "panic:slice", Le(hi, top), pos, "slice to %s may exceed the capacity %s", hi, top) {
			return nil
		}
	}
	return one(SliceV(int(s.I), Add(s.A[0], lo), Sub(hi, lo), Sub(top, lo), typ), st)
}

// Append models append(s, elems...).
func (e *Eng) Append(st *State, s, content *T, elem types.Type, typ types.Type, pos token.Pos) *T {
	n := SeqLen(content)
	if v, ok := st.F.Decide(Le(n, Int(0))); ok && v {
		return s
	}
	s = st.ResolveSlice(s)
	if s.Op == "nil" {
		id := st.NewObj(&Obj{Kind: 'a', Seq: content, Fam: NewFam(), Prot: Int(0), Elem: elem, Label: "fresh"})
		cp := Fresh("cap", SInt, nil)
		st.F.Assume(Le(n, cp), true)
		return SliceV(id, Int(0), n, cp, typ)
	}
	o := e.obj(st, int(s.I))
	end := Add(s.A[0], s.A[1])
	cp := Fresh("cap", SInt, nil)
	nl := Add(s.A[1], n)
	st.F.Assume(Le(nl, cp), true)
	full, okf := st.F.Decide(Le(s.A[2], s.A[1]))
	if okf && full {
		if v, ok := st.F.Decide(Lt(Int(0), n)); ok && v {
			// reallocation
			q := NewSeq([]*T{st.Content(s), content})
			id := st.NewObj(&Obj{Kind: 'a', Seq: q, Fam: NewFam(), Prot: Int(0), Elem: elem, Label: "fresh"})
			return SliceV(id, Int(0), nl, cp, typ)
		}
	}
	prot := o.Prot
	fam := o.Fam
	if !(okf && full) {
		e.checkProt(st, o, end, n, pos, "append")
		st.clobber(o.Fam, 0, end, content)
	}
	h := st.SubSeq(o.Seq, Int(0), end)
	id := st.NewObj(&Obj{Kind: 'a', Seq: NewSeq([]*T{h, content}), Fam: fam, Prot: prot, Elem: elem, Label: o.Label})
	return SliceV(id, s.A[0], nl, cp, typ)
}

func (e *Eng) copyTo(st *State, d, s *T, pos token.Pos) []Outcome {
	d = st.ResolveSlice(d)
	if d.Op == "nil" {
		return one(Int(0), st)
	}
	var sc, sl *T
	if s.Sort == SStr {
		e.GiveUp("copy from string")
	}
	sl = st.SliceLen(s)
	sc = st.Content(s)
	a, b := Fork(st, Le(sl, d.A[1]))
	var outs []Outcome
	do := func(st *State, n, content *T) {
		o := e.obj(st, int(d.I))
		e.checkProt(st, o, d.A[0], n, pos, "copy")
		st.clobber(o.Fam, int(d.I), d.A[0], content)
		h := st.SubSeq(o.Seq, Int(0), d.A[0])
		t := st.SubSeq(o.Seq, Add(d.A[0], n), SeqLen(o.Seq))
		c := *o
		c.Seq = NewSeq([]*T{h, content, t})
		st.heap[int(d.I)] = &c
		outs = append(outs, Outcome{n, nil, st})
	}
	if a != nil {
		do(a, sl, sc)
	}
	if b != nil {
		do(b, d.A[1], b.SubSeq(sc, Int(0), d.A[1]))
	}
	return outs
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// arith wraps an arithmetic result that may leave the range of its type.
func (e *Eng) arith(st *State, r *T, typ types.Type, name string, a ...*T) *T {
	rg := typeRange(typ)
	if rg.IsAll() {
		return r
	}
	if st.F.BoundsOf(r).SubsetOf(rg) {
		return r
	}
	if t := pwConv(typ, r); t != nil {
		return t
	}
	return App(name, SInt, typ, a...)
}

// shrink replaces a large number that a loop counter v is compared with by a
// small one, if that is asked for, so that the iterations a confirming run
// follows get there.
func (e *Eng) shrink(fr *Frame, v ssa.Value, a, other *T) *T {
	if !a.isInt() || a.I <= LargeConst || a.I > 1<<30 || !other.isInt() || other.I < 0 || other.I > LargeConst || len(fr.loops) == 0 {
		return a
	}
	if t, ok := v.Type().Underlying().(*types.Basic); !ok || t.Kind() == types.Int32 || t.Kind() == types.Uint32 {
		return a // characters
	}
	for _, l := range fr.loops {
		if controls(v, l.head, 0) {
			e.SawLarge = true
			if e.D.Shrink {
				return Int(2)
			}
		}
	}
	return a
}

func (e *Eng) binop(fr *Frame, x *ssa.BinOp, st *State) []Outcome {
	a, b := e.val(fr, x.X), e.val(fr, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		a, b = e.shrink(fr, x.Y, a, b), e.shrink(fr, x.X, b, a)
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		c := e.eqVal(st, a, b)
		if x.Op == token.NEQ {
			c = Not(c)
		}
		return one(c, st)
	}
	if a.Sort == SInt && b.Sort == SInt {
		switch x.Op {
		case token.ADD:
			return one(e.arith(st, Add(a, b), x.Type(), "+", a, b), st)
		case token.SUB:
			return one(e.arith(st, Sub(a, b), x.Type(), "-", a, b), st)
		case token.MUL:
			if a.isInt() {
				return one(e.arith(st, MulK(b, a.I), x.Type(), "*", a, b), st)
			}
			if b.isInt() {
				return one(e.arith(st, MulK(a, b.I), x.Type(), "*", a, b), st)
			}
			if a.id > b.id {
				a, b = b, a
			}
			// distribute over sums so that n*(k-1) and n*k-n agree
			return one(Mul(a, b, x.Type()), st)
		case token.LSS:
			return one(Lt(a, b), st)
		case token.LEQ:
			return one(Le(a, b), st)
		case token.GTR:
			return one(Lt(b, a), st)
		case token.GEQ:
			return one(Le(b, a), st)
		case token.QUO, token.REM:
			if !e.Oblige(st, "panic:div", Not(Eq(b, Int(0))), x.Pos(), "division by %s", b) {
				return nil
			}
			return e.divmod(st, x.Op, a, b, x.Type())
		}
		if a.isInt() && b.isInt() {
			switch x.Op {
			case token.AND:
				return one(Int(a.I&b.I), st)
			case token.OR:
				return one(Int(a.I|b.I), st)
			case token.SHL:
				return one(Int(a.I<<uint(b.I)), st)
			case token.SHR:
				return one(Int(a.I>>uint(b.I)), st)
			}
		}
		if t := pwOp(x.Op, x.Type(), a, b); t != nil {
			return one(t, st)
		}
		return one(App("op"+x.Op.String(), SInt, x.Type(), a, b), st)
	}
	if a.Sort == SStr && b.Sort == SStr {
		switch x.Op {
		case token.ADD:
			return one(Concat(a, b), st)
		case token.LSS:
			return one(App("strless", SBool, nil, a, b), st)
		case token.GTR:
			return one(App("strless", SBool, nil, b, a), st)
		case token.LEQ:
			return one(Not(App("strless", SBool, nil, b, a)), st)
		case token.GEQ:
			return one(Not(App("strless", SBool, nil, a, b)), st)
		}
	}
	if a.Sort == SBool && b.Sort == SBool {
		// & | on booleans do not exist in Go
	}
	return one(App("op"+x.Op.String(), SortOf(x.Type()), x.Type(), a, b), st)
}

// Mul is the product a*b, distributed over sums.
func Mul(a, b *T, typ types.Type) *T {
	aa, ac, ak := linOf(a)
	ba, bc, bk := linOf(b)
	r := Int(ak * bk)
	for i := range aa {
		r = lin2(1, r, ac[i]*bk, aa[i], 0)
		for j := range ba {
			x, y := aa[i], ba[j]
			if x.id > y.id {
				x, y = y, x
			}
			r = lin2(1, r, ac[i]*bc[j], App("mul", SInt, typ, x, y), 0)
		}
	}
	for j := range ba {
		r = lin2(1, r, bc[j]*ak, ba[j], 0)
	}
	return r
}

// divmod introduces quotient and remainder of truncated division.
func (e *Eng) divmod(st *State, op token.Token, a, b *T, typ types.Type) []Outcome {
	if a.isInt() && b.isInt() {
		if op == token.QUO {
			return one(Int(a.I/b.I), st)
		}
		return one(Int(a.I%b.I), st)
	}
	f := st.F
	holds := func(c *T) bool { v, ok := f.Decide(c); return ok && v }
	if op == token.REM && holds(Lt(Int(0), b)) && holds(Lt(MulK(b, -1), a)) && holds(Lt(a, MulK(b, 2))) {
		// at most one wrap around
		var outs []Outcome
		y, n := Fork(st, Lt(a, b))
		if y != nil {
			outs = append(outs, one(a, y)...)
		}
		if n != nil {
			outs = append(outs, one(Sub(a, b), n)...)
		}
		return outs
	}
	q := App("quo", SInt, typ, a, b)
	r := App("rem", SInt, typ, a, b)
	// |r| < |b|, sign(r) = sign(a)
	if v, ok := f.Decide(Lt(Int(0), b)); ok && v {
		f.Assume(Lt(r, b), true)
		f.Assume(Lt(MulK(b, -1), r), true)
	}
	if v, ok := f.Decide(Le(Int(0), a)); ok && v {
		f.Assume(Le(Int(0), r), true)
		f.Assume(Le(r, a), true)
		if v, ok := f.Decide(Lt(a, b)); ok && v {
			f.Assume(Eq(r, a), true)
			f.Assume(Eq(q, Int(0)), true)
		}
	}
	if v, ok := f.Decide(Le(a, Int(0))); ok && v {
		f.Assume(Le(r, Int(0)), true)
	}
	if b.isInt() {
		f.Assume(Eq(a, Add(MulK(q, b.I), r)), true)
	}
	if op == token.QUO {
		return one(q, st)
	}
	return one(r, st)
}

// eqVal is the == of Go.
func (e *Eng) eqVal(st *State, a, b *T) *T {
	if a.Sort == SStruct && b.Sort == SStruct && a.Typ != nil {
		if a == b {
			return True
		}
		n := a.Typ.Underlying().(*types.Struct).NumFields()
		all := True
		for i := 0; i < n; i++ {
			c := e.eqVal(st, Sel(a, i), Sel(b, i))
			v, ok := st.F.Decide(c)
			if ok && !v {
				return False
			}
			if !ok {
				if all != True {
					return Eq(a, b)
				}
				all = c
			}
		}
		return all
	}
	return Eq(a, b)
}

func (e *Eng) unop(fr *Frame, x *ssa.UnOp, st *State) []Outcome {
	v := e.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		return e.Load(st, v, x.Pos())
	case token.NOT:
		return one(Not(v), st)
	case token.SUB:
		if v.Sort == SInt {
			return one(e.arith(st, MulK(v, -1), x.Type(), "neg", v), st)
		}
		return one(App("neg", SOther, x.Type(), v), st)
	case token.XOR:
		return one(App("^", SInt, x.Type(), v), st)
	}
	e.GiveUp("unary %s", x.Op)
	return nil
}

func (e *Eng) convert(st *State, v *T, from, to types.Type) []Outcome {
	fs, ts := SortOf(from), SortOf(to)
	if isUnsafe(from) || isUnsafe(to) {
		e.GiveUp("unsafe conversion")
	}
	switch {
	case fs == SInt && ts == SInt:
		rg := typeRange(to)
		if rg.IsAll() && typeRange(from).IsAll() {
			return one(v, st)
		}
		if st.F.BoundsOf(v).SubsetOf(rg) {
			return one(v, st)
		}
		if to64(to) {
			// int64 <-> uint64 keep small values; otherwise opaque
			return one(App("conv:"+TypeStr(to), SInt, to, v), st)
		}
		if t := pwConv(to, v); t != nil {
			return one(t, st)
		}
		return one(App("conv:"+TypeStr(to), SInt, to, v), st)
	case fs == SInt && ts == SStr:
		if v.isInt() {
			return one(Str(string(rune(v.I))), st)
		}
		return one(App("runestr", SStr, to, v), st)
	case fs == SStr && ts == SStr:
		return one(v, st)
	case fs == SStr && ts == SSlice:
		el := to.Underlying().(*types.Slice).Elem()
		if typeRange(el).Equal(Range(0, 255)) {
			b := App("bytes", SSeq, el, v)
			q := SeqOf(b)
			st.F.Assume(Eq(SeqLenBase(b), StrLen(v)), true)
			return one(st.NewSlice(q, el, "fresh", false, to), st)
		}
		b := App("runes", SSeq, el, v)
		st.F.Assume(Le(SeqLenBase(b), StrLen(v)), true)
		return one(st.NewSlice(SeqOf(b), el, "fresh", false, to), st)
	case fs == SSlice && ts == SStr:
		q := st.Content(v)
		el := from.Underlying().(*types.Slice).Elem()
		n := "fromrunes"
		if typeRange(el).Equal(Range(0, 255)) {
			n = "frombytes"
		}
		if n == "frombytes" {
			var parts []*T
			for _, g := range q.A {
				switch {
				case g.Op == "sub" && g.A[0].Op == "app" && g.A[0].S == "bytes":
					parts = append(parts, Substr(g.A[0].A[0], g.A[1], g.A[2]))
				case g.Op == "elem" && g.A[0].isInt():
					parts = append(parts, Str(string([]byte{byte(g.A[0].I)})))
				case g.Op == "elem" && g.A[0].Op == "app" && g.A[0].S == "byte":
					parts = append(parts, Substr(g.A[0].A[0], g.A[0].A[1], AddK(g.A[0].A[1], 1)))
				case g.Op == "elem":
					parts = append(parts, App("bytestr", SStr, to, g.A[0]))
				default:
					return one(App(n, SStr, to, q), st)
				}
			}
			return one(Concat(parts...), st)
		}
		if n == "fromrunes" && len(q.A) == 1 && q.A[0].Op == "elem" {
			return e.convert(st, q.A[0].A[0], el, to)
		}
		return one(App(n, SStr, to, q), st)
	case fs == ts:
		if fs == SOther {
			return one(App("conv:"+TypeStr(to), SOther, to, v), st)
		}
		return one(v, st)
	}
	return one(App("conv:"+TypeStr(to), ts, to, v), st)
}

func to64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int64 || b.Kind() == types.Uint64)
}

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// TypeIs is the atom "the dynamic type of x is t".
func TypeIs(x *T, t types.Type) *T {
	return mk("app", "typeis:"+TypeStr(t), 0, SBool, nil, []*T{x}, nil)
}

// As is the value of x viewed as t.
func As(x *T, t types.Type) *T {
	return App("as:"+TypeStr(t), SortOf(t), t, x)
}

func (e *Eng) typeAssert(st *State, x *T, t types.Type, commaOk bool, pos token.Pos) []Outcome {
	x0 := x
	if x.Op != "iface" {
		if r := st.F.find(x); r.Op == "iface" || r.Op == "nil" {
			x = r
		}
	}
	res := func(st *State, v *T, ok bool) Outcome {
		if commaOk {
			return Outcome{Tuple(v, Bool(ok)), nil, st}
		}
		return Outcome{v, nil, st}
	}
	fail := func(st *State) []Outcome {
		if commaOk {
			return []Outcome{res(st, Zero(t), false)}
		}
		if e.D.Obligations {
			e.Report(st, "panic:typeassert", pos, "type assertion to %s of a value that is %s", shortType(t), x)
		}
		return nil
	}
	if _, isI := t.Underlying().(*types.Interface); isI {
		if x.Op == "nil" {
			return fail(st)
		}
		if x.Op == "iface" {
			if types.Implements(x.Typ, t.Underlying().(*types.Interface)) {
				return []Outcome{res(st, x, true)}
			}
			return fail(st)
		}
		c := TypeIs(x, t)
		y, n := Fork(st, c)
		var outs []Outcome
		if y != nil {
			outs = append(outs, res(y, x, true))
		}
		if n != nil {
			outs = append(outs, fail(n)...)
		}
		return outs
	}
	switch x.Op {
	case "nil":
		return fail(st)
	case "iface":
		if TypeStr(x.Typ) == TypeStr(t) {
			return []Outcome{res(st, x.A[0], true)}
		}
		return fail(st)
	}
	c := TypeIs(x0, t)
	v, ok := st.F.Decide(c)
	if !ok && e.D.TypeAxiom != nil && e.D.TypeAxiom(e, st, x0, t) {
		st.F.Assume(c, true)
		v, ok = true, true
	}
	if !ok {
		// a value has one dynamic type
		for k, b := range st.F.boo {
			if b && k.Op == "app" && strings.HasPrefix(k.S, "typeis:") && k != c && st.F.Same(k.A[0], x0) && !strings.Contains(k.S, "interface") {
				v, ok = false, true
			}
		}
	}
	bind := func(st *State) bool {
		return st.F.Assume(Eq(x0, Iface(t, As(x0, t))), true)
	}
	if ok && v {
		bind(st)
		return []Outcome{res(st, As(x0, t), true)}
	}
	if ok {
		return fail(st)
	}
	y, n := Fork(st, c)
	var outs []Outcome
	if y != nil && bind(y) {
		y.Note("%s: %s is a %s", e.PosStr(pos), x0, shortType(t))
		outs = append(outs, res(y, As(x0, t), true))
	}
	if n != nil {
		n.Note("%s: %s is not a %s", e.PosStr(pos), x0, shortType(t))
		outs = append(outs, fail(n)...)
	}
	return outs
}

// mapOf is the map object a value stands for.
func (e *Eng) mapOf(st *State, m *T, pos token.Pos) *Obj {
	m = st.F.find(m)
	if m.Op != "ptr" {
		e.GiveUp("unknown map at %s", e.PosStr(pos))
	}
	o := e.obj(st, int(m.I))
	if o == nil || o.Kind != 'm' {
		e.GiveUp("unknown map at %s", e.PosStr(pos))
	}
	return o
}

// mapUpdate sets an entry of a map with known keys.
func (e *Eng) mapUpdate(st *State, m, k, v *T, pos token.Pos) []*State {
	var out []*State
	o := e.mapOf(st, m, pos)
	e.Stats.Writes++
	if e.D.OnStoreCell != nil {
		e.D.OnStoreCell(e, st, int(st.F.find(m).I), o, nil, pos)
	}
	cur := st
	for i, en := range o.Val.A {
		if cur == nil {
			return out
		}
		var y *State
		y, cur = Fork(cur, e.eqVal(cur, en.A[0].A[0], k))
		if y != nil {
			n := *o
			g := append([]*T(nil), o.Val.A...)
			g[i] = Elem(Tuple(k, v))
			n.Val = rawSeq(g)
			y.heap[int(st.F.find(m).I)] = &n
			out = append(out, y)
		}
	}
	if cur != nil {
		n := *o
		n.Val = rawSeq(append(append([]*T(nil), o.Val.A...), Elem(Tuple(k, v))))
		cur.heap[int(st.F.find(m).I)] = &n
		out = append(out, cur)
	}
	return out
}

// mapLookup reads an entry of a map with known keys.
func (e *Eng) mapLookup(st *State, m, k *T, elem types.Type, commaOk bool, pos token.Pos) []Outcome {
	res := func(v *T, ok bool) *T {
		if commaOk {
			return Tuple(v, Bool(ok))
		}
		return v
	}
	if st.F.find(m).Op == "nil" {
		return one(res(Zero(elem), false), st)
	}
	o := e.mapOf(st, m, pos)
	if len(o.Val.A) > 400 {
		e.GiveUp("large map at %s", e.PosStr(pos))
	}
	var outs []Outcome
	cur := st
	for _, en := range o.Val.A {
		if cur == nil {
			break
		}
		var y *State
		y, cur = Fork(cur, e.eqVal(cur, en.A[0].A[0], k))
		if y != nil {
			outs = append(outs, Outcome{res(en.A[0].A[1], true), nil, y})
		}
	}
	if cur != nil {
		outs = append(outs, Outcome{res(Zero(elem), false), nil, cur})
	}
	return outs
}

func (e *Eng) next(fr *Frame, x *ssa.Next, st *State) []Outcome {
	p := e.val(fr, x.Iter)
	o := e.obj(st, int(p.I))
	s, pos := o.Val.A[0], o.Val.A[1]
	n := StrLen(s)
	if n.isInt() && pos.isInt() && s.Op == "str" {
		if pos.I >= n.I {
			return one(Tuple(False, Int(0), Int(0)), st)
		}
		for i, r := range s.S[pos.I:] {
			if i == 0 {
				w := int64(len(string(r)))
				c := *o
				c.Val = Tuple(s, Int(pos.I+w))
				st.heap[int(p.I)] = &c
				return one(Tuple(True, pos, Int(int64(r))), st)
			}
		}
	}
	y, no := Fork(st, Lt(pos, n))
	var outs []Outcome
	if y != nil {
		base, off := s, pos
		if s.Op == "substr" {
			base, off = s.A[0], Add(s.A[1], pos)
		}
		r := App("rune", SInt, types.Typ[types.Int32], base, off)
		w := App("rw", SInt, nil, base, off)
		y.F.Assume(Le(Int(1), w), true)
		y.F.Assume(Le(w, Int(4)), true)
		y.F.Assume(Le(Add(pos, w), n), true)
		c := *o
		c.Val = Tuple(s, Add(pos, w))
		y.heap[int(p.I)] = &c
		if e.D.OnChar != nil {
			for _, s := range e.D.OnChar(e, y, base, off, w, r, x.Pos()) {
				outs = append(outs, Outcome{Tuple(True, pos, r), nil, s})
			}
		} else {
			outs = append(outs, Outcome{Tuple(True, pos, r), nil, y})
		}
	}
	if no != nil {
		outs = append(outs, Outcome{Tuple(False, Int(0), Int(0)), nil, no})
	}
	return outs
}

// ---- calls

func (e *Eng) prepareCall(fr *Frame, st *State, c *ssa.CallCommon, pos token.Pos) (*T, []*T) {
	var args []*T
	for _, a := range c.Args {
		args = append(args, e.val(fr, a))
	}
	if c.IsInvoke() {
		recv := e.val(fr, c.Value)
		if e.methods == nil {
			e.methods = map[string]*types.Func{}
		}
		e.methods[c.Method.FullName()] = c.Method
		return mk("invoke", c.Method.FullName(), 0, SFunc, nil, []*T{recv}, nil), args
	}
	return e.val(fr, c.Value), args
}

func (e *Eng) callCommon(fr *Frame, c *ssa.CallCommon, st *State, pos token.Pos) []Outcome {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, b, c, st, pos)
	}
	var args []*T
	for _, a := range c.Args {
		args = append(args, e.val(fr, a))
	}
	e.Stats.Calls[e.PosStr(pos)] = true
	e.lastCall = pos
	if c.IsInvoke() {
		recv := e.val(fr, c.Value)
		return e.invoke(st, c.Method, recv, args, pos)
	}
	fv := e.val(fr, c.Value)
	return e.CallValue(fv, args, c.Signature(), st, pos)
}

func (e *Eng) invoke(st *State, m *types.Func, recv *T, args []*T, pos token.Pos) []Outcome {
	if recv.Op != "iface" && recv.Op != "nil" {
		recv = st.F.find(recv)
	}
	if recv.Op == "nil" {
		if e.D.Obligations {
			e.Report(st, "panic:nil", pos, "method %s of a nil interface", m.Name())
		}
		return nil
	}
	if recv.Op == "iface" {
		if recv.Typ != nil {
			if fn := e.Prog.LookupMethod(recv.Typ, m.Pkg(), m.Name()); fn != nil {
				return e.callFn(fn, append([]*T{recv.A[0]}, args...), nil, st, pos)
			}
		}
	}
	st.Calls++
	if e.D.OnInvoke != nil {
		if o, ok := e.D.OnInvoke(e, st, m, recv, args, pos); ok {
			return o
		}
	}
	sig := m.Type().(*types.Signature)
	return one(e.pureResult("inv:"+m.Name(), append([]*T{recv}, e.purify(st, args)...), sig), st)
}

// purify replaces slice headers by their content so that pure applications
// depend on values only.
func (e *Eng) purify(st *State, args []*T) []*T {
	var r []*T
	for _, a := range args {
		if a.Op == "slice" {
			r = append(r, st.Content(a))
		} else {
			r = append(r, a)
		}
	}
	return r
}

func (e *Eng) pureResult(name string, args []*T, sig *types.Signature) *T {
	n := sig.Results().Len()
	switch n {
	case 0:
		return nil
	case 1:
		t := sig.Results().At(0).Type()
		return App(name, SortOf(t), t, args...)
	}
	var vs []*T
	for i := 0; i < n; i++ {
		t := sig.Results().At(i).Type()
		vs = append(vs, App(fmt.Sprintf("%s#%d", name, i), SortOf(t), t, args...))
	}
	return Tuple(vs...)
}

// CallValue calls a function value.
func (e *Eng) CallValue(fv *T, args []*T, sig *types.Signature, st *State, pos token.Pos) []Outcome {
	if fv.Op != "clos" {
		fv = st.F.find(fv)
	}
	switch fv.Op {
	case "clos":
		return e.callFn(e.closFn[fv.S], args, fv.A, st, pos)
	case "nil":
		if e.D.Obligations {
			e.Report(st, "panic:nil", pos, "call of a nil function")
		}
		return nil
	case "invoke":
		return e.invoke(st, e.methods[fv.S], fv.A[0], args, pos)
	}
	if sig == nil {
		if s, ok := fv.Typ.(*types.Signature); ok {
			sig = s
		} else if fv.Typ != nil {
			sig, _ = fv.Typ.Underlying().(*types.Signature)
		}
	}
	st.Calls++
	if e.D.OnFunc != nil {
		if o, ok := e.D.OnFunc(e, st, fv, args, sig, pos); ok {
			return o
		}
	}
	if sig == nil {
		e.GiveUp("call of %s", fv)
	}
	return one(e.pureResult("call", append([]*T{fv}, e.purify(st, args)...), sig), st)
}

func (e *Eng) callFn(fn *ssa.Function, args, bind []*T, st *State, pos token.Pos) []Outcome {
	if e.D.OnStatic != nil {
		if o, ok := e.D.OnStatic(e, st, fn, append([]*T{}, args...), pos); ok {
			for _, x := range o {
				x.St.Calls++
			}
			return o
		}
	}
	if o, ok := e.model(fn, args, st, pos); ok {
		return o
	}
	in := fn.Pkg != nil && e.InModule(fn.Pkg.Pkg)
	if o := fn.Origin(); o != nil && o.Pkg != nil && (e.InModule(o.Pkg.Pkg) || o.Pkg.Pkg.Path() == "slices") {
		in = true
	}
	if fn.Pkg == nil && len(fn.Blocks) > 0 {
		// wrappers, thunks and bound methods
		in = true
		if fn.Object() != nil && fn.Object().Pkg() != nil && !e.InModule(fn.Object().Pkg()) && fn.Synthetic != "" {
			in = strings.HasPrefix(fn.Synthetic, "wrapper") || strings.HasPrefix(fn.Synthetic, "bound") || strings.HasPrefix(fn.Synthetic, "thunk")
		}
	}
	if in && len(fn.Blocks) > 0 {
		return e.Call(fn, args, bind, st, pos)
	}
	return e.external(fn, args, st, pos)
}

func (e *Eng) external(fn *ssa.Function, args []*T, st *State, pos token.Pos) []Outcome {
	for _, a := range args {
		if a.Op == "ptr" {
			e.GiveUp("external function %s is given a pointer", fn)
		}
	}
	if p := fn.Package(); p != nil && (p.Pkg.Path() == "sort" || p.Pkg.Path() == "slices") && fn.Signature.Results().Len() == 0 {
		for _, a := range args {
			if a.Op == "iface" {
				a = a.A[0]
			}
			if a = st.ResolveSlice(a); a.Op == "slice" {
				if o := e.obj(st, int(a.I)); o != nil {
					e.checkProt(st, o, a.A[0], a.A[1], pos, fn.Name())
					e.havocSlice(st, a)
				}
			}
		}
		return one(nil, st)
	}
	if p := fn.Package(); p != nil && (outside[p.Pkg.Path()] || outside[p.Pkg.Path()+"."+fn.Name()]) && e.D.Obligations {
		e.ReportProp(nil, "C15", "state outside of the input", pos, "the result depends on %s, not on the input alone", fn.String())
	}
	e.Stats.Assumed["pure external "+fn.String()] = true
	return one(e.pureResult("ext:"+fn.String(), e.purify(st, args), fn.Signature), st)
}

func (e *Eng) builtin(fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, st *State, pos token.Pos) []Outcome {
	var a []*T
	for _, v := range c.Args {
		a = append(a, e.val(fr, v))
	}
	switch b.Name() {
	case "len":
		switch a[0].Sort {
		case SStr:
			return one(StrLen(a[0]), st)
		case SSlice:
			return one(st.SliceLen(a[0]), st)
		}
		if a[0].Op == "arr" {
			return one(SeqLen(a[0].A[0]), st)
		}
		if a[0].Op == "ptr" {
			o := e.obj(st, int(a[0].I))
			if o.Kind == 'm' {
				return one(Int(int64(len(o.Val.A))), st)
			}
			if o.Kind == 'a' {
				return one(SeqLen(o.Seq), st)
			}
		}
		e.GiveUp("len of %s", a[0])
	case "cap":
		s := st.ResolveSlice(a[0])
		if s.Op == "nil" {
			return one(Int(0), st)
		}
		return one(s.A[2], st)
	case "append":
		st0, ok := c.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			e.GiveUp("append")
		}
		if a[1].Sort == SStr {
			bs := App("bytes", SSeq, st0.Elem(), a[1])
			st.F.Assume(Eq(SeqLenBase(bs), StrLen(a[1])), true)
			return one(e.Append(st, a[0], SeqOf(bs), st0.Elem(), c.Args[0].Type(), pos), st)
		}
		content := st.Content(a[1])
		n := SeqLen(content)
		_ = n
		return one(e.Append(st, a[0], content, st0.Elem(), c.Args[0].Type(), pos), st)
	case "copy":
		return e.copyTo(st, a[0], a[1], pos)
	case "panic":
		return []Outcome{{nil, a[0], st}}
	case "recover":
		if fr.parentPan != nil && fr.parentPan.val != nil {
			st.SetG("$recovered", True)
			return one(fr.parentPan.val, st)
		}
		return one(Nil(types.Universe.Lookup("any").Type()), st)
	case "ssa:wrapnilchk":
		return one(a[0], st)
	case "min", "max":
		r := a[0]
		outs := []Outcome{{r, nil, st}}
		for _, v := range a[1:] {
			if v.Sort != SInt {
				e.GiveUp("min/max")
			}
			var next []Outcome
			for _, o := range outs {
				y, n := Fork(o.St, Le(o.Val, v))
				small, big := o.Val, v
				if b.Name() == "max" {
					small, big = big, small
				}
				if y != nil {
					next = append(next, Outcome{small, nil, y})
				}
				if n != nil {
					next = append(next, Outcome{big, nil, n})
				}
			}
			outs = next
		}
		return outs
	case "print", "println":
		return one(nil, st)
	}
	e.GiveUp("builtin %s", b.Name())
	return nil
}

// CallFn calls a known function the way compiled code does.
func (e *Eng) CallFn(fn *ssa.Function, args []*T, st *State, pos token.Pos) []Outcome {
	return e.callFn(fn, args, nil, st, pos)
}

// ObjMark is the identity of the newest object.
func ObjMark() int { return objSeq }

// sortedInts returns map keys in order.
func sortedInts(m map[int]*Obj) []int {
	r := make([]int, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}
