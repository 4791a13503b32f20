package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("S18", ruleS18) }

// conf: which options a run gets, and from where.
type conf struct {
	*graphs
}

func ruleS18(c *Ctx, r *Rep) {
	r.Rule("an option that is set is never replaced by a default, one that is not set always gets the default of its own")
	r.Rule("the options of a specification are those of fizz.yaml overridden by the front matter of the same specification; what cannot be read ends the run")
	r.Rule("every flag is bound to the variable that is named after it, with its default; flags that contradict each other end the run; nothing else changes these variables")
	r.Rule("every search gets the options of its own specification and the flags, each in the place that is meant for it; the number of runs, the seed, the order of exploration are those asked for")
	r.Rule("work lists: an element that is added comes out once, in the order of the list (first, last, random); chance comes from the seed of the run alone and not from the order of a map")
	x := &conf{&graphs{c.World, r}}
	x.defaults()
	x.load()
	x.read()
	x.given()
	x.flags()
	x.wiring()
	x.processor()
	x.lists()
	x.chance()
}

// field: a value that is read from the field of a struct of the type.
func (x *conf) field(typ, name string) func(ssa.Value) bool {
	return func(v ssa.Value) bool {
		if c, ok := v.(*ssa.Call); ok { // a getter
			f := c.Call.StaticCallee()
			return f != nil && f.Name() == "Get"+name && f.Signature.Recv() != nil && namedName(f.Signature.Recv().Type()) == typ
		}
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		return ok && namedName(fa.X.Type()) == typ && fieldName(fa.X.Type(), fa.Field) == name
	}
}

// anchors: functions with rules of their own.
var confAnchors = map[string]bool{"main.main": true, "main.applyDefaultStateOptions": true, "main.loadStateOptions": true, "main.getStateConfigForTraceChecking": true, "main.modelCheckSingleSpec": true,
	"main.startModelChecker": true, "main.parseFlags": true, "main.runCompositionalModelChecking": true, "main.runRefinementModelChecking": true, "main.loadInputJSON": true, "main.dumpStateSpaceOptions": true}

// own: the function with the helpers of its package that only it uses.
func (x *conf) own(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, g := range x.w.group(f) {
		if g == f || packageOf(g) == packageOf(f) && !confAnchors[fname(g)] && (f.Signature.Recv() != nil || g.Signature.Recv() == nil) {
			out = append(out, g)
		}
	}
	return out
}

// outside: functions that paths are not followed into.
func (x *conf) outside(g *ssa.Function) bool {
	if confAnchors[fname(g)] || g.Signature.Recv() != nil && namedName(g.Signature.Recv().Type()) != "Queue" && namedName(g.Signature.Recv().Type()) != "RandomQueue" && namedName(g.Signature.Recv().Type()) != "Stack" {
		return true
	}
	return false
}

func isGlobal(name string) func(ssa.Value) bool {
	return func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		g, ok := u.X.(*ssa.Global)
		return ok && g.Name() == name
	}
}

// through: the predicate for a value, seen through the parameters of the functions of the group.
func (x *conf) through(fns []*ssa.Function, p func(ssa.Value) bool) func(ssa.Value) bool {
	return func(v ssa.Value) bool { return allOf(x.w.argsIn(v, fns, 0), p) }
}

// flagIs: the edge on which a flag (a variable of the program) is true, or false.
func (x *conf) flagIs(fns []*ssa.Function, p func(ssa.Value) bool, want bool) func(Edge) bool {
	return func(e Edge) bool { return e.Taken == want && x.through(fns, p)(e.Cond) }
}

func isEmptyString(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.ExactString() == `""`
}

func isConstString(k string) func(ssa.Value) bool {
	return func(v ssa.Value) bool { s, ok := constStr(v); return ok && s == k }
}

// setString: the edge on which a string is (not) empty.
func (x *conf) setString(fns []*ssa.Function, p func(ssa.Value) bool, want bool) func(Edge) bool {
	op := token.EQL
	if want {
		op = token.NEQ
	}
	q := x.through(fns, p)
	ln := lenOf(q)
	if want {
		return anyCut(says(q, isEmptyString, op), says(ln, isZero, token.NEQ, token.GTR), says(ln, isConstInt(1), token.GEQ))
	}
	return anyCut(says(q, isEmptyString, op), says(ln, isZero, token.EQL, token.LEQ), says(ln, isConstInt(1), token.LSS))
}

// optionRule: what an option that is not set becomes.
type optionRule struct {
	typ, field string
	unset      func(ssa.Value) bool // the value of one that is not set
	value      func(ssa.Value) bool
	what       string
}

// boolPtr: a pointer to the constant.
func (x *conf) boolPtr(want bool, fns []*ssa.Function) func(ssa.Value) bool {
	return func(v ssa.Value) bool {
		for _, a := range x.w.argsIn(v, fns, 0) {
			if c, ok := a.(*ssa.Call); ok && len(c.Call.Args) == 1 { // proto.Bool(true) or a helper that takes the address
				if b, ok := constBool(c.Call.Args[0]); !ok || b != want {
					return false
				}
				continue
			}
			al, ok := a.(*ssa.Alloc)
			if !ok {
				return false
			}
			n := 0
			for _, u := range *al.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == al {
					n++
					if b, ok := constBool(st.Val); !ok || b != want {
						return false
					}
				}
			}
			if n == 0 && want {
				return false
			}
		}
		return true
	}
}

// atMostTwo: the smaller one of two and the number of actions.
func (x *conf) atMostTwo(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	if calleeName(c) == "builtin.min" && len(c.Call.Args) == 2 {
		a, b := c.Call.Args[0], c.Call.Args[1]
		act := x.field("Options", "MaxActions")
		return isConstInt(2)(a) && act(b) || isConstInt(2)(b) && act(a)
	}
	return false
}

func (x *conf) isTwoOrFewer(f *ssa.Function, fns []*ssa.Function) func(ssa.Value) bool {
	act := x.field("Options", "MaxActions")
	return func(v ssa.Value) bool {
		ls := phiLeaves(v)
		if len(ls) == 1 {
			return x.atMostTwo(ls[0])
		}
		// if 2 < actions { 2 } else { actions }
		two, acts := false, false
		for _, l := range ls {
			two = two || isConstInt(2)(l)
			acts = acts || act(l)
			if !isConstInt(2)(l) && !act(l) {
				return false
			}
		}
		if !two || !acts {
			return false
		}
		ph, ok := v.(*ssa.Phi)
		if !ok {
			return false
		}
		isPhi := func(in ssa.Instruction) bool { st, ok := in.(*ssa.Store); return ok && st.Val == v }
		q := func(pick func(ssa.Value) bool, cut func(Edge) bool) bool {
			bad, _ := (&Q{W: x.w, NoEnter: x.outside, Cut: cut, Track: func(p *ssa.Phi) bool { return p == ph }, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
				return isPhi(in) && pick(res(v))
			}}).Entry(f)
			return bad
		}
		return !q(isConstInt(2), anyCut(says(act, isConstInt(2), token.GEQ, token.GTR), says(act, isConstInt(1), token.GTR))) &&
			!q(act, anyCut(says(act, isConstInt(2), token.LEQ, token.LSS), says(act, isConstInt(3), token.LSS)))
	}
}

// defaultsIn: the options that the function sets, if they are not set.
func (x *conf) defaultsIn(f *ssa.Function, rules []optionRule, always bool, ends func(ssa.Instruction) bool) {
	w := x.w
	fns := x.own(f)
	for _, o := range rules {
		o := o
		key := shortFn(f) + "/" + o.field
		val := x.through(fns, x.field(o.typ, o.field))
		unset := says(val, o.unset, token.EQL, token.LEQ)
		isSet := says(val, o.unset, token.NEQ, token.GTR)
		// objects that the function makes have no options yet
		onOwn := func(in ssa.Instruction) bool {
			st, b := fieldStore(in, o.typ, o.field)
			return st != nil && allOf(w.argsIn(b, fns, 0), func(v ssa.Value) bool { _, ok := v.(*ssa.Alloc); return ok })
		}
		for _, g := range fns {
			instrs(g, func(in ssa.Instruction) {
				if st, _ := fieldStore(in, o.typ, o.field); st != nil && !onOwn(in) {
					c, ok := st.Val.(*ssa.Call)
					if !ok || c.Call.StaticCallee() == nil || !inFuncs(fns, c.Call.StaticCallee()) || !x.takes(c, fns, val) {
						x.check(key+"/value", w.ipos(in), x.orItself(st.Val, fns, val, o.value), "the default of "+o.field+" is not "+o.what+" but "+w.render(st.Val), nil)
					} else { // a helper that chooses between the two
						h := c.Call.StaticCallee()
						val := func(v ssa.Value) bool {
							for i, p := range h.Params {
								if v == ssa.Value(p) && i < len(c.Call.Args) && val(c.Call.Args[i]) {
									return true
								}
							}
							return false
						}
						unset, isSet := says(val, o.unset, token.EQL, token.LEQ), says(val, o.unset, token.NEQ, token.GTR)
						instrs(h, func(in ssa.Instruction) {
							if rt, ok := in.(*ssa.Return); ok && len(rt.Results) == 1 && in.Block() != h.Recover {
								good := allOf(phiLeaves(retVal(rt, 0)), func(v ssa.Value) bool { return val(v) || o.value(v) })
								x.check(key+"/value", w.ipos(in), good, "the default of "+o.field+" is not "+o.what+" but "+w.render(retVal(rt, 0)), nil)
							}
						})
						ret := func(own bool) func(ssa.Instruction, func(ssa.Value) ssa.Value) bool {
							return func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
								rt, ok := in.(*ssa.Return)
								return ok && rt.Parent() == h && len(rt.Results) == 1 && val(resolved(res, rt.Results[0])) == own
							}
						}
						all := func(*ssa.Phi) bool { return true }
						bad, tr := (&Q{W: w, NoEnter: x.outside, Cut: unset, Track: all, GoalEnv: ret(false)}).Entry(h)
						x.check(key+"/kept", w.Pos(h.Pos()), !bad, o.field+" is set although the user has set it", tr)
						bad, tr = (&Q{W: w, NoEnter: x.outside, Cut: isSet, Track: all, GoalEnv: ret(true)}).Entry(h)
						x.check(key+"/always", w.Pos(h.Pos()), !bad, o.field+" that the user has not set can stay without its default", tr)
					}
				}
			})
		}
		all := func(*ssa.Phi) bool { return true }
		stores := func(own bool) func(ssa.Instruction, func(ssa.Value) ssa.Value) bool {
			return func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
				st, _ := fieldStore(in, o.typ, o.field)
				if st == nil {
					return false
				}
				v := resolved(res, st.Val)
				if c, ok := v.(*ssa.Call); ok && c.Call.StaticCallee() != nil && inFuncs(fns, c.Call.StaticCallee()) && x.takes(c, fns, val) {
					return !own // decided in the helper
				}
				return val(v) == own
			}
		}
		bad, tr := (&Q{W: w, NoEnter: x.outside, Cut: unset, Track: all, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			st, _ := fieldStore(in, o.typ, o.field)
			if st != nil {
				if c, ok := st.Val.(*ssa.Call); ok && c.Call.StaticCallee() != nil && inFuncs(fns, c.Call.StaticCallee()) && x.takes(c, fns, val) {
					return false
				}
			}
			return !onOwn(in) && stores(false)(in, res)
		}}).Entry(f)
		x.check(key+"/kept", w.Pos(f.Pos()), !bad, o.field+" is set although the user has set it", tr)
		if always {
			q := &Q{W: w, NoEnter: x.outside, Cut: isSet, Track: all, ThroughEnv: stores(false), Through: ends, Goal: isReturnOf(f)}
			bad, tr = q.Entry(f)
			x.check(key+"/always", w.Pos(f.Pos()), !bad, o.field+" that the user has not set can stay without its default", tr)
		}
	}
}

// resolved: the value that a chain of choices has on a path.
func resolved(res func(ssa.Value) ssa.Value, v ssa.Value) ssa.Value {
	for i := 0; i < 5; i++ {
		v = res(v)
	}
	return v
}

// takes: one of the arguments of the call.
func (x *conf) takes(c *ssa.Call, fns []*ssa.Function, p func(ssa.Value) bool) bool {
	for _, a := range c.Call.Args {
		if p(a) {
			return true
		}
	}
	return false
}

// orItself: the value, or what the option was.
func (x *conf) orItself(v ssa.Value, fns []*ssa.Function, self, p func(ssa.Value) bool) bool {
	if p(v) {
		return true
	}
	n, own := 0, false
	for _, l := range x.w.leavesIn(v, fns) {
		if self(l) {
			own = true
			continue
		}
		n++
		if !p(l) {
			return false
		}
	}
	return n > 0 && own
}

func (x *conf) rules(f *ssa.Function) []optionRule {
	fns := x.own(f)
	return []optionRule{
		{"Options", "MaxActions", isZero, isConstInt(100), "100"},
		{"Options", "MaxConcurrentActions", isZero, x.isTwoOrFewer(f, fns), "two, or as many as there may be actions"},
		{"StateSpaceOptions", "DeadlockDetection", isNil, x.boolPtr(true, fns), "true"},
		{"Options", "CrashOnYield", isNil, x.boolPtr(true, fns), "true"},
	}
}

func (x *conf) defaults() {
	w := x.w
	f := x.fn("main.applyDefaultStateOptions")
	if f == nil {
		return
	}
	x.defaultsIn(f, x.rules(f), true, nil)
	// the number of actions is known when the concurrent ones are derived from it
	act := func(in ssa.Instruction) bool { st, _ := fieldStore(in, "Options", "MaxActions"); return st != nil }
	for _, g := range x.own(f) {
		for _, st := range w.fieldStores("Options", "MaxConcurrentActions", g) {
			for _, l := range phiLeaves(st.Val) {
				c, ok := l.(*ssa.Call)
				if !ok {
					continue
				}
				for _, a := range c.Call.Args {
					if in, ok := a.(ssa.Instruction); ok && x.field("Options", "MaxActions")(a) {
						bad, tr := (&Q{W: w, NoEnter: x.outside, Goal: act}).After(in)
						x.check(shortFn(f)+"/order", w.ipos(st), !bad, "the default of MaxConcurrentActions is derived from MaxActions before that has its default", tr)
					}
				}
			}
		}
	}
	// nothing else of the options is touched
	allowed := map[string]bool{"MaxActions": true, "MaxConcurrentActions": true, "DeadlockDetection": true, "CrashOnYield": true}
	for _, g := range x.own(f) {
		instrs(g, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
				t := namedName(fa.X.Type())
				if n := fieldName(fa.X.Type(), fa.Field); (t == "Options" || t == "StateSpaceOptions") && !allowed[n] {
					x.check(shortFn(f)+"/others", w.ipos(in), false, n+" is set although it has no default", nil)
				}
			}
		})
	}
}

// callsTo: the calls of the function in the group.
func callsTo(fns []*ssa.Function, name string) []*ssa.Call {
	var out []*ssa.Call
	for _, g := range fns {
		for _, c := range calls(g, name) {
			if cc, ok := c.(*ssa.Call); ok {
				out = append(out, cc)
			}
		}
	}
	return out
}

// errIs: the edge on which the error of the call is (not) nil.
func (x *conf) errIs(fns []*ssa.Function, c *ssa.Call, bad bool) func(Edge) bool {
	isErr := func(v ssa.Value) bool {
		for _, l := range x.w.argsIn(v, fns, 0) {
			for _, l := range phiLeaves(l) {
				if ex, ok := l.(*ssa.Extract); ok && ex.Tuple == c && isErrType(ex.Type()) || l == ssa.Value(c) && isErrType(c.Type()) {
					return true
				}
			}
		}
		return false
	}
	if bad {
		return says(isErr, isNil, token.NEQ)
	}
	return says(isErr, isNil, token.EQL)
}

// notExist: the edge on which the error is the one of a missing file.
func (x *conf) notExist(e Edge) bool {
	c, ok := e.Cond.(*ssa.Call)
	if !ok || !e.Taken {
		return false
	}
	switch calleeName(c) {
	case "errors.Is":
		return strings.HasSuffix(x.w.render(c.Call.Args[1]), "ErrNotExist")
	case "os.IsNotExist":
		return true
	}
	return false
}

// errGoesOn: the run can go on after the call has failed; a helper may hand the error to its caller.
func (x *conf) errGoesOn(c *ssa.Call, f *ssa.Function, fns []*ssa.Function, cut func(Edge) bool, d int) (bool, []string) {
	w := x.w
	h := c.Parent()
	merge := isCall("proto.Merge")
	if h == f || d > 4 {
		return (&Q{W: w, NoEnter: x.outside, Cut: cut, Through: exits, Goal: anyOf(isReturnOf(f), merge)}).After(c)
	}
	up := false
	bad, tr := (&Q{W: w, NoEnter: x.outside, Cut: cut, Through: exits, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		rt, ok := in.(*ssa.Return)
		if !ok || rt.Parent() != h {
			return merge(in)
		}
		for i := range rt.Results {
			if v := retVal(rt, i); isErrType(v.Type()) && !isNil(resolved(res, v)) {
				up = true
				return false
			}
		}
		return true
	}}).After(c)
	if bad || !up {
		return bad, tr
	}
	for _, cc := range callsTo(fns, fname(h)) {
		if bad, tr := x.errGoesOn(cc, f, fns, anyCut(x.errIs(fns, cc, false), x.notExist), d+1); bad {
			return bad, tr
		}
	}
	return false, nil
}

func exits(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		_, p := in.(*ssa.Panic)
		return p
	}
	return isExit(in) && (calleeName(c) != "os.Exit" || !isZero(c.Call.Args[0]))
}

func (x *conf) load() {
	w := x.w
	f := x.fn("main.loadStateOptions")
	if f == nil {
		return
	}
	fns := x.own(f)
	pos := w.Pos(f.Pos())
	reads := callsTo(fns, "modelchecker.ReadOptionsFromYaml")
	fronts := callsTo(fns, "modelchecker.ReadOptionsFromYamlString")
	merges := callsTo(fns, "proto.Merge")
	x.check("load/found", pos, len(reads) == 1 && len(fronts) == 1 && len(merges) >= 1, "not one reading of fizz.yaml, one of the front matter and a merge of the two", nil)
	if len(reads) != 1 || len(fronts) != 1 || len(merges) == 0 {
		return
	}
	rd, fr := reads[0], fronts[0]
	// which file
	name := rd.Call.Args[0]
	sl := w.slice(name)
	x.check("load/file", w.ipos(rd), w.mentionsConst(name, "fizz.yaml", 0) && sl.Params[f.Params[0]], "what is read is not fizz.yaml of the directory of the specification", nil)
	// problems
	for _, c := range []struct {
		c   *ssa.Call
		key string
		cut func(Edge) bool
	}{{rd, "fizz.yaml", anyCut(x.errIs(fns, rd, false), x.notExist)}, {fr, "frontmatter", x.errIs(fns, fr, false)}} {
		bad, tr := x.errGoesOn(c.c, f, fns, c.cut, 0)
		x.check("load/"+c.key+"/error", w.ipos(c.c), !bad, "the run goes on although the options cannot be read", tr)
	}
	// defaults only where there is no file
	isNew := func(in ssa.Instruction) bool {
		al, ok := in.(*ssa.Alloc)
		return ok && namedName(al.Type()) == "StateSpaceOptions" && inFuncs(fns, in.Parent())
	}
	bad, tr := (&Q{W: w, NoEnter: x.outside, Cut: anyCut(x.errIs(fns, rd, true), x.notExist), Goal: isNew}).Entry(f)
	x.check("load/used", pos, !bad, "the options of fizz.yaml are replaced by defaults although the file was read", tr)
	want := map[string]func(ssa.Value) bool{"MaxActions": isConstInt(100), "MaxConcurrentActions": isConstInt(2), "CrashOnYield": x.boolPtr(true, fns), "DeadlockDetection": x.boolPtr(true, fns),
		"Liveness": func(v ssa.Value) bool { return isConstString("strict")(v) }}
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || namedName(fa.X.Type()) != "Options" && namedName(fa.X.Type()) != "StateSpaceOptions" {
				return
			}
			n := fieldName(fa.X.Type(), fa.Field)
			if n == "Options" {
				return
			}
			_, own := peelMI(fa.X).(*ssa.Alloc)
			p := want[n]
			x.check("load/defaults/"+n, w.ipos(in), own && p != nil && p(st.Val), "without fizz.yaml, "+n+" is not its default", nil)
		})
	}
	// the front matter goes over it
	yaml := x.field("FrontMatter", "Yaml")
	empty := x.setString(fns, yaml, false)
	toMerge := func(in ssa.Instruction) bool {
		for _, m := range merges {
			if in == ssa.Instruction(m) {
				return true
			}
		}
		return false
	}
	bad, tr = (&Q{W: w, NoEnter: x.outside, Cut: empty, Through: anyOf(toMerge, exits), Goal: isReturnOf(f)}).Entry(f)
	x.check("load/merged", pos, !bad, "the front matter can be left out although there is one", tr)
	fromFront := func(v ssa.Value) bool {
		ls := w.leavesIn(v, fns)
		return len(ls) > 0 && allOf(ls, func(l ssa.Value) bool { ex, ok := l.(*ssa.Extract); return ok && ex.Tuple == fr && ex.Index == 0 })
	}
	fromFile := func(v ssa.Value) bool {
		got := false
		for _, l := range w.leavesIn(v, fns) {
			if ex, ok := l.(*ssa.Extract); ok && ex.Tuple == rd && ex.Index == 0 {
				got = true
				continue
			}
			if al, ok := l.(*ssa.Alloc); ok && namedName(al.Type()) == "StateSpaceOptions" {
				continue
			}
			return false
		}
		return got
	}
	for _, m := range merges {
		x.check("load/precedence", w.ipos(m), fromFile(m.Call.Args[0]) && fromFront(m.Call.Args[1]), "the front matter is not what is merged into the options of the file", nil)
	}
	a := w.leavesIn(fr.Call.Args[0], fns)
	x.check("load/frontmatter/own", w.ipos(fr), len(a) > 0 && allOf(a, yaml), "what is read as front matter is not that of the specification", nil)
	instrs(f, func(in ssa.Instruction) {
		if rt, ok := in.(*ssa.Return); ok && len(rt.Results) == 1 {
			x.check("load/returned", w.ipos(rt), fromFile(retVal(rt, 0)), "what is returned is not the merged options", nil)
		}
	})
}

// leavesIn: the values that may be meant, through parameters and results of the functions of the group.
func (w *World) leavesIn(v ssa.Value, fns []*ssa.Function) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value, d int)
	rec = func(v ssa.Value, d int) {
		v = peelMI(v)
		if seen[v] || d > 12 {
			return
		}
		seen[v] = true
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if al, ok := u.X.(*ssa.Alloc); ok {
				n := len(out)
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == al {
						rec(st.Val, d+1)
					}
				}
				if len(out) > n {
					return
				}
			}
		}
		if p, ok := v.(*ssa.Phi); ok {
			for _, e := range p.Edges {
				rec(e, d+1)
			}
			return
		}
		as := w.argsIn(v, fns, 0)
		if len(as) != 1 || as[0] != v {
			for _, a := range as {
				rec(a, d+1)
			}
			return
		}
		c, i := v, 0
		if ex, ok := v.(*ssa.Extract); ok {
			c, i = ex.Tuple, ex.Index
		}
		if cc, ok := c.(*ssa.Call); ok {
			if g := cc.Call.StaticCallee(); g != nil && inFuncs(fns, g) && g != fns[0] && len(g.Blocks) > 0 {
				instrs(g, func(in ssa.Instruction) {
					if rt, ok := in.(*ssa.Return); ok && i < len(rt.Results) {
						rec(retVal(rt, i), d+1)
					}
				})
				return
			}
		}
		out = append(out, v)
	}
	rec(v, 0)
	return out
}

// mentionsConst: the value is made with the constant string.
func (w *World) mentionsConst(v ssa.Value, k string, d int) bool {
	found := false
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value, d int)
	rec = func(v ssa.Value, d int) {
		if v == nil || seen[v] || d > 12 || found {
			return
		}
		seen[v] = true
		if s, ok := constStr(v); ok && strings.HasSuffix(s, k) {
			found = true
			return
		}
		if al, ok := v.(*ssa.Alloc); ok {
			for _, u := range *al.Referrers() {
				if ia, ok := u.(*ssa.IndexAddr); ok {
					for _, s := range *ia.Referrers() {
						if st, ok := s.(*ssa.Store); ok {
							rec(st.Val, d+1)
						}
					}
				}
				if st, ok := u.(*ssa.Store); ok && st.Addr == al {
					rec(st.Val, d+1)
				}
			}
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, o := range in.Operands(nil) {
				rec(*o, d+1)
			}
		}
	}
	rec(v, d)
	return found
}

// read: what cannot be read is an error, and nothing in a file of options is ignored.
func (x *conf) read() {
	w := x.w
	for _, n := range []string{"modelchecker.ReadOptionsFromYaml", "modelchecker.ReadOptionsFromYamlString", "lib.ReadProtoFromFile", "lib.ReadProtoFromBytes", "lib.YamlToJson"} {
		f := x.fn(n)
		if f == nil {
			continue
		}
		fns := x.own(f)
		for _, g := range fns {
			instrs(g, func(in ssa.Instruction) {
				c, ok := in.(*ssa.Call)
				if !ok || len(errOf(c)) == 0 || strings.HasSuffix(calleeName(c), ".Close") || calleeName(c) == "io.ReadAll" {
					return
				}
				// a return of this function with no error, although the call had one
				rs := g.Signature.Results()
				ei := rs.Len() - 1
				if ei < 0 || !isErrType(rs.At(ei).Type()) {
					return
				}
				own := func(v ssa.Value) bool {
					for _, l := range w.leavesIn(v, []*ssa.Function{g}) {
						if l == ssa.Value(c) {
							return true
						}
						if ex, ok := l.(*ssa.Extract); ok && ex.Tuple == c && isErrType(ex.Type()) {
							return true
						}
					}
					return false
				}
				bad, tr := (&Q{W: w, NoEnter: x.outside, Cut: x.errIs([]*ssa.Function{g}, c, false), Through: exits, Goal: func(in ssa.Instruction) bool {
					rt, ok := in.(*ssa.Return)
					if !ok || rt.Parent() != g || in.Block() == g.Recover {
						return false
					}
					v := retVal(rt, ei)
					return !own(v) && !definitelyNonNil(v)
				}}).After(c)
				x.check("read/"+shortFn(f)+"/"+calleeName(c), w.ipos(c), !bad, "the error of "+calleeName(c)+" is not reported", tr)
			})
		}
	}
	// no unknown options
	for _, f := range w.Funcs {
		for _, st := range w.fieldStores("UnmarshalOptions", "DiscardUnknown", f) {
			b, ok := constBool(st.Val)
			x.check("read/unknown", w.ipos(st), ok && !b, "unknown options are ignored", nil)
		}
	}
	// the message that is filled is the one that is returned
	for _, n := range []string{"modelchecker.ReadOptionsFromYaml", "modelchecker.ReadOptionsFromYamlString"} {
		f := w.Func(n)
		if f == nil {
			continue
		}
		fns := x.own(f)
		var into []ssa.Value
		for _, g := range fns {
			for _, c := range append(calls(g, "lib.ReadProtoFromFile"), calls(g, "lib.ReadProtoFromBytes")...) {
				into = append(into, w.leavesIn(c.Common().Args[1], fns)...)
			}
		}
		x.check("read/"+shortFn(f)+"/filled", w.Pos(f.Pos()), len(into) == 1, "not one message is filled", nil)
		instrs(f, func(in ssa.Instruction) {
			rt, ok := in.(*ssa.Return)
			if !ok || len(rt.Results) != 2 || len(into) != 1 {
				return
			}
			okv := allOf(w.leavesIn(retVal(rt, 0), fns), func(v ssa.Value) bool { return v == into[0] || isNil(v) })
			x.check("read/"+shortFn(f)+"/returned", w.ipos(rt), okv, "what is returned is not the message that was read", nil)
		})
	}
	for _, n := range []string{"lib.ReadProtoFromFile", "lib.ReadProtoFromBytes"} {
		f := w.Func(n)
		if f == nil {
			continue
		}
		fns := x.own(f)
		k := 0
		for _, g := range fns {
			for _, c := range append(calls(g, "lib.ReadProtoFromBytes"), calls(g, "protojson.Unmarshal", "protojson.UnmarshalOptions.Unmarshal")...) {
				as := c.Common().Args
				m := as[len(as)-1]
				k++
				x.check("read/"+shortFn(f)+"/into", w.ipos(c.(ssa.Instruction)), allOf(w.leavesIn(m, fns), func(v ssa.Value) bool { return v == ssa.Value(f.Params[1]) }), "not the message that was asked for is filled", nil)
			}
		}
		x.check("read/"+shortFn(f)+"/reads", w.Pos(f.Pos()), k > 0, "nothing is read into the message", nil)
	}
	if f := w.Func("modelchecker.ReadOptionsFromYaml"); f != nil {
		x.defaultsIn(f, x.rules(f)[:2], false, nil)
		// options that are there are not replaced as a whole
		isOpt := func(in ssa.Instruction) bool {
			st, _ := fieldStore(in, "StateSpaceOptions", "Options")
			return st != nil
		}
		bad, tr := (&Q{W: w, NoEnter: x.outside, Cut: says(x.field("StateSpaceOptions", "Options"), isNil, token.EQL), Goal: isOpt}).Entry(f)
		x.check("read/options/kept", w.Pos(f.Pos()), !bad, "the options of the file are replaced", tr)
		bad, tr = (&Q{W: w, NoEnter: x.outside, Cut: anyCut(says(x.field("StateSpaceOptions", "Options"), isNil, token.NEQ), x.anyErr(x.own(f))), Through: isOpt, Goal: isReturnOf(f)}).Entry(f)
		x.check("read/options/there", w.Pos(f.Pos()), !bad, "a file without options leaves none", tr)
		for _, st := range w.fieldStores("Options", "MaxActions", x.own(f)...) {
			x.check("read/options/MaxActions", w.ipos(st), isConstInt(100)(st.Val), "the default of MaxActions is not 100", nil)
		}
		for _, st := range w.fieldStores("Options", "MaxConcurrentActions", x.own(f)...) {
			x.check("read/options/MaxConcurrentActions", w.ipos(st), isConstInt(2)(st.Val) || x.isTwoOrFewer(f, x.own(f))(st.Val), "the default of MaxConcurrentActions is not two, or as many as there may be actions", nil)
		}
	}
}

// anyErr: the edge on which some call of the functions has failed.
func (x *conf) anyErr(fns []*ssa.Function) func(Edge) bool {
	return says(func(v ssa.Value) bool { return isErrType(v.Type()) }, isNil, token.NEQ)
}

// given: which options each specification is checked with.
func staticCallees(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	instrs(f, func(in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
			out = append(out, c.Common().StaticCallee())
		}
	})
	return out
}

// sharing: the function with its helpers, those that others use as well included.
func (x *conf) sharing(f *ssa.Function) []*ssa.Function {
	out := x.own(f)
	for i := 0; i < len(out); i++ {
		for _, g := range staticCallees(out[i]) {
			if packageOf(g) == packageOf(f) && !confAnchors[fname(g)] && len(g.Blocks) > 0 && !memberOf(out, g) && len(calls(g, "main.loadStateOptions", "main.applyDefaultStateOptions", "main.getStateConfigForTraceChecking")) > 0 {
				out = append(out, g)
			}
		}
	}
	return out
}

func (x *conf) given() {
	w := x.w
	n := 0
	main := x.fn("main.main")
	traced := x.fn("main.getStateConfigForTraceChecking")
	if main == nil || traced == nil {
		return
	}
	for _, c := range w.callSites("main.modelCheckSingleSpec") {
		f := c.Parent()
		in := c.(ssa.Instruction)
		fns := x.sharing(f)
		args := c.Common().Args
		n++
		key := "given/" + shortFn(f)
		files := w.leavesIn(args[0], fns)
		var loads []*ssa.Call
		ok := len(files) > 0
		for _, l := range w.leavesIn(args[1], fns) {
			cc, is := l.(*ssa.Call)
			if !is {
				ok = false
				continue
			}
			switch calleeName(cc) {
			case "main.loadStateOptions":
				loads = append(loads, cc)
			case "main.getStateConfigForTraceChecking":
				x.traceOnly(cc)
			default:
				ok = false
			}
		}
		x.check(key+"/loaded", w.ipos(in), ok && len(loads) > 0, "the specification is not checked with the options that were loaded for it", nil)
		for _, ld := range loads {
			own := false
			fm := w.leavesIn(ld.Call.Args[1], fns)
			if len(fm) == 1 {
				var base ssa.Value
				switch v := fm[0].(type) {
				case *ssa.Call:
					if strings.HasSuffix(calleeName(v), "File.GetFrontMatter") {
						base = v.Call.Args[0]
					}
				case *ssa.UnOp:
					if fa, ok := v.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "FrontMatter" {
						base = fa.X
					}
				}
				if base != nil {
					bs := w.leavesIn(base, fns)
					own = len(bs) == 1 && len(files) == 1 && bs[0] == files[0]
				}
			}
			x.check(key+"/own", w.ipos(ld), own, "the front matter is not the one of the specification that is checked", nil)
			d := w.leavesIn(ld.Call.Args[0], fns)
			d2 := w.leavesIn(args[2], fns)
			x.check(key+"/dir", w.ipos(ld), len(d) == 1 && len(d2) == 1 && d[0] == d2[0], "the options are not those of the directory of the specification", nil)
			// defaults before the search
			applied := func(i ssa.Instruction) bool {
				ap, ok := i.(*ssa.Call)
				if !ok || calleeName(ap) != "main.applyDefaultStateOptions" {
					return false
				}
				ls := w.leavesIn(ap.Call.Args[0], fns)
				for _, l := range ls {
					if l == ssa.Value(ld) {
						return true
					}
				}
				return false
			}
			bad, tr := false, []string(nil)
			for from, i := []*ssa.Call{ld}, 0; i < len(from) && i < 20; i++ {
				h := from[i].Parent()
				q := &Q{W: w, NoEnter: x.outside, Through: applied, Goal: anyOf(func(i ssa.Instruction) bool { return i == in }, isReturnOf(h))}
				if h == f {
					q.Goal = func(i ssa.Instruction) bool { return i == in }
				}
				b, t := q.After(from[i])
				if b && h != f { // the caller does it
					from = append(from, callsTo(fns, fname(h))...)
					continue
				}
				if b {
					bad, tr = b, t
				}
			}
			x.check(key+"/defaults", w.ipos(in), !bad, "the search can start with options that have no defaults", tr)
		}
		// nobody else changes the options on the way
		for _, g := range fns {
			instrs(g, func(i ssa.Instruction) {
				if st, ok := i.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && !memberOf(x.own(traced), g) && inMain(g) && !okWriter(g) &&
						(namedName(fa.X.Type()) == "StateSpaceOptions" || namedName(fa.X.Type()) == "Options" && strings.Contains(fa.X.Type().String(), "proto")) {
						x.check(key+"/unchanged", w.ipos(i), false, fieldName(fa.X.Type(), fa.Field)+" of the options is changed", nil)
					}
				}
			})
		}
	}
	x.r.Floor("searches that are started", n, 4)
	// files of other specifications
	for _, fn := range []string{"main.runCompositionalModelChecking", "main.runRefinementModelChecking"} {
		f := x.fn(fn)
		if f == nil {
			continue
		}
		for _, c := range callsTo(x.own(f), "main.loadInputJSON") {
			x.check("given/"+shortFn(f)+"/file", w.ipos(c), x.mentionsField(c.Call.Args[0], "Name", 0), "the specification that is read is not the one that is named", nil)
		}
	}
	// the options of a guided trace
	fns := x.own(traced)
	want := map[string]func(ssa.Value) bool{"MaxActions": isConstInt(100), "MaxConcurrentActions": isConstInt(1), "CrashOnYield": x.boolPtr(false, fns), "DeadlockDetection": x.boolPtr(false, fns), "Liveness": isConstString("false")}
	got := map[string]bool{}
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && (namedName(fa.X.Type()) == "StateSpaceOptions" || namedName(fa.X.Type()) == "Options") {
					n := fieldName(fa.X.Type(), fa.Field)
					if p := want[n]; p != nil {
						got[n] = true
						x.check("trace/"+n, w.ipos(in), p(st.Val), n+" is not what a guided trace needs", nil)
					}
				}
			}
		})
	}
	for n := range want {
		x.check("trace/"+n+"/set", w.Pos(traced.Pos()), got[n], n+" is not set for a guided trace", nil)
	}
}

func inMain(g *ssa.Function) bool { return g.Pkg != nil && g.Pkg.Pkg.Name() == "main" }

func okWriter(g *ssa.Function) bool {
	n := fname(g)
	return strings.HasPrefix(n, "main.applyDefaultStateOptions") || strings.HasPrefix(n, "main.loadStateOptions")
}

// mentionsField: the value is made with the field of something.
func (x *conf) mentionsField(v ssa.Value, field string, d int) bool {
	seen := map[ssa.Value]bool{}
	found := false
	var rec func(v ssa.Value, d int)
	rec = func(v ssa.Value, d int) {
		if v == nil || seen[v] || d > 12 || found {
			return
		}
		seen[v] = true
		if fa, ok := v.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == field {
			found = true
			return
		}
		if c, ok := v.(*ssa.Call); ok && strings.HasSuffix(calleeName(c), ".Get"+field) {
			found = true
			return
		}
		if al, ok := v.(*ssa.Alloc); ok {
			for _, u := range *al.Referrers() {
				if ia, ok := u.(*ssa.IndexAddr); ok {
					for _, s := range *ia.Referrers() {
						if st, ok := s.(*ssa.Store); ok {
							rec(st.Val, d+1)
						}
					}
				}
			}
		}
		if p, ok := v.(*ssa.Parameter); ok {
			for _, a := range x.w.callersArgs(p) {
				rec(a, d+1)
			}
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, o := range in.Operands(nil) {
				rec(*o, d+1)
			}
		}
	}
	rec(v, d)
	return found
}

// callersArgs: what the callers pass for a parameter.
func (w *World) callersArgs(p *ssa.Parameter) []ssa.Value {
	var out []ssa.Value
	i := -1
	for k, q := range p.Parent().Params {
		if q == p {
			i = k
		}
	}
	for _, c := range w.callers[p.Parent()] {
		if as := callArgs(c); i >= 0 && i < len(as) {
			out = append(out, as[i])
		}
	}
	return out
}

// traceOnly: the options of traces are used exactly if there is a trace.
func (x *conf) traceOnly(c *ssa.Call) {
	w := x.w
	f := w.Func("main.main")
	fns := x.own(f)
	file, text, ext := isGlobal("traceFile"), isGlobal("trace"), isGlobal("traceExtend")
	t := x.through(fns, ext)
	on := []func(Edge) bool{x.setString(fns, file, true), x.setString(fns, text, true), anyCut(says(t, isZero, token.GTR, token.NEQ), says(t, isConstInt(1), token.GEQ))}
	off := []func(Edge) bool{x.setString(fns, file, false), x.setString(fns, text, false), anyCut(says(t, isZero, token.LEQ, token.EQL), says(t, isConstInt(1), token.LSS))}
	bad, tr := (&Q{W: w, NoEnter: x.outside, Cut: anyCut(on...), Goal: func(in ssa.Instruction) bool { return in == ssa.Instruction(c) }}).Entry(f)
	x.check("given/trace/only", w.ipos(c), !bad, "the options of a trace are used without one", tr)
	for i, n := range []string{"traceFile", "trace", "traceExtend"} {
		bad, tr := (&Q{W: w, NoEnter: x.outside, Cut: off[i], Goal: isCall("main.loadStateOptions")}).Entry(f)
		x.check("given/trace/"+n, w.ipos(c), !bad, "the options of the files are used although there is a trace", tr)
	}
}

// flagTable: the flags that are documented, their variable and what it is without the flag.
var flagTable = []struct{ name, global, def string }{
	{"simulation", "simulation", "false"}, {"playground", "isPlayground", "false"}, {"save_states", "saveStates", "false"}, {"copy-ast", "copyAst", "false"}, {"output-dir", "outputDir", `""`},
	{"seed", "seed", "0"}, {"max_runs", "maxRuns", "0"}, {"simulation_first_traces", "simFirstTraces", "0"}, {"exploration_strategy", "explorationStrategy", `"bfs"`},
	{"trace-file", "traceFile", `""`}, {"trace", "trace", `""`}, {"trace-extend", "traceExtend", "0"}, {"preinit-hook-file", "preinitHookFile", `""`}, {"preinit-hook", "preinitHook", `""`},
	{"test", "isTest", "false"}, {"experimental_processed_queue", "experimentalProcessedQueue", "false"}, {"experimental_no_graph", "experimentalNoGraph", "false"},
	{"experimental_no_state_returns", "experimentalNoStateReturns", "false"}, {"no-symmetry-reduction", "noSymmetryReduction", "false"},
}

func (x *conf) flags() {
	w := x.w
	f := x.fn("main.parseFlags")
	if f == nil {
		return
	}
	fns := x.own(f)
	type bind struct {
		c      *ssa.Call
		global string
		def    ssa.Value
	}
	bound := map[string][]bind{}
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || !strings.HasPrefix(calleeName(c), "flag.") || !strings.HasSuffix(calleeName(c), "Var") {
				return
			}
			as := c.Call.Args
			if len(as) == 5 { // on a flag set
				as = as[1:]
			}
			if len(as) != 4 {
				return
			}
			n, ok := constStr(as[1])
			gl, isG := as[0].(*ssa.Global)
			if !ok || !isG {
				return
			}
			bound[n] = append(bound[n], bind{c, gl.Name(), as[2]})
		})
	}
	if len(bound) == 0 {
		x.r.Undecided("flags/table", w.Pos(f.Pos()), "no flags are bound to variables in a form that is understood")
		return
	}
	for _, t := range flagTable {
		bs := bound[t.name]
		ok := len(bs) == 1 && bs[0].global == t.global
		pos := w.Pos(f.Pos())
		if len(bs) > 0 {
			pos = w.ipos(bs[0].c)
		}
		x.check("flags/"+t.name, pos, ok, "the flag does not set its variable", nil)
		if ok {
			c, isC := bs[0].def.(*ssa.Const)
			x.check("flags/"+t.name+"/default", pos, isC && c.Value != nil && c.Value.ExactString() == t.def, "without the flag, it is not "+t.def, nil)
			parse := func(in ssa.Instruction) bool {
				c, ok := in.(*ssa.Call)
				return ok && (calleeName(c) == "flag.Parse" || calleeName(c) == "flag.FlagSet.Parse")
			}
			bad, tr := (&Q{W: w, NoEnter: x.outside, Through: parse, Goal: isReturnOf(f)}).After(bs[0].c)
			x.check("flags/"+t.name+"/parsed", pos, !bad, "the flags are not parsed after this one is defined", tr)
		}
	}
	// contradictions
	for _, p := range [][2]string{{"traceFile", "trace"}, {"preinitHookFile", "preinitHook"}} {
		cut := anyCut(x.setString(fns, isGlobal(p[0]), false), x.setString(fns, isGlobal(p[1]), false))
		bad, tr := (&Q{W: w, NoEnter: x.outside, Cut: cut, Through: exits, Goal: isReturnOf(f)}).Entry(f)
		x.check("flags/both/"+p[0], w.Pos(f.Pos()), !bad, "both "+p[0]+" and "+p[1]+" are accepted", tr)
	}
	// nobody else writes the variables
	vars := map[string]bool{}
	for _, t := range flagTable {
		vars[t.global] = true
	}
	for _, g := range w.Funcs {
		if !inMain(g) || g.Name() == "init" {
			continue
		}
		instrs(g, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			gl, ok := st.Addr.(*ssa.Global)
			if !ok || !vars[gl.Name()] {
				return
			}
			top := g
			for top.Parent() != nil {
				top = top.Parent()
			}
			switch gl.Name() {
			case "maxRuns":
				x.check("flags/unchanged/maxRuns", w.ipos(in), isConstInt(1)(st.Val), "max_runs is set to something but one", nil)
				cut := anyCut(x.flagIs(nil2(top), isGlobal("simulation"), false), says(x.through(nil2(top), isGlobal("seed")), isZero, token.NEQ))
				root := w.Func("main.modelCheckSingleSpec")
				bad, tr := (&Q{W: w, NoEnter: x.outside, Cut: cut, Goal: func(i ssa.Instruction) bool { return i == in }}).Entry(root)
				x.check("flags/maxRuns/kept", w.ipos(in), !bad, "max_runs is overwritten for a simulation without a seed", tr)
			case "experimentalProcessedQueue":
				b, ok := constBool(st.Val)
				x.check("flags/unchanged/processedQueue", w.ipos(in), ok && b, "the processed queue is turned off", nil)
				bad, tr := (&Q{W: w, NoEnter: x.outside, Cut: x.flagIs(nil2(top), isGlobal("experimentalNoGraph"), true), Goal: func(i ssa.Instruction) bool { return i == in }}).Entry(w.Func("main.main"))
				x.check("flags/processedQueue/only", w.ipos(in), !bad, "the processed queue is turned on though nobody asked for it", tr)
			default:
				x.check("flags/unchanged/"+gl.Name(), w.ipos(in), false, "the value of the flag is overwritten", nil)
			}
		})
	}
	// no graph: only with the processed queue, not with liveness
	m := w.Func("main.main")
	set := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		gl, ok := st.Addr.(*ssa.Global)
		return ok && gl.Name() == "experimentalProcessedQueue"
	}
	mf := x.own(m)
	cut := anyCut(x.flagIs(mf, isGlobal("experimentalNoGraph"), false), x.flagIs(mf, isGlobal("experimentalProcessedQueue"), true))
	bad, tr := (&Q{W: w, NoEnter: x.outside, Cut: cut, Through: set, Goal: isCall("main.modelCheckSingleSpec")}).Entry(m)
	x.check("flags/noGraph/queue", w.Pos(m.Pos()), !bad, "no-graph mode can run without the processed queue", tr)
}

func nil2(f *ssa.Function) []*ssa.Function { return []*ssa.Function{f} }

// wiring: what the search is given.
func (x *conf) wiring() {
	w := x.w
	f := x.fn("main.modelCheckSingleSpec")
	if f == nil {
		return
	}
	fns := x.own(f)
	news := callsTo(fns, "modelchecker.NewProcessor")
	if len(news) == 0 {
		news = callsTo(fns, "modelchecker.NewProcessorWithVisitedTracking")
	}
	x.check("wiring/found", w.Pos(f.Pos()), len(news) == 1, "not one search is made", nil)
	if len(news) != 1 {
		return
	}
	c := news[0]
	a := c.Call.Args
	leaf := func(i int, p func(ssa.Value) bool) bool {
		ls := w.leavesIn(a[i], fns)
		return len(ls) > 0 && allOf(ls, p)
	}
	par := func(k int) func(ssa.Value) bool { return func(v ssa.Value) bool { return v == ssa.Value(f.Params[k]) } }
	fileOk := false
	for _, e := range sliceElems2(a[0]) {
		ls := w.leavesIn(e, fns)
		fileOk = len(ls) == 1 && ls[0] == ssa.Value(f.Params[0])
	}
	x.check("wiring/file", w.ipos(c), fileOk && len(sliceElems2(a[0])) == 1, "not the given specification is searched", nil)
	for _, t := range []struct {
		i    int
		name string
		p    func(ssa.Value) bool
	}{{1, "options", par(1)}, {2, "simulation", isGlobal("simulation")}, {3, "seed", isGlobal("seed")}, {4, "dirPath", par(2)}, {5, "strategy", isGlobal("explorationStrategy")},
		{6, "test", isGlobal("isTest")}, {7, "hashes", par(6)}} {
		x.check("wiring/"+t.name, w.ipos(c), leaf(t.i, t.p), "the search is not given the "+t.name+" that was asked for", nil)
	}
	// modes
	run := func(in ssa.Instruction) bool {
		cc, ok := in.(*ssa.Call)
		return ok && (calleeName(cc) == "main.startModelChecker" || calleeName(cc) == "modelchecker.Processor.Start")
	}
	for _, s := range []struct{ set, flag, field string }{{"SetExperimentalProcessedQueue", "experimentalProcessedQueue", "experimentalProcessedQueue"}, {"SetExperimentalNoGraph", "experimentalNoGraph", "experimentalNoGraph"},
		{"SetExperimentalNoStateReturns", "experimentalNoStateReturns", ""}, {"SetDisableSymmetryReduction", "noSymmetryReduction", "disableSymmetryReduction"}} {
		s := s
		given := func(in ssa.Instruction) bool {
			cc, ok := in.(*ssa.Call)
			return ok && calleeName(cc) == "modelchecker.Processor."+s.set && allOf(w.leavesIn(cc.Call.Args[1], fns), isGlobal(s.flag)) &&
				allOf(w.leavesIn(cc.Call.Args[0], fns), func(v ssa.Value) bool { return v == ssa.Value(c) })
		}
		q := &Q{W: w, NoEnter: x.outside, Through: given, Goal: run}
		bad, tr := q.After(c)
		if c.Parent() != f {
			bad, tr = q.Entry(f)
		}
		x.check("wiring/"+s.flag, w.ipos(c), !bad, "the search starts without having been told --"+s.flag, tr)
		if m := x.fn("modelchecker.Processor." + s.set); m != nil && s.field != "" {
			bad, tr := (&Q{W: w, NoEnter: x.outside, Goal: isReturnOf(m), Through: func(in ssa.Instruction) bool {
				st, _ := fieldStore(in, "Processor", s.field)
				return st != nil && allOf(w.argsIn(st.Val, nil2(m), 0), func(v ssa.Value) bool { return v == ssa.Value(m.Params[1]) })
			}}).Entry(m)
			x.check("wiring/"+s.flag+"/kept", w.Pos(m.Pos()), !bad, "the search does not keep what it is told", tr)
		}
	}
	// how many runs
	maxRuns := isGlobal("maxRuns")
	unlimited := anyCut(says(maxRuns, isZero, token.LEQ, token.EQL), says(maxRuns, isConstInt(1), token.LSS))
	var counters []ssa.Value
	within := func(e Edge) bool {
		a, op, b, ok := relOf(e)
		if !ok {
			return false
		}
		if maxRuns(a) {
			a, b = b, a
			op = mirrored[op]
		}
		if _, isC := peelConv(a).(*ssa.Const); isC || !maxRuns(b) || op != token.LSS && op != token.NEQ && op != token.LEQ {
			return false
		}
		counters = append(counters, a)
		return true
	}
	isNewRun := func(in ssa.Instruction) bool { return in == ssa.Instruction(c) }
	bad, tr := (&Q{W: w, NoEnter: x.outside, Cut: anyCut(unlimited, within), Goal: isNewRun}).After(c)
	x.check("wiring/runs/limit", w.ipos(c), !bad, "another run starts without a look at max_runs", tr)
	okCount := len(counters) > 0
	for _, v := range counters {
		okCount = okCount && x.countsRuns(v, isNewRun)
	}
	x.check("wiring/runs/count", w.ipos(c), okCount, "what is compared with max_runs is not the number of runs", nil)
	cut := anyCut(x.flagIs(fns, isGlobal("simulation"), true))
	one := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		gl, ok := st.Addr.(*ssa.Global)
		return ok && gl.Name() == "maxRuns"
	}
	bad, tr = (&Q{W: w, NoEnter: x.outside, Cut: cut, Through: one, Goal: isNewRun}).Entry(f)
	x.check("wiring/runs/search", w.ipos(c), !bad, "an exhaustive search is repeated", tr)
	bad, tr = (&Q{W: w, NoEnter: x.outside, Cut: says(isGlobal("seed"), isZero, token.EQL), Through: one, Goal: isNewRun}).Entry(f)
	x.check("wiring/runs/seed", w.ipos(c), !bad, "a run with a given seed is repeated", tr)
}

// countsRuns: a variable that starts at zero, goes up by one in each round and does not change otherwise; the first
// comparison sees zero, so that exactly max_runs rounds happen.
func (x *conf) countsRuns(v ssa.Value, run func(ssa.Instruction) bool) bool {
	ph, ok := peelConv(v).(*ssa.Phi)
	if !ok {
		return false
	}
	zero, inc := false, false
	for _, e := range ph.Edges {
		switch {
		case isZero(e):
			zero = true
		case isIncOf(e, ph):
			inc = true
		default:
			return false
		}
	}
	return zero && inc
}

// isIncOf: v = p + 1, maybe by way of another phi that only has such values.
func isIncOf(v ssa.Value, p *ssa.Phi) bool {
	for _, l := range phiLeaves2(v, p) {
		b, ok := l.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || !(b.X == ssa.Value(p) && isConstInt(1)(b.Y) || b.Y == ssa.Value(p) && isConstInt(1)(b.X)) {
			return false
		}
	}
	return true
}

func phiLeaves2(v ssa.Value, stop *ssa.Phi) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var rec func(ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if p, ok := v.(*ssa.Phi); ok && p != stop {
			for _, e := range p.Edges {
				rec(e)
			}
			return
		}
		out = append(out, v)
	}
	rec(v)
	return out
}

// processor: the search keeps what it is given.
func (x *conf) processor() {
	w := x.w
	outer := x.fn("modelchecker.NewProcessor")
	f := x.fn("modelchecker.NewProcessorWithVisitedTracking")
	if outer == nil || f == nil {
		return
	}
	for _, c := range callsTo(x.own(outer), "modelchecker.NewProcessorWithVisitedTracking") {
		for i := range outer.Params {
			x.check("processor/passed", w.ipos(c), c.Call.Args[i] == ssa.Value(outer.Params[i]), "parameter "+outer.Params[i].Name()+" is not passed on in its place", nil)
		}
	}
	fns := x.own(f)
	p := func(i int) func(ssa.Value) bool { return func(v ssa.Value) bool { return v == ssa.Value(f.Params[i]) } }
	// the seed
	isSeed := func(v ssa.Value) bool {
		given := false
		for _, l := range w.leavesIn(v, fns) {
			if p(3)(l) {
				given = true
				continue
			}
			if c, ok := l.(*ssa.Call); !ok || !strings.HasPrefix(calleeName(c), "time.") {
				return false
			}
		}
		return given
	}
	var seeds []ssa.Value
	srcs := callsTo(fns, "rand.NewSource")
	x.check("processor/source", w.Pos(f.Pos()), len(srcs) == 1, "not one source of chance is made", nil)
	for _, c := range srcs {
		x.check("processor/source/seed", w.ipos(c), isSeed(c.Call.Args[0]), "chance does not come from the seed", nil)
		seeds = append(seeds, c.Call.Args[0])
	}
	clock := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && strings.HasPrefix(calleeName(c), "time.Time.Unix")
	}
	bad, tr := (&Q{W: w, NoEnter: x.outside, Cut: says(x.through(fns, p(3)), isZero, token.EQL), Goal: clock}).Entry(f)
	x.check("processor/seed/kept", w.Pos(f.Pos()), !bad, "a seed that is given is replaced", tr)
	isRandom := func(v ssa.Value) bool {
		for _, l := range w.leavesIn(v, fns) {
			if u, ok := l.(*ssa.UnOp); ok && u.Op == token.MUL {
				l = u.X
			}
			c, ok := l.(*ssa.Call)
			if !ok || calleeName(c) != "rand.New" || len(srcs) != 1 || !allOf(w.leavesIn(c.Call.Args[0], fns), func(v ssa.Value) bool { return v == ssa.Value(srcs[0]) }) {
				return false
			}
		}
		return true
	}
	lists := map[string]bool{"lib.NewRandomQueue": true, "lib.NewStack": true, "lib.NewQueue": true}
	stores := map[string][]*ssa.Store{}
	for _, n := range []string{"Files", "config", "dirPath", "simulation", "random", "Seed", "isTest", "hashes", "guidedTrace", "preinitHookContent", "queue", "intermediateStates"} {
		stores[n] = w.fieldStores("Processor", n, fns...)
	}
	leaf := func(p func(ssa.Value) bool) func(ssa.Value) bool {
		return func(v ssa.Value) bool { return allOf(w.leavesIn(v, fns), p) }
	}
	isCopy := func(v ssa.Value) bool {
		if ta, ok := v.(*ssa.TypeAssert); ok {
			v = ta.X
		}
		c, ok := v.(*ssa.Call)
		return ok && (calleeName(c) == "proto.Clone" || calleeName(c) == "proto.CloneOf") && allOf(w.leavesIn(c.Call.Args[0], fns), p(1)) || p(1)(v)
	}
	for n, ok := range map[string]func(ssa.Value) bool{"Files": leaf(p(0)), "config": leaf(isCopy), "simulation": leaf(p(2)), "dirPath": leaf(p(4)), "isTest": leaf(p(6)), "hashes": leaf(p(7)), "guidedTrace": leaf(p(8)),
		"preinitHookContent": leaf(p(9)), "random": isRandom, "Seed": func(v ssa.Value) bool {
			return isSeed(v) && len(seeds) == 1 && sameLeaves(w.leavesIn(v, fns), w.leavesIn(seeds[0], fns))
		}} {
		pos := w.Pos(f.Pos())
		good := len(stores[n]) > 0
		for _, st := range stores[n] {
			pos = w.ipos(st)
			good = good && ok(st.Val)
		}
		x.check("processor/"+n, pos, good, n+" of the search is not what was given", nil)
	}
	// the order of exploration
	sim, strat := x.through(fns, p(2)), x.through(fns, p(5))
	simOn := func(e Edge) bool { return e.Taken && sim(e.Cond) }
	simOff := func(e Edge) bool { return !e.Taken && sim(e.Cond) }
	is := func(k string) func(Edge) bool { return says(strat, isConstString(k), token.EQL) }
	not := func(k string) func(Edge) bool { return says(strat, isConstString(k), token.NEQ) }
	for _, cs := range []struct {
		key, want string
		cut       func(Edge) bool
		both      bool
	}{{"simulation", "lib.NewRandomQueue", simOff, true}, {"dfs", "lib.NewStack", anyCut(simOn, not("dfs"), is("random"), is("bfs")), false},
		{"random", "lib.NewRandomQueue", anyCut(simOn, not("random"), is("dfs"), is("bfs")), false}, {"bfs", "lib.NewQueue", anyCut(simOn, not("bfs"), is("dfs"), is("random")), false}} {
		cs := cs
		for _, fld := range []string{"queue", "intermediateStates"} {
			fld := fld
			if fld != "queue" && !cs.both {
				continue
			}
			type choice struct {
				f *ssa.Function
				i int
			}
			todo := []choice{{f, -1}}
			seen := map[choice]bool{}
			bad, tr := false, []string(nil)
			for n := 0; n < len(todo) && n < 10 && !bad; n++ {
				ch := todo[n]
				if seen[ch] {
					continue
				}
				seen[ch] = true
				bad, tr = (&Q{W: w, NoEnter: x.outside, Cut: cs.cut, Track: func(p *ssa.Phi) bool { return types.IsInterface(p.Type()) }, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
					var v ssa.Value
					if ch.i < 0 {
						st, _ := fieldStore(in, "Processor", fld)
						if st == nil {
							return false
						}
						v = st.Val
					} else if rt, ok := in.(*ssa.Return); ok && rt.Parent() == ch.f && in.Block() != ch.f.Recover {
						v = retVal(rt, ch.i)
					} else {
						return false
					}
					v = peelMI(res(v))
					for i := 0; i < 4; i++ {
						v = peelMI(res(v))
					}
					if vs := w.argsIn(v, fns, 0); len(vs) == 1 {
						v = peelMI(vs[0])
					}
					c, i := v, 0
					if ex, ok := v.(*ssa.Extract); ok {
						c, i = ex.Tuple, ex.Index
					}
					cc, ok := c.(*ssa.Call)
					if ok && !lists[calleeBase(cc)] { // a helper chooses
						if h := cc.Call.StaticCallee(); h != nil && h != f && memberOf(fns, h) {
							todo = append(todo, choice{h, i})
							return false
						}
					}
					return !ok || calleeBase(cc) != cs.want
				}}).Entry(ch.f)
			}
			x.check("processor/order/"+cs.key+"/"+fld, w.Pos(f.Pos()), !bad, "the states are not explored in the order of "+cs.key, tr)
		}
	}
	for _, c := range callsTo(fns, "lib.NewRandomQueue") {
		x.check("processor/order/chance", w.ipos(c), isRandom(c.Call.Args[0]), "a random order does not come from the seed", nil)
	}
	// a simulation is a simulation
	st := x.fn("modelchecker.Processor.Start")
	if st != nil {
		sim := x.field("Processor", "simulation")
		run := isCall("modelchecker.Processor.StartSimulation")
		bad, tr := (&Q{W: w, NoEnter: x.outside, Cut: func(e Edge) bool { return e.Taken && sim(e.Cond) }, Goal: run}).Entry(st)
		x.check("processor/start/search", w.Pos(st.Pos()), !bad, "a simulation runs though none was asked for", tr)
		bad, tr = (&Q{W: w, NoEnter: x.outside, Cut: func(e Edge) bool { return !e.Taken && sim(e.Cond) }, Through: run, Goal: isReturnOf(st)}).Entry(st)
		x.check("processor/start/simulation", w.Pos(st.Pos()), !bad, "a simulation that was asked for does not run", tr)
		q := x.field("Processor", "experimentalProcessedQueue")
		pq := isCall("modelchecker.Processor.startProcessedQueue")
		bad, tr = (&Q{W: w, NoEnter: x.outside, Cut: func(e Edge) bool { return e.Taken && q(e.Cond) }, Goal: pq}).Entry(st)
		x.check("processor/start/queue", w.Pos(st.Pos()), !bad, "the processed queue is used though nobody asked for it", tr)
	}
}

func calleeBase(c ssa.CallInstruction) string {
	n := calleeName(c)
	if i := strings.Index(n, "["); i > 0 {
		n = n[:i]
	}
	return n
}

func sameLeaves(a, b []ssa.Value) bool {
	if len(a) != len(b) {
		return false
	}
	in := map[ssa.Value]bool{}
	for _, v := range a {
		in[v] = true
	}
	for _, v := range b {
		if !in[v] {
			return false
		}
	}
	return true
}
