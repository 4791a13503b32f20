package main

import (
	"go/token"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("S10", ruleS10) }

// stepFns: the step functions of a thread, which path queries on one of them do not enter.
func (w *World) stepFns() bool {
	w.flowFns = map[*ssa.Function]bool{}
	for _, n := range []string{"Execute", "executeBlock", "executeStatement", "executeForStatement", "executeWhileStatement", "executeEndOfStatement", "endOfBlock"} {
		f := w.Func("modelchecker.Thread." + n)
		if f == nil {
			return false
		}
		w.flowFns[f] = true
	}
	return true
}

func (w *World) onlyStep(fn *ssa.Function) func(*ssa.Function) bool {
	in := onlyIn(w.stepGroup(fn))
	return func(f *ssa.Function) bool {
		rs := f.Signature.Results()
		return w.flowFns[f] || in(f) && !(rs.Len() == 1 && isBoolType(rs.At(0).Type()))
	}
}

// stepGroup: the function and the helpers it shares with nothing but the other step functions.
func (w *World) stepGroup(fn *ssa.Function) []*ssa.Function {
	var steps []*ssa.Function
	for _, f := range sortedFns(w.flowFns) {
		steps = append(steps, f)
	}
	all := map[*ssa.Function]bool{}
	for _, f := range w.group(append(steps, fn)...) {
		all[f] = true
	}
	out, seen := []*ssa.Function{fn}, map[*ssa.Function]bool{fn: true}
	add := func(f *ssa.Function) {
		if all[f] && !seen[f] && !w.flowFns[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	for i := 0; i < len(out); i++ {
		for _, a := range out[i].AnonFuncs {
			add(a)
		}
		instrs(out[i], func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				for _, t := range w.callees(c) {
					add(t)
				}
			}
		})
	}
	return out
}

// bindShared: the parameters of helpers that are called once in the group (and elsewhere) stand for these arguments.
func (w *World) bindShared(fns []*ssa.Function) binding {
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = true
	}
	b := binding{}
	for _, f := range fns[1:] {
		var sites []ssa.CallInstruction
		for _, c := range w.callers[f] {
			if in[c.Parent()] {
				sites = append(sites, c)
			}
		}
		if len(w.callers[f]) > 1 && len(sites) == 1 {
			for i, a := range callArgs(sites[0]) {
				if i < len(f.Params) && a != ssa.Value(f.Params[i]) {
					b[f.Params[i]] = a
				}
			}
		}
	}
	return b
}

// with: render values with these bindings.
func (w *World) with(b binding, f func()) {
	old := w.bound
	nb := binding{}
	for k, v := range old {
		nb[k] = v
	}
	for k, v := range b {
		nb[k] = v
	}
	w.bound = nb
	f()
	w.bound = old
}

// everyValue: each value that may flow here (through phis, conversions and small helpers) is accepted.
func (w *World) everyValue(v ssa.Value, ok func(ssa.Value) bool, d int) bool {
	for _, l := range phiLeaves(peelMI(w.bound.of(peelMI(v)))) {
		if l = peelMI(w.bound.of(l)); ok(l) {
			continue
		}
		c, i := l, 0
		if ex, is := l.(*ssa.Extract); is {
			c, i = ex.Tuple, ex.Index
		}
		cc, is := c.(*ssa.Call)
		if !is || d > 3 {
			return false
		}
		f := cc.Call.StaticCallee()
		if f == nil || !w.owns(f) || len(f.Blocks) == 0 || w.flowFns[f] {
			return false
		}
		n, all := 0, true
		w.with(bindCall(cc, f, nil), func() {
			instrs(f, func(in ssa.Instruction) {
				if rt, is := in.(*ssa.Return); is && i < len(rt.Results) {
					n++
					all = all && w.everyValue(retVal(rt, i), ok, d+1)
				}
			})
		})
		if n == 0 || !all {
			return false
		}
	}
	return true
}

// valIs: every value that may flow here renders as pat.
func (w *World) valIs(pat string) func(ssa.Value) bool {
	return func(v ssa.Value) bool {
		return w.everyValue(v, func(l ssa.Value) bool { return reMatch(pat, w.plain(l)) }, 0)
	}
}

func (w *World) plain(v ssa.Value) string {
	return strings.ReplaceAll(w.render(v), "modelchecker.", "")
}

func peelMI(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.TypeAssert:
			if x.CommaOk {
				return v
			}
			v = x.X
		default:
			return v
		}
	}
}

// mapPut: an entry is stored in a map (m, k: how map and key render; nil val: any value).
func (w *World) mapPut(m, k string, val func(ssa.Value) bool) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		u, ok := in.(*ssa.MapUpdate)
		if !ok {
			return false
		}
		s := func(v ssa.Value) string { return w.plain(v) }
		return reMatch(m, s(u.Map)) && reMatch(k, s(u.Key)) && (val == nil || val(u.Value))
	}
}

// leftOnly: the loop ends only after its last element, or (in the middle) along a path that passes ok.
func (w *World) leftOnly(r *Rep, key string, l *LoopInfo, ok func(ssa.Instruction) bool) {
	done := map[ssa.Instruction]bool{}
	for _, b := range l.Head.Succs {
		if !l.Body[b] {
			done[firstNonPhi(b)] = true
		}
	}
	q := &Q{W: w, NoEnter: w.onlyStep(topOf(l.Fn)), Through: func(in ssa.Instruction) bool {
		return ok(in) || in.Parent() == l.Fn && in.Block() == l.Head
	}, Goal: func(in ssa.Instruction) bool {
		return done[in] || retOf(l.Fn)(in)
	}}
	bad, tr := q.from(l.Fn, point{l.entry(), 0, l.Head})
	r.Check(key, w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "the loop is left before the last element: "+strings.Join(tr, " → ")))
}

func ruleS10(c *Ctx, r *Rep) {
	w := c.World
	if !w.stepFns() {
		r.Undecided("calls", "-", "a step function of Thread is missing")
		return
	}
	r.Rule("the call statement: a loop over the arguments binds each of them (position, name), a loop over the parameters binds the defaults, and the new frame gets definition, receiver and the caller's variables on every path to the call")
	r.Rule("return and end of function: the value reaches exactly the variables the caller named, in the caller's frame, before the caller goes on")
	r.Rule("name resolution: order of the layers copied into the environment, order of the tests before a variable is written, chain of scopes")
	T := "modelchecker.Thread."
	es, eob := w.Func(T+"executeStatement"), w.Func(T+"endOfBlock")
	w.definitionRules(r)
	w.with(w.bindShared(w.stepGroup(es)), func() { w.callRules(r, es) })
	w.returnRules(r, es, eob)
	w.resolveRules(r)
	w.assignRules(r)
	w.initRules(r, es, eob)
	w.environmentRules(r, es)
	w.frameKept(r)
}

const stmtCall = `.*CallStmt`

// definitionRules: what a name in a call statement stands for.
func (w *World) definitionRules(r *Rep) {
	fn := w.Func("modelchecker.Thread.getDefinition")
	if fn == nil {
		r.Undecided("definition", "-", "getDefinition not found")
		return
	}
	recv, noRecv := w.cutRel(`CallStmt\.Receiver$`, "==", `^""$`), w.cutRel(`CallStmt\.Receiver$`, "!=", `^""$`)
	kind := func(k string) func(Edge) bool {
		return func(e Edge) bool {
			for _, x := range w.rels(e.Cond, e.Taken) {
				if strings.Contains(x.L, "Value.Type(") && strings.HasPrefix(x.R, `"`) {
					is := x.R == `"`+k+`"`
					if x.Op == "==" && !is || x.Op == "!=" && is {
						return true
					}
				}
			}
			if ex, ok := e.Cond.(*ssa.Extract); ok && ex.Index == 1 {
				if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok {
					is := shortType(ta.AssertedType) == kindGo[k]
					return is != e.Taken
				}
			}
			return false
		}
	}
	known := func(want bool) func(Edge) bool {
		return func(e Edge) bool {
			ex, ok := e.Cond.(*ssa.Extract)
			if !ok || ex.Index != 1 {
				return false
			}
			lk, ok := ex.Tuple.(*ssa.Lookup)
			return ok && re(`CallStmt\.Receiver$`).MatchString(w.render(lk.Index)) && want == e.Taken
		}
	}
	found := known(false)
	s := func(v ssa.Value) string { return w.plain(v) }
	returns := func(pats ...string) func(ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			rt, ok := in.(*ssa.Return)
			if !ok || rt.Parent() != fn || len(rt.Results) != len(pats) {
				return false
			}
			for i, p := range pats {
				if !w.valIs(p)(retVal(rt, i)) && !reMatch(p, s(rt.Results[i])) {
					return false
				}
			}
			return true
		}
	}
	obj := `.*CallStmt\.Receiver\](?:#0)?`
	method := func(role string) string {
		return `.*\.SymbolTable\[\(*` + role + `\.Name \+ "\."\)* \+ .*CallStmt\.Name\)*\]`
	}
	w.must(r, step{Key: "definition/function", Why: "a call without receiver is not looked up by its name", Fn: fn, Cut: noRecv,
		Through: returns("nil", "nil", `.*\.SymbolTable\[.*CallStmt\.Name\]`), Goal: retOf(fn)})
	w.must(r, step{Key: "definition/role", Why: "a call on a role is not a call of that role's function", Fn: fn, Cut: anyCut(recv, found, kind("role")),
		Through: returns(obj, "nil", method(obj)), Goal: retOf(fn)})
	w.must(r, step{Key: "definition/stub", Why: "a call on a stub is not a call of the function of the role behind it", Fn: fn, Cut: anyCut(recv, found, kind("RoleStub")),
		Through: returns(obj+`\.Role`, obj, method(obj+`\.Role`)), Goal: retOf(fn)})
	w.must(r, step{Key: "definition/value", Why: "a method of a value is taken for a function", Fn: fn, Cut: anyCut(recv, found, kind("list")),
		Through: returns("nil", "nil", "nil"), Goal: retOf(fn)})
	w.must(r, step{Key: "definition/unknown-receiver", Why: "a call on an unknown name is accepted", Fn: fn,
		Cut: anyCut(recv, known(true)), Goal: retOf(fn)})

	// the table itself
	np := w.Func("modelchecker.NewProcess")
	for _, t := range []struct{ key, over, name, path string }{
		{"function", `\]\.Functions$`, `[^"]*\.Name`, `Functions\[\{i\}\]`},
		{"role-function", `Roles\[.*\]\.Functions$`, `\(\(.*Roles\[.*\]\.Name \+ "\."\) \+ .*Functions\[.*\]\.Name\)`, `Roles\[.*\]\.Functions\[\{i\}\]`},
	} {
		if np == nil {
			r.Undecided("definitions", "-", "NewProcess not found")
			continue
		}
		n := 0
		for _, f := range w.withHelpers(np) {
			for _, l := range w.loopsOf(f) {
				if l.Over == nil || !re(t.over).MatchString(w.render(l.Over)) || (t.key == "function") == strings.Contains(w.render(l.Over), "Roles[") {
					continue
				}
				n++
				w.wholeLoop(r, "definitions/"+t.key, l, w.mapPut(`.*`, t.name, nil), nil, nil)
				for b := range l.Body {
					for _, in := range b.Instrs {
						st, _ := fieldStore(in, "Definition", "path")
						if st != nil {
							ok := reMatch(t.path, w.shape(st.Val, nil, l.isIndex))
							r.Check("definitions/"+t.key+"/path", w.ipos(in), ok, ifBad(!ok, "the definition points to another function: "+w.shape(st.Val, nil, l.isIndex)))
						}
						if st, _ := fieldStore(in, "Definition", "params"); st != nil {
							ok := re(`Functions\[.*\]\.Params$`).MatchString(w.render(st.Val)) && w.dependsOn(st.Val, l.Elems)
							r.Check("definitions/"+t.key+"/params", w.ipos(in), ok, ifBad(!ok, "the definition has the parameters of another function"))
						}
					}
				}
			}
		}
		r.Floor("loops that define "+t.key+"s", n, 1)
	}
}

func (w *World) callRules(r *Rep, es *ssa.Function) {
	T := "modelchecker.Thread."
	no := w.onlyStep(es)
	fns := w.stepGroup(es)
	kind := w.stmtKind("CallStmt")
	aborted := anyOf(w.storeTo("Thread", "Aborted", "true"), isCall(T+"disableTransition"))
	callEos := isCall(T + "executeEndOfStatement")
	def := `getDefinition\(.*\)#2`
	module, builtin := anyCut(kind, w.cutRel(def+`$`, "==", "^nil$")), anyCut(kind, w.cutRel(def+`$`, "!=", "^nil$"))
	frameVars := `.*`
	argVal := w.valIs(`.*\.Args\[.*\]\.Expr.*`)
	defVal := w.valIs(`.*[pP]arams\[.*\]\.DefaultExpr.*`)
	positional := w.mapPut(frameVars, `.*`+def+`\.params\[.*\]\.Name`, argVal)
	named := w.mapPut(frameVars, `.*\.Args\[.*\]\.Name`, argVal)
	defaulted := w.mapPut(frameVars, `.*`+def+`\.params\[.*\]\.Name`, defVal)
	isNamed, isPos := w.cutRel(`\.Args\[.*\]\.Name$`, "==", `^""$`), w.cutRel(`\.Args\[.*\]\.Name$`, "!=", `^""$`)

	// arguments
	args := w.loopsIn(fns, func(v ssa.Value) bool { return re(`CallStmt\.Args$`).MatchString(w.render(v)) }, anyOf(positional, named))
	r.Floor("loops over the arguments of a call", len(args), 1)
	for _, l := range args {
		pos := w.ipos(firstNonPhi(l.Head))
		bad, tr := w.iterationSkips(l, anyOf(positional, named, aborted), nil)
		r.Check("call/arguments/each", pos, !bad, ifBad(bad, "an argument is not bound: "+strings.Join(tr, " → ")))
		w.leftOnly(r, "call/arguments/all", l, aborted)
		p := w.partial(l)
		r.Check("call/arguments/whole", pos, p == "", p)
		from := func(key, why string, cut func(Edge) bool, through, goal func(ssa.Instruction) bool) {
			q := &Q{W: w, NoEnter: no, Cut: cut, Through: anyOf(through, func(in ssa.Instruction) bool { return in.Block() == l.Head && in.Parent() == l.Fn }), Goal: goal}
			bad, tr := q.from(l.Fn, point{l.entry(), 0, l.Head})
			r.Check(key, pos, !bad, ifBad(bad, why+": "+strings.Join(tr, " → ")))
		}
		none := func(ssa.Instruction) bool { return false }
		from("call/arguments/named", "a named argument is bound by position", isNamed, none, positional)
		from("call/arguments/positional", "a positional argument is bound by name", isPos, none, named)
		// the index of the parameter is that of the argument, the value that of the same argument
		for _, f := range fns {
			instrs(f, func(in ssa.Instruction) {
				u, ok := in.(*ssa.MapUpdate)
				if !ok || !positional(in) && !named(in) || !l.Body[in.Block()] && f == l.Fn {
					return
				}
				ok = w.dependsOn(u.Value, l.Elems) || f != l.Fn
				r.Check("call/arguments/own-value", w.ipos(in), ok, ifBad(!ok, "the value is that of another argument"))
				if positional(in) {
					ix := elemIndex(baseOfName(u.Key))
					ok := ix != nil && (l.isIndex(ix) || f != l.Fn)
					r.Check("call/arguments/own-position", w.ipos(in), ok, ifBad(!ok, "the argument is bound to the parameter at another position"))
					// more arguments than parameters are refused
					q := &Q{W: w, NoEnter: no, Cut: w.cutRel(`.*`, "<", `^len\(.*`+def+`\.params\)$`), Goal: func(x ssa.Instruction) bool { return x == in }}
					bad, tr := q.from(l.Fn, point{l.entry(), 0, l.Head})
					r.Check("call/arguments/surplus", w.ipos(in), !bad, ifBad(bad, "more arguments than parameters are accepted: "+strings.Join(tr, " → ")))
				} else {
					ok := w.dependsOn(u.Key, l.Elems) || f != l.Fn
					r.Check("call/arguments/own-name", w.ipos(in), ok, ifBad(!ok, "the argument is bound to the name of another one"))
				}
			})
		}
	}

	// defaults
	present := `\[.*params\[.*\]\.Name\](?:#1)?$|Has\(.*,.*params\[.*\]\.Name\)$`
	ofFrame := func(c func(Edge) bool) func(Edge) bool { // not a test of the variables of the caller
		return func(e Edge) bool {
			for _, x := range w.rels(e.Cond, e.Taken) {
				if strings.Contains(x.L, "GetAllVariables") || strings.Contains(x.L, "Heap") {
					return false
				}
			}
			return c(e)
		}
	}
	absent, bound := ofFrame(w.isTrue(present)), ofFrame(w.isFalse(present))
	noDef := w.cutRel(`params\[.*\]\.DefaultPyExpr$`, "!=", `^""$`)
	defs := w.loopsIn(fns, func(v ssa.Value) bool { return re(def + `\.params$`).MatchString(w.render(v)) }, defaulted)
	r.Floor("loops over the parameters of a call", len(defs), 1)
	for _, l := range defs {
		pos := w.ipos(firstNonPhi(l.Head))
		bad, tr := w.iterationSkips(l, anyOf(defaulted, aborted), absent)
		r.Check("call/defaults/each", pos, bad == false, ifBad(bad, "a parameter without argument stays unbound: "+strings.Join(tr, " → ")))
		w.leftOnly(r, "call/defaults/all", l, aborted)
		p := w.partial(l)
		r.Check("call/defaults/whole", pos, p == "", p)
		head := func(in ssa.Instruction) bool { return in.Block() == l.Head && in.Parent() == l.Fn }
		q := &Q{W: w, NoEnter: no, Cut: bound, Through: head, Goal: defaulted}
		bad, tr = q.from(l.Fn, point{l.entry(), 0, l.Head})
		r.Check("call/defaults/only-absent", pos, !bad, ifBad(bad, "a default replaces the argument: "+strings.Join(tr, " → ")))
		q = &Q{W: w, NoEnter: no, Cut: anyCut(absent, noDef), Goal: anyOf(head, retOf(l.Fn), defaulted)}
		bad, tr = q.from(l.Fn, point{l.entry(), 0, l.Head})
		r.Check("call/defaults/missing", pos, !bad, ifBad(bad, "a missing argument is accepted: "+strings.Join(tr, " → ")))
		instrs(l.Fn, func(in ssa.Instruction) {
			if u, ok := in.(*ssa.MapUpdate); ok && defaulted(in) && l.Body[in.Block()] {
				ok := w.dependsOn(u.Value, l.Elems) && w.dependsOn(u.Key, l.Elems)
				r.Check("call/defaults/own", w.ipos(in), ok, ifBad(!ok, "the default is that of another parameter"))
			}
		})
	}

	// the frame and where it goes
	frame := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		switch calleeName(c) {
		case T + "pushFrame":
			return w.render(callArgs(c)[1]) != "nil"
		case "modelchecker.Process.addChannelMessage":
			return true
		}
		return false
	}
	starts := anyOf(frame)
	w.must(r, step{Key: "call/bound-first", Why: "the call is made before its arguments are bound", Fn: es, NoEnter: no, Cut: module, Through: headOf(args), Goal: starts})
	w.must(r, step{Key: "call/defaults-first", Why: "the call is made before the defaults are bound", Fn: es, NoEnter: no, Cut: module, Through: headOf(defs), Goal: starts})
	w.must(r, step{Key: "call/order", Why: "defaults are bound before the arguments", Fn: es, NoEnter: no, Cut: module, Through: headOf(args), Goal: headOf(defs)})
	recv, noRecv := w.cutRel(`CallStmt\.Receiver$`, "==", `^""$`), w.cutRel(`CallStmt\.Receiver$`, "!=", `^""$`)
	for _, f := range []struct{ field, val string }{
		{"FileIndex", `.*` + def + `\.fileIndex`}, {"Name", stmtCall + `\.Name|.*` + def + `\.name`}, {"callerAssignVarNames", stmtCall + `\.Vars`}, {"obj", `.*getDefinition\(.*\)#0`}, {"vars", frameVars}, {"pc", ""},
	} {
		through := func(in ssa.Instruction) bool {
			st, base := fieldStore(in, "CallFrame", f.field)
			if st == nil || !newFrame(base) {
				return false
			}
			if f.field == "pc" {
				return reMatch(`\{.*`+def+`\.path\}\.Block`, w.shape(st.Val, nil, nil))
			}
			return reMatch(f.val, w.plain(st.Val))
		}
		cut := module
		if f.field == "obj" {
			cut = anyCut(module, recv)
			w.must(r, step{Key: "call/frame/no-obj", Why: "a function without receiver runs as a method", Fn: es, NoEnter: no, Cut: anyCut(module, noRecv), Goal: func(in ssa.Instruction) bool {
				st, base := fieldStore(in, "CallFrame", "obj")
				return st != nil && newFrame(base) && !isNilConst(st.Val) && w.render(st.Val) != "nil"
			}})
		}
		w.must(r, step{Key: "call/frame/" + f.field, Why: "the frame of the callee lacks its " + f.field, Fn: es, NoEnter: no, Cut: cut, Through: through, Goal: starts})
	}
	direct, viaStub := anyCut(module, w.cutRel(`getDefinition\(.*\)#1$`, "!=", "^nil$")), anyCut(module, w.cutRel(`getDefinition\(.*\)#1$`, "==", "^nil$"))
	done := anyOf(retOf(es), callEos)
	send := w.callTo("modelchecker.Process.addChannelMessage", `.*`, `.*getDefinition\(.*\)#1\.Channel`, `.*RefStringShort\(.*getDefinition\(.*\)#0\)`, `.*CallFrame`)
	w.must(r, step{Key: "call/direct", Why: "the callee is not entered", Fn: es, NoEnter: no, Cut: direct, Through: anyOf(isCall(T+"pushFrame"), aborted), Goal: done})
	w.must(r, step{Key: "call/direct/no-message", Why: "a direct call becomes a message", Fn: es, NoEnter: no, Cut: direct, Goal: isCall("modelchecker.Process.addChannelMessage")})
	w.must(r, step{Key: "call/stub", Why: "the message is not sent (to the role behind the stub, over its channel)", Fn: es, NoEnter: no, Cut: viaStub, Through: anyOf(send, aborted), Goal: done})
	w.must(r, step{Key: "call/stub/no-frame", Why: "a message is executed at once", Fn: es, NoEnter: no, Cut: viaStub, Goal: isCall(T + "pushFrame")})
	w.must(r, step{Key: "call/stub/counts", Why: "sending does not count as executed", Fn: es, NoEnter: no, Cut: viaStub, Through: anyOf(isCall("modelchecker.Process.Enable"), aborted), Goal: done})
	w.must(r, step{Key: "call/stub/next", Why: "the sender does not go on", Fn: es, NoEnter: no, Cut: viaStub, Through: anyOf(callEos, aborted), Goal: retOf(es)})

	// methods of values are executed as the statement they are
	w.must(r, step{Key: "call/builtin/executed", Why: "a call of a built-in is not executed", Fn: es, NoEnter: no, Cut: builtin, Through: w.evaluates(`^(?:\*ast\.|proto\.)?PyStmt$|PyStmt`), Goal: done})
	w.must(r, step{Key: "call/builtin/stored", Why: "the variables are not updated after a call of a built-in", Fn: es, NoEnter: no, Cut: builtin, Through: anyOf(isCall("modelchecker.Process.updateAllVariablesInScope"), aborted), Goal: done})
	w.must(r, step{Key: "call/builtin/counts", Why: "a call of a built-in does not count as executed", Fn: es, NoEnter: no, Cut: builtin, Through: anyOf(isCall("modelchecker.Process.Enable"), aborted), Goal: done})
	w.must(r, step{Key: "call/builtin/next", Why: "the thread does not go on after a call of a built-in", Fn: es, NoEnter: no, Cut: builtin, Through: anyOf(callEos, isCall(T+"pushFrame"), aborted), Goal: retOf(es)})
	// the statement is composed of the parts of the call, in this order
	part := func(pat string) func(ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case ssa.CallInstruction:
				if !reMatch(`strings\.Builder\.WriteString|fmt\.(?:Sprintf|Fprintf|Sprint|Fprint)|strings\.Join|builtin\.append`, calleeName(x)) {
					return false
				}
				for _, a := range callArgs(x) {
					if re(pat).MatchString(w.render(a)) {
						return true
					}
					if sl, ok := a.(*ssa.Slice); ok {
						for _, e := range sliceElems(sl) {
							if re(pat).MatchString(w.render(e)) {
								return true
							}
						}
					}
				}
			case *ssa.BinOp:
				return x.Op == token.ADD && x.Type().String() == "string" && (re(pat).MatchString(w.render(x.X)) || re(pat).MatchString(w.render(x.Y)))
			}
			return false
		}
	}
	exec := w.evaluates(`PyStmt`)
	with := func(c, more func(Edge) bool) func(Edge) bool {
		if more == nil {
			return c
		}
		return anyCut(c, more)
	}
	textOf := func(key, pat string, cut func(Edge) bool) {
		w.must(r, step{Key: "call/builtin/text/" + key, Why: "the statement is composed without this part of the call", Fn: es, NoEnter: no, Cut: with(builtin, cut), Through: part(pat), Goal: exec})
	}
	vars, rcv, name := `CallStmt\.Vars$|Join\(.*CallStmt\.Vars,`, `CallStmt\.Receiver$`, `CallStmt\.Name$`
	textOf("vars", vars, w.cutRel(`len\(.*CallStmt\.Vars\)$`, "<=", "^0$"))
	textOf("receiver", rcv, recv)
	textOf("name", name, nil)
	n := 0
	argPart, argName := part(`Args\[.*\]\.PyExpr$`), part(`Args\[.*\]\.Name$`)
	for _, l := range w.loopsIn(fns, func(v ssa.Value) bool { return re(`CallStmt\.Args$`).MatchString(w.render(v)) }, argPart) {
		if slices.ContainsFunc(args, func(a *LoopInfo) bool { return a.Head == l.Head }) {
			continue // the loop that evaluates them mentions them in messages
		}
		n++
		w.wholeLoop(r, "call/builtin/text/arguments", l, argPart, nil, nil)
		bad, tr := w.iterationSkips(l, argName, isNamed)
		r.Check("call/builtin/text/argument-name", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "a named argument loses its name: "+strings.Join(tr, " → ")))
		w.must(r, step{Key: "call/builtin/text/loop", Why: "the statement is composed without the arguments", Fn: es, NoEnter: no, Cut: builtin, Through: headOf([]*LoopInfo{l}), Goal: exec})
	}
	r.Floor("loops that compose the arguments of a call", n, 1)
}

// newFrame: the frame was just allocated (by this function or a helper that returns it).
func newFrame(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return namedName(x.Type()) == "CallFrame"
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || namedName(x.Type()) != "CallFrame" {
			return false
		}
		ok := false
		instrs(f, func(in ssa.Instruction) {
			if rt, is := in.(*ssa.Return); is && len(rt.Results) == 1 {
				ok = newFrame(rt.Results[0])
			}
		})
		return ok
	case *ssa.Parameter:
		return x.Name() != "" && namedName(x.Type()) == "CallFrame" && x.Parent().Signature.Recv() == nil
	}
	return false
}

// baseOfName: x of x.Name (a field or getter).
func baseOfName(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fa.X
		}
	case *ssa.Call:
		if len(x.Call.Args) > 0 {
			return x.Call.Args[0]
		}
	}
	return v
}

// returnRules: the value of a return statement (or None at the end of a function) reaches the caller's variables.
func (w *World) returnRules(r *Rep, es, eob *ssa.Function) {
	T := "modelchecker.Thread."
	kind := w.stmtKind("ReturnStmt")
	pop := isCall(T + "popFrame")
	aborted := anyOf(w.storeTo("Thread", "Aborted", "true"), isCall(T+"disableTransition"))
	callEos := isCall(T + "executeEndOfStatement")
	update := isCall("modelchecker.Process.updateAllVariablesInScope")
	last, caller := w.cutRel(`Len\(.*Stack.*\)$`, "!=", "^0$"), w.cutRel(`Len\(.*Stack.*\)$`, "==", "^0$")
	evalRet := w.evaluates(`\.ReturnStmt\.Expr$`)
	hasExpr, noExpr := w.cutRel(`ReturnStmt\.PyExpr$`, "==", `^""$`), w.cutRel(`ReturnStmt\.PyExpr$`, "!=", `^""$`)
	none := `0|starlark\.None|.*None.*`
	value := w.valIs(none + `|.*\.ReturnStmt\.Expr.*`)
	isEval := func(v ssa.Value) bool {
		if !value(v) {
			return false
		}
		for _, l := range phiLeaves(peelMI(v)) {
			if re(`\.ReturnStmt\.Expr`).MatchString(w.render(l)) {
				return true
			}
		}
		return false
	}
	names := `.*popFrame\(.*\)\.callerAssignVarNames`
	for _, c := range []struct {
		key string
		fn  *ssa.Function
		val func(ssa.Value) bool
		cut func(Edge) bool
	}{
		{"return", es, isEval, kind},
		{"end", eob, w.valIs(none), nil},
	} {
		w.with(w.bindShared(w.stepGroup(c.fn)), func() {
			no := w.onlyStep(c.fn)
			with := func(more ...func(Edge) bool) func(Edge) bool {
				if c.cut != nil {
					more = append(more, c.cut)
				}
				return anyCut(more...)
			}
			put := w.mapPut(`StringDict|map\[string\].*`, names+`\[.*\]`, c.val)
			putAny := w.mapPut(`StringDict|map\[string\].*`, names+`\[.*\]`, nil)
			// a single name may be assigned without a loop
			single := func(in ssa.Instruction) bool {
				cc, ok := in.(ssa.CallInstruction)
				return ok && calleeName(cc) == "modelchecker.Process.updateVariable" && reMatch(names+`\[.*\]`, w.plain(callArgs(cc)[1])) && c.val(callArgs(cc)[2])
			}
			loops := w.loopsIn(w.stepGroup(c.fn), func(v ssa.Value) bool {
				return reMatch(names, w.plain(v))
			}, anyOf(putAny, single))
			r.Floor("loops over the variables that take the value ("+c.key+")", len(loops), 1)
			for _, l := range loops {
				w.wholeLoop(r, c.key+"/assigned", l, anyOf(put, single), nil, nil)
			}
			var direct []*LoopInfo // loops that write the variables themselves
			for _, l := range loops {
				if bad, _ := w.iterationSkips(l, single, nil); !bad {
					direct = append(direct, l)
				}
			}
			goal := callEos
			if c.fn == eob {
				goal = anyOf(isCall("modelchecker.Process.RecordReturn"))
			}
			w.must(r, step{Key: c.key + "/to-caller", Why: "the caller's variables do not get the value", Fn: c.fn, NoEnter: no, Cut: with(caller), Through: anyOf(headOf(loops)), Goal: anyOf(goal, update)})
			w.must(r, step{Key: c.key + "/stored", Why: "the caller's variables are not written", Fn: c.fn, NoEnter: no, Cut: with(caller), Through: anyOf(update, headOf(direct), aborted), Goal: goal})
			w.must(r, step{Key: c.key + "/callers-frame", Why: "the value is assigned in the frame of the callee", Fn: c.fn, NoEnter: no, Cut: with(caller), Through: pop, Goal: anyOf(update, single)})
			w.must(r, step{Key: c.key + "/one-value", Why: "several variables take one value", Fn: c.fn, NoEnter: no,
				Cut: with(caller, w.cutRel(`len\(`+names+`\)$`, "<=", "^1$")), Goal: anyOf(update, goal)})
			if c.fn == eob {
				function := func(e Edge) bool { // what ends is a function
					ex, ok := e.Cond.(*ssa.Extract)
					if !ok || ex.Index != 1 {
						return false
					}
					ta, ok := ex.Tuple.(*ssa.TypeAssert)
					return ok && namedName(ta.AssertedType) == "Function" && !e.Taken
				}
				ends := with(caller, function, w.cutRel(`\.scope(?:\.parent)?$`, "!=", "^nil$"), isFalseFrame(w))
				w.must(r, step{Key: c.key + "/always", Why: "the end of a function gives its caller no value", Fn: c.fn, NoEnter: no, Cut: ends, Through: headOf(loops), Goal: anyOf(retOf(c.fn), callEos)})
				w.must(r, step{Key: c.key + "/next", Why: "the caller does not go on", Fn: c.fn, NoEnter: no, Cut: ends, Through: callEos, Goal: retOf(c.fn)})
			}
		})
	}
	no := w.onlyStep(es)
	w.must(r, step{Key: "return/evaluated", Why: "the returned expression is not evaluated", Fn: es, NoEnter: no, Cut: anyCut(kind, hasExpr), Through: anyOf(evalRet, aborted), Goal: anyOf(pop, retOf(es))})
	w.must(r, step{Key: "return/no-expression", Why: "something else is evaluated", Fn: es, NoEnter: no, Cut: anyCut(kind, noExpr), Goal: evalRet})
	w.must(r, step{Key: "return/frame", Why: "the function is not left", Fn: es, NoEnter: no, Cut: kind, Through: anyOf(pop, aborted), Goal: anyOf(callEos, retOf(es))})
	w.must(r, step{Key: "return/once", Why: "the caller is left as well", Fn: es, NoEnter: no, Cut: anyCut(kind, caller), Goal: w.second(es, pop)})
	w.must(r, step{Key: "return/next", Why: "the caller does not go on", Fn: es, NoEnter: no, Cut: anyCut(kind, caller), Through: anyOf(callEos, aborted), Goal: retOf(es)})
	w.must(r, step{Key: "return/last", Why: "a statement is executed after the last function returned", Fn: es, NoEnter: no, Cut: anyCut(kind, last), Goal: callEos})
	w.must(r, step{Key: "return/last/yield", Why: "the end of the last function is no yield point", Fn: es, NoEnter: no,
		Cut: anyCut(kind, last, w.isTrue(`IsDisableTransitionError\(`)), GoalEnv: mayReturn(es, 1, false)})

	// the value of an action
	typed := func(t string) func(Edge) bool {
		return func(e Edge) bool {
			ex, ok := e.Cond.(*ssa.Extract)
			if !ok || ex.Index != 1 {
				return false
			}
			ta, ok := ex.Tuple.(*ssa.TypeAssert)
			if !ok {
				return false
			}
			want := t
			if re(`\+`).MatchString(w.render(ta.X)) || !re(`Split\(.*\)\[0\]\)?`).MatchString(w.render(ta.X)) {
				want = "Action" // the member of a role
			}
			return (namedName(ta.AssertedType) == want) != e.Taken
		}
	}
	isNone := func(e Edge) bool { // the value is None
		b, ok := e.Cond.(*ssa.BinOp)
		return ok && namedName(b.X.Type()) == "Value" && (re(`^0$|None`).MatchString(w.render(b.X)) || re(`^0$|None`).MatchString(w.render(b.Y))) && (b.Op == token.EQL) == e.Taken
	}
	for t, key := range map[string]string{"Action": `[^+]*(?:convertToAction|GetProtoFieldByPath)\([^+]*\)(?:#0)?\.Name`, "Role": `.*RefStringShort\(.*popFrame\(.*\)\.obj\) \+ "\."\) \+ .*\.Name\)`} {
		cut := anyCut(kind, last, hasExpr, typed(t), isNone)
		put := w.mapPut(`.*Process\.Returns`, key, isEval)
		w.must(r, step{Key: "return/value-of-" + t, Why: "the value an action returns is not recorded under its name", Fn: es, NoEnter: no, Cut: cut, Through: anyOf(put, aborted), Goal: retOf(es)})
		w.must(r, step{Key: "return/value-of-" + t + "/counts", Why: "returning a value does not count as executed", Fn: es, NoEnter: no, Cut: cut, Through: anyOf(isCall("modelchecker.Process.Enable"), aborted), Goal: retOf(es)})
	}
}

// second: a match that can follow another one in the function (twice on one path).
func (w *World) second(fn *ssa.Function, m func(ssa.Instruction) bool) func(ssa.Instruction) bool {
	set := map[ssa.Instruction]bool{}
	for _, f := range w.stepGroup(fn) {
		instrs(f, func(in ssa.Instruction) {
			if !m(in) {
				return
			}
			q := &Q{W: w, NoEnter: w.onlyStep(fn), Goal: func(x ssa.Instruction) bool {
				if x != in && m(x) {
					set[x] = true
				}
				return false
			}}
			q.After(in)
		})
	}
	return func(in ssa.Instruction) bool { return set[in] }
}

// resolveRules: the layers of the environment and their order.
func (w *World) resolveRules(r *Rep) {
	for _, name := range []string{"GetAllVariablesNocopy", "GetAllVariables"} {
		fn := w.Func("modelchecker.Process." + name)
		if fn == nil {
			r.Undecided("resolve/"+name, "-", "not found")
			continue
		}
		into := func(src string) func(ssa.Instruction) bool {
			return func(in ssa.Instruction) bool {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					return false
				}
				args := callArgs(c)
				s := func(v ssa.Value) string { return w.plain(v) }
				switch n := calleeName(c); {
				case n == "maps.Copy" && len(args) == 2:
					return reMatch(src, s(args[1]))
				case n == "modelchecker.CopyDict":
					return reMatch(src, s(args[0]))
				case n == "maps.Clone":
					return reMatch(src, s(args[0]))
				case strings.HasPrefix(n, "modelchecker.Scope.getAllVisibleVariables"):
					return reMatch(src, s(args[0]))
				}
				return false
			}
		}
		frame := `Thread\.currentFrame\(.*\)`
		self := w.mapPut(`.*`, `"self"`, nil)
		hasSelf := w.cutRel(frame+`\.obj$`, "==", "^nil$")
		layers := []struct {
			what string
			m    func(ssa.Instruction) bool
			cut  func(Edge) bool
		}{
			{"builtins", into(`lib\.Builtins`), nil},
			{"globals", into(`Process\.Heap\.globals`), nil},
			{"state", into(`Process\.Heap\.state`), nil},
			{"self", self, hasSelf},
			{"parameters", into(frame + `\.vars`), nil},
			{"scopes", into(frame + `\.scope`), nil},
		}
		no := w.onlyHelpers(fn)
		for i, l := range layers {
			w.must(r, step{Key: "resolve/" + name + "/" + l.what, Why: "the layer is missing", Fn: fn, Cut: l.cut, Through: l.m, Goal: retOf(fn), NoEnter: no})
			for _, up := range layers[i+1:] {
				for _, f := range w.withHelpers(fn) {
					instrs(f, func(in ssa.Instruction) {
						if up.m(in) {
							w.must(r, step{Key: "resolve/" + name + "/" + l.what + "<" + up.what, Why: "an outer name hides an inner one", Fn: f, After: in, NoEnter: no, Goal: l.m})
						}
					})
				}
			}
		}
	}
	// the chain of scopes: the parent's variables first, then the own ones over them
	for _, n := range []string{"getAllVisibleVariablesToDictNoCopy", "getAllVisibleVariablesResolveRoles"} {
		fn := w.Func("modelchecker.Scope." + n)
		if fn == nil {
			r.Undecided("resolve/chain/"+n, "-", "not found")
			continue
		}
		own := anyOf(w.callTo(`maps\.Copy`, `.*`, `Scope\.vars`), w.callTo(`modelchecker\.CopyDict`, `Scope\.vars`), w.mapPut(`.*`, `range\(Scope\.vars\)#1`, w.valIs(`range\(Scope\.vars\)#2`)))
		parent := func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			return ok && c.Common().StaticCallee() == fn && reMatch(`Scope\.parent`, w.plain(callArgs(c)[0]))
		}
		root := w.cutRel(`Scope\.parent$`, "==", "^nil$")
		w.must(r, step{Key: "resolve/chain/" + n + "/own", Why: "the variables of the scope are not visible", Fn: fn, Through: own, Goal: retOf(fn), Cut: w.cutRel(`^Scope$`, "==", "^nil$")})
		w.must(r, step{Key: "resolve/chain/" + n + "/parent", Why: "the variables of the enclosing scopes are not visible", Fn: fn, Cut: anyCut(root, w.cutRel(`^Scope$`, "==", "^nil$")), Through: parent, Goal: anyOf(retOf(fn), own)})
		instrs(fn, func(in ssa.Instruction) {
			if parent(in) {
				c := in.(ssa.CallInstruction)
				for i, a := range callArgs(c)[1:] {
					ok := a == ssa.Value(fn.Params[i+1])
					r.Check("resolve/chain/"+n+"/same", w.ipos(in), ok, ifBad(!ok, "the variables of the enclosing scopes go elsewhere"))
				}
			}
		})
	}
}

// assignRules: which variable an assignment changes.
func (w *World) assignRules(r *Rep) {
	P := "modelchecker.Process."
	fn := w.Func(P + "updateVariableInternal")
	sc := w.Func(P + "updateScopedVariable")
	hu := w.Func("modelchecker.Heap.update")
	all := w.Func(P + "updateAllVariablesInScope")
	if fn == nil || sc == nil || hu == nil || all == nil {
		r.Undecided("assign", "-", "a function that updates variables is missing")
		return
	}
	no := func(f *ssa.Function) bool { return f == sc || f == hu }
	key, val := fn.Params[1], fn.Params[2]
	isVal := func(v ssa.Value) bool { return v == ssa.Value(val) }
	put := func(m string) func(ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			u, ok := in.(*ssa.MapUpdate)
			return ok && reMatch(m, w.plain(u.Map)) && u.Key == ssa.Value(key) && isVal(u.Value)
		}
	}
	anyPut := func(in ssa.Instruction) bool { _, ok := in.(*ssa.MapUpdate); return ok && in.Parent() == fn }
	scoped := `updateScopedVariable\(.*\)$`
	inFrame := `CallFrame\.vars\[.*\](?:#1)?$|Has\(CallFrame\.vars,.*\)$`
	inState := `Heap\.update\(.*\)$`
	isGlobal := `Has\(.*Heap\.globals,.*\)$|Heap\.globals\[.*\](?:#1)?$`
	isSelf := w.cutRel(`^string$`, "!=", `^"self"$`)
	notSelf := w.cutRel(`^string$`, "==", `^"self"$`)
	notFn := anyCut(w.cutRel(`Value\.Type\(.*\)$`, "==", `^"builtin_function_or_method"$`), w.cutRel(`Value\.Type\(.*\)$`, "==", `^"module"$`))
	tryScope := w.callTo(P+"updateScopedVariable", `Process`, `CallFrame\.scope`, `string`, `.*Value`)
	tryState := w.callTo("modelchecker.Heap.update", `Process\.Heap`, `string`, `.*Value`)
	w.must(r, step{Key: "assign/scopes-first", Why: "a variable of an enclosing scope is not changed", Fn: fn, NoEnter: no, Through: tryScope, Goal: anyOf(retOf(fn), anyPut, tryState)})
	w.must(r, step{Key: "assign/scopes-only", Why: "a second variable of that name is changed", Fn: fn, NoEnter: no, Cut: w.isFalse(scoped), Goal: anyOf(anyPut, tryState, w.storeTo("CallFrame", "obj", ".*"))})
	notScoped := w.isTrue(scoped)
	w.must(r, step{Key: "assign/parameter", Why: "a parameter is not changed", Fn: fn, NoEnter: no, Cut: anyCut(notScoped, w.isFalse(inFrame)), Through: put(`CallFrame\.vars`), Goal: anyOf(retOf(fn), tryState)})
	w.must(r, step{Key: "assign/parameter/only", Why: "a state variable of that name is changed as well", Fn: fn, NoEnter: no, Cut: anyCut(notScoped, w.isFalse(inFrame)), Goal: anyOf(tryState, put(`CallFrame\.scope\.vars`))})
	notLocal := anyCut(notScoped, w.isTrue(inFrame))
	w.must(r, step{Key: "assign/no-new-parameter", Why: "a name that is no parameter becomes one", Fn: fn, NoEnter: no, Cut: notLocal, Goal: put(`CallFrame\.vars`)})
	w.must(r, step{Key: "assign/state", Why: "a state variable is not changed", Fn: fn, NoEnter: no, Cut: notLocal, Through: tryState, Goal: anyOf(retOf(fn), anyPut)})
	w.must(r, step{Key: "assign/state/only", Why: "a local variable hides the state variable", Fn: fn, NoEnter: no, Cut: anyCut(notLocal, w.isFalse(inState)), Goal: anyOf(anyPut, w.storeTo("CallFrame", "obj", ".*"))})
	notState := anyCut(notLocal, w.isTrue(inState))
	w.must(r, step{Key: "assign/global", Why: "a global is hidden by a local variable", Fn: fn, NoEnter: no, Cut: anyCut(notState, w.isFalse(isGlobal)), Goal: anyOf(anyPut, w.storeTo("CallFrame", "obj", ".*"))})
	free := anyCut(notState, w.isTrue(isGlobal))
	w.must(r, step{Key: "assign/self", Why: "self becomes a variable", Fn: fn, NoEnter: no, Cut: anyCut(free, isSelf), Goal: anyPut})
	w.must(r, step{Key: "assign/new", Why: "a new variable is not declared in the current scope", Fn: fn, NoEnter: no, Cut: anyCut(free, notSelf, notFn), Through: put(`CallFrame\.scope\.vars`), Goal: retOf(fn)})
	// variables of the outermost block of Init become state
	top := anyCut(free, notSelf, notFn, w.cutRel(`TotalActions$`, "!=", "^0$"), w.cutRel(`\.scope\.parent$`, "!=", "^nil$"), w.cutRel(`Len\(.*Stack.*\)$`, "!=", "^1$"))
	w.must(r, step{Key: "assign/top-level", Why: "a variable of the outermost block of Init does not become a state variable", Fn: fn, NoEnter: no, Cut: top, Through: w.storeTo("Process", "topLevelVars", `.*append\(.*topLevelVars.*`), Goal: retOf(fn)})
	for k, c := range map[string]func(Edge) bool{"action": w.cutRel(`TotalActions$`, "==", "^0$"), "nested": w.cutRel(`\.scope\.parent$`, "==", "^nil$"), "called": w.cutRel(`Len\(.*Stack.*\)$`, "==", "^1$")} {
		w.must(r, step{Key: "assign/top-level/not-" + k, Why: "a local variable becomes a state variable", Fn: fn, NoEnter: no, Cut: c, Goal: w.storeTo("Process", "topLevelVars", ".*")})
	}

	// a scope and its parents
	sKey, sVal := sc.Params[2], sc.Params[3]
	own := `Scope\.vars\[.*\](?:#1)?$|Has\(Scope\.vars,.*\)$`
	sPut := func(in ssa.Instruction) bool {
		u, ok := in.(*ssa.MapUpdate)
		return ok && reMatch(`(?:phi\()?Scope\.vars.*|.*\.vars`, w.plain(u.Map)) && u.Key == ssa.Value(sKey) && u.Value == ssa.Value(sVal)
	}
	anySPut := func(in ssa.Instruction) bool { _, ok := in.(*ssa.MapUpdate); return ok && in.Parent() == sc }
	rec := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().StaticCallee() == sc && reMatch(`Scope\.parent`, w.plain(callArgs(c)[1])) && callArgs(c)[2] == ssa.Value(sKey) && callArgs(c)[3] == ssa.Value(sVal)
	}
	loop := len(w.loopsOf(sc)) > 0 || hasLoop(sc)
	own2 := `\.vars\[.*\](?:#1)?$|Has\(.*\.vars,.*\)$`
	if !loop {
		exists := w.cutRel(`^Scope$`, "==", "^nil$")
		w.must(r, step{Key: "assign/chain/own", Why: "the variable of the innermost scope is not changed", Fn: sc, NoEnter: no, Cut: anyCut(exists, w.isFalse(own)), Through: sPut, Goal: anyOf(retOf(sc), rec)})
		w.must(r, step{Key: "assign/chain/parent", Why: "the enclosing scopes are not looked at", Fn: sc, NoEnter: no, Cut: anyCut(exists, w.isTrue(own), w.cutRel(`Scope\.parent$`, "==", "^nil$")), Through: rec, Goal: retOf(sc)})
		for _, f := range []*ssa.Function{sc} {
			instrs(f, func(in ssa.Instruction) {
				if rec(in) {
					rets := true
					instrs(sc, func(x ssa.Instruction) {
						if rt, ok := x.(*ssa.Return); ok {
							if cn, is := retVal(rt, 0).(*ssa.Const); !is && retVal(rt, 0) != in.(ssa.Value) {
								_ = cn
								rets = false
							}
						}
					})
					r.Check("assign/chain/result", w.ipos(in), rets, ifBad(!rets, "what happened in the enclosing scopes is not reported"))
				}
			})
		}
	} else {
		w.must(r, step{Key: "assign/chain/loop", Why: "the enclosing scopes are not looked at", Fn: sc, NoEnter: no, Through: func(in ssa.Instruction) bool { return anySPut(in) },
			Cut: w.cutRel(`.*Scope.*|.*parent.*`, "==", "^nil$"), Goal: retOf(sc)})
	}
	w.must(r, step{Key: "assign/chain/only", Why: "a scope without the variable gets it", Fn: sc, NoEnter: no, Cut: w.isTrue(own2), Goal: anySPut})
	q := &Q{W: w, NoEnter: no, Through: sPut, GoalEnv: returnsConst(sc, 0, true)}
	bad, tr := q.Entry(sc)
	r.Check("assign/chain/true", w.Pos(sc.Pos()), !bad, ifBad(bad, "a change is reported that was not made: "+strings.Join(tr, " → ")))
	for _, in := range storesOfMap(sc) {
		w.must(r, step{Key: "assign/chain/false", Why: "a change is not reported", Fn: sc, After: in, NoEnter: no, GoalEnv: mayReturn(sc, 0, false)})
	}

	// the state
	hKey, hVal := hu.Params[1], hu.Params[2]
	state := `Heap\.state\[.*\](?:#1)?$|Has\(Heap\.state,.*\)$`
	hPut := func(in ssa.Instruction) bool {
		u, ok := in.(*ssa.MapUpdate)
		return ok && reMatch(`Heap\.state`, w.plain(u.Map)) && u.Key == ssa.Value(hKey) && u.Value == ssa.Value(hVal)
	}
	w.must(r, step{Key: "assign/heap/known", Why: "the state variable is not changed", Fn: hu, Cut: w.isFalse(state), Through: hPut, Goal: retOf(hu)})
	w.must(r, step{Key: "assign/heap/unknown", Why: "a local variable becomes a state variable", Fn: hu, Cut: w.isTrue(state), Goal: func(in ssa.Instruction) bool { _, ok := in.(*ssa.MapUpdate); return ok && in.Parent() == hu }})
	w.must(r, step{Key: "assign/heap/true", Why: "a change is not reported", Fn: hu, Cut: w.isFalse(state), GoalEnv: mayReturn(hu, 0, false)})
	w.must(r, step{Key: "assign/heap/false", Why: "a change is reported that was not made", Fn: hu, Cut: w.isTrue(state), GoalEnv: mayReturn(hu, 0, true)})

	// all variables of an environment, in the frame of the running thread
	n := 0
	for _, f := range w.withHelpers(all) {
		for _, l := range w.loopsOf(f) {
			n++
			w.wholeLoop(r, "assign/all", l, w.callTo(P+"updateVariableInternal", `Process`, `range\(.*\)#1`, `range\(.*\)#2`, `.*Thread\.currentFrame\(.*Process\.currentThread\(Process\)\)`), nil, nil)
		}
	}
	r.Floor("loops over the variables of an environment", n, 1)
	one := w.Func(P + "updateVariable")
	if one != nil {
		w.must(r, step{Key: "assign/one", Why: "the variable is not changed in the running frame", Fn: one, Goal: retOf(one), Through: func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			if !ok || calleeName(c) != P+"updateVariableInternal" {
				return false
			}
			a := callArgs(c)
			return a[1] == ssa.Value(one.Params[1]) && a[2] == ssa.Value(one.Params[2]) && re(`currentFrame\(.*currentThread\(Process\)\)$`).MatchString(w.render(a[3]))
		}, NoEnter: func(f *ssa.Function) bool { return true }})
	}
}

// frameKept: a fork continues with the same frames.
func (w *World) frameKept(r *Rep) {
	fn := w.Func("modelchecker.CallFrame.Clone")
	if fn == nil {
		r.Undecided("frame/kept", "-", "CallFrame.Clone not found")
		return
	}
	for _, f := range fieldNames(fn.Params[0].Type()) {
		w.must(r, step{Key: "frame/kept/" + f, Why: "a frame loses its " + f + " when the process forks", Fn: fn,
			Through: func(in ssa.Instruction) bool {
				st, base := fieldStore(in, "CallFrame", f)
				return st != nil && newFrame(base) && w.slice(st.Val).hasField("CallFrame."+f)
			},
			GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
				rt, ok := in.(*ssa.Return)
				return ok && rt.Parent() == fn && !isNilConst(res(retVal(rt, 0)))
			}})
	}
}

func fieldNames(t types.Type) []string {
	var out []string
	st, ok := deref(t).Underlying().(*types.Struct)
	for i := 0; ok && i < st.NumFields(); i++ {
		out = append(out, st.Field(i).Name())
	}
	return out
}

func storesOfMap(f *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	instrs(f, func(in ssa.Instruction) {
		if _, ok := in.(*ssa.MapUpdate); ok {
			out = append(out, in)
		}
	})
	return out
}

func hasLoop(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if naturalLoop(b) != nil {
			return true
		}
	}
	return false
}

// initRules: what Init leaves behind becomes the state; the Init action of a new role runs.
func (w *World) initRules(r *Rep, es, eob *ssa.Function) {
	T := "modelchecker.Thread."
	ins := w.Func(T + "insertTopLevelVars")
	if ins != nil {
		n := 0
		for _, f := range w.withHelpers(ins) {
			for _, l := range w.loopsOf(f) {
				if l.Over == nil || !re(`GetAllVisibleVariables|getAllVisibleVariables|StringDict`).MatchString(w.render(l.Over)) {
					continue
				}
				n++
				skip := anyCut(w.isTrue(`Has\(.*Heap\.globals,.*\)$`), w.isFalse(`Contains\(.*topLevelVars,.*\)$`))
				put := w.callTo(`modelchecker\.Heap\.insert`, `.*Heap`, `range\(.*\)#1`, `range\(.*\)#2`)
				w.wholeLoop(r, "init/variables", l, put, skip, nil)
			}
		}
		r.Floor("loops over the variables of Init", n, 1)
		hi := w.Func("modelchecker.Heap.insert")
		if hi != nil {
			w.must(r, step{Key: "init/inserted", Why: "the variable does not become part of the state", Fn: hi, Goal: retOf(hi), Through: func(in ssa.Instruction) bool {
				u, ok := in.(*ssa.MapUpdate)
				return ok && reMatch(`Heap\.state`, w.plain(u.Map)) && u.Key == ssa.Value(hi.Params[1]) && u.Value == ssa.Value(hi.Params[2])
			}, Cut: w.isTrue(`Heap\.state\[.*\](?:#1)?$`)})
		}
	}
	isInit := w.cutRel(`\.Name$`, "!=", `^"Init"$`)
	action := func(e Edge) bool { // the block that ends is that of an action
		ex, ok := e.Cond.(*ssa.Extract)
		if !ok || ex.Index != 1 {
			return false
		}
		ta, ok := ex.Tuple.(*ssa.TypeAssert)
		return ok && (namedName(ta.AssertedType) == "Action") != e.Taken
	}
	insert := func(in ssa.Instruction) bool {
		if isCall(T + "insertTopLevelVars")(in) {
			return true
		}
		return isCall("modelchecker.Heap.insert")(in) // inlined
	}
	none := isFalseFrame(w)
	w.must(r, step{Key: "init/return", Why: "a return in Init loses the state variables", Fn: es, NoEnter: w.onlyStep(es), Cut: anyCut(w.stmtKind("ReturnStmt"), isInit, action),
		Through: anyOf(insert, w.storeTo("Thread", "Aborted", "true"), isCall(T+"disableTransition")), Goal: anyOf(retOf(es), isCall(T+"executeEndOfStatement"))})
	w.must(r, step{Key: "init/end", Why: "the end of Init loses the state variables", Fn: eob, NoEnter: w.onlyStep(eob), Cut: anyCut(isInit, action, none, w.cutRel(`\.scope(?:\.parent)?$`, "!=", "^nil$")),
		Through: insert, Goal: anyOf(retOf(eob), isCall(T+"executeEndOfStatement"))})

	// roles
	no := w.onlyStep(es)
	grown := w.cutRel(`len\(.*Process\.Roles\)$`, "<=", `^len\(.*Process\.Roles\)$`)
	hasInit, noInit := w.cutRel(`findRoleInitAction\(.*\)#1$`, "==", `^""$`), w.cutRel(`findRoleInitAction\(.*\)#1$`, "!=", `^""$`)
	newest := `.*Process\.Roles\[\(len\(.*Process\.Roles\) - 1\)\]`
	find := w.callTo(`modelchecker\.findRoleInitAction`, `.*Process`, newest)
	push := isCall(T + "pushFrame")
	py := w.stmtKind("PyStmt")
	aborted := anyOf(w.storeTo("Thread", "Aborted", "true"), isCall(T+"disableTransition"), isCall(T+"endWithoutYield"))
	eos := isCall(T + "executeEndOfStatement")
	w.must(r, step{Key: "role/init/looked-up", Why: "the Init action of a new role does not run", Fn: es, NoEnter: no, Cut: anyCut(py, grown), Through: anyOf(find, aborted), Goal: anyOf(eos, retOf(es))})
	w.must(r, step{Key: "role/init/runs", Why: "the Init action of a new role does not run", Fn: es, NoEnter: no, Cut: anyCut(py, grown, hasInit), Through: anyOf(push, aborted), Goal: anyOf(eos, retOf(es))})
	w.must(r, step{Key: "role/init/none", Why: "a role without Init action is stuck", Fn: es, NoEnter: no, Cut: anyCut(py, grown, noInit), Through: anyOf(eos, aborted), Goal: retOf(es)})
	w.must(r, step{Key: "role/init/several", Why: "several roles are created and only one is initialised", Fn: es, NoEnter: no,
		Cut: anyCut(py, grown, w.cutRel(`\(len\(.*Roles\) - len\(.*Roles\)\)$`, "<=", "^1$")), Through: aborted, Goal: anyOf(eos, push)})
	for _, f := range []struct{ field, val string }{{"FileIndex", `.*findRoleInitAction\(.*\)#0`}, {"pc", `.*findRoleInitAction\(.*\)#1`}, {"obj", newest}} {
		w.must(r, step{Key: "role/init/" + f.field, Why: "the Init action runs with another " + f.field, Fn: es, NoEnter: no, Cut: anyCut(py, grown), Goal: push, Through: func(in ssa.Instruction) bool {
			st, base := fieldStore(in, "CallFrame", f.field)
			return st != nil && newFrame(base) && reMatch(f.val, w.plain(st.Val))
		}})
	}
	fr := w.Func("modelchecker.findRoleInitAction")
	if fr == nil {
		r.Undecided("role/find", "-", "findRoleInitAction not found")
		return
	}
	other := w.cutRel(`Roles\[.*\]\.Name$`, "==", `\.Name$`)
	notInit := w.cutRel(`Actions\[.*\]\.Name$`, "==", `^"Init"$`)
	found := func(in ssa.Instruction) bool {
		rt, ok := in.(*ssa.Return)
		return ok && rt.Parent() == fr && !reMatch(`""`, w.render(retVal(rt, 1)))
	}
	w.must(r, step{Key: "role/find/name", Why: "the Init action of another role runs", Fn: fr, Cut: other, Goal: found})
	w.must(r, step{Key: "role/find/action", Why: "another action runs in place of Init", Fn: fr, Cut: notInit, Goal: found})
	instrs(fr, func(in ssa.Instruction) {
		if !found(in) {
			return
		}
		rt := in.(*ssa.Return)
		s := w.shape(retVal(rt, 1), nil, nil)
		parts := w.strParts(retVal(rt, 1), nil, 0)
		ok := re(`^Roles\[\{.*\}\]\.Actions\[\{.*\}\]\.Block$`).MatchString(s)
		var ix []ssa.Value
		for _, p := range parts {
			if p.V != nil {
				ix = append(ix, p.V)
			}
		}
		if ok && len(ix) == 2 {
			for k, over := range []string{`\.Roles$`, `Roles\[.*\]\.Actions$`} {
				hit := false
				for _, l := range w.loopsOf(fr) {
					hit = hit || l.isIndex(ix[k]) && l.Over != nil && re(over).MatchString(w.render(l.Over))
				}
				ok = ok && hit
			}
		} else {
			ok = false
		}
		r.Check("role/find/path", w.ipos(in), ok, ifBad(!ok, "the path is not that of the role's Init action: "+s))
	})
}

func isFalseFrame(w *World) func(Edge) bool {
	return w.cutRel(`currentFrame\(.*\)$|^CallFrame$`, "==", "^nil$")
}

// environmentRules: what is evaluated sees the variables of the running frame, and what it assigns is written back.
func (w *World) environmentRules(r *Rep, es *ssa.Function) {
	n := 0
	for _, f := range sortedFns(w.reachable(es)) {
		if !w.owns(f) || topOf(f).Signature.Recv() == nil || namedName(topOf(f).Signature.Recv().Type()) != "Thread" {
			continue
		}
		for _, in := range allInstrs(f) {
			c, ok := in.(ssa.CallInstruction)
			if !ok || !reMatch(`modelchecker\.Evaluator\.(?:Eval|Exec).*`, calleeName(c)) {
				continue
			}
			args := callArgs(c)
			if len(args) < 4 {
				continue
			}
			n++
			ev := w.plain(args[0])
			env := w.plain(args[3])
			proc := strings.TrimSuffix(ev, ".Evaluator")
			ok = strings.HasPrefix(env, "Process.GetAllVariablesNocopy("+proc+")")
			if !ok { // a helper that is handed the environment
				ok = true
				for _, l := range w.origins(args[3]) {
					ok = ok && re(`GetAllVariablesNocopy\(`).MatchString(w.render(l))
				}
			}
			r.Check("environment/"+f.Name(), w.ipos(in), ok, ifBad(!ok, "the expression is evaluated with other variables than those of the running frame: "+env))
			if strings.Contains(calleeName(c), ".Exec") {
				back := func(x ssa.Instruction) bool {
					u, ok := x.(ssa.CallInstruction)
					return ok && calleeName(u) == "modelchecker.Process.updateAllVariablesInScope" && callArgs(u)[1] == args[3]
				}
				w.must(r, step{Key: "environment/back", Why: "what the statement assigned is lost", Fn: f, After: in, NoEnter: func(*ssa.Function) bool { return true },
					Through: anyOf(back, w.storeTo("Thread", "Aborted", "true"), isCall("modelchecker.Thread.disableTransition")), Goal: retOf(f)})
			}
		}
	}
	r.Floor("evaluations in the interpreter", n, 9)
}

func allInstrs(f *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	instrs(f, func(in ssa.Instruction) { out = append(out, in) })
	return out
}
