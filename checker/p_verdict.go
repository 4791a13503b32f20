package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("S14", ruleS14) }

// verdict: what the rules about the outcome of a run share.
type verdict struct {
	w     *World
	f     *ssa.Function   // the function that runs one specification
	group []*ssa.Function // and its helpers
	run   []*ssa.Call     // its calls that run the search
}

// texts: the constant strings a call is given (directly, as variadic arguments, or through Sprintf).
func texts(c ssa.CallInstruction) []string {
	var out []string
	var add func(v ssa.Value, d int)
	add = func(v ssa.Value, d int) {
		v = peelMI(v)
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.String {
				out = append(out, constant.StringVal(x.Value))
			}
		case *ssa.Slice:
			for _, e := range sliceElems(x) {
				add(e, d)
			}
		case *ssa.BinOp:
			add(x.X, d)
			add(x.Y, d)
		case *ssa.Call:
			if d < 2 && reMatch(`fmt\.(Sprint|Append).*|strings\.Join`, calleeName(x)) {
				for _, a := range x.Call.Args {
					add(a, d+1)
				}
			}
		}
	}
	for _, a := range c.Common().Args {
		add(a, 0)
	}
	return out
}

// printArgs: the values a printing call prints.
func printArgs(c ssa.CallInstruction) []ssa.Value {
	var out []ssa.Value
	var add func(v ssa.Value, d int)
	add = func(v ssa.Value, d int) {
		v = peelMI(v)
		if sl, ok := v.(*ssa.Slice); ok {
			for _, e := range sliceElems(sl) {
				add(e, d)
			}
			return
		}
		if x, ok := v.(*ssa.Call); ok && d < 2 && reMatch(`fmt\.(Sprint|Append).*`, calleeName(x)) {
			for _, a := range x.Call.Args {
				add(a, d+1)
			}
			return
		}
		if x, ok := v.(*ssa.BinOp); ok && x.Op == token.ADD {
			add(x.X, d)
			add(x.Y, d)
			return
		}
		out = append(out, v)
	}
	for _, a := range c.Common().Args {
		add(a, 0)
	}
	return out
}

// prints: a call that prints the text (fmt, or a function of the program that is given it).
func (w *World) prints(text string) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		if !reMatch(`fmt\.(Print|Fprint).*|log\..*`, calleeName(c)) {
			t := c.Call.StaticCallee()
			if t == nil || !w.owns(t) || len(t.Blocks) == 0 || !hasInstr(t, isPrint) {
				return false
			}
		}
		for _, s := range texts(c) {
			if strings.Contains(s, text) {
				return true
			}
		}
		return false
	}
}

func isPrint(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	return ok && reMatch(`fmt\.(Print|Fprint).*`, calleeName(c))
}

func isExit(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	return ok && reMatch(`os\.Exit|log\.Fatal.*|glog\.(Fatal|Exit).*`, calleeName(c))
}

// resultIdx: the positions of the results of a call that have the type.
func resultIdx(c *ssa.Call, typ string) []int {
	var out []int
	tup, ok := c.Type().(*types.Tuple)
	if !ok {
		return nil
	}
	for i := 0; i < tup.Len(); i++ {
		if shortType(tup.At(i).Type()) == typ {
			out = append(out, i)
		}
	}
	return out
}

// is: a value that is (on some way) the k-th result of a call that satisfies p.
func (x *verdict) is(p func(*ssa.Call) bool, k func(*ssa.Call) int) func(ssa.Value) bool {
	leaf := func(v ssa.Value) bool {
		switch y := peelConv(v).(type) {
		case *ssa.Extract:
			c, ok := y.Tuple.(*ssa.Call)
			return ok && p(c) && y.Index == k(c)
		case *ssa.Call:
			return p(y) && k(y) == 0 && !isTuple(y)
		}
		return false
	}
	return func(v ssa.Value) bool {
		for _, a := range x.w.argsIn(v, x.group, 0) {
			if !x.w.mayBe(a, leaf) && !leaf(a) {
				return false
			}
		}
		return true
	}
}

func isTuple(c *ssa.Call) bool { _, ok := c.Type().(*types.Tuple); return ok }

// constant result position
func at(i int) func(*ssa.Call) int { return func(*ssa.Call) int { return i } }

func named(names ...string) func(*ssa.Call) bool {
	return func(c *ssa.Call) bool {
		for _, n := range names {
			if reMatch(n, calleeName(c)) {
				return true
			}
		}
		return false
	}
}

// search: calls that run the search and give its outcome.
func (x *verdict) search(c *ssa.Call) bool {
	n := calleeName(c)
	if n == "modelchecker.Processor.Start" {
		return true
	}
	t := c.Call.StaticCallee()
	return t != nil && t != x.f && t.Package() == x.f.Package() && x.w.reachesInstr(c, func(in ssa.Instruction) bool { return isCall("modelchecker.Processor.Start")(in) }) && len(resultIdx(c, "*modelchecker.Node")) == 2
}

func (x *verdict) failedNode() func(ssa.Value) bool {
	return x.is(x.search, func(c *ssa.Call) int {
		if l := resultIdx(c, "*modelchecker.Node"); len(l) == 2 {
			return l[1]
		}
		return -1
	})
}

func (x *verdict) runError() func(ssa.Value) bool {
	return x.is(x.search, func(c *ssa.Call) int {
		if l := resultIdx(c, "error"); len(l) == 1 {
			return l[0]
		}
		return -1
	})
}

// trace: the guided trace of the run.
func (x *verdict) trace(v ssa.Value) bool {
	t := shortType(v.Type())
	return t == "*modelchecker.GuidedTrace"
}

func isNil(v ssa.Value) bool  { return isNilConst(v) }
func isZero(v ssa.Value) bool { return isConstInt(0)(v) }

// lenOf: len(v) of a value that satisfies p.
func lenOf(p func(ssa.Value) bool) func(ssa.Value) bool {
	return func(v ssa.Value) bool {
		c, ok := peelConv(v).(*ssa.Call)
		return ok && calleeName(c) == "builtin.len" && p(c.Call.Args[0])
	}
}

// emptyEdge / filledEdge: branches on which a collection is empty / not empty.
func emptyEdge(p func(ssa.Value) bool) func(Edge) bool {
	l := lenOf(p)
	return anyCut(says(l, isZero, token.EQL, token.LEQ), says(l, isConstInt(1), token.LSS), says(p, isNil, token.EQL))
}
func filledEdge(p func(ssa.Value) bool) func(Edge) bool {
	l := lenOf(p)
	return anyCut(says(l, isZero, token.NEQ, token.GTR), says(l, isConstInt(1), token.GEQ))
}

// callIs: branches on which the boolean result of a call is val.
func (x *verdict) callIs(rx string, val bool) func(Edge) bool {
	return func(e Edge) bool {
		c, ok := e.Cond.(*ssa.Call)
		return ok && reMatch(rx, calleeName(c)) && e.Taken == val
	}
}

// global: branches on which a boolean variable of the program is val.
func (x *verdict) global(name string, val bool) func(Edge) bool {
	return func(e Edge) bool {
		for _, a := range x.w.argsIn(e.Cond, x.group, 0) {
			u, ok := a.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return false
			}
			g, ok := u.X.(*ssa.Global)
			if !ok || g.Name() != name {
				return false
			}
		}
		return e.Taken == val
	}
}

// option: branches on which the boolean option is val.
func (x *verdict) option(getter string, val bool) func(Edge) bool {
	return func(e Edge) bool {
		return e.Taken == val && strings.HasSuffix(x.w.plain(e.Cond), "."+strings.TrimPrefix(getter, "Get"))
	}
}

// livenessIs: branches that contradict that the option for liveness is s.
func (x *verdict) livenessIs(s string) func(Edge) bool {
	return func(e Edge) bool {
		a, op, b, ok := relOf(e)
		if !ok || op != token.EQL && op != token.NEQ {
			return false
		}
		for i := 0; i < 2; i++ {
			if c, ok := b.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && strings.HasSuffix(x.w.plain(a), ".Liveness") {
				return (constant.StringVal(c.Value) == s) != (op == token.EQL)
			}
			a, b = b, a
		}
		return false
	}
}

// writeFails: branches on which a file could not be written.
func (x *verdict) writeFails() func(Edge) bool {
	return func(e Edge) bool {
		if c, ok := e.Cond.(*ssa.Call); ok {
			return e.Taken && x.w.reachesInstr(c, func(in ssa.Instruction) bool {
				d, ok := in.(*ssa.Call)
				return ok && reMatch(`os\.(WriteFile|Create)`, calleeName(d))
			})
		}
		return false
	}
}

func ruleS14(c *Ctx, r *Rep) {
	w := c.World
	r.Rule("PASSED cannot be reached on any path on which the search failed, ended with an error, was stopped, met a deadlock, left an exists assertion or a trace unfinished, or a liveness assertion failed; each such finding is printed as FAILED (path queries under the assumption of the finding)")
	r.Rule("every liveness mode reaches its check, every assertion of the file is dispatched by its operators, and its outcome decides the verdict")
	r.Rule("a deadlock is recorded exactly when an expansion below the limit has no live successor, and in the graph exactly for yield states without an enabled step that leads on; exists assertions are struck off only by a witness")
	f := w.Func("main.modelCheckSingleSpec")
	if f == nil {
		r.Undecided("run", "-", "modelCheckSingleSpec not found")
		return
	}
	x := &verdict{w: w, f: f, group: w.domGroup(f)}
	instrs(f, func(in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok && x.search(c) {
			x.run = append(x.run, c)
		}
	})
	r.Floor("runs of the search", len(x.run), 1)
	for _, c := range x.run {
		x.passed(r, c)
		x.failures(r, c)
	}
	x.findings(r)
	x.callers(r)
	w.livenessDispatch(r)
	w.deadlockRules(r)
	w.existsRules(r)
}

func (x *verdict) passed(r *Rep, run *ssa.Call) {
	w := x.w
	pass, fail := w.prints("PASSED"), w.prints("FAILED")
	failed, runErr := x.failedNode(), x.runError()
	early := x.is(named(`modelchecker\.Processor\.GetEarlyDeadlock`), at(0))
	deadlock := x.is(named(`modelchecker\.GetAllNodes`), at(2))
	witness := x.is(named(`modelchecker\.CheckSimpleExistsWitness`), at(0))
	liveInv := x.is(named(`modelchecker\.Check(Strict|Fast)Liveness`), at(1))
	noSim := x.global("simulation", true)
	whole := anyCut(says(x.trace, isNil, token.NEQ), x.callIs(`modelchecker\.Processor\.Stopped`, true), noSim) // runs that search everything
	for _, t := range []struct {
		key, why string
		cut      func(Edge) bool
	}{
		{"failed", "PASSED is printed although the search returned a failed state", says(failed, isNil, token.EQL)},
		{"error", "PASSED is printed although the search ended with an error", says(runErr, isNil, token.EQL)},
		{"deadlock-early", "PASSED is printed although the search stopped at a deadlock", anyCut(says(early, isNil, token.EQL), noSim)},
		{"stopped", "PASSED is printed although the search was stopped", x.callIs(`modelchecker\.Processor\.Stopped`, false)},
		{"trace", "PASSED is printed although the trace was not followed to its end", anyCut(says(x.trace, isNil, token.EQL), x.callIs(`modelchecker\.GuidedTrace\.IsExhausted`, true), says(failed, isNil, token.NEQ))},
		{"deadlock", "PASSED is printed although the graph has a deadlock", anyCut(says(deadlock, isNil, token.EQL), x.option("GetDeadlockDetection", false), x.callIs(`modelchecker\.Processor\.Stopped`, true), noSim, x.global("experimentalNoGraph", true))},
	} {
		w.must(r, step{Key: "passed/" + t.key, Why: t.why, After: run, Cut: t.cut, Through: isExit, Goal: pass, NoEnter: outside(x.group)})
	}
	// the checks at the end
	w.must(r, step{Key: "passed/exists-checked", Why: "PASSED is printed without looking for witnesses of the exists assertions", After: run, Cut: whole,
		Through: anyOf(isCall("modelchecker.CheckSimpleExistsWitness"), isExit), Goal: pass, NoEnter: outside(x.group)})
	for mode, fn := range map[string]string{"": "Strict", "strict": "Strict", "strict/bfs": "Strict", "enabled": "Strict", "true": "Strict", "eventual": "Fast", "nondeterministic": "Fast"} {
		w.must(r, step{Key: "passed/liveness-checked/" + mode, Why: "PASSED is printed without the liveness check of the mode", After: run, Cut: anyCut(whole, x.livenessIs(mode), x.global("experimentalNoGraph", true)),
			Through: anyOf(isCall("modelchecker.Check"+fn+"Liveness"), isExit), Goal: pass, NoEnter: outside(x.group)})
	}
	w.must(r, step{Key: "passed/simulation", Why: "a simulation, which samples the behaviours, prints PASSED", After: run, Cut: anyCut(x.global("simulation", false), x.global("experimentalNoGraph", true)), Through: isExit, Goal: pass, NoEnter: outside(x.group)})
	// no finding, no failure
	clean := anyCut(says(failed, isNil, token.NEQ), says(runErr, isNil, token.NEQ), says(early, isNil, token.NEQ), says(deadlock, isNil, token.NEQ), says(liveInv, isNil, token.NEQ), filledEdge(witness))
	w.must(r, step{Key: "failed/only-with-finding", Why: "FAILED is printed although nothing was found", After: run, Cut: clean, Through: isExit, Goal: fail, NoEnter: outside(x.group)})
	// the answer of the run
	answer := step{Key: "answer/only-passed", Why: "a run that did not pass is answered with its graph, as if it had", After: run, Through: anyOf(pass, isExit, func(in ssa.Instruction) bool { return in == ssa.Instruction(run) }), NoEnter: outside(x.group)}
	merged := false
	instrs(x.f, func(in ssa.Instruction) {
		if rt, ok := in.(*ssa.Return); ok {
			_, phi := retVal(rt, 0).(*ssa.Phi)
			merged = merged || phi
		}
	})
	if merged {
		answer.GoalEnv = func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			rt, ok := in.(*ssa.Return)
			return ok && rt.Parent() == x.f && !isNilConst(res(retVal(rt, 0)))
		}
	} else {
		answer.Goal = func(in ssa.Instruction) bool {
			rt, ok := in.(*ssa.Return)
			return ok && rt.Parent() == x.f && !isNilConst(retVal(rt, 0))
		}
	}
	w.must(r, answer)
	for _, g := range x.group {
		instrs(g, func(in ssa.Instruction) {
			if pass(in) && in.Parent() == x.f {
				w.must(r, step{Key: "answer/passed", Why: "a run that passed is answered as if it had failed", After: in, NoEnter: outside(x.group), GoalEnv: returnsNil(x.f, 0)})
			}
		})
	}
}

// namesAssertion: the printed values include the name of the assertion at a recorded position.
func (x *verdict) namesAssertion(c ssa.CallInstruction, ok func(*Slice) bool) bool {
	for _, a := range printArgs(c) {
		s := x.w.slice(a)
		if s.hasField(`(proto\.|ast\.)?Invariant\.Name`) && ok(s) {
			return true
		}
	}
	return false
}

func (x *verdict) failures(r *Rep, run *ssa.Call) {
	w := x.w
	failed, runErr := x.failedNode(), x.runError()
	fail := w.prints("FAILED")
	done := anyOf(isReturnOf(x.f), func(in ssa.Instruction) bool { return in == ssa.Instruction(run) })
	bad := anyCut(says(failed, isNil, token.EQL), says(runErr, isNil, token.NEQ), x.writeFails())
	w.must(r, step{Key: "failed/reported", Why: "a failed state is not reported as FAILED", After: run, Cut: bad, Through: anyOf(fail, isExit), Goal: done, NoEnter: outside(x.group)})
	w.must(r, step{Key: "error/reported", Why: "an error of the search does not stop the program with a message", After: run, Cut: anyCut(says(runErr, isNil, token.EQL), x.writeFails(), says(x.is(named(`modelchecker\.Processor\.GetEarlyDeadlock`), at(0)), isNil, token.NEQ)), Through: isExit, Goal: done, NoEnter: outside(x.group)})
	// the name of the assertion
	early := says(x.is(named(`modelchecker\.Processor\.GetEarlyDeadlock`), at(0)), isNil, token.NEQ)
	inLink := func(v ssa.Value) bool { return w.slice(v).hasField(`.*Link\.FailedInvariants`) }
	ofState := func(v ssa.Value) bool { return w.slice(v).hasField(`.*Process\.FailedInvariants`) && !inLink(v) }
	ofStep := func(v ssa.Value) bool { return inLink(v) }
	named := func(ok func(*Slice) bool) func(ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			c, is := in.(*ssa.Call)
			return is && fail(in) && x.namesAssertion(c, ok)
		}
	}
	w.must(r, step{Key: "failed/named/state", Why: "the assertion that the state fails is not named", After: run, Cut: anyCut(bad, early, emptyEdge(ofState)), NoEnter: outside(x.group), Goal: done,
		Through: anyOf(isExit, named(func(s *Slice) bool { return s.hasField(`.*Process\.FailedInvariants`) }))})
	w.must(r, step{Key: "failed/named/step", Why: "the transition assertion that the step fails is not named", After: run, Cut: anyCut(bad, early, emptyEdge(ofStep), filledEdge(ofState), x.global("experimentalNoGraph", true), func(e Edge) bool {
		a, op, b, ok := relOf(e)
		if !ok {
			return false
		}
		if isZero(a) || isConstInt(1)(a) {
			a, b, op = b, a, mirrored[op]
		}
		return (op == token.LEQ || op == token.EQL || op == token.LSS) && (isZero(b) || isConstInt(1)(b)) && strings.HasSuffix(w.plain(a), ".Inbound)")
	}), NoEnter: outside(x.group), Goal: done, Through: anyOf(isExit, named(func(s *Slice) bool { return s.hasField(`.*Link\.FailedInvariants`) }))})
	seed := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if !ok || !isPrint(in) {
			return false
		}
		for _, a := range printArgs(c) {
			if strings.HasSuffix(w.plain(a), ".Seed") || w.slice(a).hasField(`.*Processor\.Seed`) {
				return true
			}
		}
		return false
	}
	w.must(r, step{Key: "failed/seed", Why: "the seed that reproduces a failed simulation is not printed", After: run, Cut: anyCut(bad, x.global("simulation", false), x.global("experimentalNoGraph", true)), Through: anyOf(seed, isExit), Goal: done, NoEnter: outside(x.group)})
	// a run that failed ends the series of runs
	w.must(r, step{Key: "failed/ends", Why: "a simulation goes on after a failed run", After: run, Cut: bad, Through: isExit, Goal: func(in ssa.Instruction) bool { return in == ssa.Instruction(run) }, NoEnter: outside(x.group)})
}

// findings: what the checks after the search find is reported.
func (x *verdict) findings(r *Rep) {
	w := x.w
	fail, pass := w.prints("FAILED"), w.prints("PASSED")
	n := map[string]int{}
	for _, g := range x.group {
		instrs(g, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			var key, why string
			var cut func(Edge) bool
			switch calleeName(c) {
			case "modelchecker.Processor.GetEarlyDeadlock":
				key, why = "deadlock-early", "a deadlock that stopped the search is not reported"
				cut = anyCut(says(x.is(func(d *ssa.Call) bool { return d == c }, at(0)), isNil, token.EQL), x.global("simulation", true))
			case "modelchecker.GetAllNodes":
				key, why = "deadlock", "a deadlock in the graph is not reported"
				cut = anyCut(says(x.is(func(d *ssa.Call) bool { return d == c }, at(2)), isNil, token.EQL), x.option("GetDeadlockDetection", false), x.callIs(`modelchecker\.Processor\.Stopped`, true), x.global("simulation", true), x.writeFails())
			case "modelchecker.CheckSimpleExistsWitness":
				key, why = "exists", "an exists assertion without a witness is not reported"
				cut = emptyEdge(x.is(named(`modelchecker\.CheckSimpleExistsWitness`), at(0)))
			case "modelchecker.CheckStrictLiveness", "modelchecker.CheckFastLiveness":
				key, why = "liveness", "a liveness assertion that fails is not reported"
				cut = says(x.is(func(d *ssa.Call) bool { return d == c }, at(1)), isNil, token.EQL)
			default:
				return
			}
			n[key]++
			w.must(r, step{Key: "found/" + key, Why: why, After: c, Cut: cut, Through: fail, Goal: anyOf(isReturnOf(x.f), pass), NoEnter: outside(x.group)})
			w.must(r, step{Key: "found/" + key + "/not-passed", Why: why + ", the run passes", After: c, Cut: cut, Goal: pass, NoEnter: outside(x.group)})
			if key == "liveness" || key == "exists" {
				name := func(in ssa.Instruction) bool {
					p, ok := in.(*ssa.Call)
					return ok && isPrint(in) && x.namesAssertion(p, func(s *Slice) bool { return s.hasField(`.*InvariantPosition\.InvariantIndex`) })
				}
				if key == "liveness" {
					file := func(e Edge) bool { // only one file is supported
						a, op, b, ok := relOf(e)
						return ok && (op == token.GTR && isZero(b) && strings.HasSuffix(w.plain(a), ".FileIndex") || op == token.LSS && isZero(a) && strings.HasSuffix(w.plain(b), ".FileIndex") || op == token.NEQ && (strings.HasSuffix(w.plain(a), ".FileIndex") || strings.HasSuffix(w.plain(b), ".FileIndex")))
					}
					w.must(r, step{Key: "found/liveness/named", Why: "the liveness assertion that fails is not named", After: c, Cut: anyCut(cut, file), Through: name, Goal: isReturnOf(x.f), NoEnter: outside(x.group)})
				} else if n[key] == 1 {
					for _, h := range x.group {
						for _, l := range w.loopsIn([]*ssa.Function{h}, func(v ssa.Value) bool {
							return x.is(named(`modelchecker\.CheckSimpleExistsWitness`), at(0))(v)
						}, name) {
							n["names"]++
							w.wholeLoop(r, "found/exists/named", l, name, nil, nil)
						}
					}
				}
			}
		})
	}
	r.Floor("checks for exists assertions", n["exists"], 2)
	r.Floor("loops that name the assertions without witness", n["names"], 1)
	r.Floor("checks for deadlocks", n["deadlock"]+n["deadlock-early"], 2)
	r.Floor("liveness checks", n["liveness"], 2)
}

// callers: a specification that did not pass stops what builds on it.
func (x *verdict) callers(r *Rep) {
	w := x.w
	n := 0
	for _, cs := range w.callers[x.f] {
		c, ok := cs.(*ssa.Call)
		if !ok {
			continue
		}
		g := c.Parent()
		next := anyOf(isCall("main.ComposeTransitions", "main.populateJoinHashes", "main.addToJoinHashes"), func(in ssa.Instruction) bool {
			d, ok := in.(*ssa.Call)
			return ok && d.Call.StaticCallee() == x.f
		})
		group := w.domGroup(g)
		if len(*c.Referrers()) == 0 { // nothing builds on it
			r.Check("builds-on/"+shortFn(g), w.ipos(c), true, "")
			continue
		}
		n++
		y := &verdict{w: w, f: g, group: group}
		own := y.is(func(d *ssa.Call) bool { return d == c }, at(0))
		w.must(r, step{Key: "builds-on/" + shortFn(g), Why: "a specification that did not pass is built upon", After: c, Cut: says(own, isNil, token.NEQ), Goal: next, NoEnter: func(f *ssa.Function) bool { return f == x.f || !inFuncs(group, f) }})
	}
	r.Floor("runs that are built upon", n, 2)
	// the outcome of the composition
	for _, cs := range w.callSites("main.ComposeTransitions") {
		c, ok := cs.(*ssa.Call)
		if !ok {
			continue
		}
		w.must(r, step{Key: "builds-on/composition-reported", Why: "a failed composition is not reported", After: c, Cut: func(e Edge) bool {
			return says(func(v ssa.Value) bool { return v == ssa.Value(c) }, isNil, token.EQL)(e)
		}, Through: anyOf(isPrint, isExit), Goal: isReturnOf(c.Parent()), NoEnter: func(*ssa.Function) bool { return true }})
	}
}
