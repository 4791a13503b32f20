package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("S08", ruleS08) }

// roleIdentityTest: a comparison of the references of two roles (the roles themselves are copied from state to state).
func (w *World) roleIdentityTest(op string) func(Edge) bool {
	ref := `lib\.Role\.RefString(Short)?\(`
	return w.cutRel("^"+ref, op, "^"+ref)
}

func ruleS08(c *Ctx, r *Rep) {
	w := c.World
	r.Rule("injection (path queries): every yield state of an enabled step gets a thread crash and the crashes of all roles that are not waiting for another role, unless crashes are switched off; with crashes switched off, none")
	r.Rule("effect (path queries, loop coverage, origin of arguments): a role crash stops exactly the threads whose top frame runs in that role instance and sets exactly its ephemeral fields to copies of the recorded initial values before the state is checked, registered and explored further")
	r.Rule("initial values: whenever a role's Init ends, each field that is not durable is recorded, and a durable field is never")

	pn, ety := w.Func("modelchecker.Processor.processNode"), w.Func("modelchecker.Processor.expandToYield")
	ct, cp, crs, cr := w.Func("modelchecker.Processor.crashThread"), w.Func("modelchecker.Processor.crashProcess"), w.Func("modelchecker.Processor.crashRoles"), w.Func("modelchecker.Processor.crashRole")
	stc, reset := w.Func("modelchecker.Processor.shouldThreadCrash"), w.Func("modelchecker.Processor.ResetEphemeralVariables")
	if pn == nil || ety == nil || ct == nil || cp == nil || crs == nil || cr == nil || stc == nil || reset == nil {
		r.Undecided("crash", "-", "a function that injects crashes is missing")
		return
	}
	noGraph := w.isTrue(`\.experimentalNoGraph$`)
	notScheduled := w.isFalse(`^modelchecker\.Processor\.ShouldScheduleNode\(`)
	crashT, crashP := isCall("modelchecker.Processor.crashThread"), isCall("modelchecker.Processor.crashProcess")

	// ---- thread crash: where
	pubs := w.callsIn(pn, "modelchecker.Processor.publishYieldPoint")
	r.Floor("yield states published by processNode", len(pubs), 1)
	noT := w.isFalse(`^modelchecker\.Processor\.shouldThreadCrash\(`)
	for _, cs := range pubs {
		w.must(r, step{Key: "thread-crash", Why: "a yield state is left without crashing its thread", After: callAt(cs), NoEnter: w.onlyHelpers(pn, fname(ct)), Through: crashT, Cut: anyCut(noT, noGraph), Goal: retOf(pn)})
	}
	for _, cs := range w.callSites("modelchecker.Processor.crashThread") {
		f := topOf(cs.Parent())
		w.must(r, step{Key: "thread-crash/allowed", Why: "a thread crash is injected without asking whether crashes are on", Fn: f, NoEnter: w.onlyHelpers(f), Cut: w.isTrue(`^modelchecker\.Processor\.shouldThreadCrash\(`), Goal: func(in ssa.Instruction) bool { return in == callAt(cs) }})
		a := callArgs(cs)
		asked := false
		for _, q := range w.callsIn(f, "modelchecker.Processor.shouldThreadCrash") {
			asked = asked || callArgs(q)[1] == a[1]
		}
		r.Check("thread-crash/same-state", w.ipos(callAt(cs)), asked, ifBad(!asked, "the crashed state is not the one that was asked about"))
	}
	// whether
	on := w.isTrue(`\.config\.Options\.CrashOnYield$`)
	off := w.isFalse(`\.config\.Options\.CrashOnYield$`)
	stay := w.onlyHelpers(stc)
	actionOff := w.isFalse(`\.ActionOptions\[.*\](#0)?\.CrashOnYield$`)
	actionNotOff := anyCut(w.isTrue(`\.ActionOptions\[.*\](#0)?\.CrashOnYield$`), w.cutRel(`\.ActionOptions\[.*\](#0)?\.CrashOnYield$`, "==", "^nil$"), w.cutRel(`\.ActionOptions\[.*\](#0)?$`, "==", "^nil$"), w.isFalse(`\.ActionOptions\[.*\]#1$`))
	noThread := anyCut(w.cutRel(`GetThreadsCount\(`, "==", "^0$"), w.cutRel(`GetThreadsCount\(`, "<=", "^0$"), w.cutRel(`GetThreadsCount\(`, "<", "^1$"), w.cutRel(`\.Current$`, "==", "^-1$"), w.cutRel(`\.Current$`, "<", "^0$"))
	w.must(r, step{Key: "thread-crash/on", Why: "no thread crash although crashes are on for the action", Fn: stc, NoEnter: stay, Cut: anyCut(noThread, off, actionOff), GoalEnv: mayReturnUnless(stc, 0, false, actionOff)})
	w.must(r, step{Key: "thread-crash/unset", Why: "no thread crash although the action says nothing about crashes", Fn: stc, NoEnter: stay, Cut: anyCut(noThread, off, w.cutRel(`\.ActionOptions\[.*\](#0)?\.CrashOnYield$`, "!=", "^nil$")), GoalEnv: mayReturn(stc, 0, false)})
	w.must(r, step{Key: "thread-crash/off", Why: "a thread crash although crashes are switched off", Fn: stc, NoEnter: stay, Cut: on, GoalEnv: mayReturn(stc, 0, true)})
	w.must(r, step{Key: "thread-crash/action-off", Why: "a thread crash although crashes are switched off for the action", Fn: stc, NoEnter: stay, Cut: actionNotOff, GoalEnv: mayReturnUnless(stc, 0, true, actionNotOff)})
	nk := 0
	for _, f := range w.withHelpers(stc) {
		instrs(f, func(in ssa.Instruction) {
			lk, ok := in.(*ssa.Lookup)
			if !ok || !re(`\.ActionOptions$`).MatchString(w.render(lk.X)) {
				return
			}
			nk++
			s := w.render(lk.Index)
			ok = re(`\.Name$`).MatchString(s) && !re(`currentFrame\(|- 1\)\]\.Name$`).MatchString(s)
			r.Check("thread-crash/action", w.ipos(in), ok, ifBad(!ok, "the option is looked up under "+s+", which is not the name of the thread's action"))
		})
	}
	r.Floor("lookups of the action's crash option", nk, 1)
	// effect
	w.must(r, step{Key: "thread-crash/stops", Why: "the crashed state keeps the crashed thread", Fn: ct, NoEnter: w.onlyHelpers(ct), Through: isCall("modelchecker.Process.removeCurrentThread"), Goal: isCall("modelchecker.CheckInvariantsWithProber", "modelchecker.Processor.findVisitedSymmetric", "modelchecker.Processor.publishYieldPoint")})
	for _, cs := range w.callsIn(ct, "modelchecker.Process.removeCurrentThread") {
		a := callArgs(cs)[0]
		s, ok := w.comesFrom(a, "Fork")
		r.Check("thread-crash/fork", w.ipos(callAt(cs)), ok, ifBad(!ok, "the thread is removed from "+s))
	}
	// ---- role crash: where
	calls := w.callsIn(ety, "modelchecker.Processor.processNode")
	r.Floor("steps of the search", len(calls), 1)
	pnCall := `^modelchecker\.Processor\.processNode\(.*\)`
	skipP := anyCut(off, noGraph,
		w.isTrue(pnCall+`#[01]$`),
		w.isFalse(`\.config\.ContinueOnInvariantFailures$`),
		w.isFalse(`\.Process\.Enabled$`),
		w.cutRel(`\.Process$`, "==", "^nil$"),
		w.cutRel(`\.Process\.Name$`, "!=", `^"crash"$`)) // the name is compared with "yield" first
	for _, cs := range calls {
		w.must(r, step{Key: "role-crash", Why: "a yield state is left without crashing its roles", After: callAt(cs), NoEnter: w.onlyHelpers(ety, fname(pn), fname(cp)), Through: crashP, Cut: skipP,
			Goal: anyOf(retOf(ety), isCall("lib.LinearCollection.Remove", "modelchecker.Processor.processNode"))})
	}
	stayE := w.onlyHelpers(ety, fname(pn), fname(cp))
	w.must(r, step{Key: "role-crash/off", Why: "roles are crashed although crashes are switched off", Fn: ety, NoEnter: stayE, Cut: on, Goal: crashP})
	w.must(r, step{Key: "role-crash/yield", Why: "roles are crashed in a state that is not a yield state", Fn: ety, NoEnter: stayE, Cut: anyCut(w.cutRel(`\.Process\.Name$`, "==", `^"(yield|crash)"$`), w.isTrue(`\.IsYield$`)), Goal: crashP})
	for _, cs := range w.callsIn(ety, "modelchecker.Processor.crashProcess") {
		a := callArgs(cs)[1]
		ok := false
		for _, q := range calls {
			ok = ok || callArgs(q)[1] == a
		}
		r.Check("role-crash/same-state", w.ipos(callAt(cs)), ok, ifBad(!ok, "the roles of "+w.render(a)+" are crashed, not those of the state just processed"))
	}
	// the yield states keep the name the search looks for
	for _, cs := range pubs {
		w.must(r, step{Key: "role-crash/yield-name", Why: "a yield state does not get the name by which it is recognised", After: callAt(cs), NoEnter: w.onlyHelpers(pn, fname(ct)), Through: w.storeTo("Process", "Name", `^"yield"$`), Goal: retOf(pn)})
	}

	w.safeRoles(r, cp, crs)
	w.roleCrash(r, cr, reset, notScheduled)
	w.threadRemoval(r)
	w.initialValues(r)

	// crashed states are explored further
	for _, f := range []*ssa.Function{ct, cr} {
		k := f.Name()
		checked := w.isEmpty(`modelchecker\.CheckInvariantsWithProber\(.*\)\[0\]`)
		_ = checked
		failed := anyCut(w.nonEmpty(`modelchecker\.CheckInvariantsWithProber\(.*\)\[0\]`))
		goal := isCall("modelchecker.Processor.publishYieldPoint")
		w.must(r, step{Key: "explored/" + k, Why: "a crashed state is not explored further", Fn: f, NoEnter: w.onlyHelpers(f), Through: goal, Goal: retOf(f),
			Cut: anyCut(notScheduled, failed, w.isTrue(`^modelchecker\.Processor\.findVisitedSymmetric\(.*\)#1$`), w.cutRel(`^Role$`, "==", "^nil$"), w.isFalse(`HasDurabilitySpec\(`))})
		w.must(r, step{Key: "enabled/" + k, Why: "a crash in an enabled step is not marked enabled", Fn: f, NoEnter: w.onlyHelpers(f), Through: isCall("modelchecker.Process.Enable"), Goal: isCall("modelchecker.Processor.findVisitedSymmetric"),
			Cut: w.isFalse(`\.Process\.Enabled$`)})
	}
}

// safeRoles: the roles that are waiting for another one, and the recursion over the rest.
func (w *World) safeRoles(r *Rep, cp, crs *ssa.Function) {
	grp := w.helpersBut(cp, fname(crs))
	isAppend := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if !ok || calleeName(c) != "builtin.append" || elemType(c.Type()) != "Role" {
			return false
		}
		for _, e := range appendedElems(c) {
			if re(`\.obj$`).MatchString(w.render(e)) {
				return true
			}
		}
		return false
	}
	isStore := func(in ssa.Instruction) bool {
		return isAppend(in)
	}
	single := anyCut(w.cutRel(`^len\(.*RawArray\(.*\)\)$|^lib\.Stack\.Len\(`, "<=", "^1$"), w.cutRel(`^len\(.*RawArray\(.*\)\)$|^lib\.Stack\.Len\(`, "<", "^2$"))
	threadLoops := w.loopsIn(grp, func(v ssa.Value) bool { return elemType(v.Type()) == "Thread" }, isStore)
	r.Floor("loops over the threads of a state that crashes", len(threadLoops), 1)
	frameLoops := w.loopsIn(grp, func(v ssa.Value) bool { return elemType(v.Type()) == "CallFrame" }, isStore)
	r.Floor("loops over the frames of a thread", len(frameLoops), 1)
	nilThread := w.cutRel(`Threads?\[.*\]$|^Thread$`, "==", "^nil$")
	for _, l := range threadLoops {
		w.wholeLoop(r, "safe/threads", l, headOf(frameLoops), anyCut(single, nilThread), nil)
	}
	noRole := w.cutRel(`\.obj$`, "==", "^nil$")
	top := anyCut(w.cutRel(`\.obj$`, "==", `\[\(len\(.*\) - 1\)\]\.obj$|currentFrame\(.*\)\.obj$`), w.roleIdentityTest("=="), w.isTrue(`containsRole\(`))
	for _, l := range frameLoops {
		pos := w.ipos(firstNonPhi(l.Head))
		bad, tr := w.iterationSkips(l, isStore, anyCut(noRole, top))
		r.Check("safe/frames", pos, !bad, ifBad(bad, "a role that waits for another one is not spared: "+strings.Join(tr, " → ")))
		bad, tr = w.leavesEarly(l, nil)
		r.Check("safe/frames-all", pos, !bad, ifBad(bad, "not all frames are looked at: "+strings.Join(tr, " → ")))
		why := w.allButLast(l)
		r.Check("safe/frames-whole", pos, why == "", why)
		// never the running role
		q := &Q{W: w, NoEnter: onlyIn(grp), Through: headOf(frameLoops), Goal: isStore, Cut: anyCut(w.cutRel(`\.obj$`, "!=", `\[\(len\(.*\) - 1\)\]\.obj$|currentFrame\(.*\)\.obj$`), w.roleIdentityTest("!="))}
		if e := l.entry(); e != nil {
			bad, tr = q.from(l.Fn, point{e, 0, l.Head})
			r.Check("safe/running", pos, !bad, ifBad(bad, "a role that is running is spared from crashing: "+strings.Join(tr, " → ")))
		}
	}
	w.must(r, step{Key: "safe/handed-on", Why: "the roles are not crashed", Fn: cp, NoEnter: onlyIn(grp), Through: isCall(fname(crs)), Goal: retOf(cp)})
	for _, cs := range w.callsIn(cp, fname(crs)) {
		a := callArgs(cs)
		last := a[len(a)-1]
		ok := false
		for _, l := range w.listParts(last) {
			if re(`\.obj$`).MatchString(l) {
				ok = true
			}
		}
		r.Check("safe/list", w.ipos(callAt(cs)), ok, ifBad(!ok, "the roles that wait are not handed on to the crash of the roles"))
	}
	// each role that is not spared is crashed; then the others in the crashed state
	grp = w.withHelpers(crs)
	crash := isCall("modelchecker.Processor.crashRole")
	loops := w.loopsIn(grp, func(v ssa.Value) bool { return elemType(v.Type()) == "Role" && re(`\.Roles$`).MatchString(w.render(v)) }, crash)
	r.Floor("loops over the roles that can crash", len(loops), 1)
	var tests []string
	for _, f := range w.withHelpers(crs) {
		instrs(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				for _, t := range w.callees(c) {
					if w.owns(t) && len(t.Blocks) > 0 && t.Signature.Results().Len() == 1 && isBoolType(t.Signature.Results().At(0).Type()) && !strings.Contains(fname(t), "ShouldSchedule") {
						tests = append(tests, `^`+re(`\$\d+$`).ReplaceAllString(fname(t), "")+`\(`)
					}
				}
			}
		})
	}
	spared := w.isTrue(`containsRole\(|slices\.ContainsFunc\(`)
	if len(tests) > 0 {
		spared = anyCut(spared, w.isTrue(strings.Join(tests, "|")))
	}
	failed := w.cutRel(`^modelchecker\.Processor\.crashRoles?\(.*\)(#1)?$|^phi\(`, "!=", "^nil$")
	for _, l := range loops {
		w.wholeLoop(r, "each-role", l, crash, anyCut(spared, w.cutRel(`Roles\[.*\]$`, "==", "^nil$")), failed)
		// not the spared ones
		q := &Q{W: w, NoEnter: onlyIn(grp), Through: headOf(loops), Goal: crash, Cut: anyCut(w.isFalse(`containsRole\(|slices\.ContainsFunc\(`), w.isFalse(strings.Join(append(tests, `containsRole\(`), "|")))}
		if e := l.entry(); e != nil {
			bad, tr := q.from(l.Fn, point{e, 0, l.Head})
			r.Check("each-role/spared", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "a role that is waiting for another one, or has crashed already, is crashed: "+strings.Join(tr, " → ")))
		}
	}
	// "spared" compares references, as every state has its own copies of the roles
	byRef, byPtr := false, ""
	for f := range w.reachable(crs) {
		if !inFuncs(grp, f) && !re(`containsRole`).MatchString(fname(f)) && !inFuncs(grp, topOf(f)) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.BinOp:
				if x.Op == token.EQL || x.Op == token.NEQ {
					a, b := w.render(x.X), w.render(x.Y)
					if re(`RefString(Short)?\(`).MatchString(a) && re(`RefString(Short)?\(`).MatchString(b) {
						byRef = true
					} else if namedName(x.X.Type()) == "Role" && !isNilConst(x.X) && !isNilConst(x.Y) {
						byPtr = w.ipos(in)
					}
				}
			case ssa.CallInstruction:
				if n := calleeName(x); n == "slices.Contains" || n == "slices.Index" {
					byPtr = w.ipos(in)
				}
			}
		})
	}
	r.Check("each-role/by-reference", w.Pos(crs.Pos()), byRef && byPtr == "", ifBad(!byRef || byPtr != "", "roles are compared by address "+byPtr+", although a crashed state has its own copies"))
	for _, cs := range w.callsIn(crs, "modelchecker.Processor.crashRole") {
		n := 0
		for _, rc := range w.callsIn(crs, fname(crs)) {
			a := callArgs(rc)
			n++
			node := w.render(a[1])
			ok := re(`crashRole\(.*\)#0$`).MatchString(node)
			r.Check("further/state", w.ipos(callAt(rc)), ok, ifBad(!ok, "further crashes start from "+node+", not from the crashed state"))
			parts := w.listParts(a[len(a)-1])
			self, before := false, false
			for _, p := range parts {
				self = self || re(`Roles\[`).MatchString(p) || p == w.render(callArgs(cs)[2])
			}
			sl := w.slice(a[len(a)-1])
			for _, p := range crs.Params {
				if elemType(p.Type()) == "Role" {
					before = before || sl.vals[p]
				}
			}
			r.Check("further/spared", w.ipos(callAt(rc)), self && before, ifBad(!self || !before, "the roles spared from a further crash are "+strings.Join(parts, ", ")))
		}
		r.Floor("further crashes", n, 1)
		w.must(r, step{Key: "further", Why: "combinations with further crashes are left out", After: callAt(cs), NoEnter: onlyIn(grp), Through: isCall(fname(crs)), Goal: anyOf(headOf(loops), retOf(crs)),
			Cut: anyCut(w.cutRel(`crashRole\(.*\)#0$`, "==", "^nil$"), w.cutRel(`crashRole\(.*\)#1$`, "!=", "^nil$"))})
	}
}

// listParts: what the elements of a list of roles are (rendered), through Clone and append.
func (w *World) listParts(v ssa.Value) []string {
	var out []string
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.Slice:
			walk(x.X)
		case *ssa.Call:
			n := calleeName(x)
			switch {
			case n == "builtin.append":
				for _, e := range appendedElems(x) {
					out = append(out, w.render(e))
				}
				walk(x.Call.Args[0])
				if len(x.Call.Args) > 1 {
					walk(x.Call.Args[1])
				}
			case n == "slices.Clone" || n == "slices.Concat":
				for _, a := range x.Call.Args {
					walk(a)
				}
			default:
				for _, t := range w.callees(x) {
					if w.owns(t) {
						for _, b := range t.Blocks {
							if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) > 0 {
								walk(rt.Results[0])
							}
						}
					}
				}
			}
		case *ssa.Alloc:
			for _, ref := range *x.Referrers() {
				if ia, ok := ref.(*ssa.IndexAddr); ok {
					for _, rr := range *ia.Referrers() {
						if st, ok := rr.(*ssa.Store); ok {
							out = append(out, w.render(st.Val))
						}
					}
				}
			}
		}
	}
	walk(v)
	return out
}

// allButLast: the loop visits every frame below the top one.
func (w *World) allButLast(l *LoopInfo) string {
	if s, ok := l.Over.(*ssa.Slice); ok {
		if s.Low != nil {
			if c, ok := s.Low.(*ssa.Const); !ok || c.Value == nil || c.Int64() != 0 {
				return "the loop does not start at the first frame"
			}
		}
		if s.High != nil && !w.lenLessOne(s.High) {
			return "the loop ends at " + w.render(s.High)
		}
		return w.partial(l)
	}
	if iff, ok := l.Head.Instrs[len(l.Head.Instrs)-1].(*ssa.If); ok {
		if b, ok := iff.Cond.(*ssa.BinOp); ok {
			if bo, ok := b.Y.(*ssa.BinOp); ok && bo.Op == token.SUB {
				if c, ok := bo.Y.(*ssa.Const); ok && c.Value != nil && c.Int64() > 1 {
					return "the loop stops before the last waiting frame"
				}
				if p := w.partial(l); p != "" && !strings.Contains(p, "last") {
					return p
				}
				return ""
			}
		}
	}
	return w.partial(l)
}

// lenLessOne: len(x) or len(x)-1.
func (w *World) lenLessOne(v ssa.Value) bool {
	if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.SUB {
		c, ok := bo.Y.(*ssa.Const)
		if !ok || c.Value == nil || c.Int64() != 1 {
			return false
		}
		v = bo.X
	}
	return re(`^len\(|^lib\.Stack\.Len\(`).MatchString(w.render(v))
}

func (w *World) roleCrash(r *Rep, cr, reset *ssa.Function, notScheduled func(Edge) bool) {
	grp := w.helpersBut(cr, fname(reset))
	stay := onlyIn(grp)
	noRole := w.cutRel(`^Role$|Roles\[.*\]$`, "==", "^nil$")
	fork := isCall("modelchecker.Process.Fork")
	w.must(r, step{Key: "crashable", Why: "a role with ephemeral fields is not crashed", Fn: cr, NoEnter: stay, Through: fork, Goal: retOf(cr), Cut: anyCut(noRole, w.isFalse(`HasDurabilitySpec\(`))})
	w.must(r, step{Key: "crashable/only", Why: "a role without ephemeral fields is crashed", Fn: cr, NoEnter: stay, Cut: w.isTrue(`HasDurabilitySpec\(`), Goal: fork})
	for _, cs := range w.callsIn(cr, "modelchecker.DurabilitySpec.HasDurabilitySpec") {
		a := w.render(callArgs(cs)[1])
		ok := re(`Role\.Name$|Roles\[.*\]\.Name$`).MatchString(a)
		r.Check("crashable/name", w.ipos(callAt(cs)), ok, ifBad(!ok, "the durability of "+a+" is looked up, not that of the role"))
	}
	uses := isCall("modelchecker.CheckInvariantsWithProber", "modelchecker.Processor.findVisitedSymmetric", "modelchecker.Processor.publishYieldPoint", "modelchecker.Node.Attach", "modelchecker.Node.Duplicate")
	resets := isCall(fname(reset))
	stops := isCall("modelchecker.Process.removeThread")
	w.must(r, step{Key: "reset", Why: "the crashed state is used before its ephemeral fields are reset", Fn: cr, NoEnter: stay, Through: resets, Goal: uses})
	for _, cs := range w.callsIn(cr, fname(reset)) {
		a := callArgs(cs)
		n, ok := w.comesFrom(a[1], "Fork")
		ro := w.render(a[2])
		ok = ok && re(`^Role$|Roles\[.*\]$`).MatchString(ro)
		r.Check("reset/of", w.ipos(callAt(cs)), ok, ifBad(!ok, "the fields of "+ro+" in "+n+" are reset"))
	}
	isThreads := func(v ssa.Value) bool { return elemType(v.Type()) == "Thread" }
	loops := w.loopsIn(grp, isThreads, stops)
	r.Floor("loops over the threads of a crashed role", len(loops), 1)
	w.must(r, step{Key: "stops", Why: "the crashed state is used before the threads of the role are stopped", Fn: cr, NoEnter: stay, Through: headOf(loops), Goal: uses})
	other := anyCut(w.cutRel(`Threads?\[.*\]$|^Thread$`, "==", "^nil$"), w.cutRel(`\.obj$`, "==", "^nil$"), w.roleIdentityTest("!="), w.cutRel(`^lib\.Stack\.Len\(`, "==", "^0$"))
	same := w.roleIdentityTest("==")
	for _, l := range loops {
		w.wholeLoop(r, "stops/threads", l, stops, other, nil)
		s, ok := w.comesFrom(l.Over, "Fork")
		r.Check("stops/state", w.ipos(firstNonPhi(l.Head)), ok, ifBad(!ok, "the threads of "+s+" are looked at, not those of the crashed state"))
		q := &Q{W: w, NoEnter: stay, Through: headOf(loops), Goal: stops, Cut: same}
		if e := l.entry(); e != nil {
			bad, tr := q.from(l.Fn, point{e, 0, l.Head})
			r.Check("stops/only", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "a thread that does not run in the crashed role is stopped: "+strings.Join(tr, " → ")))
		}
		for b := range l.Body {
			for _, in := range b.Instrs {
				if cs, ok := in.(ssa.CallInstruction); ok && stops(in) {
					a := callArgs(cs)
					r.Check("stops/index", w.ipos(in), l.isIndex(a[1]), ifBad(!l.isIndex(a[1]), "the thread at "+w.render(a[1])+" is stopped"))
					s, ok := w.comesFrom(a[0], "Fork")
					r.Check("stops/fork", w.ipos(in), ok, ifBad(!ok, "the thread is removed from "+s))
				}
			}
		}
	}
	// the running frame decides
	for _, f := range grp {
		instrs(f, func(in ssa.Instruction) {
			b, ok := in.(*ssa.BinOp)
			if !ok || (b.Op != token.EQL && b.Op != token.NEQ) {
				return
			}
			for _, v := range []ssa.Value{b.X, b.Y} {
				s := w.render(v)
				if re(`\.obj\)?$`).MatchString(s) && strings.Contains(s, "Stack") || re(`RefString.*\[.*\]\.obj\)$`).MatchString(s) {
					ok := re(`currentFrame\(|- 1\)\]`).MatchString(s)
					r.Check("stops/frame", w.ipos(in), ok, ifBad(!ok, "the role of a thread is taken from "+s+", not from its running frame"))
				}
			}
		})
	}

	// the reset itself
	grp = w.withHelpers(reset)
	set := func(in ssa.Instruction) bool {
		return w.callTo(`lib\.Struct\.SetField`)(in)
	}
	fl := w.loopsIn(grp, func(v ssa.Value) bool { return re(`AttrNames\(.*InitValues\)$`).MatchString(w.render(v)) }, set)
	r.Floor("loops over the recorded initial values", len(fl), 1)
	notFound := w.cutRel(`Role`, "==", "^nil$")
	w.must(r, step{Key: "reset/done", Why: "the fields are not reset", Fn: reset, NoEnter: onlyIn(grp), Through: headOf(fl), Goal: retOf(reset), Cut: notFound})
	for _, l := range fl {
		w.wholeLoop(r, "reset/fields", l, set, func(e Edge) bool { return errNonNil(w, e) }, nil)
		for b := range l.Body {
			for _, in := range b.Instrs {
				cs, ok := in.(ssa.CallInstruction)
				if !ok || !set(in) {
					continue
				}
				a := callArgs(cs)
				key, val := w.render(a[1]), w.render(a[2])
				k := l.Elems[a[1]] || strings.Contains(key, "AttrNames(")
				r.Check("reset/field", w.ipos(in), k, ifBad(!k, "the field "+key+" is set"))
				v := strings.Contains(val, ".InitValues") && strings.Contains(val, "Clone") && !strings.Contains(val, ".Fields")
				r.Check("reset/value", w.ipos(in), v, ifBad(!v, "the field is set to "+val+", not to a copy of its initial value"))
				rc, own := w.comesFrom(a[0], `Roles\[.*\]|^nil`)
				own = own && re(`\.Fields$`).MatchString(w.render(a[0]))
				if ld, ok := a[0].(*ssa.UnOp); ok {
					if fa, ok := ld.X.(*ssa.FieldAddr); ok {
						for _, b := range phiLeaves(fa.X) {
							if pa, ok := b.(*ssa.Parameter); ok && pa.Parent() == reset {
								rc, own = "the role given, which belongs to the state before the crash", false
							}
						}
					}
				}
				r.Check("reset/role", w.ipos(in), own, ifBad(!own, "the field of "+rc+" is set, not that of the crashed state's role"))
			}
		}
	}
	rl := w.loopsIn(grp, func(v ssa.Value) bool {
		return elemType(v.Type()) == "Role" && re(`\.Roles$`).MatchString(w.render(v))
	}, isCall("lib.Role.RefStringShort", "lib.Role.RefString"))
	r.Floor("loops that find the crashed role", len(rl), 1)
	for _, l := range rl {
		pos := w.ipos(firstNonPhi(l.Head))
		bad, tr := w.leavesEarly(l, w.roleIdentityTest("=="))
		r.Check("reset/found", pos, !bad, ifBad(bad, "the search for the role ends at another one: "+strings.Join(tr, " → ")))
		p := w.partial(l)
		r.Check("reset/found-whole", pos, p == "", p)
		bad, tr = w.iterationSkips(l, func(ssa.Instruction) bool { return false }, anyCut(w.roleIdentityTest("!="), w.cutRel(`Roles\[.*\]$`, "==", "^nil$")))
		r.Check("reset/found-first", pos, !bad, ifBad(bad, "the crashed role is passed over: "+strings.Join(tr, " → ")))
	}
}

// threadRemoval: removing a thread removes that thread, and the next pending one becomes the current one.
func (w *World) threadRemoval(r *Rep) {
	rm, rc := w.Func("modelchecker.Process.removeThread"), w.Func("modelchecker.Process.removeCurrentThread")
	if rm == nil || rc == nil {
		r.Undecided("remove", "-", "removeThread not found")
		return
	}
	isIdx := func(v ssa.Value) bool {
		p, ok := peelConv(v).(*ssa.Parameter)
		return ok && p.Parent() == rm && isInt(p.Type())
	}
	n := 0
	clears := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok || !isNilConst(st.Val) {
			return false
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		return ok && isIdx(ia.Index)
	}
	for _, f := range w.withHelpers(rm) {
		instrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok && namedName(st.Val.Type()) == "Thread" {
				n++
				ok := isIdx(ia.Index) && isNilConst(st.Val)
				r.Check("remove/thread", w.ipos(in), ok, ifBad(!ok, "removing a thread stores "+w.render(st.Val)+" at "+w.render(ia.Index)))
			}
		})
	}
	r.Floor("stores that remove a thread", n, 1)
	w.must(r, step{Key: "remove", Why: "the thread is not removed", Fn: rm, NoEnter: w.onlyHelpers(rm), Through: clears, Goal: retOf(rm), Cut: w.isEmpty(`.*\.Threads`)})
	for _, st := range directStores(rm, "Process", "Current") {
		st := st
		w.must(r, step{Key: "remove/current", Why: "a thread that is not pending becomes the current one", Fn: rm, NoEnter: w.onlyHelpers(rm), Cut: w.cutRel(`Threads\[.*\]$`, "!=", "^nil$"), Goal: func(in ssa.Instruction) bool { return in == ssa.Instruction(st) }})
	}
	w.must(r, step{Key: "remove/current-one", Why: "removing the current thread does not remove it", Fn: rc, NoEnter: w.onlyHelpers(rc, fname(rm)), Through: w.callTo(`modelchecker\.Process\.removeThread`, "", `^Process\.Current$`), Goal: retOf(rc)})
}

// initialValues: what a crash resets the fields to.
func (w *World) initialValues(r *Rep) {
	cp := w.Func("modelchecker.Thread.CopyInitValuesForEphemeralFields")
	if cp == nil {
		r.Undecided("initial", "-", "CopyInitValuesForEphemeralFields not found")
		return
	}
	grp := w.withHelpers(cp)
	set := w.callTo(`lib\.Struct\.SetField`)
	loops := w.loopsIn(grp, func(v ssa.Value) bool { return re(`AttrNames\(`).MatchString(w.render(v)) }, set)
	r.Floor("loops that record initial values", len(loops), 1)
	durable := w.isTrue(`IsFieldDurable\(`)
	for _, l := range loops {
		w.wholeLoop(r, "initial/fields", l, set, anyCut(durable, func(e Edge) bool { return errNonNil(w, e) }), nil)
		q := &Q{W: w, NoEnter: onlyIn(grp), Through: headOf(loops), Goal: set, Cut: w.isFalse(`IsFieldDurable\(`)}
		if e := l.entry(); e != nil {
			bad, tr := q.from(l.Fn, point{e, 0, l.Head})
			r.Check("initial/only", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "a durable field is recorded to be reset in a crash: "+strings.Join(tr, " → ")))
		}
		for b := range l.Body {
			for _, in := range b.Instrs {
				cs, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				a := callArgs(cs)
				if set(in) {
					key := w.render(a[1])
					k := strings.Contains(key, "AttrNames(")
					sl := w.slice(a[2])
					v := sl.hasField(`CallFrame\.obj`) && !sl.hasField("Role.InitValues") || strings.Contains(w.render(a[2]), ".obj.Fields")
					t := re(`\.InitValues$`).MatchString(w.render(a[0]))
					r.Check("initial/value", w.ipos(in), k && v && t, ifBad(!k || !v || !t, "records "+w.render(a[2])+" as "+key+" of "+w.render(a[0])))
				}
				if calleeName(cs) == "modelchecker.DurabilitySpec.IsFieldDurable" {
					ok := re(`obj\.Name$`).MatchString(w.render(a[1])) && strings.Contains(w.render(a[2]), "AttrNames(")
					r.Check("initial/asked", w.ipos(in), ok, ifBad(!ok, "asks whether field "+w.render(a[2])+" of "+w.render(a[1])+" is durable"))
				}
			}
		}
	}
	// whenever a role's Init ends
	n := 0
	for _, cs := range w.callSites("modelchecker.Thread.popFrame") {
		f := cs.Parent()
		if !strings.HasPrefix(fname(topOf(f)), "modelchecker.Thread.") {
			continue
		}
		n++
		notInit := anyCut(w.cutRel(`\.Name$`, "!=", `^"Init"$`), w.isFalse(`GetProtoFieldByPath\(.*\)#1$`), w.cutRel(`^lib\.Stack\.Len\(`, "==", "^0$"), w.isFalse(`^phi\(`))
		w.must(r, step{Key: "initial/when/" + f.Name(), Why: "the Init of a role ends without its initial values being recorded", After: callAt(cs), NoEnter: w.onlyHelpers(f, fname(cp)), Through: isCall(fname(cp)), Cut: notInit, Goal: retOf(f)})
	}
	r.Floor("places where a call ends", n, 2)
	for _, cs := range w.callSites(fname(cp)) {
		a := w.render(callArgs(cs)[1])
		ok := strings.Contains(a, "popFrame(")
		r.Check("initial/frame", w.ipos(callAt(cs)), ok, ifBad(!ok, "the initial values are taken from "+a+", not from the frame that ends"))
	}

	// durability
	ifd, hds := w.Func("modelchecker.DurabilitySpec.IsFieldDurable"), w.Func("modelchecker.DurabilitySpec.HasDurabilitySpec")
	if ifd == nil || hds == nil {
		r.Undecided("durable", "-", "IsFieldDurable or HasDurabilitySpec not found")
		return
	}
	stay := w.onlyHelpers(ifd, fname(hds))
	w.must(r, step{Key: "durable/default", Why: "a field is called durable or not without looking at the lists", Fn: ifd, NoEnter: stay, Cut: w.isFalse(`HasDurabilitySpec\(`), GoalEnv: returnsConst(ifd, 0, true), Through: lookupOf(w, `(durable|ephemeral)Fields$`)})
	w.must(r, step{Key: "durable/default-no", Why: "a field is called ephemeral without looking at the lists", Fn: ifd, NoEnter: stay, GoalEnv: returnsConst(ifd, 0, false), Through: lookupOf(w, `(durable|ephemeral)Fields$`)})
	hasDurable := anyCut(w.nonEmpty(`.*\.durableFields`))
	noDurable := w.isEmpty(`.*\.durableFields`)
	w.must(r, step{Key: "durable/listed", Why: "the list of durable fields is used although it is empty", Fn: ifd, NoEnter: stay, Cut: hasDurable, Goal: lookupOf(w, `durableFields$`)})
	w.must(r, step{Key: "durable/unlisted", Why: "the list of ephemeral fields is used although durable fields are listed", Fn: ifd, NoEnter: stay, Cut: noDurable, Goal: lookupOf(w, `ephemeralFields$`)})
	inD, inE := w.isTrue(`\.durableFields\[.*\](#1)?$`), w.isTrue(`\.ephemeralFields\[.*\](#1)?$`)
	notD, notE := w.isFalse(`\.durableFields\[.*\](#1)?$`), w.isFalse(`\.ephemeralFields\[.*\](#1)?$`)
	_, _, _, _ = inD, inE, notD, notE
	for _, b := range ifd.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(rt.Results) != 1 {
			continue
		}
		for _, v := range phiLeaves(rt.Results[0]) {
			s := w.render(v)
			var ok bool
			switch {
			case re(`durableFields\[`).MatchString(s):
				ok = !strings.HasPrefix(s, "!")
			case re(`ephemeralFields\[`).MatchString(s):
				ok = strings.HasPrefix(s, "!")
			default:
				_, ok = constBool(v)
			}
			r.Check("durable/answer", w.ipos(rt), ok, ifBad(!ok, "a field counts as durable when "+s))
		}
	}
	w.must(r, step{Key: "durable/answer-yes", Why: "a field that is listed as ephemeral counts as durable", Fn: ifd, NoEnter: stay, Cut: anyCut(inD, notE, w.isFalse(`HasDurabilitySpec\(`)), GoalEnv: returnsConst(ifd, 0, true)})
	w.must(r, step{Key: "durable/answer-no", Why: "a durable field counts as ephemeral", Fn: ifd, NoEnter: stay, Cut: anyCut(notD, inE), GoalEnv: returnsConst(ifd, 0, false)})
	stayH := w.onlyHelpers(hds)
	spec := `\.RoleDurabilitySpec\[.*\]`
	w.must(r, step{Key: "durable/spec", Why: "a role with listed fields counts as one without", Fn: hds, NoEnter: stayH, GoalEnv: mayReturn(hds, 0, false),
		Cut: anyCut(w.cutRel(`\.RoleDurabilitySpec$`, "==", "^nil$"), w.isFalse(spec+`#1$`), w.isEmpty(`.*\.ephemeralFields`))})
	w.must(r, step{Key: "durable/spec-d", Why: "a role with durable fields counts as one without", Fn: hds, NoEnter: stayH, GoalEnv: mayReturn(hds, 0, false),
		Cut: anyCut(w.cutRel(`\.RoleDurabilitySpec$`, "==", "^nil$"), w.isFalse(spec+`#1$`), noDurable)})
	// the lists are filled from the decorator's argument of the same name
	if af := w.Func("modelchecker.RoleDurabilitySpec.addFields"); af != nil {
		g := w.onlyHelpers(af)
		arg := `.`
		put := func(field string) func(ssa.Instruction) bool {
			return func(in ssa.Instruction) bool {
				mu, ok := in.(*ssa.MapUpdate)
				return ok && re(field+`$`).MatchString(w.render(mu.Map))
			}
		}
		w.must(r, step{Key: "durable/list", Why: "a field is listed as durable by another argument", Fn: af, NoEnter: g, Cut: anyCut(w.cutRel(arg, "==", `^"durable"$`), w.cutRel(arg, "!=", `^"ephemeral"$`)), Goal: put("durableFields")})
		w.must(r, step{Key: "ephemeral/list", Why: "a field is listed as ephemeral by another argument", Fn: af, NoEnter: g, Cut: anyCut(w.cutRel(arg, "!=", `^"durable"$`), w.cutRel(arg, "==", `^"ephemeral"$`)), Goal: put("ephemeralFields")})
		w.exists(r, "durable/put", "durable fields are never listed", af, put("durableFields"))
		w.exists(r, "ephemeral/put", "ephemeral fields are never listed", af, put("ephemeralFields"))
		ls := w.loopsIn(w.withHelpers(af), func(v ssa.Value) bool { return true }, anyOf(put("durableFields"), put("ephemeralFields")))
		r.Floor("loops over the fields of a decorator", len(ls), 1)
		for _, l := range ls {
			bad, tr := w.iterationSkips(l, anyOf(put("durableFields"), put("ephemeralFields")), nil)
			r.Check("durable/each", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "a listed field is left out: "+strings.Join(tr, " → ")))
		}
	} else {
		r.Undecided("durable/list", "-", "addFields not found")
	}
	add := isCall("modelchecker.DurabilitySpec.AddDurabilitySpec")
	nl := 0
	for _, cs := range w.callSites("modelchecker.DurabilitySpec.AddDurabilitySpec") {
		f := topOf(cs.Parent())
		for _, l := range w.loopsIn(w.withHelpers(f), func(v ssa.Value) bool { return elemType(v.Type()) == "Role" }, add) {
			nl++
			w.wholeLoop(r, "durable/roles", l, add, nil, nil)
		}
		for _, l := range w.loopsIn(w.withHelpers(f), func(v ssa.Value) bool { return elemType(v.Type()) == "File" }, add) {
			p := w.partial(l)
			r.Check("durable/files", w.ipos(firstNonPhi(l.Head)), p == "", p)
		}
	}
	r.Floor("loops that read the durability of the roles", nl, 1)
}

// comesFrom: every object a field path starts from is one whose rendering matches (parameters of helpers are followed to
// the callers, calls to what they return).
func (w *World) comesFrom(v ssa.Value, pat string) (string, bool) {
	ok := true
	var all []string
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if s := w.render(v); re(pat).MatchString(s) {
			all = append(all, s)
			return
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			rec(x.X)
			return
		case *ssa.Field:
			rec(x.X)
			return
		case *ssa.UnOp:
			rec(x.X)
			return
		}
		os := w.origins(v)
		if len(os) == 1 && os[0] == v {
			all = append(all, w.render(v))
			ok = false
			return
		}
		for _, o := range os {
			rec(o)
		}
	}
	rec(v)
	return strings.Join(all, ", "), ok
}

// lookupOf matches a map lookup on a map that renders as pattern.
func lookupOf(w *World, pat string) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		lk, ok := in.(*ssa.Lookup)
		return ok && re(pat).MatchString(w.render(lk.X))
	}
}
