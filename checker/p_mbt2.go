package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	statusOK             = 1
	statusNotImplemented = 2
	statusFailed         = 5
)

// statusOf: the codes that a response can have; -1 stands for an unknown one.
func (x *adapter) statusOf(v ssa.Value, fns []*ssa.Function) map[int64]bool {
	out := map[int64]bool{}
	if isNil(v) {
		out[0] = true
		return out
	}
	for _, p := range x.parts(v, fns, "Status", "Code") {
		c, ok := p.(*ssa.Const)
		switch {
		case p == nil:
			out[0] = true
		case ok && c.Value != nil:
			n, _ := constant.Int64Val(c.Value)
			out[n] = true
		default:
			out[-1] = true
		}
	}
	return out
}

// answers: under the assumption, each return has one of the codes, or an error if that is allowed.
func (x *adapter) answers(key string, f *ssa.Function, fns []*ssa.Function, from *ssa.Call, cut func(Edge) bool, orErr bool, why string, want ...int64) {
	w := x.w
	q := &Q{W: w, NoEnter: only(fns), Cut: cut, Track: tracked, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		rt, ok := in.(*ssa.Return)
		if !ok || rt.Parent() != f || in.Block() == f.Recover {
			return false
		}
		if !isNil(resolved(res, retVal(rt, 1))) {
			return !orErr
		}
		for c := range x.statusOf(resolved(res, retVal(rt, 0)), fns) {
			ok := false
			for _, n := range want {
				ok = ok || n == c
			}
			if !ok {
				return true
			}
		}
		return false
	}}
	bad, tr := false, []string(nil)
	if from != nil {
		bad, tr = q.After(from)
	} else {
		bad, tr = q.Entry(f)
	}
	x.check(key, w.Pos(f.Pos()), !bad, why, tr)
}

func isThe(p *ssa.Parameter) func(ssa.Value) bool {
	return func(v ssa.Value) bool { return v == ssa.Value(p) }
}

// firstOf: the first result of such a call.
func firstOf(name string) func(ssa.Value) bool {
	return func(v ssa.Value) bool {
		if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
			v = ex.Tuple
		}
		c, ok := v.(*ssa.Call)
		return ok && (calleeName(c) == name || c.Call.IsInvoke() && c.Call.Method.Name() == name)
	}
}

func invokes(fns []*ssa.Function, name string) []*ssa.Call {
	var out []*ssa.Call
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && c.Call.IsInvoke() && c.Call.Method.Name() == name {
				out = append(out, c)
			}
		})
	}
	return out
}

// commands: from a request to what is executed.
func (x *adapter) commands() {
	w := x.w
	f, gr := x.fn(mbtServer+"newCommand"), x.fn(mbtServer+"getRole")
	if f == nil || gr == nil {
		return
	}
	fns := x.group(f)
	pos := w.Pos(f.Pos())
	isReq := isThe(f.Params[1])
	roleName := func(v ssa.Value) bool { return x.sel(v, fns, isReq, "Role", "RoleName") }
	roleId := func(v ssa.Value) bool { return x.sel(v, fns, isReq, "Role", "RoleId") }
	actName := func(v ssa.Value) bool { return x.sel(v, fns, isReq, "ActionName") }
	isAction := func(v ssa.Value) bool {
		l := lookupIn(v)
		if l == nil || !actName(l.Index) {
			return false
		}
		return allOf(w.leavesIn(l.X, fns), func(v ssa.Value) bool {
			l := lookupIn(v)
			return l != nil && roleName(l.Index) && x.sel(l.X, fns, isThe(f.Params[0]), "actions")
		})
	}
	isModel := func(v ssa.Value) bool { return x.sel(v, fns, isThe(f.Params[0]), "model") }
	isRole := func(v ssa.Value) bool {
		if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
			v = ex.Tuple
		}
		c, ok := v.(*ssa.Call)
		return ok && calleeName(c) == mbtServer+"getRole" && roleName(c.Call.Args[1]) && roleId(c.Call.Args[2])
	}
	args := func(v ssa.Value) bool {
		return x.converted(fns, "mbt.fromProtoArgsToLibArgs", func(v ssa.Value) bool { return x.sel(v, fns, isReq, "Args") })(v)
	}
	inRes := func(v ssa.Value) ssa.Value {
		if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
			return ex.Tuple
		}
		return v
	}
	instance := func(ok func(ssa.Value) bool) func(ssa.Value, func(ssa.Value) ssa.Value) bool {
		return func(v ssa.Value, res func(ssa.Value) ssa.Value) bool {
			v = peelMI(resolved(res, v))
			for i := 0; i < 3; i++ {
				if ci, is := v.(*ssa.ChangeInterface); is {
					v = ci.X
				}
				v = peelMI(resolved(res, v))
			}
			if ok(v) {
				return true
			}
			if c, is := inRes(v).(*ssa.Call); is && c.Call.StaticCallee() != nil && memberOf(fns, c.Call.StaticCallee()) {
				return true // judged by its own returns below
			}
			return false
		}
	}
	noRole, someRole := x.emptyIs(roleName, true), x.emptyIs(roleName, false)
	made := func(key string, cut func(Edge) bool, fld string, ok func(ssa.Value, func(ssa.Value) ssa.Value) bool, why string) {
		bad, tr := (&Q{W: w, NoEnter: only(fns), Cut: cut, Track: tracked, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			if rt, is := in.(*ssa.Return); is && rt.Parent() != f && memberOf(fns, rt.Parent()) && fld == "Role" && len(rt.Results) == 2 && rt.Parent().Signature.Results().At(0).Type().String() == f.Pkg.Pkg.Path()+".Role" {
				return isNil(resolved(res, retVal(rt, 1))) && !ok(resolved(res, retVal(rt, 0)), res)
			}
			st, _ := fieldStore(in, "ExecuteActionCommand", fld)
			return st != nil && !ok(st.Val, res)
		}}).Entry(f)
		x.check("command/"+key, pos, !bad, why, tr)
	}
	same := func(p func(ssa.Value) bool) func(ssa.Value, func(ssa.Value) ssa.Value) bool {
		return func(v ssa.Value, res func(ssa.Value) ssa.Value) bool {
			v = resolved(res, v)
			if p(v) {
				return true
			}
			if ct, ok := v.(*ssa.ChangeType); ok {
				return p(ct.X)
			}
			return allOf(w.leavesIn(v, fns), p)
		}
	}
	made("action", nil, "Action", same(isAction), "it is not the action that is registered under its name for the type of the role")
	made("model", someRole, "Role", instance(isModel), "an action without a role does not run on the model")
	made("role", noRole, "Role", instance(isRole), "an action does not run on the instance that it names")
	made("args", nil, "Args", same(args), "the action does not get the arguments")
	for fld, p := range map[string]func(ssa.Value) bool{"RoleName": roleName, "ActionName": actName, "RoleId": roleId, "Req": isReq} {
		made(fld, nil, fld, same(p), "the operation is not the one that is asked for")
	}
	// every command is complete
	for _, fld := range []string{"Action", "Role", "Args", "Req"} {
		fld := fld
		set := func(in ssa.Instruction) bool { st, _ := fieldStore(in, "ExecuteActionCommand", fld); return st != nil }
		bad, tr := (&Q{W: w, NoEnter: only(fns), Track: tracked, Through: set, GoalEnv: nilError(f)}).Entry(f)
		x.check("command/whole/"+fld, pos, !bad, "an operation lacks its "+fld, tr)
	}
	for _, c := range callsTo(fns, mbtServer+"getRole") {
		bad, tr := x.errGoesOn2(c, f, fns)
		x.check("command/unknown-role", w.ipos(c), !bad, "an action runs although its instance is unknown", tr)
	}
	known := says(func(v ssa.Value) bool { return allOf(w.leavesIn(v, fns), isAction) }, isNil, token.NEQ)
	found := func(e Edge) bool {
		ex, ok := e.Cond.(*ssa.Extract)
		if !ok || ex.Index != 1 || !e.Taken {
			return false
		}
		l, ok := ex.Tuple.(*ssa.Lookup)
		return ok && actName(l.Index)
	}
	bad, tr := (&Q{W: w, NoEnter: only(fns), Cut: anyCut(known, found), Track: tracked, GoalEnv: nilError(f)}).Entry(f)
	x.check("command/unknown-action", pos, !bad, "an action that is not registered is called", tr)
	// the instance
	gs := x.group(gr)
	isIt := func(v ssa.Value) bool {
		l := lookupIn(v)
		if l == nil || !allOf(w.leavesIn(l.X, gs), firstOf("GetRoles")) {
			return false
		}
		return x.structIs(l.Index, gs, map[string]func(ssa.Value) bool{
			"RoleName": func(v ssa.Value) bool { return x.sel(v, gs, isThe(gr.Params[1])) },
			"Index":    func(v ssa.Value) bool { return x.sel(v, gs, isThe(gr.Params[2])) },
		})
	}
	there := func(e Edge) bool {
		ex, ok := e.Cond.(*ssa.Extract)
		return ok && ex.Index == 1 && e.Taken && lookupIn2(ex)
	}
	bad, tr = (&Q{W: w, NoEnter: only(gs), Track: tracked, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		rt, ok := in.(*ssa.Return)
		return ok && rt.Parent() == gr && isNil(resolved(res, retVal(rt, 1))) && !isIt(resolved(res, retVal(rt, 0)))
	}}).Entry(gr)
	x.check("role/instance", w.Pos(gr.Pos()), !bad, "it is not the instance with this name and id", tr)
	bad, tr = (&Q{W: w, NoEnter: only(gs), Cut: there, Track: tracked, GoalEnv: nilError(gr)}).Entry(gr)
	x.check("role/missing", w.Pos(gr.Pos()), !bad, "an instance that does not exist is used", tr)
	for _, c := range invokes(gs, "GetRoles") {
		bad, tr := x.errGoesOn2(c, gr, gs)
		x.check("role/error", w.ipos(c), !bad, "the roles are used though they could not be got", tr)
	}
}

func lookupIn2(ex *ssa.Extract) bool { _, ok := ex.Tuple.(*ssa.Lookup); return ok }

// emptyIs: the edge on which the string is empty, or not.
func (x *adapter) emptyIs(p func(ssa.Value) bool, want bool) func(Edge) bool {
	op, ops := token.EQL, []token.Token{token.EQL, token.LEQ}
	if !want {
		op, ops = token.NEQ, []token.Token{token.NEQ, token.GTR}
	}
	return anyCut(says(p, isEmptyString, op), says(lenOf(p), isZero, ops...))
}

// clocks: the calls that told the time.
func (x *adapter) clocks(v ssa.Value, fns []*ssa.Function, d int) []*ssa.Call {
	var out []*ssa.Call
	for _, l := range x.w.leavesIn(v, fns) {
		l = peelConv(l)
		switch y := l.(type) {
		case *ssa.Call:
			if n := calleeName(y); n == "time.Since" || n == "time.Now" {
				out = append(out, y)
				continue
			}
			if d < 6 {
				for _, a := range y.Call.Args {
					out = append(out, x.clocks(a, fns, d+1)...)
				}
			}
		case *ssa.BinOp:
			out = append(out, x.clocks(y.X, fns, d+1)...)
		}
	}
	return out
}

func (x *adapter) execution() {
	w := x.w
	f := x.fn(mbtServer + "executeCommand")
	if f == nil {
		return
	}
	fns := x.group(f)
	pos := w.Pos(f.Pos())
	isCmd := isThe(f.Params[1])
	var runs []*ssa.Call
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && !c.Call.IsInvoke() && c.Call.StaticCallee() == nil && x.sel(c.Call.Value, fns, isCmd, "Action") {
				runs = append(runs, c)
			}
		})
	}
	x.check("execute/found", pos, len(runs) == 1, "the action is not called once", nil)
	if len(runs) != 1 {
		return
	}
	run := runs[0]
	isRun := func(in ssa.Instruction) bool { return in == ssa.Instruction(run) }
	role := peelMI(run.Call.Args[0])
	if ci, ok := role.(*ssa.ChangeInterface); ok {
		role = ci.X
	}
	x.check("execute/on", w.ipos(run), x.sel(role, fns, isCmd, "Role"), "the action does not run on the instance", nil)
	x.check("execute/with", w.ipos(run), x.sel(run.Call.Args[1], fns, isCmd, "Args"), "the action does not get the arguments", nil)
	bad, tr := (&Q{W: w, NoEnter: only(fns), Through: isRun, Goal: realReturn(f)}).Entry(f)
	x.check("execute/always", pos, !bad, "the action is not executed", tr)
	bad, tr = (&Q{W: w, NoEnter: only(fns), Goal: isRun}).After(run)
	x.check("execute/once", pos, !bad, "the action is executed twice", tr)
	result := func(i int) func(ssa.Value) bool {
		return func(v ssa.Value) bool {
			ex, ok := v.(*ssa.Extract)
			return ok && ex.Tuple == ssa.Value(run) && ex.Index == i
		}
	}
	noted := func(fld string, ok func(ssa.Value) bool, cut func(Edge) bool, why string) {
		set := func(in ssa.Instruction) bool {
			st, _ := fieldStore(in, "ExecuteActionCommand", fld)
			return st != nil && ok(st.Val)
		}
		other := func(in ssa.Instruction) bool {
			st, _ := fieldStore(in, "ExecuteActionCommand", fld)
			return st != nil && !ok(st.Val)
		}
		bad, tr := (&Q{W: w, NoEnter: only(fns), Cut: cut, Through: set, Goal: realReturn(f)}).Entry(f)
		bad2, tr2 := (&Q{W: w, NoEnter: only(fns), Cut: cut, Goal: other}).Entry(f)
		x.check("execute/"+fld, pos, !bad && !bad2, why, append(tr, tr2...))
	}
	isLeaf := func(p func(ssa.Value) bool) func(ssa.Value) bool {
		return func(v ssa.Value) bool { return allOf(w.leavesIn(v, fns), p) }
	}
	failed := says(isLeaf(result(1)), isNil, token.NEQ)
	succeeded := says(isLeaf(result(1)), isNil, token.EQL)
	noted("ReturnVal", isLeaf(result(0)), failed, "the value of the action is lost")
	noted("Err", isLeaf(result(1)), succeeded, "the error of the action is lost")
	ordered := func(before bool) func(ssa.Value) bool {
		return func(v ssa.Value) bool {
			cs := x.clocks(v, fns, 0)
			if len(cs) != 1 {
				return false
			}
			isClock := func(in ssa.Instruction) bool { return in == ssa.Instruction(cs[0]) }
			if before {
				bad, _ := (&Q{W: w, NoEnter: only(fns), Goal: isClock}).After(run)
				return !bad
			}
			bad, _ := (&Q{W: w, NoEnter: only(fns), Through: isRun, Goal: isClock}).Entry(f)
			return !bad
		}
	}
	noted("StartTime", ordered(true), failed, "the interval does not begin before the action")
	noted("EndTime", ordered(false), failed, "the interval does not end after the action")
	bad, tr = (&Q{W: w, NoEnter: only(fns), Track: tracked, Cut: succeeded, GoalEnv: nilError(f)}).After(run)
	x.check("execute/error", pos, !bad, "the error of the action is not told", tr)
}

// sequences: one after the other, and at the same time.
func (x *adapter) sequences() {
	w := x.w
	es, ec, ds, ss, rpc := x.fn(mbtServer+"executeSequence"), x.fn(mbtServer+"executeSequencesConcurrent"), x.fn(mbtServer+"deserializeSequences"), x.fn(mbtServer+"serializeSequenceResults"), x.fn(mbtServer+"ExecuteActionSequences")
	if es == nil || ec == nil || ds == nil || ss == nil || rpc == nil {
		return
	}
	// one sequence
	fns := x.group(es)
	runs := callsTo(fns, mbtServer+"executeCommand")
	x.check("sequence/found", w.Pos(es.Pos()), len(runs) == 1, "the operations are not executed in one place", nil)
	for _, c := range runs {
		l := x.loopOf(c)
		if l == nil {
			x.check("sequence/loop", w.ipos(c), false, "the operations are not executed one after the other", nil)
			continue
		}
		li, i := indexOf(single(w.leavesIn(c.Call.Args[1], fns)))
		ok := li != nil && allOf(w.leavesIn(li, fns), isThe(es.Params[1])) && isForward(peelConv(i))
		x.check("sequence/order", w.ipos(c), ok, "the operations are not executed in their order", nil)
		isRun := func(in ssa.Instruction) bool { return in == ssa.Instruction(c) }
		sk, tr := w.iterationSkips(l, isRun, nil)
		x.check("sequence/every", w.ipos(c), !sk, "an operation can be left out", tr)
		le, tr := w.leavesEarly(l, x.errIs(fns, c, true))
		x.check("sequence/all", w.ipos(c), !le, "the sequence ends though no operation failed", tr)
		bad, tr := (&Q{W: w, NoEnter: only(fns), Cut: x.errIs(fns, c, false), Goal: isRun}).After(c)
		x.check("sequence/stops", w.ipos(c), !bad, "the sequence goes on after an operation that failed", tr)
		bad, tr = x.errGoesOn2(c, es, fns)
		x.check("sequence/error", w.ipos(c), !bad, "the failure of an operation is not told", tr)
		// what was not executed
		marks := func(in ssa.Instruction) bool {
			if in.Block() == nil || len(in.Block().Instrs) == 0 || in.Block().Instrs[0] != in {
				return false
			}
			for _, l2 := range w.loopsOf(in.Parent()) {
				if l2.Head == in.Block() && l2.Head != l.Head && x.marksRest(l2, i, fns) {
					return true
				}
			}
			return false
		}
		through := func(in ssa.Instruction) bool { return marks(in) }
		bad, tr = (&Q{W: w, NoEnter: only(fns), Cut: x.errIs(fns, c, false), Through: through, Goal: isReturnOf(es)}).After(c)
		x.check("sequence/rest", w.ipos(c), !bad, "operations that are not executed after a failure are reported as executed", tr)
	}
	// all of them
	cs := x.group(ec)
	for _, g := range ec.AnonFuncs {
		if !memberOf(cs, g) {
			cs = append(cs, g)
		}
	}
	n := 0
	for _, g := range cs {
		for _, c := range calls(g, mbtServer+"executeSequence") {
			n++
			// it runs in a goroutine of the group, once for each of the sequences
			started := func(in ssa.Instruction) bool {
				cc, ok := in.(*ssa.Call)
				if !ok || !strings.HasSuffix(calleeName(cc), "errgroup.Group.Go") && calleeName(cc) != "errgroup.Group.Go" {
					return false
				}
				mc, ok := peelConv(cc.Call.Args[1]).(*ssa.MakeClosure)
				return ok && mc.Fn == ssa.Value(g)
			}
			m := 0
			for _, h := range cs {
				for _, l := range w.loopsOf(h) {
					var mc *ssa.MakeClosure
					for b := range l.Body {
						for _, in := range b.Instrs {
							if started(in) {
								mc = peelConv(in.(*ssa.Call).Call.Args[1]).(*ssa.MakeClosure)
							}
						}
					}
					if mc == nil {
						continue
					}
					m++
					sk, tr := w.iterationSkips(l, started, nil)
					le, _ := w.leavesEarly(l, nil)
					x.check("concurrent/every", w.ipos(mc), !sk && !le, "a sequence can be left out", tr)
					ok := false
					arg := c.Common().Args[1]
					for i, fv := range g.FreeVars {
						if arg != ssa.Value(fv) {
							if u, is := arg.(*ssa.UnOp); !is || u.X != ssa.Value(fv) {
								continue
							}
						}
						v := mc.Bindings[i]
						again := false
						for _, r := range *fv.Referrers() {
							if st, is := r.(*ssa.Store); is && st.Addr == ssa.Value(fv) {
								again = true
							}
						}
						if again {
							continue
						}
						if al, is := v.(*ssa.Alloc); is {
							if sts := storesTo(al); len(sts) == 1 && l.Body[al.Block()] {
								v = sts[0].Val
							}
						}
						li, ix := indexOf(v)
						ok = li != nil && allOf(w.leavesIn(li, cs), isThe(ec.Params[1])) && isForward(peelConv(ix))
					}
					x.check("concurrent/own", w.ipos(mc), ok, "it is not the sequence of the round that runs", nil)
				}
			}
			x.check("concurrent/parallel", w.ipos(c.(ssa.Instruction)), m == 1, "the sequences do not run at the same time", nil)
			bad, tr := (&Q{W: w, NoEnter: only(cs), GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
				rt, ok := in.(*ssa.Return)
				return ok && rt.Parent() == g && len(rt.Results) == 1 && !x.errorOf(resolved(res, retVal(rt, 0)), c)
			}, Cut: func(e Edge) bool {
				cc, ok := c.(*ssa.Call)
				return ok && x.errIs([]*ssa.Function{g}, cc, false)(e)
			}, Track: tracked}).Entry(g)
			x.check("concurrent/told", w.ipos(c.(ssa.Instruction)), !bad, "the failure of a sequence is not told", tr)
		}
	}
	x.check("concurrent/found", w.Pos(ec.Pos()), n == 1, "the sequences are not executed", nil)
	waits := callsTo(cs, "errgroup.Group.Wait")
	isWait := isCall("errgroup.Group.Wait")
	bad, tr := (&Q{W: w, NoEnter: only(cs), Through: isWait, Goal: realReturn(ec)}).Entry(ec)
	x.check("concurrent/waits", w.Pos(ec.Pos()), !bad && len(waits) > 0, "the results are read while sequences still run", tr)
	for _, c := range waits {
		bad, tr := x.errGoesOn2(c, ec, cs)
		x.check("concurrent/error", w.ipos(c), !bad, "the failure of a sequence is not told", tr)
	}
	for _, g := range cs {
		instrs(g, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok {
				x.check("concurrent/limit", w.ipos(in), calleeName(c) != "errgroup.Group.SetLimit" && calleeName(c) != "errgroup.Group.TryGo", "not all sequences run at the same time", nil)
			}
		})
	}
	// requests to commands, commands to results
	x.nested("deserialize", ds, mbtServer+"newCommand", func(g []*ssa.Function, c *ssa.Call) bool {
		return x.elemOf(c.Call.Args[1], g, func(li ssa.Value) bool {
			return x.sel(li, g, func(v ssa.Value) bool {
				return x.elemOf(v, g, func(li ssa.Value) bool { return x.sel(li, g, isThe(ds.Params[1]), "ActionSequence") })
			}, "Requests")
		})
	}, "ExecuteActionCommand")
	x.nested("serialize", ss, mbtServer+"serializeResult", func(g []*ssa.Function, c *ssa.Call) bool {
		cmd := c.Call.Args[1]
		isCmd := x.elemOf(cmd, g, func(li ssa.Value) bool {
			return x.elemOf(li, g, func(li ssa.Value) bool { return x.sel(li, g, isThe(ss.Params[2])) })
		})
		return isCmd && x.sel(c.Call.Args[2], g, func(v ssa.Value) bool {
			return sameLeaves(w.leavesIn(v, g), w.leavesIn(cmd, g))
		}, "Req")
	}, "ExecuteActionResponse")
	// the whole request
	rs := x.group(rpc)
	for _, n := range []string{"deserializeSequences", "executeSequencesConcurrent", "serializeSequenceResults"} {
		at := callsTo(rs, mbtServer+n)
		x.check("request/"+n, w.Pos(rpc.Pos()), len(at) == 1, "the request is not carried out", nil)
		for _, c := range at {
			notImpl := func(e Edge) bool {
				ec, ok := e.Cond.(*ssa.Call)
				return ok && calleeName(ec) == "errors.Is" && e.Taken && x.errorOf(ec.Call.Args[0], c) && isGlobal("ErrNotImplemented")(ec.Call.Args[1])
			}
			bad, tr := (&Q{W: w, NoEnter: only(rs), Cut: anyCut(x.errIs(rs, c, false), notImpl), Track: tracked, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
				rt, ok := in.(*ssa.Return)
				if !ok || rt.Parent() != rpc {
					return false
				}
				e := resolved(res, retVal(rt, 1))
				return isNil(e)
			}}).After(c)
			if n == "executeSequencesConcurrent" {
				fatal := func(e Edge) bool { return e.Taken == false && notImpl(Edge{If: e.If, Cond: e.Cond, Taken: true}) }
				bad, tr := (&Q{W: w, NoEnter: only(rs), Cut: anyCut(x.errIs(rs, c, false), fatal), Through: isCall(mbtServer + "serializeSequenceResults"), Goal: isReturnOf(rpc)}).After(c)
				x.check("request/not-implemented", w.ipos(c), !bad, "an operation that is not implemented is not reported as that", tr)
			}
			x.check("request/error/"+n, w.ipos(c), !bad, "a request that failed is answered as if it had not", tr)
		}
	}
	exec := callsTo(rs, mbtServer+"executeSequencesConcurrent")
	isAll := func(v ssa.Value) bool { return allOf(w.leavesIn(v, rs), firstOf(mbtServer+"deserializeSequences")) }
	for _, c := range exec {
		x.check("request/executes", w.ipos(c), isAll(c.Call.Args[1]), "it is not the request that is executed", nil)
	}
	ser := callsTo(rs, mbtServer+"serializeSequenceResults")
	for _, c := range ser {
		x.check("request/answers", w.ipos(c), isAll(c.Call.Args[2]) && x.sel(c.Call.Args[1], rs, isThe(rpc.Params[2])), "the answer is not the one of the request", nil)
		bad, tr := (&Q{W: w, NoEnter: only(rs), Through: isCall(mbtServer + "executeSequencesConcurrent"), Goal: isCall(mbtServer + "serializeSequenceResults")}).Entry(rpc)
		x.check("request/after", w.ipos(c), !bad, "the answer is made before the execution", tr)
	}
	bad, tr = (&Q{W: w, NoEnter: only(rs), Track: tracked, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		rt, ok := in.(*ssa.Return)
		if !ok || rt.Parent() != rpc {
			return false
		}
		v := resolved(res, retVal(rt, 0))
		return isNil(resolved(res, retVal(rt, 1))) && !allOf(w.leavesIn(v, rs), firstOf(mbtServer+"serializeSequenceResults"))
	}}).Entry(rpc)
	x.check("request/result", w.Pos(rpc.Pos()), !bad, "the results are not the answer", tr)
}

func single(vs []ssa.Value) ssa.Value {
	if len(vs) == 1 {
		return vs[0]
	}
	return nil
}

// errorOf: the error that the call returned.
func (x *adapter) errorOf(v ssa.Value, c ssa.CallInstruction) bool {
	cv, ok := c.(*ssa.Call)
	if !ok {
		return false
	}
	for _, l := range phiLeaves(v) {
		ex, is := l.(*ssa.Extract)
		if !(is && ex.Tuple == ssa.Value(cv) && isErrType(ex.Type()) || l == ssa.Value(cv)) {
			return false
		}
	}
	return true
}

// loopOf: the innermost loop around the call.
func (x *adapter) loopOf(in ssa.Instruction) *LoopInfo {
	var best *LoopInfo
	for _, l := range x.w.loopsOf(in.Parent()) {
		if l.Body[in.Block()] && (best == nil || len(l.Body) < len(best.Body)) {
			best = l
		}
	}
	return best
}

// marksRest: the loop gives an error to each operation behind the one at the index.
func (x *adapter) marksRest(l *LoopInfo, idx ssa.Value, fns []*ssa.Function) bool {
	w := x.w
	set := func(in ssa.Instruction) bool {
		st, b := fieldStore(in, "ExecuteActionCommand", "Err")
		if st == nil || isNil(st.Val) {
			return false
		}
		li, i := indexOf(single(w.leavesIn(b, fns)))
		if li == nil {
			return false
		}
		if sl, ok := single(w.leavesIn(li, fns)).(*ssa.Slice); ok {
			return sl.High == nil && sl.Low != nil && isForward(peelConv(i)) && (isNextOf(sl.Low, func(v ssa.Value) bool { return v == idx }))
		}
		p, ok := i.(*ssa.Phi)
		if !ok {
			return false
		}
		for _, e := range p.Edges {
			if !isNextOf(e, func(v ssa.Value) bool { return v == idx || v == ssa.Value(p) }) {
				return false
			}
		}
		return true
	}
	has := false
	for b := range l.Body {
		for _, in := range b.Instrs {
			has = has || set(in)
		}
	}
	if !has {
		return false
	}
	sk, _ := w.iterationSkips(l, set, nil)
	le, _ := w.leavesEarly(l, nil)
	return !sk && !le
}

// elemOf: an element, in the order of the list.
func (x *adapter) elemOf(v ssa.Value, fns []*ssa.Function, list func(ssa.Value) bool) bool {
	return allOf(x.w.leavesIn(v, fns), func(v ssa.Value) bool {
		li, i := indexOf(v)
		return li != nil && isForward(peelConv(i)) && allOf(x.w.leavesIn(li, fns), list)
	})
}

// nested: for each sequence, and each operation in it, one result in the same place.
func (x *adapter) nested(key string, f *ssa.Function, name string, elem func([]*ssa.Function, *ssa.Call) bool, typ string) {
	w := x.w
	fns := x.group(f)
	at := callsTo(fns, name)
	x.check(key+"/found", w.Pos(f.Pos()), len(at) == 1, "the operations are not handled in one place", nil)
	for _, c := range at {
		c := c
		x.check(key+"/element", w.ipos(c), elem(fns, c), "the results do not belong to the operations, in their order", nil)
		bad, tr := (&Q{W: w, NoEnter: only(fns), Cut: x.errIs(fns, c, false), Track: tracked, GoalEnv: nilError(c.Parent())}).After(c)
		x.check(key+"/error", w.ipos(c), !bad, "an operation that cannot be handled is left out", tr)
		put := func(in ssa.Instruction) bool {
			switch a := in.(type) {
			case *ssa.Call:
				if calleeName(a) != "builtin.append" || len(a.Call.Args) != 2 {
					return false
				}
				es := sliceElems2(a.Call.Args[1])
				return len(es) == 1 && x.errlessOf(es[0], c)
			case *ssa.Store:
				ia, ok := a.Addr.(*ssa.IndexAddr)
				return ok && isForward(peelConv(ia.Index)) && x.errlessOf(a.Val, c)
			}
			return false
		}
		bad, tr = (&Q{W: w, NoEnter: only(fns), Cut: x.errIs(fns, c, true), Through: put, Goal: anyOf(func(in ssa.Instruction) bool { return in == ssa.Instruction(c) }, realReturn(f))}).After(c)
		x.check(key+"/kept", w.ipos(c), !bad, "the result of an operation is lost", tr)
		if l := x.loopOf(c); l == nil {
			x.check(key+"/loop", w.ipos(c), false, "not all operations are handled", nil)
		} else {
			sk, tr := w.iterationSkips(l, func(in ssa.Instruction) bool { return in == ssa.Instruction(c) }, nil)
			x.check(key+"/every", w.ipos(c), !sk, "an operation can be left out", tr)
			le, tr := w.leavesEarly(l, x.errIs(fns, c, true))
			x.check(key+"/all", w.ipos(c), !le, "the last operations can be left out", tr)
		}
		// the sequences
		isList := func(t types.Type) bool {
			sl, ok := t.Underlying().(*types.Slice)
			if !ok {
				return false
			}
			if in, ok := sl.Elem().Underlying().(*types.Slice); ok {
				return namedName(in.Elem()) == typ
			}
			return namedName(sl.Elem()) == "ActionSequenceResult"
		}
		n := 0
		for _, g := range fns {
			for _, l := range w.loopsOf(g) {
				add := func(in ssa.Instruction) bool {
					switch a := in.(type) {
					case *ssa.Call:
						return calleeName(a) == "builtin.append" && isList(a.Type())
					case *ssa.Store:
						ia, ok := a.Addr.(*ssa.IndexAddr)
						return ok && isList(ia.X.Type()) && isForward(peelConv(ia.Index))
					}
					return false
				}
				has := false
				for b := range l.Body {
					for _, in := range b.Instrs {
						has = has || add(in)
					}
				}
				if !has {
					continue
				}
				n++
				failed := func(e Edge) bool { return x.errIs(fns, c, true)(e) || x.failed(e) }
				sk, tr := w.iterationSkips(l, add, failed)
				x.check(key+"/sequence/every", w.Pos(f.Pos()), !sk, "a sequence can be left out", tr)
				le, tr := w.leavesEarly(l, failed)
				x.check(key+"/sequence/all", w.Pos(f.Pos()), !le, "the last sequences can be left out", tr)
			}
		}
		x.check(key+"/sequences", w.Pos(f.Pos()), n == 1, "the sequences do not keep their places", nil)
	}
}

func (x *adapter) errlessOf(v ssa.Value, c *ssa.Call) bool {
	ex, ok := v.(*ssa.Extract)
	return ok && ex.Tuple == ssa.Value(c) && ex.Index == 0
}
