package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// results: what is reported for an operation, and for the begin and end of a test.
func (x *adapter) results() {
	w := x.w
	sr, ea := x.fn(mbtServer+"serializeResult"), x.fn(mbtServer+"ExecuteAction")
	if sr == nil || ea == nil {
		return
	}
	fns := x.group(sr)
	isCmd := isThe(sr.Params[1])
	isErr := func(v ssa.Value) bool { return x.sel(v, fns, isCmd, "Err") }
	isVal := func(v ssa.Value) bool { return x.sel(v, fns, isCmd, "ReturnVal") }
	failed, fine := says(isErr, isNil, token.NEQ), says(isErr, isNil, token.EQL)
	missing := func(want bool) func(Edge) bool {
		return func(e Edge) bool {
			c, ok := e.Cond.(*ssa.Call)
			return ok && calleeName(c) == "errors.Is" && isErr(c.Call.Args[0]) && isGlobal("ErrNotImplemented")(c.Call.Args[1]) && e.Taken == want
		}
	}
	var roleErrs []func(Edge) bool
	inner := append(invokes(fns, "GetRoles"), callsTo(fns, "mbt.GetRoleRefsAndStates")...)
	for _, c := range inner {
		roleErrs = append(roleErrs, x.errIs(fns, c, true))
	}
	x.answers("result/not-implemented", sr, fns, nil, anyCut(fine, missing(false)), false, "an operation that is not implemented is not reported as that", statusNotImplemented)
	x.answers("result/failed", sr, fns, nil, anyCut(fine, missing(true)), false, "an operation that failed is not reported as that", statusFailed)
	x.answers("result/ok", sr, fns, nil, anyCut(append(roleErrs, failed)...), false, "an operation that succeeded is not reported as that", statusOK)
	for _, c := range inner {
		x.answers("result/roles-failed", sr, fns, c, x.errIs(fns, c, false), true, "an operation is reported as successful though the roles or states could not be got", statusFailed, 0, statusNotImplemented)
	}
	okPart := func(key string, cut func(Edge) bool, ok func(ssa.Value, func(ssa.Value) ssa.Value) bool, why string, fields ...string) {
		bad, tr := (&Q{W: w, NoEnter: only(fns), Cut: anyCut(anyCut(append(roleErrs, failed)...), cut), Track: tracked, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			rt, is := in.(*ssa.Return)
			if !is || rt.Parent() != sr {
				return false
			}
			ps := x.partsEnv(resolved(res, retVal(rt, 0)), fns, res, fields...)
			return len(ps) == 0 || !allOf(ps, func(v ssa.Value) bool { return ok(v, res) })
		}}).Entry(sr)
		x.check("result/"+key, w.Pos(sr.Pos()), !bad, why, tr)
	}
	never := func(Edge) bool { return false }
	okPart("start", never, func(v ssa.Value, _ func(ssa.Value) ssa.Value) bool {
		return v != nil && x.sel(v, fns, isCmd, "StartTime")
	}, "the interval does not begin with the operation", "ExecTime", "StartUnixNano")
	okPart("end", never, func(v ssa.Value, _ func(ssa.Value) ssa.Value) bool {
		return v != nil && x.sel(v, fns, isCmd, "EndTime")
	}, "the interval does not end with the operation", "ExecTime", "EndUnixNano")
	fromStates := func(i int) func(ssa.Value, func(ssa.Value) ssa.Value) bool {
		return func(v ssa.Value, _ func(ssa.Value) ssa.Value) bool {
			return v != nil && allOf(w.leavesIn(v, fns), func(v ssa.Value) bool {
				ex, ok := v.(*ssa.Extract)
				if !ok || ex.Index != i {
					return false
				}
				c, ok := ex.Tuple.(*ssa.Call)
				return ok && calleeName(c) == "mbt.GetRoleRefsAndStates"
			})
		}
	}
	okPart("states", never, fromStates(0), "the states of the roles are lost", "RoleStates")
	okPart("roles", never, fromStates(1), "the roles are lost", "Roles")
	one := func(v ssa.Value) bool {
		es := []ssa.Value(nil)
		if c, ok := v.(*ssa.Call); ok && calleeName(c) == "builtin.append" && len(c.Call.Args) == 2 {
			es = sliceElems2(c.Call.Args[1])
		} else {
			es = sliceElems2(v)
		}
		return len(es) == 1 && x.converted(fns, "mbt.fromAnyToProtoValue", isVal)(es[0])
	}
	okPart("value", says(isVal, isNil, token.EQL), func(v ssa.Value, res func(ssa.Value) ssa.Value) bool {
		return v != nil && one(resolved(res, v))
	}, "the value that the operation returned is lost", "ReturnValues")
	okPart("no-value", says(isVal, isNil, token.NEQ), func(v ssa.Value, res func(ssa.Value) ssa.Value) bool {
		return v == nil || !one(resolved(res, v))
	}, "an operation without a value gets one", "ReturnValues")
	for _, c := range callsTo(fns, "mbt.GetRoleRefsAndStates") {
		isReq := func(v ssa.Value) bool { return v == ssa.Value(sr.Params[2]) || x.sel(v, fns, isCmd, "Req") }
		x.check("result/capture", w.ipos(c), x.sel(c.Call.Args[1], fns, isReq, "Options", "CaptureState") && allOf(w.leavesIn(c.Call.Args[0], fns), firstOf("GetRoles")), "the states are not those that are asked for", nil)
	}
	// one operation
	es := x.group(ea)
	mk, run, ser := callsTo(es, mbtServer+"newCommand"), callsTo(es, mbtServer+"executeCommand"), callsTo(es, mbtServer+"serializeResult")
	x.check("one/found", w.Pos(ea.Pos()), len(mk) == 1 && len(run) == 1 && len(ser) == 1, "an operation is not carried out once", nil)
	for _, c := range mk {
		x.check("one/request", w.ipos(c), x.sel(c.Call.Args[1], es, isThe(ea.Params[2])), "it is not the operation that is asked for", nil)
		x.answers("one/unknown", ea, es, c, x.errIs(es, c, false), true, "an operation that cannot be found is not reported as failed", statusFailed, 3, 4)
		isCommand := func(v ssa.Value) bool {
			return allOf(w.leavesIn(v, es), func(v ssa.Value) bool { return x.errlessOf(v, c) })
		}
		for _, rc := range append(run, ser...) {
			x.check("one/same", w.ipos(rc), isCommand(rc.Call.Args[1]), "it is not this operation that is executed and reported", nil)
		}
		for _, rc := range ser {
			x.check("one/options", w.ipos(rc), x.sel(rc.Call.Args[2], es, isThe(ea.Params[2])) || x.sel(rc.Call.Args[2], es, isCommand, "Req"), "the result is not the one of the request", nil)
			bad, tr := (&Q{W: w, NoEnter: only(es), Cut: x.errIs(es, c, true), Through: isCall(mbtServer + "executeCommand"), Goal: anyOf(isCall(mbtServer+"serializeResult"), realReturn(ea))}).After(c)
			x.check("one/executed", w.ipos(rc), !bad, "an operation is reported that was not executed", tr)
			bad, tr = (&Q{W: w, NoEnter: only(es), Cut: x.errIs(es, c, true), Track: tracked, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
				rt, ok := in.(*ssa.Return)
				return ok && rt.Parent() == ea && !x.errlessOf(resolved(res, retVal(rt, 0)), rc)
			}}).After(c)
			x.check("one/answer", w.ipos(rc), !bad, "the answer is not the result of the operation", tr)
		}
	}
	// begin and end of a test
	for _, n := range []string{"Init", "Cleanup"} {
		f := x.fn(mbtServer + n)
		if f == nil {
			continue
		}
		fs := x.group(f)
		at := invokes(fs, n)
		x.check("test/"+n+"/found", w.Pos(f.Pos()), len(at) == 1, "the model is not told once", nil)
		var errs []func(Edge) bool
		all := append(append(at, invokes(fs, "GetRoles")...), callsTo(fs, "mbt.GetRoleRefsAndStates")...)
		for _, c := range all {
			errs = append(errs, x.errIs(fs, c, true))
			x.answers("test/"+n+"/failed", f, fs, c, x.errIs(fs, c, false), true, "a failure is reported as success", statusFailed, statusNotImplemented)
		}
		x.answers("test/"+n+"/ok", f, fs, nil, anyCut(errs...), false, "a success is not reported as that", statusOK)
		for _, c := range at {
			x.check("test/"+n+"/model", w.ipos(c), x.sel(c.Call.Value, fs, isThe(f.Params[0]), "model"), "it is not the model that is told", nil)
			isIt := func(in ssa.Instruction) bool { return in == ssa.Instruction(c) }
			bad, tr := (&Q{W: w, NoEnter: only(fs), Through: isIt, Goal: realReturn(f)}).Entry(f)
			x.check("test/"+n+"/always", w.ipos(c), !bad, "the model is not told", tr)
			for _, rc := range invokes(fs, "GetRoles") {
				bad, tr := (&Q{W: w, NoEnter: only(fs), Through: isIt, Goal: func(in ssa.Instruction) bool { return in == ssa.Instruction(rc) }}).Entry(f)
				x.check("test/"+n+"/order", w.ipos(rc), !bad, "the roles are those from before", tr)
			}
		}
		for _, c := range callsTo(fs, "mbt.GetRoleRefsAndStates") {
			x.check("test/"+n+"/capture", w.ipos(c), x.sel(c.Call.Args[1], fs, isThe(f.Params[2]), "Options", "CaptureState") && allOf(w.leavesIn(c.Call.Args[0], fs), firstOf("GetRoles")), "the states are not those that are asked for", nil)
		}
	}
}

// partsEnv: the parts, with the variables of the path where they are chosen on it.
func (x *adapter) partsEnv(v ssa.Value, fns []*ssa.Function, res func(ssa.Value) ssa.Value, fields ...string) []ssa.Value {
	if len(fields) == 1 {
		if al, ok := v.(*ssa.Alloc); ok {
			var out []ssa.Value
			for _, r := range *al.Referrers() {
				if fa, ok := r.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == fields[0] {
					for _, r := range *fa.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
							out = append(out, resolved(res, st.Val))
						}
					}
				}
			}
			if len(out) == 0 {
				out = append(out, nil)
			}
			return out
		}
	}
	return x.parts(v, fns, fields...)
}

// states: the roles with their states.
func (x *adapter) states() {
	w := x.w
	f, gs, pr := x.fn("mbt.GetRoleRefsAndStates"), x.fn("mbt.snapshotOrGetState"), x.fn("mbt.getRoleStateProto")
	if f == nil || gs == nil || pr == nil {
		return
	}
	fns := append(x.group(f), gs, pr)
	pos := w.Pos(f.Pos())
	isRoles := isThe(f.Params[0])
	ranged := func(v ssa.Value, fns []*ssa.Function, m func(ssa.Value) bool, i int) bool {
		ex, ok := v.(*ssa.Extract)
		if !ok || ex.Index != i {
			return false
		}
		nx, ok := ex.Tuple.(*ssa.Next)
		if !ok {
			return false
		}
		rg, ok := nx.Iter.(*ssa.Range)
		return ok && allOf(w.leavesIn(rg.X, fns), m)
	}
	isId := func(v ssa.Value) bool {
		return allOf(w.leavesIn(v, fns), func(v ssa.Value) bool { return ranged(v, fns, isRoles, 1) })
	}
	isRole := func(v ssa.Value) bool {
		return allOf(w.leavesIn(v, fns), func(v ssa.Value) bool { return ranged(v, fns, isRoles, 2) })
	}
	isRef := func(v ssa.Value) bool {
		return x.partIs(v, fns, func(v ssa.Value) bool { return x.sel(v, fns, isId, "RoleName") }, "RoleName") && x.partIs(v, fns, func(v ssa.Value) bool { return x.sel(v, fns, isId, "Index") }, "RoleId")
	}
	isState := func(v ssa.Value) bool {
		return x.partIs(v, fns, isRef, "Role")
	}
	capture := func(want bool) func(Edge) bool {
		return func(e Edge) bool {
			return allOf(w.leavesIn(e.Cond, fns), isThe(f.Params[1])) && e.Taken == want
		}
	}
	adds := func(typ string, ok func(ssa.Value) bool) func(ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			c, is := in.(*ssa.Call)
			if !is || calleeName(c) != "builtin.append" || len(c.Call.Args) != 2 {
				return false
			}
			es := sliceElems2(c.Call.Args[1])
			return len(es) == 1 && namedName(es[0].Type()) == typ && ok(es[0])
		}
	}
	all := func(ssa.Value) bool { return true }
	refs, states := adds("RoleRef", isRef), adds("RoleState", all)
	var getters []*ssa.Call
	getters = append(getters, invokes(fns, "SnapshotState")...)
	getters = append(getters, invokes(fns, "GetState")...)
	var errs []func(Edge) bool
	for _, c := range getters {
		errs = append(errs, x.errIs(fns, c, true))
	}
	anErr := func(e Edge) bool { return anyCut(errs...)(e) || x.failed(e) }
	n := 0
	for _, g := range fns {
		for _, l := range w.loopsOf(g) {
			has := false
			for b := range l.Body {
				for _, in := range b.Instrs {
					has = has || refs(in)
				}
			}
			if !has {
				continue
			}
			n++
			sk, tr := w.iterationSkips(l, refs, nil)
			x.check("states/roles/every", pos, !sk, "a role can be left out", tr)
			le, tr := w.leavesEarly(l, anErr)
			x.check("states/all", pos, !le, "the last roles can be left out", tr)
			// with the states
			noState := says(func(v ssa.Value) bool {
				t := namedName(v.Type())
				_, m := v.Type().Underlying().(*types.Map)
				return t == "RoleState" || m
			}, isNil, token.EQL)
			sk, tr = w.iterationSkips(l, states, anyCut(capture(false), noState, anErr))
			x.check("states/every", pos, !sk, "the state of a role can be left out", tr)
			bad, tr := (&Q{W: w, NoEnter: only(fns), Cut: capture(true), Goal: states}).Entry(f)
			x.check("states/asked", pos, !bad, "states are reported that nobody asked for", tr)
		}
	}
	x.check("states/roles", pos, n == 1, "the roles are not all reported with name and id", nil)
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			if !states(in) {
				return
			}
			x.check("states/role", w.ipos(in), isState(sliceElems2(in.(*ssa.Call).Call.Args[1])[0]), "the state is not reported for the role it belongs to", nil)
		})
	}
	for _, c := range getters {
		bad, tr := (&Q{W: w, NoEnter: only(fns), Cut: x.errIs(fns, c, false), Track: tracked, GoalEnv: nilError(c.Parent())}).After(c)
		x.check("states/error", w.ipos(c), !bad, "a state that could not be got is reported", tr)
		b := c.Call.Value
		if ex, ok := b.(*ssa.Extract); ok {
			b = ex.Tuple
		}
		ta, ok := b.(*ssa.TypeAssert)
		x.check("states/of", w.ipos(c), ok && isRole(ta.X), "the state is the one of another role", nil)
	}
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || !memberOf(fns, c.Call.StaticCallee()) {
				return
			}
			if rs := c.Call.Signature().Results(); rs.Len() == 0 || !isErrType(rs.At(rs.Len()-1).Type()) {
				return
			}
			bad, tr := (&Q{W: w, NoEnter: only(fns), Cut: x.errIs(fns, c, false), Track: tracked, GoalEnv: nilError(g)}).After(c)
			x.check("states/error", w.ipos(c), !bad, "a state that could not be got is left out", tr)
		})
	}
	// the snapshot comes first
	has := func(typ string, want bool) func(Edge) bool {
		return func(e Edge) bool {
			ex, ok := e.Cond.(*ssa.Extract)
			if !ok || ex.Index != 1 || e.Taken != want {
				return false
			}
			ta, ok := ex.Tuple.(*ssa.TypeAssert)
			return ok && namedName(ta.AssertedType) == typ
		}
	}
	ofCall := func(name string) func(ssa.Value) bool { return firstOf(name) }
	for _, cs := range []struct {
		key  string
		cut  func(Edge) bool
		want string
		why  string
	}{
		{"snapshot", has("SnapshotStateGetter", false), "SnapshotState", "a role that can give a consistent state is asked for its current one"},
		{"current", anyCut(has("SnapshotStateGetter", true), has("StateGetter", false)), "GetState", "the state of a role is not asked for"},
	} {
		cs := cs
		bad, tr := (&Q{W: w, NoEnter: only([]*ssa.Function{gs}), Cut: cs.cut, Track: tracked, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			rt, ok := in.(*ssa.Return)
			if !ok || rt.Parent() != gs || ofCall(cs.want)(resolved(res, retVal(rt, 0))) {
				return false
			}
			ex, isE := resolved(res, retVal(rt, 1)).(*ssa.Extract) // its failure
			return !isE || !firstOf(cs.want)(ex.Tuple)
		}}).Entry(gs)
		x.check("states/"+cs.key, w.Pos(gs.Pos()), !bad, cs.why, tr)
	}
	// the variables
	ps := x.group(pr)
	m := 0
	for _, g := range ps {
		for _, l := range w.loopsOf(g) {
			put := func(in ssa.Instruction) bool {
				u, ok := in.(*ssa.MapUpdate)
				if !ok {
					return false
				}
				isMap := isThe(pr.Params[1])
				k, ok := single(w.leavesIn(u.Key, ps)).(*ssa.Extract)
				if !ok || !ranged(k, ps, isMap, 1) {
					return false
				}
				return x.converted(ps, "mbt.fromAnyToProtoValue", func(v ssa.Value) bool {
					ex, ok := v.(*ssa.Extract)
					if ok && ex.Tuple == k.Tuple && ex.Index == 2 {
						return true
					}
					lk := lookupIn(v)
					return lk != nil && allOf(w.leavesIn(lk.X, ps), isMap) && single(w.leavesIn(lk.Index, ps)) == ssa.Value(k)
				})(u.Value)
			}
			has := false
			for b := range l.Body {
				for _, in := range b.Instrs {
					has = has || put(in)
				}
			}
			if !has {
				continue
			}
			m++
			sk, tr := w.iterationSkips(l, put, nil)
			le, _ := w.leavesEarly(l, nil)
			x.check("states/variables/every", w.Pos(pr.Pos()), !sk && !le, "a variable can be left out", tr)
		}
	}
	x.check("states/variables", w.Pos(pr.Pos()), m == 1, "the variables of a role are not all reported, by name", nil)
}

// runner: the program that chooses the operations.
func (x *adapter) runner() {
	w := x.w
	f, pf, bin := x.fn("mbt.RunTests"), x.fn("mbt.ParseFlags"), x.fn("mbt.GetMbtBinPath")
	if f == nil || pf == nil || bin == nil {
		return
	}
	fns := x.group(f)
	pos := w.Pos(f.Pos())
	start := isCall("exec.Cmd.Start")
	starts := callsTo(fns, "exec.Cmd.Start")
	run := callsTo(fns, "exec.Cmd.Run")
	if len(run) > 0 {
		start = isCall("exec.Cmd.Run")
	}
	x.check("runner/found", pos, len(starts)+len(run) == 1, "the runner is not started once", nil)
	for _, n := range []string{"os.MkdirTemp", "net.Listen", "exec.Cmd.Start", "exec.Cmd.Wait", "exec.Cmd.Run"} {
		for _, c := range callsTo(fns, n) {
			bad, tr := (&Q{W: w, NoEnter: only(fns), Cut: x.errIs(fns, c, false), Track: tracked, GoalEnv: nilError(f)}).After(c)
			if c.Parent() != f {
				bad, tr = x.errGoesOn2(c, f, fns)
			}
			x.check("runner/error/"+n, w.ipos(c), !bad, "the test passes though "+n+" failed", tr)
		}
	}
	waits := isCall("exec.Cmd.Wait", "exec.Cmd.Run")
	bad, tr := (&Q{W: w, NoEnter: only(fns), Track: tracked, Through: waits, GoalEnv: nilError(f)}).Entry(f)
	x.check("runner/waits", pos, !bad, "the test passes before the runner has come to an end", tr)
	// where it is
	listens := callsTo(fns, "net.Listen")
	var addr ssa.Value
	for _, c := range listens {
		addr = c.Call.Args[1]
	}
	text := func(c *ssa.Call, format string, args ...func(ssa.Value) bool) bool { // an argument of the runner
		if calleeName(c) != "fmt.Sprintf" || !isConstString(format)(c.Call.Args[0]) {
			return false
		}
		es := sliceElems2(c.Call.Args[1])
		if len(es) != len(args) {
			return false
		}
		for i, e := range es {
			if !args[i](peelMI(e)) {
				return false
			}
		}
		return true
	}
	isText := func(format string, args ...func(ssa.Value) bool) func(ssa.Value) bool {
		return func(v ssa.Value) bool {
			return allOf(w.leavesIn(v, fns), func(v ssa.Value) bool {
				if c, ok := v.(*ssa.Call); ok {
					return text(c, format, args...)
				}
				b, ok := v.(*ssa.BinOp) // "--name=" + value
				return ok && b.Op == token.ADD && len(args) == 1 && isConstString(strings.TrimSuffix(strings.TrimSuffix(format, "%s"), "%d"))(b.X) && args[0](b.Y)
			})
		}
	}
	passes := func(p func(ssa.Value) bool) func(ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			if !ok {
				return false
			}
			switch calleeName(c) {
			case "builtin.append":
				if len(c.Call.Args) != 2 {
					return false
				}
				for _, e := range sliceElems2(c.Call.Args[1]) {
					if p(e) {
						return true
					}
				}
			case "exec.CommandContext", "exec.Command":
				for _, e := range sliceElems2(c.Call.Args[len(c.Call.Args)-1]) {
					if p(e) {
						return true
					}
				}
			}
			return false
		}
	}
	isAddr := func(v ssa.Value) bool { return addr != nil && sameLeaves(w.leavesIn(v, fns), w.leavesIn(addr, fns)) }
	x.check("runner/listens", pos, len(listens) == 1, "the runner cannot reach the system", nil)
	bad, tr = (&Q{W: w, NoEnter: only(fns), Through: passes(isText("--plugin-addr=%s", isAddr)), Goal: start}).Entry(f)
	x.check("runner/address", pos, !bad, "the runner is not told where the system listens", tr)
	for flag, g := range map[string]string{"seq-seed": "seqSeedFlag", "parallel-seed": "parallelSeedFlag"} {
		unset := says(x.through(fns, isGlobal(g)), isZero, token.EQL)
		bad, tr := (&Q{W: w, NoEnter: only(fns), Cut: unset, Through: passes(isText("--"+flag+"=%d", x.through(fns, isGlobal(g)))), Goal: start}).Entry(f)
		x.check("runner/"+flag, pos, !bad, "a seed is not handed on", tr)
	}
	for _, n := range []string{"exec.Command", "exec.CommandContext"} {
		for _, c := range callsTo(fns, n) {
			i := 0
			if n == "exec.CommandContext" {
				i = 1
			}
			x.check("runner/which", w.ipos(c), allOf(w.leavesIn(c.Call.Args[i], fns), func(v ssa.Value) bool { b, ok := v.(*ssa.Call); return ok && calleeName(b) == "mbt.GetMbtBinPath" }), "another program is started", nil)
		}
	}
	// the options
	isOpts := isThe(f.Params[3])
	part := func(i int) func(ssa.Value) bool {
		return func(v ssa.Value) bool {
			v = peelMI(v)
			ex, ok := v.(*ssa.Extract)
			if !ok || ex.Index != i {
				return false
			}
			nx, ok := ex.Tuple.(*ssa.Next)
			if !ok {
				return false
			}
			rg, ok := nx.Iter.(*ssa.Range)
			return ok && allOf(w.leavesIn(rg.X, fns), isOpts)
		}
	}
	isName := func(v ssa.Value) bool { return allOf(w.leavesIn(v, fns), part(1)) }
	limits := map[string]string{"max-actions": "maxActionsFlag", "max-seq-runs": "maxSeqRunsFlag", "max-parallel-runs": "maxParallelRunsFlag"}
	n := 0
	for _, g := range fns {
		for _, l := range w.loopsOf(g) {
			isOpt := func(in ssa.Instruction) bool {
				c, ok := in.(*ssa.Call)
				return ok && text(c, "--%s=%v", isName, func(ssa.Value) bool { return true })
			}
			has := false
			for b := range l.Body {
				for _, in := range b.Instrs {
					has = has || isOpt(in)
				}
			}
			if !has {
				continue
			}
			n++
			put := passes(func(v ssa.Value) bool {
				return allOf(w.leavesIn(v, fns), func(v ssa.Value) bool {
					in, ok := v.(ssa.Instruction)
					return ok && isOpt(in)
				})
			})
			sk, tr := w.iterationSkips(l, put, nil)
			x.check("runner/options/every", pos, !sk, "an option is not handed on", tr)
			le, tr := w.leavesEarly(l, nil)
			x.check("runner/options/all", pos, !le, "the last options are not handed on", tr)
			// which value
			value := func(key string, cut func(Edge) bool, ok func(ssa.Value) bool, why string) {
				bad, tr := (&Q{W: w, NoEnter: only(fns), Cut: cut, Track: tracked, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
					if !isOpt(in) {
						return false
					}
					v := peelMI(resolved(res, sliceElems2(in.(*ssa.Call).Call.Args[1])[1]))
					if ok(v) {
						return false
					}
					ls := w.leavesIn(v, fns)
					if len(ls) > 1 {
						return x.chosen(v, fns, cut, func(v ssa.Value) bool {
							v = peelMI(v)
							_, isP := v.(*ssa.Parameter)
							return ok(v) || isP && allOf(w.leavesIn(v, fns), ok)
						})
					}
					return len(ls) != 1 || !ok(ls[0])
				}}).Entry(f)
				x.check("runner/option/"+key, pos, !bad, why, tr)
			}
			var other []func(Edge) bool
			for opt, gl := range limits {
				is, isnt := says(isName, isConstString(opt), token.EQL), says(isName, isConstString(opt), token.NEQ)
				unset := says(x.through(fns, isGlobal(gl)), func(v ssa.Value) bool { return isConstInt(0)(v) }, token.LSS)
				set := says(x.through(fns, isGlobal(gl)), func(v ssa.Value) bool { return isConstInt(0)(v) }, token.GEQ)
				var others []func(Edge) bool
				for o2 := range limits {
					if o2 != opt {
						others = append(others, says(isName, isConstString(o2), token.EQL))
					}
				}
				value(opt, anyCut(append(others, isnt, unset)...), isGlobal(gl), "the flag does not take precedence over the option")
				value(opt+"/unset", anyCut(append(others, isnt, set)...), part(2), "an option is replaced though its flag is not set")
				other = append(other, is)
			}
			value("other", anyCut(other...), part(2), "an option gets another value")
		}
	}
	x.check("runner/options", pos, n == 1, "the options are not handed on", nil)
	// the server
	regs := 0
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || !strings.HasPrefix(c.Call.StaticCallee().Name(), "Register") || len(c.Call.Args) != 2 {
				return
			}
			regs++
			mk, ok := single(w.leavesIn(c.Call.Args[1], fns)).(*ssa.Call)
			ok = ok && calleeName(mk) == "mbt.NewFizzBeeMbtPluginServer" && x.sel(mk.Call.Args[1], fns, isThe(f.Params[1])) && x.sel(mk.Call.Args[2], fns, isThe(f.Params[2]))
			x.check("runner/server", w.ipos(in), ok, "the system that is reached is not the one under test", nil)
		})
	}
	x.check("runner/registered", pos, regs == 1, "the runner reaches nothing", nil)
	if ns := x.fn("mbt.NewFizzBeeMbtPluginServer"); ns != nil {
		for fld, i := range map[string]int{"model": 1, "actions": 2} {
			n := 0
			for _, st := range w.fieldStores("FizzBeeMbtPluginServer", fld, ns) {
				n++
				x.check("runner/server/"+fld, w.ipos(st), x.sel(st.Val, []*ssa.Function{ns}, isThe(ns.Params[i])), "the system that is reached is not the one under test", nil)
			}
			x.check("runner/server/"+fld+"/set", w.Pos(ns.Pos()), n == 1, "the system that is reached is not the one under test", nil)
		}
	}
	// which runner
	bs := x.group(bin)
	flag := isGlobal("fizzbeeMbtBinFlag")
	env := func(v ssa.Value) bool {
		return allOf(w.leavesIn(v, bs), func(v ssa.Value) bool {
			if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
				v = ex.Tuple
			}
			c, ok := v.(*ssa.Call)
			return ok && (calleeName(c) == "os.Getenv" || calleeName(c) == "os.LookupEnv") && isConstString("FIZZBEE_MBT_BIN")(c.Call.Args[0])
		})
	}
	for _, cs := range []struct {
		key string
		cut func(Edge) bool
		ok  func(ssa.Value) bool
	}{
		{"flag", x.emptyIs(x.through(bs, flag), true), x.through(bs, flag)},
		{"environment", anyCut(x.emptyIs(x.through(bs, flag), false), x.emptyIs(env, true)), env},
		{"default", anyCut(x.emptyIs(x.through(bs, flag), false), x.emptyIs(env, false)), isConstString("fizzbee-mbt-runner")},
	} {
		cs := cs
		bad, tr := (&Q{W: w, NoEnter: only(bs), Cut: cs.cut, Track: tracked, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			rt, ok := in.(*ssa.Return)
			return ok && rt.Parent() == bin && !cs.ok(resolved(res, retVal(rt, 0)))
		}}).Entry(bin)
		x.check("runner/binary/"+cs.key, w.Pos(bin.Pos()), !bad, "the runner is not the one of the "+cs.key, tr)
	}
	// flags
	want := map[string]struct{ g, def string }{"seq-seed": {"seqSeedFlag", "0"}, "parallel-seed": {"parallelSeedFlag", "0"}, "max-seq-runs": {"maxSeqRunsFlag", "-1"}, "max-parallel-runs": {"maxParallelRunsFlag", "-1"}, "max-actions": {"maxActionsFlag", "-1"}, "fizzbee-mbt-bin": {"fizzbeeMbtBinFlag", `""`}}
	seen := 0
	for _, g := range x.group(pf) {
		instrs(g, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || !strings.HasPrefix(calleeName(c), "flag.") || !strings.HasSuffix(calleeName(c), "Var") || len(c.Call.Args) < 3 {
				return
			}
			k, ok := c.Call.Args[1].(*ssa.Const)
			if !ok {
				return
			}
			name := strings.Trim(k.Value.String(), `"`)
			ws, known := want[name]
			gl, isG := c.Call.Args[0].(*ssa.Global)
			d, isC := c.Call.Args[2].(*ssa.Const)
			if known {
				seen++
			}
			x.check("runner/flag/"+name, w.ipos(in), known && isG && isC && gl.Name() == ws.g && d.Value.String() == ws.def, "the flag sets something else", nil)
		})
	}
	x.check("runner/flags", w.Pos(pf.Pos()), seen == len(want), "a flag is missing", nil)
}
