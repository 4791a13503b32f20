package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S07", ruleS07)
}

// group: the functions, their closures, and functions called from nowhere else (a helper shared by several of them
// belongs to the group).
func (w *World) group(fns ...*ssa.Function) []*ssa.Function {
	set := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, f := range fns {
		if f != nil && !set[f] {
			set[f] = true
			out = append(out, f)
		}
	}
	for i := 0; i < len(out); i++ {
		for _, a := range out[i].AnonFuncs {
			if !set[a] {
				set[a] = true
				out = append(out, a)
			}
		}
		instrs(out[i], func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			for _, t := range w.callees(c) {
				if set[t] || !w.owns(t) || len(t.Blocks) == 0 {
					continue
				}
				only := true
				for _, cs := range w.callers[t] {
					only = only && (set[cs.Parent()] || cs.Parent() == t)
				}
				if only && len(w.callers[t]) > 0 {
					set[t] = true
					out = append(out, t)
				}
			}
		})
	}
	return out
}

func onlyIn(fns []*ssa.Function) func(*ssa.Function) bool {
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = true
	}
	return func(f *ssa.Function) bool { return !in[f] }
}

// helpersBut: like withHelpers, leaving out the named functions (and what only they use).
func (w *World) helpersBut(fn *ssa.Function, names ...string) []*ssa.Function {
	drop := map[*ssa.Function]bool{}
	for _, n := range names {
		if f := w.Func(n); f != nil {
			for _, g := range w.withHelpers(f) {
				drop[g] = true
			}
		}
	}
	var out []*ssa.Function
	for _, f := range w.withHelpers(fn) {
		if !drop[f] {
			out = append(out, f)
		}
	}
	return out
}

// elemType: the named type of the elements of a slice or map.
func elemType(t types.Type) string {
	switch x := deref(t).Underlying().(type) {
	case *types.Slice:
		return namedName(x.Elem())
	case *types.Map:
		return namedName(x.Elem())
	}
	return ""
}

// loopsIn finds loops of the functions over collections accepted by `over` in which `has` happens.
func (w *World) loopsIn(fns []*ssa.Function, over func(ssa.Value) bool, has func(ssa.Instruction) bool) []*LoopInfo {
	var out []*LoopInfo
	for _, f := range fns {
		for _, l := range w.loopsOf(f) {
			if l.Over == nil || !over(l.Over) {
				continue
			}
			found := has == nil
			for b := range l.Body {
				for _, in := range b.Instrs {
					found = found || has(in) || w.reachesInstr(in, has)
				}
			}
			if found {
				out = append(out, l)
			}
		}
	}
	return out
}

func headOf(ls []*LoopInfo) func(ssa.Instruction) bool {
	m := map[ssa.Instruction]bool{}
	for _, l := range ls {
		m[firstNonPhi(l.Head)] = true
	}
	return func(in ssa.Instruction) bool { return m[in] }
}

// wholeLoop: every element of the loop's collection gets `through`, except along skip branches.
func (w *World) wholeLoop(r *Rep, key string, l *LoopInfo, through func(ssa.Instruction) bool, skip, leave func(Edge) bool) {
	pos := w.ipos(firstNonPhi(l.Head))
	bad, tr := w.iterationSkips(l, through, skip)
	r.Check(key+"/each", pos, !bad, ifBad(bad, "an element is skipped: "+strings.Join(tr, " → ")))
	bad, tr = w.leavesEarly(l, leave)
	r.Check(key+"/all", pos, !bad, ifBad(bad, "the loop is left before the last element: "+strings.Join(tr, " → ")))
	p := w.partial(l)
	r.Check(key+"/whole", pos, p == "", p)
}

// indexOf: values that are the loop's index.
func (l *LoopInfo) isIndex(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.BinOp:
			if c, ok := x.Y.(*ssa.Const); ok && x.Op == token.ADD && c.Value != nil && c.Int64() == 1 {
				if ph, ok := x.X.(*ssa.Phi); ok && ph.Block() == l.Head && x.Block() == l.Head {
					return true // range loops number their elements phi+1
				}
			}
			return false
		case *ssa.Phi:
			return x.Block() == l.Head
		case *ssa.Extract:
			if n, ok := x.Tuple.(*ssa.Next); ok {
				return n.Block() == l.Head && x.Index == 1
			}
		}
		return false
	}
}

func ruleS07(c *Ctx, r *Rep) {
	w := c.World
	r.Rule("path queries: from every yield state each thread, message and action is forked and enqueued unless a limit, the trace filter, or a missing role says otherwise; no action is forked on a path without the comparison with each limit")
	r.Rule("the limit function answers 'exceeded' exactly along comparisons of the right counter with the right limit (value classes of keys, counters and limits)")
	r.Rule("what is enqueued is taken up: the main loops end only on an empty queue, a stop, or a failure")

	yn, yf := w.Func("modelchecker.Processor.YieldNode"), w.Func("modelchecker.Processor.YieldFork")
	sr, sa, sm := w.Func("modelchecker.Processor.scheduleRoleActions"), w.Func("modelchecker.Processor.scheduleAction"), w.Func("modelchecker.Processor.scheduleChannelMessages")
	if yn == nil || yf == nil || sa == nil || sm == nil {
		r.Undecided("scheduling", "-", "a scheduling function is missing")
		return
	}
	grp := w.group(yn, yf, sr, sa, sm)
	stay := onlyIn(grp)
	notScheduled := w.isFalse(`^modelchecker\.Processor\.ShouldScheduleNode\(`)
	enq := isCall("modelchecker.Processor.enqueueScheduled")

	// threads
	threadLoops := w.loopsIn(grp, func(v ssa.Value) bool {
		return strings.HasSuffix(w.render(v), ".Threads") || elemType(v.Type()) == "Thread"
	}, isCall("modelchecker.Node.ForkForAlternatePaths"))
	r.Floor("loops that schedule threads", len(threadLoops), 1)
	done := anyCut(w.cutRel(`^modelchecker\.Thread\.currentPc\(`, "==", `^""$`), w.cutRel(`Threads?\[.*\]$|^Thread$`, "==", "^nil$"))
	for _, l := range threadLoops {
		w.wholeLoop(r, "every-thread", l, enq, anyCut(done, notScheduled), nil)
		n := 0
		for _, f := range grp {
			for _, cs := range calls(f, "modelchecker.Node.ForkForAlternatePaths") {
				if f != l.Fn || !l.Body[callAt(cs).Block()] {
					continue
				}
				isCur := func(in ssa.Instruction) bool {
					st, ok := in.(*ssa.Store)
					if !ok {
						return false
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					return ok && fieldName(fa.X.Type(), fa.Field) == "Current" && namedName(fa.X.Type()) == "Process" && l.isIndex(st.Val)
				}
				n++
				w.must(r, step{Key: "thread-current", Why: "the fork of a thread is enqueued with another thread as its current one", After: callAt(cs), NoEnter: stay, Through: isCur, Goal: enq})
				w.must(r, step{Key: "thread-progress", Why: "the continuation of a thread is not marked as one", After: callAt(cs), NoEnter: stay, Through: w.storeTo("Process", "ThreadProgress", "^true$"), Goal: enq})
			}
		}
	}
	// messages and actions, from both roots
	shallow := w.cutRel(`\.actionDepth$`, "<", `\.Options\.MaxActions$`)
	deep := w.cutRel(`\.actionDepth$`, ">=", `\.Options\.MaxActions$`)
	few := w.cutRel(`^modelchecker\.Process\.GetThreadsCount\(`, "<", `\.Options\.MaxConcurrentActions$`)
	many := w.cutRel(`^modelchecker\.Process\.GetThreadsCount\(`, ">=", `\.Options\.MaxConcurrentActions$`)
	schedules := isCall("modelchecker.Processor.scheduleAction")
	isTopActions := func(v ssa.Value) bool {
		return re(`\.Files\[0\]\.Actions$`).MatchString(w.render(v))
	}
	actionLoops := w.loopsIn(grp, isTopActions, schedules)
	r.Floor("loops that schedule the actions of the specification", len(actionLoops), 1)
	roleLoops := w.loopsIn(grp, func(v ssa.Value) bool {
		return elemType(v.Type()) == "Role" && !re(`\.Files\[`).MatchString(w.render(v))
	}, schedules)
	r.Floor("loops that schedule the actions of the roles", len(roleLoops), 1)
	for _, fn := range []*ssa.Function{yn, yf} {
		k := "/" + fn.Name()
		w.must(r, step{Key: "threads-scheduled" + k, Why: "a yield state's threads are not scheduled", Fn: fn, NoEnter: stay, Through: headOf(threadLoops), Goal: retOf(fn)})
		w.must(r, step{Key: "messages-scheduled" + k, Why: "a yield state's messages are not scheduled", Fn: fn, NoEnter: stay, Through: isCall("modelchecker.Processor.scheduleChannelMessages"), Goal: retOf(fn)})
		w.must(r, step{Key: "actions-scheduled" + k, Why: "the actions are not scheduled although no limit is reached", Fn: fn, NoEnter: stay, Cut: anyCut(deep, many), Through: headOf(actionLoops), Goal: retOf(fn)})
		w.must(r, step{Key: "role-actions-scheduled" + k, Why: "the actions of the roles are not scheduled although no limit is reached", Fn: fn, NoEnter: stay, Cut: anyCut(deep, many, w.isEmpty(`.*\.Roles`)), Through: headOf(roleLoops), Goal: retOf(fn)})
		w.must(r, step{Key: "depth-limit" + k, Why: "an action is scheduled beyond the limit on actions", Fn: fn, NoEnter: stay, Cut: shallow, Goal: isCall("modelchecker.Processor.scheduleAction", "modelchecker.Node.ForkForAction")})
		w.must(r, step{Key: "concurrency-limit" + k, Why: "an action is scheduled beyond the limit on concurrent actions", Fn: fn, NoEnter: stay, Cut: few, Goal: isCall("modelchecker.Processor.scheduleAction", "modelchecker.Node.ForkForAction")})
		// threads are counted in the state that is scheduled
		var proc ssa.Value
		for _, p := range fn.Params {
			if namedName(p.Type()) == "Process" {
				proc = p
			}
		}
		if proc != nil {
			for _, cs := range calls(fn, "modelchecker.Process.GetThreadsCount") {
				rc := callArgs(cs)[0]
				r.Check("counted-state"+k, w.ipos(callAt(cs)), rc == proc, ifBad(rc != proc, "the threads of "+w.render(rc)+" are counted, not those of the fork that is scheduled"))
			}
		}
	}
	for _, cs := range w.callSites("modelchecker.Processor.YieldFork", "modelchecker.Processor.scheduleRoleActions", "modelchecker.Processor.scheduleChannelMessages") {
		// the process handed on is the one scheduled: a fork, or the node's own
		fn := cs.Parent()
		var proc ssa.Value
		for _, p := range fn.Params {
			if namedName(p.Type()) == "Process" {
				proc = p
			}
		}
		if proc == nil || !inFuncs(grp, fn) {
			continue
		}
		for _, a := range callArgs(cs) {
			if namedName(a.Type()) == "Process" {
				r.Check("same-state/"+calleeShort(cs), w.ipos(callAt(cs)), a == proc || fn == sa, ifBad(a != proc && fn != sa, "scheduled from "+w.render(a)))
			}
		}
	}
	for _, cs := range w.callSites("modelchecker.Processor.scheduleAction") {
		fn := cs.Parent()
		var proc ssa.Value
		for _, p := range fn.Params {
			if namedName(p.Type()) == "Process" {
				proc = p
			}
		}
		for _, a := range callArgs(cs) {
			if proc != nil && namedName(a.Type()) == "Process" {
				r.Check("same-state/scheduleAction", w.ipos(callAt(cs)), a == proc, ifBad(a != proc, "the action is scheduled from "+w.render(a)))
			}
		}
	}
	for _, l := range actionLoops {
		w.wholeLoop(r, "every-action", l, schedules, nil, nil)
	}
	for _, l := range roleLoops {
		gone := anyCut(w.cutRel(`\.Roles\[.*\]$`, "==", "^nil$"), w.cutRel(`^Role$`, "==", "^nil$"))
		w.wholeLoop(r, "every-role", l, schedules, gone, nil)
	}
	for _, l := range w.loopsIn(grp, func(v ssa.Value) bool { return elemType(v.Type()) == "Action" && !isTopActions(v) }, schedules) {
		w.wholeLoop(r, "every-role-action", l, schedules, nil, nil)
	}
	// the position of an action in the file and the action itself belong together
	for _, l := range w.loopsIn(grp, func(v ssa.Value) bool { return elemType(v.Type()) == "Action" }, schedules) {
		for b := range l.Body {
			for _, in := range b.Instrs {
				cs, ok := in.(ssa.CallInstruction)
				if !ok || calleeName(cs) != "modelchecker.Processor.scheduleAction" {
					continue
				}
				a := callArgs(cs)
				last := a[len(a)-1]
				r.Check("action-position", w.ipos(in), l.isIndex(last) || !isInt(last.Type()), ifBad(!l.isIndex(last), "the action runs the code at position "+w.render(last)))
			}
		}
	}

	msgLoops := w.loopsIn(w.withHelpers(sm), func(v ssa.Value) bool { return true }, enq)
	r.Floor("loops over pending messages", len(msgLoops), 2)
	for _, l := range msgLoops {
		w.wholeLoop(r, "every-message", l, enq, notScheduled, nil)
	}

	// scheduleAction
	{
		fa := isCall("modelchecker.Node.ForkForAction")
		initName := w.cutRel(`^Action\.Name$|\.Actions\[.*\]\.Name$`, "==", `^"Init"$`)
		notInit := w.cutRel(`^Action\.Name$|\.Actions\[.*\]\.Name$`, "!=", `^"Init"$`)
		exceeded := w.isTrue(`^modelchecker\.Processor\.ExceedsActionCountLimits\(`)
		allowed := w.isFalse(`^modelchecker\.Processor\.ExceedsActionCountLimits\(`)
		noObj := w.cutRel(`\.obj$`, "==", "^nil$")
		in := w.onlyHelpers(sa)
		notFound := anyCut(noObj, w.cutRel(`Role$|Roles\[|Role\(`, "==", "^nil$"))
		w.must(r, step{Key: "action-forked", Why: "an action that no limit excludes is not scheduled", Fn: sa, NoEnter: in, Cut: anyCut(initName, exceeded), Through: fa, Goal: retOf(sa)})
		w.must(r, step{Key: "action-enqueued", Why: "an action that no limit excludes is not enqueued", Fn: sa, NoEnter: in, Cut: anyCut(initName, exceeded, notScheduled, notFound), Through: enq, Goal: retOf(sa)})
		w.must(r, step{Key: "action-limit", Why: "an action is scheduled without asking whether it is within its limits", Fn: sa, NoEnter: in, Cut: allowed, Goal: fa})
		w.must(r, step{Key: "init-once", Why: "the initial action is scheduled again", Fn: sa, NoEnter: in, Cut: notInit, Goal: fa})
		for _, cs := range w.callsIn(sa, "modelchecker.Processor.ExceedsActionCountLimits") {
			for _, a := range callArgs(cs) {
				if namedName(a.Type()) != "Process" {
					continue
				}
				ok := true
				got := ""
				for _, o := range w.origins(a) {
					s := w.render(o)
					if s != "Process" && s != "Node.Process" {
						ok, got = false, s
					}
				}
				r.Check("limit-state", w.ipos(callAt(cs)), ok, ifBad(!ok, "the limits are compared with the counters of "+got))
				// node.Process only when no fork is given
				if ph, isPhi := a.(*ssa.Phi); isPhi {
					for i, e := range ph.Edges {
						if w.render(e) != "Node.Process" {
							continue
						}
						p := ph.Block().Preds[i]
						q := &Q{W: w, NoEnter: in, Cut: w.cutRel(`^Process$`, "==", "^nil$"), Goal: func(x ssa.Instruction) bool { return x.Block() == p && x == p.Instrs[len(p.Instrs)-1] }}
						bad, tr := q.Entry(sa)
						r.Check("limit-state/fork", w.ipos(callAt(cs)), !bad, ifBad(bad, "the counters of the node are used although a fork is scheduled: "+strings.Join(tr, " → ")))
					}
				} else if w.render(a) == "Node.Process" {
					r.Check("limit-state/fork", w.ipos(callAt(cs)), false, "the counters of the node are used although a fork is scheduled")
				}
			}
		}
		for _, cs := range w.callsIn(sa, "modelchecker.Node.ForkForAction") {
			a := callArgs(cs)
			for i, t := range []string{"Node", "Process", "Role", "Action"} {
				ok := i < len(a) && (namedName(a[i].Type()) == t)
				got := "?"
				if ok {
					got = w.render(a[i])
					ok = !isNilConst(a[i])
				}
				r.Check("fork-of", w.ipos(callAt(cs)), ok, ifBad(!ok, "the action is forked with "+t+" "+got))
			}
		}
	}
	if pi := w.Func("modelchecker.Processor.processInit"); pi != nil {
		ls := w.loopsIn(w.withHelpers(pi), isTopActions, enq)
		r.Floor("loops over the actions of a specification without Init", len(ls), 1)
		for _, l := range ls {
			w.wholeLoop(r, "every-first-action", l, enq, notScheduled, nil)
		}
		w.must(r, step{Key: "first-actions", Why: "the actions are not scheduled from the initial state", Fn: pi, NoEnter: w.onlyHelpers(pi), Through: headOf(ls), Goal: retOf(pi)})
	} else {
		r.Undecided("every-first-action", "-", "processInit not found")
	}

	w.limitRules(r)
	w.counterRules(r)
	w.uptakeRules(r)
}

func inFuncs(l []*ssa.Function, f *ssa.Function) bool {
	for _, x := range l {
		if x == f {
			return true
		}
	}
	return false
}

func calleeShort(cs ssa.CallInstruction) string {
	n := calleeName(cs)
	return n[strings.LastIndex(n, ".")+1:]
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// ---- limits

type limitCtx struct {
	w    *World
	env  map[ssa.Value]ssa.Value
	deep int
}

func (x *limitCtx) sub(v ssa.Value) ssa.Value {
	for i := 0; i < 8; i++ {
		n, ok := x.env[v]
		if !ok {
			break
		}
		v = n
	}
	return v
}

// key class: "instance" (Role#id.Action, or the action itself outside roles), "each" (Role#.Action), "role" (Role.Action).
func (x *limitCtx) key(v ssa.Value) string {
	v = x.sub(v)
	switch y := v.(type) {
	case *ssa.Phi:
		cls := map[string]bool{}
		for _, e := range phiLeaves(y) {
			if _, isPhi := e.(*ssa.Phi); !isPhi {
				cls[x.key(e)] = true
			}
		}
		delete(cls, "plain")
		if len(cls) == 1 {
			for c := range cls {
				return c
			}
		}
		if len(cls) == 0 {
			return "plain"
		}
		return "?"
	}
	parts := x.w.sumParts(v)
	var ref, roleName, each, act bool
	for _, p := range parts {
		p = x.sub(p)
		if ph, ok := p.(*ssa.Phi); ok {
			p = ph.Edges[0]
		}
		if k, ok := p.(*ssa.Const); ok {
			each = each || strings.Contains(k.String(), "#")
			continue
		}
		if c, ok := p.(*ssa.Call); ok {
			if calleeName(c) == "lib.Role.RefStringShort" {
				ref = true
				continue
			}
			if f := c.Call.StaticCallee(); f != nil && x.w.owns(f) && len(f.Blocks) > 0 && x.deep < 3 {
				n := &limitCtx{w: x.w, env: map[ssa.Value]ssa.Value{}, deep: x.deep + 1}
				for i, q := range f.Params {
					n.env[q] = x.sub(callArgs(c)[i])
				}
				cls := map[string]bool{}
				instrs(f, func(in ssa.Instruction) {
					if rt, ok := in.(*ssa.Return); ok && len(rt.Results) == 1 {
						cls[n.key(retVal(rt, 0))] = true
					}
				})
				delete(cls, "plain")
				if len(cls) == 1 {
					for c := range cls {
						return c
					}
				}
			}
		}
		s := x.w.render(p)
		switch {
		case re(`Role.*\.Name$`).MatchString(s) && !strings.Contains(s, "Action"):
			roleName = true
		case re(`Action.*\.Name$`).MatchString(s):
			act = true
		}
	}
	switch {
	case ref && !roleName:
		return "instance"
	case each && roleName:
		return "each"
	case roleName:
		return "role"
	case act:
		return "plain"
	}
	return "?"
}

// option: the class of an entry of the action options.
func (x *limitCtx) option(v ssa.Value) string {
	v = x.sub(v)
	switch y := v.(type) {
	case *ssa.Extract:
		if l, ok := y.Tuple.(*ssa.Lookup); ok {
			return x.option(l)
		}
	case *ssa.Lookup:
		if re(`\.ActionOptions$`).MatchString(x.w.render(x.sub(y.X))) {
			k := x.key(y.Index)
			if k == "plain" {
				k = "instance"
			}
			return k
		}
	case *ssa.Phi:
		for _, e := range phiLeaves(y) {
			if _, isPhi := e.(*ssa.Phi); !isPhi && !isNilConst(e) {
				return x.option(e)
			}
		}
	case *ssa.Call:
		// a helper that looks the options up
		if f := y.Call.StaticCallee(); f != nil && x.w.owns(f) && namedName(y.Type()) == "Options" && x.deep < 3 {
			n := &limitCtx{w: x.w, env: map[ssa.Value]ssa.Value{}, deep: x.deep + 1}
			for i, q := range f.Params {
				n.env[q] = x.sub(callArgs(y)[i])
			}
			cls := "?"
			instrs(f, func(in ssa.Instruction) {
				if rt, ok := in.(*ssa.Return); ok && len(rt.Results) == 1 && !isNilConst(retVal(rt, 0)) {
					cls = n.option(retVal(rt, 0))
				}
			})
			return cls
		}
	}
	return "?"
}

func peelConv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// limit: class and kind of a number that is a limit.
func (x *limitCtx) limit(v ssa.Value) (cls, kind string) {
	v = peelConv(x.sub(peelConv(v)))
	var base ssa.Value
	var f string
	switch y := v.(type) {
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok && y.Op == token.MUL {
			base, f = fa.X, fieldName(fa.X.Type(), fa.Field)
		}
	case *ssa.Call:
		n := calleeName(y)
		if strings.HasPrefix(n, "proto.Options.Get") {
			base, f = callArgs(y)[0], strings.TrimPrefix(n, "proto.Options.Get")
		}
	case *ssa.Phi:
		for _, e := range phiLeaves(y) {
			if _, isPhi := e.(*ssa.Phi); isPhi {
				continue
			}
			if cls, kind := x.limit(e); kind != "" {
				return cls, kind
			}
		}
	}
	if base == nil || namedName(base.Type()) != "Options" || f != "MaxActions" && f != "MaxConcurrentActions" {
		return "", ""
	}
	return x.option(base), f
}

// count: class and kind of a number that is a counter.
func (x *limitCtx) count(v ssa.Value) (cls, kind string) {
	v = peelConv(x.sub(peelConv(v)))
	switch y := v.(type) {
	case *ssa.Lookup:
		m := x.sub(y.X)
		k := x.key(y.Index)
		if k == "plain" {
			k = "instance"
		}
		if re(`Stats\.Counts$`).MatchString(x.w.render(m)) {
			return k, "MaxActions"
		}
		s := x.w.plainSlice(m)
		if s.hasCall("modelchecker.Process.GetThreads") || s.hasField("Process.Threads") || isLocalMap(m) {
			return k, "MaxConcurrentActions"
		}
	case *ssa.Extract:
		if l, ok := y.Tuple.(*ssa.Lookup); ok && y.Index == 0 {
			return x.count(l)
		}
	case *ssa.Phi, *ssa.Call:
		// a sum over the counters of all instances
		s := x.w.slice(v)
		if re(`Stats\.Counts`).MatchString(x.w.render(v)) || s.hasField("Stats.Counts") {
			return "role", "MaxActions"
		}
	}
	return "", ""
}

func isLocalMap(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeMap:
		return true
	case *ssa.Call:
		_, ok := x.Type().Underlying().(*types.Map)
		return ok
	case *ssa.UnOp:
		return false
	}
	return false
}

// roleNil: is the edge one on which there is no role?
func (x *limitCtx) facts(cond ssa.Value, taken bool, visit func(op string, a, b ssa.Value)) {
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, taken = u.X, !taken
			continue
		}
		break
	}
	b, ok := x.sub(cond).(*ssa.BinOp)
	if !ok {
		return
	}
	op := b.Op.String()
	if _, ok := negOp[op]; !ok {
		return
	}
	if !taken {
		op = negOp[op]
	}
	visit(op, b.X, b.Y)
	visit(flipOp[op], b.Y, b.X)
}

type limitPair struct{ opt, cnt, kind string }

// within: the edge shows that this limit is not reached.
func (x *limitCtx) within(p limitPair, e Edge) bool {
	found := false
	x.facts(e.Cond, e.Taken, func(op string, a, b ssa.Value) {
		if c, k := x.limit(a); k == p.kind && c == p.opt {
			if z, ok := peelConv(x.sub(b)).(*ssa.Const); ok && z.Value != nil && z.Value.String() == "0" && (op == "<=" || op == "==") {
				found = true
			}
			if z, ok := peelConv(x.sub(b)).(*ssa.Const); ok && z.Value != nil && z.Value.String() == "1" && op == "<" {
				found = true
			}
			if c, k := x.count(b); op == ">" && c == p.cnt && k == p.kind {
				found = true
			}
		}
		if isNilConst(b) && op == "==" {
			if namedName(a.Type()) == "Options" && x.option(a) == p.opt {
				found = true
			}
			if namedName(a.Type()) == "Role" && p.opt != "instance" {
				found = true
			}
		}
	})
	// the option is not configured: comma-ok lookup
	if ex, ok := e.Cond.(*ssa.Extract); ok && !e.Taken && ex.Index == 1 {
		if l, ok := ex.Tuple.(*ssa.Lookup); ok && x.option(l) == p.opt {
			return true
		}
	}
	return found
}

// lift: the fact, or a predicate that implies it.
func (x *limitCtx) lift(fact func(*limitCtx, Edge) bool) func(Edge) bool {
	var rec func(*limitCtx, Edge) bool
	rec = func(n *limitCtx, e Edge) bool { return fact(n, e) || n.viaCall(e, rec) }
	return func(e Edge) bool { return rec(x, e) }
}

// reached: the edge shows that the counter has reached the limit; positive: that there is a limit.
func (x *limitCtx) reached(p limitPair, e Edge) bool {
	found := false
	x.facts(e.Cond, e.Taken, func(op string, a, b ssa.Value) {
		if c, k := x.limit(a); k == p.kind && c == p.opt && op == "<=" {
			if c, k := x.count(b); c == p.cnt && k == p.kind {
				found = true
			}
		}
	})
	return found
}

func (x *limitCtx) positive(p limitPair, e Edge) bool {
	found := false
	x.facts(e.Cond, e.Taken, func(op string, a, b ssa.Value) {
		if c, k := x.limit(a); k == p.kind && c == p.opt {
			if z, ok := peelConv(x.sub(b)).(*ssa.Const); ok && z.Value != nil && (op == ">" && z.Value.String() == "0" || op == ">=" && z.Value.String() == "1") {
				found = true
			}
		}
	})
	return found
}

// viaCall: the condition is a call to a predicate; the fact holds when the predicate cannot give this answer otherwise.
func (x *limitCtx) viaCall(e Edge, fact func(*limitCtx, Edge) bool) bool {
	cond, taken := e.Cond, e.Taken
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, taken = u.X, !taken
			continue
		}
		break
	}
	c, ok := cond.(*ssa.Call)
	if !ok || x.deep > 3 {
		return false
	}
	f := c.Call.StaticCallee()
	if f == nil || !x.w.owns(f) || len(f.Blocks) == 0 || f.Signature.Results().Len() != 1 {
		return false
	}
	n := &limitCtx{w: x.w, env: map[ssa.Value]ssa.Value{}, deep: x.deep + 1}
	for i, q := range f.Params {
		n.env[q] = x.sub(callArgs(c)[i])
	}
	cut := func(ee Edge) bool { return fact(n, ee) }
	q := &Q{W: x.w, NoEnter: func(*ssa.Function) bool { return true }, Cut: cut, GoalEnv: mayReturnUnless(f, 0, taken, cut)}
	bad, _ := q.Entry(f)
	return !bad
}

// mayReturnUnless: like mayReturn; a returned condition that is itself a cut does not count.
func mayReturnUnless(fn *ssa.Function, i int, want bool, cut func(Edge) bool) func(ssa.Instruction, func(ssa.Value) ssa.Value) bool {
	return func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		rt, ok := in.(*ssa.Return)
		if !ok || rt.Parent() != fn || i >= len(rt.Results) {
			return false
		}
		v := res(retVal(rt, i))
		if b, known := constBool(v); known {
			return b == want
		}
		return !cut(Edge{Cond: v, Taken: want})
	}
}

var limitPairs = []limitPair{
	{"instance", "instance", "MaxActions"}, {"instance", "instance", "MaxConcurrentActions"},
	{"each", "instance", "MaxActions"}, {"each", "instance", "MaxConcurrentActions"},
	{"role", "role", "MaxActions"}, {"role", "role", "MaxConcurrentActions"},
}

func (w *World) limitRules(r *Rep) {
	fn := w.Func("modelchecker.Processor.ExceedsActionCountLimits")
	if fn == nil {
		r.Undecided("limits", "-", "ExceedsActionCountLimits not found")
		return
	}
	x := &limitCtx{w: w, env: map[ssa.Value]ssa.Value{}}
	all := func(*ssa.Function) bool { return true }
	// a plain delegation to another function
	for i := 0; i < 3 && len(fn.Blocks) == 1; i++ {
		cs := calls(fn)
		_ = cs
		break
	}
	query := func(key, why string, want bool, fact func(*limitCtx, Edge) bool) {
		cut := x.lift(fact)
		w.must(r, step{Key: key, Why: why, Fn: fn, NoEnter: all, Cut: cut, GoalEnv: mayReturnUnless(fn, 0, want, cut)})
	}
	for _, p := range limitPairs {
		p := p
		k := p.opt + "/" + p.kind
		query("limit-enforced/"+k, "an action is allowed without comparing it with its limit", false, func(x *limitCtx, e Edge) bool { return x.within(p, e) })
		query("limit-positive/"+k, "an action is refused although no such limit is set", true, func(x *limitCtx, e Edge) bool {
			if x.positive(p, e) {
				return true
			}
			for _, o := range limitPairs {
				if o != p && x.reached(o, e) {
					return true
				}
			}
			return false
		})
	}
	query("limit-justified", "an action is refused without a limit being reached", true, func(x *limitCtx, e Edge) bool {
		for _, o := range limitPairs {
			if x.reached(o, e) {
				return true
			}
		}
		return false
	})

	// the counters of running actions
	fns := w.withHelpers(fn)
	ls := w.loopsIn(fns, func(v ssa.Value) bool { return elemType(v.Type()) == "Thread" }, func(in ssa.Instruction) bool { _, ok := in.(*ssa.MapUpdate); return ok })
	r.Floor("loops that count running actions", len(ls), 1)
	bump := func(want string) func(ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !isInt(mu.Value.Type()) {
				return false
			}
			s := w.plainSlice(mu.Key)
			ref := s.hasCall("lib.Role.RefStringShort")
			name := re(`\.Name$`).MatchString(w.render(mu.Key))
			b, ok := mu.Value.(*ssa.BinOp)
			if !ok || b.Op != token.ADD {
				return false
			}
			if want == "name" {
				return name && !ref
			}
			return ref
		}
	}
	for _, l := range ls {
		w.wholeLoop(r, "counted/by-action", l, bump("name"), w.cutRel(`Threads?\[.*\]$|^Thread$`, "==", "^nil$"), nil)
		w.wholeLoop(r, "counted/by-instance", l, bump("ref"), anyCut(w.cutRel(`\.obj$`, "==", "^nil$"), w.cutRel(`^len\(strings\.Split`, "<=", "^1$"), w.cutRel(`^len\(strings\.Split`, "<", "^2$"), w.cutRel(`^len\(strings\.Split`, "!=", "^2$"), w.isFalse(`^strings\.(Contains|Cut)\(`), w.isFalse(`^strings\.Cut\(.*#2$`), w.cutRel(`Threads?\[.*\]$|^Thread$`, "==", "^nil$")), nil)
		for b := range l.Body {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				s := w.render(mu.Key)
				top := re(`currentFrame\(|\.Peek\(|\.Head\(|\.Top\(`).MatchString(s)
				r.Check("counted/root-frame", w.ipos(in), !top, ifBad(top, "a thread is counted under the function it is in, not under the action it runs: "+s))
			}
		}
	}
}

// counterRules: depth and action counters.
func (w *World) counterRules(r *Rep) {
	if fn := w.Func("modelchecker.Node.ForkForAction"); fn != nil {
		key := func(in ssa.Instruction) bool {
			cs, ok := in.(ssa.CallInstruction)
			if !ok || calleeName(cs) != "modelchecker.Stats.Increment" {
				return false
			}
			k := (&limitCtx{w: w, env: map[ssa.Value]ssa.Value{}}).key(callArgs(cs)[1])
			return k == "instance"
		}
		w.must(r, step{Key: "counted/ForkForAction", Why: "an action is not counted under its instance", Fn: fn, NoEnter: w.onlyHelpers(fn), Through: key, Goal: retOf(fn)})
		for _, cs := range w.callsIn(fn, "modelchecker.Stats.Increment") {
			s := w.render(callArgs(cs)[0])
			ok := allocNode(callArgs(cs)[0]) || cs.Parent() != fn
			r.Check("counted/own-stats", w.ipos(callAt(cs)), ok, ifBad(!ok, "the counter of the parent state is bumped: "+s))
		}
		n := 0
		for _, st := range w.storesIn(fn, "actionDepth") {
			s := w.render(st.Val)
			ok := s == "(Node.actionDepth + 1)" || s == "(1 + Node.actionDepth)"
			n++
			r.Check("depth/ForkForAction", w.ipos(st), ok, ifBad(!ok, "the depth of an action's state is "+s))
		}
		r.Floor("depth of actions", n, 1)
	} else {
		r.Undecided("counted/ForkForAction", "-", "not found")
	}
	if fn := w.Func("modelchecker.Node.ForkForAlternatePaths"); fn != nil {
		n := 0
		for _, st := range w.storesIn(fn, "actionDepth") {
			s := w.render(st.Val)
			n++
			r.Check("depth/ForkForAlternatePaths", w.ipos(st), s == "Node.actionDepth", ifBad(s != "Node.actionDepth", "the depth of a continuation is "+s))
		}
		r.Floor("depth of continuations", n, 1)
	}
	// nobody else writes the depth
	for _, fn := range w.Funcs {
		for _, st := range directStores(fn, "Node", "actionDepth") {
			top := topOf(fn)
			ok := fname(top) == "modelchecker.Node.ForkForAction" || fname(top) == "modelchecker.Node.ForkForAlternatePaths" || w.render(st.Val) == "0" || w.render(st.Val) == "Node.actionDepth" || w.isHelperOf(fn, "modelchecker.Node.ForkForAction", "modelchecker.Node.ForkForAlternatePaths")
			r.Check("depth/writers", w.ipos(st), ok, ifBad(!ok, "the depth of a state is set to "+w.render(st.Val)))
		}
	}
	if fn := w.Func("modelchecker.Stats.Increment"); fn != nil {
		bump := func(in ssa.Instruction) bool {
			mu, ok := in.(*ssa.MapUpdate)
			return ok && re(`\.Counts$`).MatchString(w.render(mu.Map)) && mu.Key == ssa.Value(fn.Params[1]) && re(`^\(.* \+ 1\)$|^\(1 \+ .*\)$`).MatchString(w.render(mu.Value))
		}
		w.must(r, step{Key: "counted/Increment", Why: "an action is not counted", Fn: fn, NoEnter: w.onlyHelpers(fn), Through: bump, Goal: retOf(fn)})
	}
	if fn := w.Func("modelchecker.Process.GetThreads"); fn != nil {
		ls := w.loopsIn(w.withHelpers(fn), func(v ssa.Value) bool { return re(`\.Threads$`).MatchString(w.render(v)) }, nil)
		r.Floor("loops of GetThreads", len(ls), 1)
		app := func(in ssa.Instruction) bool {
			cc, ok := in.(ssa.CallInstruction)
			return ok && calleeName(cc) == "builtin.append"
		}
		for _, l := range ls {
			w.wholeLoop(r, "every-running-thread", l, func(in ssa.Instruction) bool {
				if app(in) {
					return true
				}
				st, ok := in.(*ssa.Store)
				if !ok {
					return false
				}
				_, ix := st.Addr.(*ssa.IndexAddr)
				return ix
			}, w.cutRel(`\.Threads\[.*\]$`, "==", "^nil$"), nil)
		}
	}
	if fn := w.Func("modelchecker.Process.GetThreadsCount"); fn != nil {
		w.must(r, step{Key: "thread-count", Why: "the number of running threads is not that of the state", Fn: fn, NoEnter: func(*ssa.Function) bool { return true }, Cut: w.cutRel("^Process$", "==", "^nil$"),
			GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
				rt, ok := in.(*ssa.Return)
				if !ok || rt.Parent() != fn {
					return false
				}
				v := peelConv(res(retVal(rt, 0)))
				if lc, ok := v.(*ssa.Call); ok && calleeName(lc) == "builtin.len" {
					if gc, ok := lc.Call.Args[0].(*ssa.Call); ok && calleeName(gc) == "modelchecker.Process.GetThreads" && callArgs(gc)[0] == ssa.Value(fn.Params[0]) {
						return false
					}
				}
				if ph, ok := retVal(rt, 0).(*ssa.Phi); ok {
					return !w.countsThreads(ph)
				}
				return true
			}})
	}
}

// countsThreads: the phi counts the non-nil entries of a loop over the threads.
func (w *World) countsThreads(ph *ssa.Phi) bool {
	for _, l := range w.loopsOf(ph.Parent()) {
		if l.Head != ph.Block() || l.Over == nil || !re(`\.Threads$`).MatchString(w.render(l.Over)) {
			continue
		}
		inc := func(in ssa.Instruction) bool {
			b, ok := in.(*ssa.BinOp)
			return ok && b.Op == token.ADD && b.X == ssa.Value(ph)
		}
		bad, _ := w.iterationSkips(l, inc, w.cutRel(`\.Threads\[.*\]$`, "==", "^nil$"))
		return !bad
	}
	return false
}

func allocNode(v ssa.Value) bool {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Alloc, *ssa.Call:
			return true
		default:
			return false
		}
	}
	return false
}

func directStores(fn *ssa.Function, typ, field string) []*ssa.Store {
	var out []*ssa.Store
	instrs(fn, func(in ssa.Instruction) {
		if st, ok := in.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && namedName(fa.X.Type()) == typ && fieldName(fa.X.Type(), fa.Field) == field {
				out = append(out, st)
			}
		}
	})
	return out
}

func (w *World) isHelperOf(f *ssa.Function, names ...string) bool {
	var fns []*ssa.Function
	for _, n := range names {
		fns = append(fns, w.Func(n))
	}
	return inFuncs(w.group(fns...), f)
}

// uptakeRules: what is scheduled is taken up.
func (w *World) uptakeRules(r *Rep) {
	// publishYieldPoint
	if fn := w.Func("modelchecker.Processor.publishYieldPoint"); fn != nil {
		g := w.group(fn, w.Func("modelchecker.Processor.startProcessedQueue"))
		stay := onlyIn(g)
		var forks ssa.Value
		for _, p := range fn.Params {
			if elemType(p.Type()) == "Process" {
				forks = p
			}
		}
		ls := w.loopsIn(g, func(v ssa.Value) bool { return elemType(v.Type()) == "Process" }, isCall("modelchecker.Processor.YieldFork"))
		r.Floor("loops over the forks of a yield state", len(ls), 1)
		for _, l := range ls {
			w.wholeLoop(r, "every-fork/publishYieldPoint", l, isCall("modelchecker.Processor.YieldFork"), nil, nil)
		}
		forksName := `.*`
		if forks != nil {
			forksName = strings.ReplaceAll(strings.ReplaceAll(w.render(forks), "[", `\[`), "]", `\]`)
			forksName = strings.ReplaceAll(forksName, "*", `\*`)
		}
		saved := w.storeTo("Processor", "expandedYieldPoints", "")
		w.must(r, step{Key: "published", Why: "a new yield state is not scheduled", Fn: fn, NoEnter: stay, Through: func(in ssa.Instruction) bool {
			return headOf(ls)(in) || saved(in) || isCall("modelchecker.Processor.YieldNode")(in)
		}, Goal: retOf(fn)})
		w.must(r, step{Key: "published/forks", Why: "the forks of a yield state are not scheduled", Fn: fn, NoEnter: stay, Cut: w.isEmpty(forksName), Goal: isCall("modelchecker.Processor.YieldNode")})
		w.must(r, step{Key: "published/saved-forks", Why: "the forks of a saved yield state are lost", Fn: fn, NoEnter: stay,
			Through: w.storeTo("Node", "yieldForks", "^"+forksName+"$"), Goal: saved})
	} else {
		r.Undecided("published", "-", "publishYieldPoint not found")
	}

	// processNode
	if pn := w.Func("modelchecker.Processor.processNode"); pn != nil {
		in := w.onlyHelpers(pn)
		isYield := w.isTrue(`Thread\.Execute\(.*#1$`)
		notYield := w.isFalse(`Thread\.Execute\(.*#1$`)
		inv := w.callsIn(pn, "modelchecker.CheckInvariantsWithProber")
		r.Floor("assertion checks in processNode", len(inv), 1)
		pub := w.callTo(`modelchecker\.Processor\.publishYieldPoint`, "", "^Node$", `Thread\.Execute\(.*#0$`)
		interm := w.loopsIn(w.withHelpers(pn), func(v ssa.Value) bool { return elemType(v.Type()) == "Process" }, w.callTo(`lib\..*\.Add$`, `intermediateStates`))
		r.Floor("loops over the choices of a step", len(interm), 1)
		for _, l := range interm {
			w.wholeLoop(r, "every-choice", l, w.callTo(`lib\..*\.Add$`, `intermediateStates`), w.isFalse(`^modelchecker\.Processor\.ShouldScheduleNode\(`), nil)
		}
		for _, cs := range inv {
			fails := w.nonEmpty(`.*CheckInvariantsWithProber\(.*\)(\[.*\])?`)
			w.must(r, step{Key: "yield-published", Why: "a new yield state is not scheduled further", After: callAt(cs), NoEnter: in, Cut: anyCut(fails, notYield), Through: pub, Goal: retOf(pn)})
		}
		for _, cs := range w.callsIn(pn, "modelchecker.Node.Attach") {
			// a new state that is not a yield state: its choices are taken up
			fail := anyCut(w.nonEmpty(`.*CheckTransitionInvariants\(.*\)(\[.*\])?`), w.isFalse(`^modelchecker\.CheckRefinement\(`), w.nonEmpty(`.*CheckInvariantsWithProber\(.*\)(\[.*\])?`))
			w.must(r, step{Key: "choices-taken-up", Why: "the choices of a new state are dropped", After: callAt(cs), NoEnter: in, Cut: anyCut(isYield, fail), Through: headOf(interm), GoalEnv: mayReturn(pn, 0, false)})
		}
	}

	// enqueue
	if fn := w.Func("modelchecker.Processor.enqueueScheduled"); fn != nil {
		w.must(r, step{Key: "enqueued", Why: "a scheduled node is dropped", Fn: fn, NoEnter: w.onlyHelpers(fn), Through: func(in ssa.Instruction) bool {
			return w.storeTo("Processor", "pendingActionStarts", `^append\(Processor\.pendingActionStarts`)(in) || isCall("modelchecker.Processor.addToProcessingQueue")(in) || w.callTo(`lib\..*\.Add$`, `\.queue$`, "^Node$")(in)
		}, Goal: retOf(fn)})
	} else {
		r.Undecided("enqueued", "-", "enqueueScheduled not found")
	}
	if fn := w.Func("modelchecker.Processor.addToProcessingQueue"); fn != nil {
		w.must(r, step{Key: "queued", Why: "a node is dropped", Fn: fn, NoEnter: func(*ssa.Function) bool { return true }, Through: w.callTo(`lib\..*\.Add$`, `\.queue$`, "^Node$"), Goal: retOf(fn)})
	}

	empty := w.cutRel(`\.Len\(Processor\.queue\)$`, "==", "^0$")
	empty2 := w.cutRel(`\.Len\(Processor\.queue\)$`, "<=", "^0$")
	stopped := anyCut(w.isTrue(`^Processor\.stopped$`), w.isTrue(`Processor\.Stopped\(`))
	deep := w.cutRel(`\.actionDepth$`, ">", `\.Options\.MaxActions$`)
	goOn := w.isFalse(`\.ContinueOnInvariantFailures$`)
	expand := isCall("modelchecker.Processor.expandToYield")
	failed := anyCut(w.isTrue(`expandToYield\(.*#0$`), w.isTrue(`drainAndFlush\(.*#0$`))

	if fn := w.Func("modelchecker.Processor.Start"); fn != nil {
		in := w.onlyHelpers(fn, "modelchecker.Processor.StartSimulation", "modelchecker.Processor.startProcessedQueue", "modelchecker.Processor.expandToYield", "modelchecker.Processor.InitializeNode")
		own := w.helpersBut(fn, "modelchecker.Processor.StartSimulation", "modelchecker.Processor.startProcessedQueue", "modelchecker.Processor.expandToYield", "modelchecker.Processor.InitializeNode")
		elsewhere := anyCut(w.isTrue(`^Processor\.simulation$`), w.isTrue(`^Processor\.experimentalProcessedQueue$`))
		initErr := w.cutRel(`InitializeNode\(.*#2$`, "!=", "^nil$")
		w.must(r, step{Key: "search-ends/stop", Why: "the search ends although nodes are waiting", Fn: fn, NoEnter: in, Cut: anyCut(elsewhere, initErr, empty, empty2, stopped, failed), Goal: retOf(fn)})
		w.must(r, step{Key: "search-ends/failure", Why: "the search ends at the first failure although it is to go on", Fn: fn, NoEnter: in, Cut: anyCut(elsewhere, initErr, empty, empty2, stopped, goOn), Goal: retOf(fn)})
		w.must(r, step{Key: "init-queued", Why: "the initial state is not explored", Fn: fn, NoEnter: in, Cut: anyCut(elsewhere, initErr), Through: isCall("modelchecker.Processor.addToProcessingQueue"), Goal: retOf(fn)})
		n := 0
		for _, f := range own {
			instrs(f, func(x ssa.Instruction) {
				if !w.callTo(`lib\..*\.Remove$`, `\.queue$`)(x) {
					return
				}
				n++
				w.must(r, step{Key: "taken-up/Start", Why: "a node taken from the queue is dropped", After: x, NoEnter: in, Cut: deep, Through: expand, Goal: func(y ssa.Instruction) bool {
					_, ret := y.(*ssa.Return)
					return ret && y.Parent() == fn || w.callTo(`lib\..*\.(Remove|Len)$`, `\.queue$`)(y)
				}})
			})
		}
		r.Floor("nodes taken from the queue", n, 1)
		for _, cs := range w.callSites("modelchecker.Processor.expandToYield") {
			if !inFuncs(own, cs.Parent()) {
				continue
			}
			s := w.render(callArgs(cs)[1])
			r.Check("taken-up/node", w.ipos(callAt(cs)), re(`Remove\(Processor\.queue\)`).MatchString(s), ifBad(!re(`Remove\(Processor\.queue\)`).MatchString(s), "expands "+s))
		}
		w.must(r, step{Key: "simulates", Why: "a simulation explores exhaustively", Fn: fn, NoEnter: func(*ssa.Function) bool { return true }, Cut: w.isFalse(`^Processor\.simulation$`), Through: isCall("modelchecker.Processor.StartSimulation"), Goal: retOf(fn)})
	} else {
		r.Undecided("search-ends", "-", "Start not found")
	}

	if fn := w.Func("modelchecker.Processor.expandToYield"); fn != nil {
		in := w.onlyHelpers(fn, "modelchecker.Processor.processNode", "modelchecker.Processor.crashProcess", "modelchecker.Processor.takeThreadCrashFailure")
		none := anyCut(w.cutRel(`\.Len\(Processor\.intermediateStates\)$`, "==", "^0$"), w.cutRel(`\.Len\(Processor\.intermediateStates\)$`, "<=", "^0$"), w.isFalse(`\.Remove\(Processor\.intermediateStates\)#1$`))
		crashed := anyCut(w.cutRel(`takeThreadCrashFailure\(|crashProcess\(`, "!=", "^nil$"))
		pn := isCall("modelchecker.Processor.processNode")
		w.must(r, step{Key: "choices-expanded/all", Why: "pending choices are left when the expansion ends", Fn: fn, NoEnter: in, Cut: anyCut(none, crashed), Goal: retOf(fn)})
		w.must(r, step{Key: "choices-expanded/continue", Why: "pending choices are left at a failure although the search is to go on", Fn: fn, NoEnter: in, Cut: anyCut(none, goOn), Goal: retOf(fn)})
		w.must(r, step{Key: "expanded", Why: "the node is not processed", Fn: fn, NoEnter: in, Through: pn, Goal: retOf(fn)})
		for _, f := range w.withHelpers(fn) {
			instrs(f, func(x ssa.Instruction) {
				if w.callTo(`lib\..*\.Remove$`, `intermediateStates`)(x) {
					w.must(r, step{Key: "choice-processed", Why: "a choice is dropped", After: x, NoEnter: in, Cut: w.isFalse(`\.Remove\(Processor\.intermediateStates\)#1$`), Through: pn, Goal: func(y ssa.Instruction) bool {
						_, ret := y.(*ssa.Return)
						return ret && y.Parent() == fn || w.callTo(`lib\..*\.(Remove|Len)$`, `intermediateStates`)(y)
					}})
				}
			})
		}
	} else {
		r.Undecided("expanded", "-", "expandToYield not found")
	}

	if fn := w.Func("modelchecker.Processor.drainAndFlush"); fn != nil {
		in := w.onlyHelpers(fn, "modelchecker.Processor.expandToYield")
		none := anyCut(w.isEmpty(`Processor\.pendingActionStarts`))
		w.must(r, step{Key: "drained/failure", Why: "pending nodes are left although nothing failed", Fn: fn, NoEnter: in, Cut: anyCut(none, failed), Goal: retOf(fn)})
		w.must(r, step{Key: "drained/continue", Why: "pending nodes are left at a failure although the search is to go on", Fn: fn, NoEnter: in, Cut: anyCut(none, goOn), Goal: retOf(fn)})
		fl := w.loopsIn(w.withHelpers(fn), func(v ssa.Value) bool { return re(`\.expandedYieldPoints$`).MatchString(w.render(v)) }, nil)
		r.Floor("loops that queue new yield states", len(fl), 1)
		w.must(r, step{Key: "flushed", Why: "new yield states are not queued", Fn: fn, NoEnter: in, Through: headOf(fl), GoalEnv: mayReturn(fn, 0, false)})
		for _, l := range fl {
			w.wholeLoop(r, "every-new-state", l, isCall("modelchecker.Processor.addToProcessingQueue"), nil, nil)
		}
		for _, f := range w.withHelpers(fn) {
			instrs(f, func(x ssa.Instruction) {
				st, ok := x.(*ssa.Store)
				if ok && w.storeTo("Processor", "pendingActionStarts", `^Processor\.pendingActionStarts\[1:`)(x) {
					w.must(r, step{Key: "taken-up/drainAndFlush", Why: "a pending node is dropped", After: st, NoEnter: in, Cut: deep, Through: expand, Goal: func(y ssa.Instruction) bool {
						_, ret := y.(*ssa.Return)
						return ret && y.Parent() == fn || w.storeTo("Processor", "pendingActionStarts", "")(y)
					}})
				}
				if ok && w.storeTo("Processor", "pendingActionStarts", "")(x) {
					s := w.render(st.Val)
					good := re(`^Processor\.pendingActionStarts\[1:\]$`).MatchString(s) || re(`^Processor\.pendingActionStarts\[:0\]$|^nil$`).MatchString(s)
					r.Check("pending/one-at-a-time", w.ipos(x), good, ifBad(!good, "pending nodes become "+s))
				}
			})
		}
		for _, cs := range w.callsIn(fn, "modelchecker.Processor.expandToYield") {
			s := w.render(callArgs(cs)[1])
			r.Check("drained/node", w.ipos(callAt(cs)), re(`pendingActionStarts\[`).MatchString(s), ifBad(!re(`pendingActionStarts\[`).MatchString(s), "expands "+s))
		}
	} else {
		r.Undecided("drained", "-", "drainAndFlush not found")
	}

	if fn := w.Func("modelchecker.Processor.startProcessedQueue"); fn != nil {
		g := w.group(fn, w.Func("modelchecker.Processor.publishYieldPoint"))
		elsewhere := noEnter("modelchecker.Processor.expandToYield", "modelchecker.Processor.drainAndFlush", "modelchecker.Processor.InitializeNode", "modelchecker.Processor.publishYieldPoint")
		in := func(f *ssa.Function) bool { return !inFuncs(g, f) || elsewhere(f) }
		initErr := w.cutRel(`InitializeNode\(.*#2$`, "!=", "^nil$")
		dead := w.storeTo("Processor", "earlyDeadlock", "")
		deadSeen := w.cutRel(`^Processor\.earlyDeadlock$`, "!=", "^nil$")
		w.must(r, step{Key: "queue-search-ends/stop", Why: "the search ends although nodes are waiting", Fn: fn, NoEnter: in, Cut: anyCut(initErr, empty, empty2, stopped, failed, deadSeen), Through: dead, Goal: retOf(fn)})
		w.must(r, step{Key: "queue-init-expanded", Why: "the initial state is not explored", Fn: fn, NoEnter: in, Cut: initErr, Through: w.callTo(`modelchecker\.Processor\.expandToYield`, "", `Processor\.Init$`), Goal: retOf(fn)})
		w.must(r, step{Key: "queue-init-drained", Why: "what the initial state leads to is not explored", Fn: fn, NoEnter: in, Cut: anyCut(initErr, failed), Through: isCall("modelchecker.Processor.drainAndFlush"), Goal: retOf(fn)})
		ls := w.loopsIn(g, func(v ssa.Value) bool { return elemType(v.Type()) == "Process" }, isCall("modelchecker.Processor.YieldFork"))
		r.Floor("loops over saved forks", len(ls), 1)
		for _, l := range ls {
			w.wholeLoop(r, "every-fork/startProcessedQueue", l, isCall("modelchecker.Processor.YieldFork"), nil, nil)
		}
		w.must(r, step{Key: "saved-forks-first", Why: "the forks of a saved yield state are not scheduled", Fn: fn, NoEnter: in, Cut: anyCut(w.isEmpty(`.*\.yieldForks`), w.isEmpty(`\[\].*Process`)), Goal: isCall("modelchecker.Processor.YieldNode")})
		for _, f := range w.withHelpers(fn) {
			instrs(f, func(x ssa.Instruction) {
				if !w.callTo(`lib\..*\.Remove$`, `\.queue$`)(x) {
					return
				}
				again := func(y ssa.Instruction) bool {
					_, ret := y.(*ssa.Return)
					return ret && y.Parent() == fn || w.callTo(`lib\..*\.Remove$`, `\.queue$`)(y)
				}
				w.must(r, step{Key: "taken-up/startProcessedQueue", Why: "a yield state taken from the queue is dropped", After: x, NoEnter: in, Cut: deep, Through: func(y ssa.Instruction) bool {
					return headOf(ls)(y) || isCall("modelchecker.Processor.YieldNode")(y)
				}, Goal: again})
				w.must(r, step{Key: "drained/startProcessedQueue", Why: "what is scheduled from a yield state is not explored", After: x, NoEnter: in, Cut: deep, Through: isCall("modelchecker.Processor.drainAndFlush"), Goal: again})
			})
		}
	} else {
		r.Undecided("queue-search", "-", "startProcessedQueue not found")
	}
}
