From e04095b756f483c51bd7fe1a5fb71eb369be6ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 01/59] fix: include the call frame's arguments in the state
 hash

Two states that differ only in the value of a function argument were merged,
so the successors of one of them were never explored.
---
 modelchecker/thread.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 6ab6506..1ddd67d 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -307,6 +307,10 @@ func (c *CallFrame) HashCode() string {
 	// if program counter is at different stmts.
 	h := c.scope.Hash()
 	h.Write([]byte(c.pc))
+	// The arguments are part of the frame's state: two frames that differ only in
+	// an argument (it can be reassigned, or the caller's variable can change) can
+	// behave differently from here on.
+	h.Write([]byte(StringDictToJsonString(c.vars)))
 	if c.obj != nil {
 		h.Write([]byte(c.obj.RefString()))
 	}
-- 
2.43.0


From 17500b16fd66567201ca19be2c3af8c3a454eeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 02/59] fix: do not share mutable values held in a struct
 between branches

A struct's attributes cannot be reassigned but can hold a list, dict or record.
Forking returned the struct itself, so an append in one branch was visible in
its siblings and ancestors.
---
 modelchecker/clone.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/modelchecker/clone.go b/modelchecker/clone.go
index e86df9b..72c1058 100644
--- a/modelchecker/clone.go
+++ b/modelchecker/clone.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/fizzbee-io/fizzbee/lib"
 	"go.starlark.net/starlark"
+	"go.starlark.net/starlarkstruct"
 )
 
 func deepCloneStarlarkValue(value starlark.Value, refs map[starlark.Value]starlark.Value) (starlark.Value, error) {
@@ -25,10 +26,9 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 	// "builtin_function_or_method".
 	switch value.Type() {
 
-	case "NoneType", "int", "float", "bool", "string", "bytes", "function", "range", "struct", "symmetric_values", "Channel", "symmetry_domain":
+	case "NoneType", "int", "float", "bool", "string", "bytes", "function", "range", "symmetric_values", "Channel", "symmetry_domain":
 		//case starlark.Bool, starlark.String, starlark.Int:
 		// For simple values, just return a copy
-		// Also starlark struct is immutable
 		// symmetry_domain is stateless configuration (Name, Limit, DomainType)
 		return value, nil
 
@@ -122,6 +122,29 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 			return nil, err
 		}
 		return newDict, nil
+	case "struct":
+		// The struct's own attributes cannot be reassigned, but their values can be mutable
+		// (a list, a record, ...), so they must not be shared between branches.
+		v, ok := value.(*starlarkstruct.Struct)
+		if !ok {
+			return value, nil
+		}
+		dict := starlark.StringDict{}
+		v.ToStringDict(dict)
+		for name, attr := range dict {
+			switch attr.Type() {
+			case "builtin_function_or_method", "module", "failed_module":
+				continue
+			}
+			cloned, err := deepCloneStarlarkValueWithPermutations(attr, refs, permutations, alt)
+			if err != nil {
+				return nil, err
+			}
+			dict[name] = cloned
+		}
+		newVal := starlarkstruct.FromStringDict(v.Constructor(), dict)
+		refs[value] = newVal
+		return newVal, nil
 	case "record":
 		v := value.(*lib.Struct)
 		dict := starlark.StringDict{}
-- 
2.43.0


From 3a060db5763d675f5997d513481d463f82c7dd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 03/59] fix: count symmetric values held in a struct as used

The state visitor did not look inside structs, so fresh() could hand out a value
that is still in use there.
---
 modelchecker/state_visitor.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/modelchecker/state_visitor.go b/modelchecker/state_visitor.go
index 866674d..a854af6 100644
--- a/modelchecker/state_visitor.go
+++ b/modelchecker/state_visitor.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/fizzbee-io/fizzbee/lib"
 	"go.starlark.net/starlark"
+	"go.starlark.net/starlarkstruct"
 )
 
 // StateVisitor defines the interface for visiting state elements during traversal
@@ -106,7 +107,7 @@ func visitStarlarkValue(value starlark.Value, visitor StateVisitor, visited map[
 
 	switch value.Type() {
 	case "NoneType", "int", "float", "bool", "string", "bytes", "function",
-		"builtin_function_or_method", "range", "struct", "symmetric_values",
+		"builtin_function_or_method", "range", "symmetric_values",
 		"model_value", "Channel":
 		return
 
@@ -180,6 +181,13 @@ func visitStarlarkValue(value starlark.Value, visitor StateVisitor, visited map[
 			visitStarlarkValue(val, visitor, visited)
 		}
 
+	case "struct":
+		if s, ok := value.(*starlarkstruct.Struct); ok {
+			dict := starlark.StringDict{}
+			s.ToStringDict(dict)
+			visitStringDict(dict, visitor, visited)
+		}
+
 	case "role":
 		role := value.(*lib.Role)
 		if role.IsSymmetric() {
-- 
2.43.0


From e234ff7c5f22d475895de072bbc7708012eca033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 04/59] fix: keep roles that are referenced only from a pending
 message

A forked process rebuilt its list of roles before cloning the channel messages,
so a role that travels only in a message was dropped: its actions were never
scheduled again and its fields were no longer part of the state.
---
 modelchecker/processor.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index cf59137..69b734e 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -383,7 +383,6 @@ func (p *Process) Fork() *Process {
 		clonedThreads[i].Process = p2
 	}
 	p2.Threads = clonedThreads
-	p2.Roles = MapRoleValuesInOrder(refs, p.Roles)
 	p2.Channels = make(map[int]*lib.Channel)
 	p2.ChannelMessages = make(map[int][]*ChannelMessage)
 	for i, msgs := range p.ChannelMessages {
@@ -392,6 +391,8 @@ func (p *Process) Fork() *Process {
 			p2.ChannelMessages[i][j] = msg.Clone(refs, nil, 0)
 		}
 	}
+	// After every clone above: a role can be referenced only from a pending message.
+	p2.Roles = MapRoleValuesInOrder(refs, p.Roles)
 	if p.RotationalLastAllocated != nil {
 		p2.RotationalLastAllocated = make(map[string]int64, len(p.RotationalLastAllocated))
 		for k, v := range p.RotationalLastAllocated {
@@ -450,7 +451,6 @@ func (p *Process) CloneWithRefs(permutations map[*lib.SymmetricValue][]*lib.Symm
 		clonedThreads[i].Process = p2
 	}
 	p2.Threads = clonedThreads
-	p2.Roles = MapRoleValuesInOrder(refs, p.Roles)
 	p2.Channels = make(map[int]*lib.Channel)
 	p2.ChannelMessages = make(map[int][]*ChannelMessage)
 	for i, msgs := range p.ChannelMessages {
@@ -459,6 +459,8 @@ func (p *Process) CloneWithRefs(permutations map[*lib.SymmetricValue][]*lib.Symm
 			p2.ChannelMessages[i][j] = msg.Clone(refs, permutations, alt)
 		}
 	}
+	// After every clone above: a role can be referenced only from a pending message.
+	p2.Roles = MapRoleValuesInOrder(refs, p.Roles)
 	return p2
 }
 
-- 
2.43.0


From a9e3508bb752825ecf6218d911017adc4dcaf2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:16 +0000
Subject: [PATCH 05/59] fix: give each branch of an any statement its own copy
 of the chosen value

The chosen element was still the parent's object: changes made through the loop
variable were lost in the branch and appeared in the parent's recorded state.
---
 modelchecker/processor.go | 5 ++++-
 modelchecker/thread.go    | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 69b734e..ec5b9e9 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -342,8 +342,11 @@ func (p *Process) IsYieldNode() bool {
 }
 
 func (p *Process) Fork() *Process {
-	refs := make(map[starlark.Value]starlark.Value)
+	return p.forkWithRefs(make(map[starlark.Value]starlark.Value))
+}
 
+// forkWithRefs forks the process and records in refs which new object stands for each object of p.
+func (p *Process) forkWithRefs(refs map[starlark.Value]starlark.Value) *Process {
 	p2 := &Process{
 		Name:      p.Name,
 		Heap:      p.Heap.Clone(refs, nil, 0),
diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 1ddd67d..ac61491 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -683,7 +683,8 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		var x starlark.Value
 		for iter.Next(&x) {
 			//fmt.Printf("anyVariable: x: %s\n", x.String())
-			fork := t.Process.Fork()
+			refs := make(map[starlark.Value]starlark.Value)
+			fork := t.Process.forkWithRefs(refs)
 			fork.Name = fmt.Sprintf("Any:%s=%s", stmt.AnyStmt.LoopVars[0], x.String())
 			fork.ChoiceFairness = stmt.AnyStmt.Fairness.GetLevel()
 			if r, ok := x.(*lib.Role); ok {
@@ -693,6 +694,10 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 						break
 					}
 				}
+			} else if cloned, err := deepCloneStarlarkValue(x, refs); err == nil {
+				// The fork must get its own object, not the parent's, otherwise changes
+				// made through the variable are lost and show up in the parent instead.
+				x = cloned
 			}
 			if stmt.AnyStmt.Block == nil {
 				fork.updateVariable(stmt.AnyStmt.LoopVars[0], x)
-- 
2.43.0


From bbfb73727ba40a87e045eed0348c2c98b31dc98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 06/59] fix: run the remaining parallel statements after a
 nested block or call ends

---
 modelchecker/thread.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index ac61491..8fae6f4 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -474,7 +474,7 @@ func (t *Thread) Execute() ([]*Process, bool) {
 	defer t.Process.propagateEnabled()
 	for t.Stack.Len() > 0 {
 		for t.currentFrame().pc == "" || strings.HasSuffix(t.currentFrame().pc, ".Block.$") {
-			yield = t.executeEndOfBlock()
+			forks, yield = t.endOfBlock()
 			if yield {
 				if !hasNonEndOfBlockStmts && t.Process.GetThreadsCount() < initialThreads && t.Process.Parent != nil && t.Process.Parent.Enabled {
 					t.Process.Fairness = t.Fairness
@@ -482,6 +482,9 @@ func (t *Thread) Execute() ([]*Process, bool) {
 				}
 				return forks, yield
 			}
+			if len(forks) > 0 {
+				return forks, yield
+			}
 		}
 		hasNonEndOfBlockStmts = true
 		frame := t.currentFrame()
@@ -525,7 +528,11 @@ func (t *Thread) Execute() ([]*Process, bool) {
 				return forks, true
 			}
 			for t.Stack.Len() > 0 && (t.currentFrame().pc == "" || strings.HasSuffix(t.currentFrame().pc, ".Block.$")) {
-				t.executeEndOfBlock()
+				forks, _ = t.endOfBlock()
+				if len(forks) > 0 {
+					// The statements of the enclosing parallel block that are still to run
+					break
+				}
 			}
 
 			return forks, true
@@ -1198,7 +1205,7 @@ func (t *Thread) executeEndOfStatement() ([]*Process, bool) {
 		}
 		blockPath := ParentBlockPath(t.currentPc())
 		if blockPath == "" {
-			//return nil, t.executeEndOfBlock()
+			//return nil, t.endOfBlock()
 		}
 		protobuf := GetProtoFieldByPath(t.currentFileAst(), blockPath)
 		b := convertToBlock(protobuf)
@@ -1225,10 +1232,18 @@ func (t *Thread) executeEndOfStatement() ([]*Process, bool) {
 	}
 }
 
+// executeEndOfBlock ends the current block and reports whether the thread yields.
 func (t *Thread) executeEndOfBlock() bool {
+	_, yield := t.endOfBlock()
+	return yield
+}
+
+// endOfBlock ends the current block. If it was a statement of a parallel block, the returned
+// processes are the ones that continue with the statements of that block not yet executed.
+func (t *Thread) endOfBlock() ([]*Process, bool) {
 	frame := t.currentFrame()
 	if frame == nil {
-		return false
+		return nil, false
 	}
 	for {
 
@@ -1264,7 +1279,7 @@ func (t *Thread) executeEndOfBlock() bool {
 
 			if t.Stack.Len() == 0 {
 				t.Process.removeCurrentThread()
-				return true
+				return nil, true
 			} else {
 				frame = t.currentFrame()
 				// if protobuf is of type Function then it is a function call.
@@ -1293,8 +1308,7 @@ func (t *Thread) executeEndOfBlock() bool {
 					}
 					t.Process.updateAllVariablesInScope(returnedVars)
 					t.Process.RecordReturn(t.currentFrame(), oldFrame, starlark.None, oldScope.flow)
-					_, yield := t.executeEndOfStatement()
-					return yield
+					return t.executeEndOfStatement()
 				}
 
 			}
@@ -1302,7 +1316,7 @@ func (t *Thread) executeEndOfBlock() bool {
 		frame.pc = RemoveLastBlock(t.currentPc())
 		forks, yield := t.executeEndOfStatement()
 		if len(forks) > 0 || yield {
-			return yield
+			return forks, yield
 		}
 
 		if t.currentPc() != "" {
@@ -1312,9 +1326,9 @@ func (t *Thread) executeEndOfBlock() bool {
 	if frame.scope.flow == ast.Flow_FLOW_SERIAL ||
 		frame.scope.flow == ast.Flow_FLOW_PARALLEL {
 		// Only yield if there was at least one executable statement
-		return t.Process.Enabled
+		return nil, t.Process.Enabled
 	}
-	return false
+	return nil, false
 }
 
 func (t *Thread) CopyInitValuesForEphemeralFields(oldFrame *CallFrame) {
-- 
2.43.0


From b570f78d947e86e69c5dcd93daf93229867b10d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 07/59] fix: report a failure found between the statements of a
 parallel block without panicking

---
 modelchecker/thread.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 8fae6f4..e4c1186 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -1369,6 +1369,10 @@ type CodeSnippet interface {
 }
 
 func (t *Thread) CurrentPcSourceInfo() *ast.SourceInfo {
+	if t.currentPc() == "" {
+		// Between the statements of a parallel block there is no current statement
+		return &ast.SourceInfo{}
+	}
 	protoMsg := GetProtoFieldByPath(t.currentFileAst(), t.currentPc())
 	if protoMsg == nil {
 		return &ast.SourceInfo{}
-- 
2.43.0


From da9b09f956445e855c4630f4455065691b7b4134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 08/59] fix: give each iteration of a parallel for its own copy
 of the loop values

---
 modelchecker/thread.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index e4c1186..c64e2e1 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -1121,7 +1121,7 @@ func (t *Thread) executeForStatement() ([]*Process, bool) {
 		return nil, false
 	}
 	forks := make([]*Process, 0)
-	for i, x := range scope.loopRange {
+	for i := range scope.loopRange {
 		// TODO(jp): This is a hack. We should not be forking for each iteration,
 		// instead, create a new thread for each iteration.
 		// That is because, even though, for the correctness analysis, the Current formulation is fine,
@@ -1133,18 +1133,12 @@ func (t *Thread) executeForStatement() ([]*Process, bool) {
 		// This is a subtle difference, but it will be important in the future for performance analysis. After all,
 		// if anyone uses parallel flow, it is to speed up.
 		fork := t.Process.Fork()
-		if r, ok := x.(*lib.Role); ok {
-			for _, role := range fork.Roles {
-				if r.RefString() == role.RefString() {
-					x = role
-					break
-				}
-			}
-		}
-		fork.currentThread().currentFrame().scope.vars[scope.loopVars[0]] = x
+		forkScope := fork.currentThread().currentFrame().scope
+		// The fork must use its own copies of the values, not those of the parent.
+		x := forkScope.loopRange[i]
+		forkScope.vars[scope.loopVars[0]] = x
 		fork.Name = fmt.Sprintf("For:%s", x.String())
-		newSlice := removeElement(scope.loopRange, i)
-		fork.currentThread().currentFrame().scope.loopRange = newSlice
+		forkScope.loopRange = removeElement(forkScope.loopRange, i)
 
 		forks = append(forks, fork)
 	}
-- 
2.43.0


From 33e2b51f57c176c645661529fa2f97b659ba9c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 09/59] fix: deliver pending messages from the continuing
 parallel branches

---
 modelchecker/processor.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index ec5b9e9..83d20db 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -3190,7 +3190,7 @@ func (p *Processor) YieldNode(node *Node) {
 			p.enqueueScheduled(newNode)
 		}
 	}
-	p.scheduleChannelMessages(node)
+	p.scheduleChannelMessages(node, node.Process)
 	if node.actionDepth >= int(p.config.Options.MaxActions) ||
 		node.GetThreadsCount() >= int(p.config.Options.MaxConcurrentActions) {
 		return
@@ -3241,7 +3241,7 @@ func (p *Processor) YieldFork(node *Node, process *Process) {
 			p.enqueueScheduled(newNode)
 		}
 	}
-	p.scheduleChannelMessages(node)
+	p.scheduleChannelMessages(node, process)
 	if node.actionDepth >= int(p.config.Options.MaxActions) ||
 		process.GetThreadsCount() >= int(p.config.Options.MaxConcurrentActions) {
 
@@ -3256,11 +3256,11 @@ func (p *Processor) YieldFork(node *Node, process *Process) {
 	}
 }
 
-func (p *Processor) scheduleChannelMessages(node *Node) {
-	for i, msgs := range node.ChannelMessages {
+func (p *Processor) scheduleChannelMessages(node *Node, process *Process) {
+	for i, msgs := range process.ChannelMessages {
 		for j, _ := range msgs {
 			linkName := fmt.Sprintf("channel-%d-message-%d", i, j)
-			newNode := node.ForkForAlternatePaths(node.Process.Fork(), linkName)
+			newNode := node.ForkForAlternatePaths(process.Fork(), linkName)
 			newMsg := newNode.ChannelMessages[i][j]
 			newNode.ChannelMessages[i] = append(newNode.ChannelMessages[i][:j], newNode.ChannelMessages[i][j+1:]...)
 			thread := newNode.Process.NewThread()
-- 
2.43.0


From c56fec7a2c974acbaa79daa55c0a643037aa07f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 10/59] fix: keep roles in the middle of a call safe from a
 second crash

---
 modelchecker/processor.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 83d20db..e72daa9 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2508,7 +2508,7 @@ func (p *Processor) crashRoles(node *Node, safeRolesList []*lib.Role) *Node {
 	var failedNode *Node
 	var crashNode *Node
 	for _, role := range node.Roles {
-		if !slices.Contains(safeRolesList, role) {
+		if !containsRole(safeRolesList, role) {
 			crashNode, failedNode = p.crashRole(node, role)
 			if failedNode != nil {
 				return failedNode
@@ -2525,6 +2525,13 @@ func (p *Processor) crashRoles(node *Node, safeRolesList []*lib.Role) *Node {
 	return failedNode
 }
 
+// containsRole compares by the role's reference, as each fork has its own copies of the roles.
+func containsRole(roles []*lib.Role, role *lib.Role) bool {
+	return role != nil && slices.ContainsFunc(roles, func(r *lib.Role) bool {
+		return r.RefString() == role.RefString()
+	})
+}
+
 func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 	if role == nil || !p.durabilitySpec.HasDurabilitySpec(role.Name) {
 		return nil, nil
-- 
2.43.0


From b5aba325c8a58003c9d24b03960c33054524470a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 11/59] fix: stop only the threads of the role instance that
 crashes

---
 modelchecker/processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index e72daa9..9a2c5a6 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2544,7 +2544,7 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 		return nil, nil
 	}
 	for i, thread := range crashNode.Threads {
-		if thread == nil || thread.currentFrame().obj == nil || thread.currentFrame().obj.Name != role.Name {
+		if thread == nil || thread.currentFrame().obj == nil || thread.currentFrame().obj.RefString() != role.RefString() {
 			continue
 		}
 		crashNode.removeThread(i)
-- 
2.43.0


From 87cb01de77a25cd6e62cf8cfb81f816b04ec9906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 12/59] fix: disable the transition when fresh() is exhausted
 in any statement kind

---
 modelchecker/thread.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index c64e2e1..cdae4d0 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -667,6 +667,9 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		symCtx := t.Process.createSymmetryContext()
 		val, err := t.Process.Evaluator.EvalExprWithContext(t.getFileName(), stmt.AnyStmt.IterExpr, vars, symCtx)
 		t.Process.saveRotationalLastAllocated(symCtx)
+		if lib.IsDisableTransitionError(err) {
+			return t.disableTransition()
+		}
 		// TODO: This source info should be for the pyExpr not the anyStmt
 		t.Process.PanicOnError(stmt.AnyStmt.GetSourceInfo(), fmt.Sprintf("Error evaluating expr: %s", stmt.AnyStmt.PyExpr), err)
 		t.Process.updateAllVariablesInScope(vars)
@@ -719,6 +722,9 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 				cond, err := fork.Evaluator.EvalExprWithContext(t.getFileName(), stmt.AnyStmt.ConditionExpr, vars, symCtx)
 				fork.saveRotationalLastAllocated(symCtx)
 				//PanicOnError(err)
+				if lib.IsDisableTransitionError(err) {
+					continue
+				}
 				// TODO: This source info should be for the condition not the anyStmt
 				fork.PanicOnError(stmt.AnyStmt.GetSourceInfo(), fmt.Sprintf("Error checking condition: %s", stmt.AnyStmt.Condition), err)
 				fork.updateAllVariablesInScope(vars)
@@ -763,6 +769,9 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		symCtx := t.Process.createSymmetryContext()
 		val, err := t.Process.Evaluator.EvalExprWithContext(t.getFileName(), stmt.ForStmt.IterExpr, vars, symCtx)
 		t.Process.saveRotationalLastAllocated(symCtx)
+		if lib.IsDisableTransitionError(err) {
+			return t.disableTransition()
+		}
 		// TODO: This source info should be for the pyExpr not the forStmt
 		t.Process.PanicOnError(stmt.ForStmt.GetSourceInfo(), fmt.Sprintf("Error evaluating expr: %s", stmt.ForStmt.PyExpr), err)
 
@@ -811,6 +820,9 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		cond, err := t.Process.Evaluator.EvalExprWithContext(t.getFileName(), stmt.RequireStmt.GetConditionExpr(), vars, symCtx)
 		t.Process.saveRotationalLastAllocated(symCtx)
 		//PanicOnError(err)
+		if lib.IsDisableTransitionError(err) {
+			return t.disableTransition()
+		}
 		t.Process.PanicOnError(stmt.RequireStmt.GetSourceInfo(), fmt.Sprintf("Error checking condition: %s", stmt.RequireStmt.Condition), err)
 		t.Process.updateAllVariablesInScope(vars)
 		if !cond.Truth() {
@@ -825,6 +837,10 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		if stmt.ReturnStmt.PyExpr != "" {
 			symCtx := t.Process.createSymmetryContext()
 			v, err := t.Process.Evaluator.EvalExprWithContext(t.getFileName(), stmt.ReturnStmt.GetExpr(), vars, symCtx)
+			t.Process.saveRotationalLastAllocated(symCtx)
+			if lib.IsDisableTransitionError(err) {
+				return t.disableTransition()
+			}
 			t.Process.PanicOnError(stmt.ReturnStmt.GetSourceInfo(), fmt.Sprintf("Error evaluating expr: %s", stmt.ReturnStmt.PyExpr), err)
 			//PanicOnError(err)
 			val = v
@@ -1045,6 +1061,14 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 	return t.executeEndOfStatement()
 }
 
+// disableTransition abandons the current transition, similar to a require that does not hold.
+func (t *Thread) disableTransition() ([]*Process, bool) {
+	t.Process.Enabled = false
+	t.Process.ThreadProgress = false
+	t.Aborted = true
+	return nil, false
+}
+
 func (t *Thread) getFileName() string {
 	if len(t.Process.Files) != 1 {
 		panic("Only single file execution is supported")
@@ -1156,6 +1180,9 @@ func (t *Thread) executeWhileStatement() ([]*Process, bool) {
 	symCtx := t.Process.createSymmetryContext()
 	cond, err := t.Process.Evaluator.EvalExprWithContext(t.getFileName(), stmt.GetIterExpr(), vars, symCtx)
 	t.Process.saveRotationalLastAllocated(symCtx)
+	if lib.IsDisableTransitionError(err) {
+		return t.disableTransition()
+	}
 	t.Process.PanicOnError(stmt.GetIterExpr().GetSourceInfo(), fmt.Sprintf("Error evaluating expr: %s", stmt.PyExpr), err)
 	//PanicOnError(err)
 	t.Process.updateAllVariablesInScope(vars)
-- 
2.43.0


From b1d67dd4c76d4f1b1c0f3d8f293c6535e4930618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 13/59] fix: keep each branch's own initial values for the
 fields reset by a crash

---
 modelchecker/clone.go     | 11 ++++++++++-
 modelchecker/processor.go | 17 ++++++++++++++++-
 modelchecker/thread.go    |  2 +-
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/modelchecker/clone.go b/modelchecker/clone.go
index 72c1058..5e0a2b7 100644
--- a/modelchecker/clone.go
+++ b/modelchecker/clone.go
@@ -278,6 +278,15 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 			if err != nil {
 				return nil, err
 			}
+			initValues := r.InitValues
+			if permutations == nil && initValues != nil {
+				// Each branch sets these when its Init action ends, so they must not be shared.
+				clonedInit, err := deepCloneStarlarkValueWithPermutations(initValues, refs, permutations, alt)
+				if err != nil {
+					return nil, err
+				}
+				initValues = clonedInit.(*lib.Struct)
+			}
 			newRole := &lib.Role{
 				ID:          id,
 				Name:        prefix,
@@ -286,7 +295,7 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 				Fields:      fields.(*lib.Struct),
 				Methods:     r.Methods,
 				RoleMethods: r.RoleMethods,
-				InitValues:  r.InitValues,
+				InitValues:  initValues,
 			}
 			refs[value] = newRole
 			return newRole, nil
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 9a2c5a6..f298ff5 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -3551,12 +3551,27 @@ func (p *Processor) ResetEphemeralVariables(node *Node, oldRole *lib.Role) {
 	if role == nil {
 		return
 	}
+	roleRefs := node.Process.roleRefs()
 	for _, fieldName := range role.InitValues.AttrNames() {
 		attr, _ := role.InitValues.Attr(fieldName)
-		role.Fields.SetField(fieldName, attr)
+		// The initial value must stay intact when the field is changed later
+		cloned, err := deepCloneStarlarkValue(attr, roleRefs)
+		PanicOnError(err)
+		role.Fields.SetField(fieldName, cloned)
 	}
 }
 
+// roleRefs maps each role to itself, to copy values without copying the roles they refer to.
+func (p *Process) roleRefs() map[starlark.Value]starlark.Value {
+	refs := make(map[starlark.Value]starlark.Value, len(p.Roles))
+	for _, role := range p.Roles {
+		if role != nil {
+			refs[role] = role
+		}
+	}
+	return refs
+}
+
 func (p *Processor) shouldThreadCrash(node *Node) bool {
 	if node.Process.GetThreadsCount() == 0 || node.Process.Current == -1 || !p.config.Options.GetCrashOnYield() {
 		return false
diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index cdae4d0..de396bb 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -1354,7 +1354,7 @@ func (t *Thread) endOfBlock() ([]*Process, bool) {
 
 func (t *Thread) CopyInitValuesForEphemeralFields(oldFrame *CallFrame) {
 	fields := oldFrame.obj.Fields
-	fieldsCloned, err := deepCloneStarlarkValue(fields, nil)
+	fieldsCloned, err := deepCloneStarlarkValue(fields, t.Process.roleRefs())
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From e241fe1fd4cba8ceb1f8c7af4cad2dda5b88e980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 14/59] fix: include the values a crash resets to in the state
 hash

---
 modelchecker/processor.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index f298ff5..b3ca8d3 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -639,6 +639,14 @@ func (p *Process) HashCode() string {
 			panic(err)
 		}
 		h.Write(bytes)
+		// A crash resets the ephemeral fields to these, so they are part of the state as well
+		if role.InitValues != nil && len(role.InitValues.AttrNames()) > 0 {
+			bytes, err = role.InitValues.MarshalJSON()
+			if err != nil {
+				panic(err)
+			}
+			h.Write(bytes)
+		}
 	}
 	// hash the heap variables as well
 	heapHash := p.Heap.HashCode()
-- 
2.43.0


From f11d2cb272b1135c359251999ede1ceb96019c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 15/59] fix: do not let a transition assertion change the
 explored state before the transition

The assertion got the live variables of the parent state, so changing a
mutable value in it changed the stored state and what later checks saw.
---
 modelchecker/invariants.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index d6104ac..0d49468 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -227,7 +227,9 @@ func CheckTransitionAssertion(process *Process, invariant *ast.Invariant, index
 	}
 	cloned := process.CloneForAssert(nil, 0)
 	cloned.Heap.state[afterParam] = starlarkstruct.FromStringDict(starlark.String(afterParam), cloned.Heap.state)
-	cloned.Heap.state[beforeParam] = starlarkstruct.FromStringDict(starlark.String(beforeParam), process.Parent.Heap.state)
+	// Like the state after the transition, the assertion gets its own copy of the state before it.
+	before := process.Parent.Heap.Clone(make(map[starlark.Value]starlark.Value), nil, 0)
+	cloned.Heap.state[beforeParam] = starlarkstruct.FromStringDict(starlark.String(beforeParam), before.state)
 
 	return execAssertionFunction(cloned, index, invariant)
 }
-- 
2.43.0


From b7c1b4055d57573a0d81b15e6d4ce20b4448af76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 16/59] fix: composition and refinement consider the
 transitions of every yield point through a shared intermediate node

---
 main.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 58b645c..0a67930 100644
--- a/main.go
+++ b/main.go
@@ -498,7 +498,10 @@ func ParseFunctionRef(input string) (string, string, error) {
 }
 
 func populateJoinHashes(joinHashes modelchecker.JoinHashes, i int, root *modelchecker.Node, fileRef string, fnRef string) {
-	visited := make(map[*modelchecker.Node]bool)
+	// An intermediate node can be reached from several yield points; each of them has its own
+	// transitions through that node, so it must be traversed once for each of them.
+	type visit struct{ from, node *modelchecker.Node }
+	visited := make(map[visit]bool)
 
 	var dfs func(from *modelchecker.Node, current *modelchecker.Node)
 	dfs = func(from *modelchecker.Node, current *modelchecker.Node) {
@@ -506,10 +509,14 @@ func populateJoinHashes(joinHashes modelchecker.JoinHashes, i int, root *modelch
 		if from != nil && current.IsYieldNode() {
 			addToJoinHashes(joinHashes, i, from, current, fnRef)
 		}
-		if visited[current] {
+		key := visit{from: from, node: current}
+		if current.IsYieldNode() {
+			key.from = nil
+		}
+		if visited[key] {
 			return
 		}
-		visited[current] = true
+		visited[key] = true
 
 		if current.IsYieldNode() {
 			// Add stuttering (to, to) link for new Nodes discovered
-- 
2.43.0


From c97296c60491f9d3c81a286464719b557575bce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:34 +0000
Subject: [PATCH 17/59] fix: a failed refinement check is not lost when other
 branches of the action are still pending

---
 modelchecker/processor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index b3ca8d3..ff7d5e1 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2365,6 +2365,8 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 		if len(node.Process.Files[0].Refinements) > 0 {
 			result := CheckRefinement(node.Process, p.Files[0].Refinements[0], p.hashes)
 			if !result {
+				node.Attach()
+				p.intermediateStates.ClearAll()
 				return true, false
 			}
 		}
-- 
2.43.0


From edc192cff1f715150b471908c439b03d8ab14a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 18/59] fix: --experimental_no_graph does not report a deadlock
 when the successors were already visited

---
 modelchecker/processor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index ff7d5e1..4af21a3 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2389,6 +2389,9 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 		// in no_graph mode we don't keep the existing Node to compare.
 		if found {
 			// Pure dedup hit; the current node won't be retained either.
+			// It is a live successor all the same (see the early deadlock
+			// detector in startProcessedQueue Phase 2).
+			p.dedupHitsInExpansion++
 			return false, false
 		}
 		p.visited[canonicalHash] = nil
-- 
2.43.0


From 9132945ef174e42e65129c054093b5b4d3454733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:44 +0000
Subject: [PATCH 19/59] fix: --experimental_no_graph checks the exists
 assertions

---
 main.go                   | 22 ++++++++++++++++------
 modelchecker/processor.go | 27 +++++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/main.go b/main.go
index 0a67930..d2f757d 100644
--- a/main.go
+++ b/main.go
@@ -787,6 +787,9 @@ func modelCheckSingleSpec(f *ast.File, stateConfig *ast.StateSpaceOptions, dirPa
 				fmt.Println("Model checker stopped")
 				return nil
 			}
+			if guidedTrace == nil && reportUnsatisfiedExists(f, modelchecker.CheckSimpleExistsWitness(p1.GetWitnessNodes())) {
+				return nil
+			}
 			fmt.Println("PASSED: Model checker completed successfully")
 			return rootNode
 		}
@@ -826,12 +829,7 @@ func modelCheckSingleSpec(f *ast.File, stateConfig *ast.StateSpaceOptions, dirPa
 				// failure short-circuit here would also skip writing the
 				// nodes/links pb files, which the trace consumer needs.
 				if guidedTrace == nil {
-					invariants := modelchecker.CheckSimpleExistsWitness(nodes)
-					if len(invariants) > 0 {
-						fmt.Println("\nFAILED: Expected states never reached")
-						for i2, invariant := range invariants {
-							fmt.Printf("Invariant %d: %s\n", i2, f.Invariants[invariant.InvariantIndex].Name)
-						}
+					if reportUnsatisfiedExists(f, modelchecker.CheckSimpleExistsWitness(nodes)) {
 						if !isTest {
 							fmt.Println("Time taken to check invariant: ", time.Now().Sub(endTime))
 						}
@@ -923,6 +921,18 @@ func modelCheckSingleSpec(f *ast.File, stateConfig *ast.StateSpaceOptions, dirPa
 	return nil
 }
 
+// reportUnsatisfiedExists prints the exists assertions that have no witness, and returns whether there are any.
+func reportUnsatisfiedExists(f *ast.File, invariants []*modelchecker.InvariantPosition) bool {
+	if len(invariants) == 0 {
+		return false
+	}
+	fmt.Println("\nFAILED: Expected states never reached")
+	for i, invariant := range invariants {
+		fmt.Printf("Invariant %d: %s\n", i, f.Invariants[invariant.InvariantIndex].Name)
+	}
+	return true
+}
+
 func writeCommunicationFileIfNeeded(messages []string, outDir string) bool {
 	if len(messages) > 0 && !simulation {
 		graphDot := modelchecker.GenerateCommunicationGraph(messages)
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 4af21a3..212b5bf 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1237,6 +1237,32 @@ type Processor struct {
 	// Used by no-graph mode to report "Unique states" without the in-memory
 	// graph traversal (markovchain's yieldsCount).
 	uniqueYieldCount int
+
+	// witnessNodes: in no-graph mode, the first yield-point found to witness
+	// each of the assertions, so that the exists assertions can be checked
+	// without the graph.
+	witnessNodes []*Node
+}
+
+// GetWitnessNodes returns the initial node and the yield-points that witness
+// the satisfied assertions in no-graph mode.
+func (p *Processor) GetWitnessNodes() []*Node {
+	return append([]*Node{p.Init}, p.witnessNodes...)
+}
+
+// recordWitness remembers node if it is the first one to witness some
+// assertion. No-op outside no_graph mode.
+func (p *Processor) recordWitness(node *Node) {
+	if !p.experimentalNoGraph {
+		return
+	}
+	for i, witness := range node.Process.Witness {
+		for j, satisfied := range witness {
+			if satisfied && !slices.ContainsFunc(p.witnessNodes, func(n *Node) bool { return n.Process.Witness[i][j] }) {
+				p.witnessNodes = append(p.witnessNodes, node)
+			}
+		}
+	}
 }
 
 // GetEarlyDeadlock returns the first deadlocked yield-point detected during
@@ -2424,6 +2450,7 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	var failedInvariants map[int][]int
 	if yield {
 		failedInvariants = CheckInvariantsWithProber(node.Process, p.makeProber(node.Process))
+		p.recordWitness(node)
 	}
 	if len(failedInvariants[0]) > 0 {
 		//panic(fmt.Sprintf("Invariant failed: %v", failedInvariants))
-- 
2.43.0


From 147f69cddd85634211af6fb848358152de8935a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:44 +0000
Subject: [PATCH 20/59] fix: --experimental_no_graph refuses liveness
 assertions declared in the older form

---
 main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.go b/main.go
index d2f757d..218f98a 100644
--- a/main.go
+++ b/main.go
@@ -71,6 +71,10 @@ func main() {
 	// always-eventually / eventually-always / eventually invariants.
 	if experimentalNoGraph {
 		for _, inv := range f.Invariants {
+			if inv.GetEventually() {
+				fmt.Printf("--experimental_no_graph refused: spec declares liveness invariant '%s'. The no-graph mode keeps no state graph, so cycle-based liveness checks cannot run.\n", inv.Name)
+				os.Exit(1)
+			}
 			for _, op := range inv.TemporalOperators {
 				if op == "eventually" || op == "always-eventually" || op == "eventually-always" {
 					fmt.Printf("--experimental_no_graph refused: spec declares liveness invariant '%s' (operator '%s'). The no-graph mode keeps no state graph, so cycle-based liveness checks cannot run.\n", inv.Name, op)
-- 
2.43.0


From 7f64ca74b63e9834edc5582a9333f5d7af5493d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 21/59] fix: an assertion that fails after a thread crash is
 reported

---
 modelchecker/processor.go | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 212b5bf..dbcc056 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1232,6 +1232,10 @@ type Processor struct {
 	// visited state — a live transition that wouldn't grow the queue.)
 	dedupHitsInExpansion int
 
+	// threadCrashFailure: the first node of a crashed thread (crashThread)
+	// at which an assertion failed, until the caller of processNode takes it.
+	threadCrashFailure *Node
+
 	// uniqueYieldCount: incremented each time publishYieldPoint records a
 	// NEW yield-point (after dedup, so duplicates do not double-count).
 	// Used by no-graph mode to report "Unique states" without the in-memory
@@ -1615,6 +1619,14 @@ func (p *Processor) expandToYield(node *Node, startTime time.Time, prevCount *in
 		if p.guidedTrace != nil {
 			p.visited = make(map[string]*Node)
 		}
+		if crashed := p.takeThreadCrashFailure(); crashed != nil {
+			if crashFailedNode == nil {
+				crashFailedNode = crashed
+			}
+			if !p.config.ContinueOnInvariantFailures {
+				break
+			}
+		}
 
 		// no_graph mode disables crash simulation: crashRole/crashThread
 		// rely on visited/Attach/Inbound to register the crash variant in
@@ -2184,6 +2196,10 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 				}
 			}
 			invariantFailure, symmetryFound = p.processNode(node)
+			if crashed := p.takeThreadCrashFailure(); crashed != nil && !invariantFailure {
+				node = crashed
+				invariantFailure = true
+			}
 			if invariantFailure {
 				break
 			}
@@ -2618,6 +2634,13 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 	return crashNode, nil
 }
 
+// takeThreadCrashFailure returns and forgets the failure recorded by crashThread.
+func (p *Processor) takeThreadCrashFailure() *Node {
+	failed := p.threadCrashFailure
+	p.threadCrashFailure = nil
+	return failed
+}
+
 func (p *Processor) crashThread(node *Node) {
 	crashFork := node.Process.Fork()
 	crashFork.Name = "crash"
@@ -2626,9 +2649,17 @@ func (p *Processor) crashThread(node *Node) {
 	if !p.ShouldScheduleNode(crashNode) {
 		return
 	}
-	// TODO: We could just copy the failed invariants from the parent
-	// instead of checking again
-	CheckInvariantsWithProber(crashFork, p.makeProber(crashFork))
+	failedInvariants := CheckInvariantsWithProber(crashFork, p.makeProber(crashFork))
+	if len(failedInvariants[0]) > 0 {
+		crashNode.Process.FailedInvariants = failedInvariants
+		if p.threadCrashFailure == nil {
+			p.threadCrashFailure = crashNode
+		}
+		if !p.config.ContinuePathOnInvariantFailures {
+			crashNode.Attach()
+			return
+		}
+	}
 	if node.Process.Enabled {
 		crashNode.Enable()
 	}
-- 
2.43.0


From 3d4d607a10bfba5d718db9fb2bb472af92c35e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 22/59] fix: composition does not take a change of role fields
 for stuttering

---
 main.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 218f98a..8277e65 100644
--- a/main.go
+++ b/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
 	ast "fizz/proto"
@@ -394,7 +395,7 @@ func ComposeTransitions(f *ast.File, joinHashes modelchecker.JoinHashes, roots [
 			// Check if all transitions are stuttering
 			allStuttering := true
 			for _, t := range ts {
-				if t.First.Heap.HashCode() != t.Second.Heap.HashCode() {
+				if !isStuttering(t.First, t.Second) {
 					allStuttering = false
 					break
 				}
@@ -466,6 +467,24 @@ func ComposeTransitions(f *ast.File, joinHashes modelchecker.JoinHashes, roots [
 	return nil
 }
 
+// isStuttering tells whether a transition changes no variable: neither a global one nor a field of a role,
+// which the heap contains only as a reference.
+func isStuttering(from, to *modelchecker.Node) bool {
+	if from.Heap.HashCode() != to.Heap.HashCode() || len(from.Roles) != len(to.Roles) {
+		return false
+	}
+	for i, role := range from.Roles {
+		before, err := role.MarshalJSON()
+		modelchecker.PanicOnError(err)
+		after, err := to.Roles[i].MarshalJSON()
+		modelchecker.PanicOnError(err)
+		if !bytes.Equal(before, after) {
+			return false
+		}
+	}
+	return true
+}
+
 func printComposedTransition(composed *ComposedTransition) {
 	fmt.Printf("Composed transition: ")
 	for i := range composed.From.Nodes {
-- 
2.43.0


From 4b01ebd3ca286434712178df178e6892e08e213e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:30 +0000
Subject: [PATCH 23/59] fix: each call of next_states() gets its own copy of
 the successor states

---
 modelchecker/invariants.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index 0d49468..fc932d8 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -166,6 +166,9 @@ func CheckAssertion(process *Process, invariant *ast.Invariant, index int, probe
 					if tr.Action != "" {
 						action = starlark.String(tr.Action)
 					}
+					// The transitions are shared by all assertions on this state,
+					// so each call gets its own copy of the successor's variables.
+					state := tr.State.Heap.Clone(make(map[starlark.Value]starlark.Value), nil, 0)
 					// Field names deliberately avoid fizz grammar keywords:
 					// `action` and `role` are reserved words, so `n.action`
 					// would not parse in a spec. Hence action_name / role_ref.
@@ -175,7 +178,7 @@ func CheckAssertion(process *Process, invariant *ast.Invariant, index int, probe
 						"role_ref":    role,
 						"role_id":     roleId,
 						"action_name": action,
-						"state":       starlarkstruct.FromStringDict(starlark.String("state"), tr.State.Heap.state),
+						"state":       starlarkstruct.FromStringDict(starlark.String("state"), state.state),
 					}))
 				}
 				return starlark.NewList(elems), nil
-- 
2.43.0


From bf90703d69e73056bc6fef13b0abb864a4ce0289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:33 +0000
Subject: [PATCH 24/59] fix: an assertion expression gets its own copy of the
 returned values

---
 modelchecker/invariants.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index fc932d8..f6b895e 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -127,7 +127,7 @@ func CheckInvariant(process *Process, invariant *ast.Invariant) bool {
 	}
 	ref := make(map[starlark.Value]starlark.Value)
 	vars := CloneDict(process.Heap.state, ref, nil, 0)
-	vars["__returns__"] = NewDictFromStringDict(process.Returns)
+	vars["__returns__"] = NewDictFromStringDict(CloneDict(process.Returns, ref, nil, 0))
 	symCtx := process.createSymmetryContext()
 	cond, err := process.Evaluator.EvalPyExprWithContext(process.Files[0].GetSourceInfo().GetFileName(), pyExpr, vars, symCtx)
 	PanicOnError(err)
-- 
2.43.0


From 9a0381352a4825125ccf711d98bbdce6a2ae8cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:03 +0000
Subject: [PATCH 25/59] fix: a return statement in Init lost the state
 variables

The variables assigned by the Init action became state variables only when its
block ran to the end; after an explicit return every later access failed.
---
 modelchecker/thread.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index de396bb..3c3bb72 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -850,6 +850,9 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		fileAst := t.currentFileAst()
 		action := GetProtoFieldByPath(fileAst, actionPath)
 		oldFrame := t.popFrame()
+		if init, ok := action.(*ast.Action); ok && init.Name == "Init" {
+			t.insertTopLevelVars(oldFrame.scope)
+		}
 		if t.Stack.Len() == 0 {
 			//t.Process.removeCurrentThread()
 			if val != starlark.None {
@@ -1278,16 +1281,7 @@ func (t *Thread) endOfBlock() ([]*Process, bool) {
 
 			if action, ok := protobuf.(*ast.Action); ok {
 				if action.Name == "Init" {
-					roleRefs := make(map[starlark.Value]starlark.Value)
-					for _, role := range t.Process.Roles {
-						roleRefs[role] = role
-					}
-					variables := oldScope.GetAllVisibleVariables(roleRefs)
-					for s, value := range variables {
-						if !t.Process.Heap.globals.Has(s) && slices.Contains(t.Process.topLevelVars, s) {
-							t.Process.Heap.insert(s, value)
-						}
-					}
+					t.insertTopLevelVars(oldScope)
 				}
 			}
 			isRole := false
@@ -1352,6 +1346,20 @@ func (t *Thread) endOfBlock() ([]*Process, bool) {
 	return nil, false
 }
 
+// insertTopLevelVars makes the variables assigned by the Init action the state variables.
+func (t *Thread) insertTopLevelVars(scope *Scope) {
+	roleRefs := make(map[starlark.Value]starlark.Value)
+	for _, role := range t.Process.Roles {
+		roleRefs[role] = role
+	}
+	variables := scope.GetAllVisibleVariables(roleRefs)
+	for s, value := range variables {
+		if !t.Process.Heap.globals.Has(s) && slices.Contains(t.Process.topLevelVars, s) {
+			t.Process.Heap.insert(s, value)
+		}
+	}
+}
+
 func (t *Thread) CopyInitValuesForEphemeralFields(oldFrame *CallFrame) {
 	fields := oldFrame.obj.Fields
 	fieldsCloned, err := deepCloneStarlarkValue(fields, t.Process.roleRefs())
-- 
2.43.0


From ae5b1760236a2bc3fe9ff65b1f98a827fe69601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:10 +0000
Subject: [PATCH 26/59] fix: a role whose Init returns explicitly kept its
 ephemeral fields in a crash

The values a crash resets the ephemeral fields to were recorded only when the
block of the role's Init ran to the end.
---
 modelchecker/thread.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 3c3bb72..792fa59 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -853,6 +853,11 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		if init, ok := action.(*ast.Action); ok && init.Name == "Init" {
 			t.insertTopLevelVars(oldFrame.scope)
 		}
+		if _, ok := action.(*ast.Role); ok {
+			if init, ok := GetProtoFieldByPath(fileAst, pathComp[0]+"."+pathComp[1]).(*ast.Action); ok && init.Name == "Init" {
+				t.CopyInitValuesForEphemeralFields(oldFrame)
+			}
+		}
 		if t.Stack.Len() == 0 {
 			//t.Process.removeCurrentThread()
 			if val != starlark.None {
-- 
2.43.0


From 760994314fa61555d9ff147a461f3a728a54ee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:28 +0000
Subject: [PATCH 27/59] fix: an any, if, for or while statement directly inside
 a oneof or parallel block panicked or ran forever

---
 modelchecker/protopath.go |  4 ++--
 modelchecker/thread.go    | 17 +++++++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/modelchecker/protopath.go b/modelchecker/protopath.go
index a282779..d2dc9e5 100644
--- a/modelchecker/protopath.go
+++ b/modelchecker/protopath.go
@@ -224,7 +224,7 @@ func replaceLastStmts(input, replacement string) string {
 		return input
 	}
 
+	// Whatever follows is inside of the statement that is replaced.
 	lastMatch := matches[len(matches)-1]
-	result := input[:lastMatch[0]] + replacement + input[lastMatch[1]:]
-	return result
+	return input[:lastMatch[0]] + replacement
 }
diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 792fa59..38c7fbb 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -1217,6 +1217,11 @@ func removeElement[T any](slice []T, index int) []T {
 func (t *Thread) executeEndOfStatement() ([]*Process, bool) {
 	enabled := t.Process.Enabled
 	currentFrame := t.currentFrame()
+	if strings.HasSuffix(currentFrame.pc, ".AnyStmt") {
+		// The block of the any statement ended, so what ends is the any statement itself.
+		currentFrame.scope = currentFrame.scope.parent
+		currentFrame.pc = RemoveLastSegment(currentFrame.pc, ".AnyStmt")
+	}
 	switch currentFrame.scope.flow {
 	case ast.Flow_FLOW_ATOMIC:
 		currentFrame.pc = t.FindNextProgramCounter()
@@ -1225,11 +1230,15 @@ func (t *Thread) executeEndOfStatement() ([]*Process, bool) {
 		currentFrame.pc = t.FindNextProgramCounter()
 		return nil, enabled
 	case ast.Flow_FLOW_ONEOF:
+		// An iteration ended, the loop itself did not.
+		if isLoopPath(t.currentPc()) {
+			return nil, false
+		}
 		currentFrame.pc = EndOfBlock(t.currentPc())
 		return nil, false
 	case ast.Flow_FLOW_PARALLEL:
-		// if currentPc ends with .ForStmt do not execute end of statement.
-		if strings.HasSuffix(t.currentPc(), ".ForStmt") {
+		// if currentPc is that of a loop do not execute end of statement.
+		if isLoopPath(t.currentPc()) {
 			return nil, enabled
 		}
 		blockPath := ParentBlockPath(t.currentPc())
@@ -1261,6 +1270,10 @@ func (t *Thread) executeEndOfStatement() ([]*Process, bool) {
 	}
 }
 
+func isLoopPath(pc string) bool {
+	return strings.HasSuffix(pc, ".ForStmt") || strings.HasSuffix(pc, ".WhileStmt")
+}
+
 // executeEndOfBlock ends the current block and reports whether the thread yields.
 func (t *Thread) executeEndOfBlock() bool {
 	_, yield := t.endOfBlock()
-- 
2.43.0


From 34dff104b31c4754d7847dab88224068c9d8cb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 28/59] fix: break and continue inside an any statement left
 its scope behind

---
 modelchecker/thread.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 38c7fbb..4bdbb22 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -798,6 +798,10 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		for !(strings.HasSuffix(currentFrame.pc, ".ForStmt") || strings.HasSuffix(currentFrame.pc, ".WhileStmt")) {
 			currentFrame.pc = RemoveLastBlock(currentFrame.pc)
 			currentFrame.scope = currentFrame.scope.parent
+			if strings.HasSuffix(currentFrame.pc, ".AnyStmt") {
+				// The any statement has a scope in addition to that of its block
+				currentFrame.scope = currentFrame.scope.parent
+			}
 		}
 		currentFrame.scope = currentFrame.scope.parent
 		currentFrame.pc = RemoveLastLoop(currentFrame.pc)
@@ -810,6 +814,10 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 				break
 			}
 			currentFrame.scope = currentFrame.scope.parent
+			if strings.HasSuffix(currentFrame.pc, ".AnyStmt") {
+				// The any statement has a scope in addition to that of its block
+				currentFrame.scope = currentFrame.scope.parent
+			}
 		}
 		currentFrame.pc = currentFrame.pc + ".Block.$"
 		return nil, false
-- 
2.43.0


From b767f25c39bdb9b6361ded90e3a7b6c48703a4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 29/59] fix: a choice that ends the action without further
 statements was dropped as disabled

---
 modelchecker/processor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index dbcc056..41f6278 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2067,7 +2067,9 @@ func (p *Processor) probeNextStates(process *Process) []*NextTransition {
 			seenIntermediate[h] = true
 			if !yield {
 				for _, fork := range forks {
-					stack = append(stack, n.ForkForAlternatePaths(fork, fork.Name))
+					newNode := n.ForkForAlternatePaths(fork, fork.Name)
+					newNode.Enabled = newNode.Enabled || n.Enabled
+					stack = append(stack, newNode)
 				}
 				continue
 			}
@@ -2480,6 +2482,8 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	if !yield {
 		for _, fork := range forks {
 			newNode := node.ForkForAlternatePaths(fork, fork.Name)
+			// What was executed before the choice counts for each of its alternatives.
+			newNode.Enabled = newNode.Enabled || node.Enabled
 			if p.ShouldScheduleNode(newNode) {
 				// Intermediate forks carry choice information in fork.Name:
 				// "Stmt:N" / "Any:var=value" / "For:value" / "checkpoint".
-- 
2.43.0


From fc15ab0abaa5a72d4cd0cbdb0dd0bd8acafa84f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:36 +0000
Subject: [PATCH 30/59] fix: pass and any assignments inside a oneof or
 parallel block continued with the next statement

---
 modelchecker/thread.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 4bdbb22..96ceb79 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -597,7 +597,7 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 	if stmt.PyStmt != nil {
 		if stmt.PyStmt.GetCode() == "pass" {
 			t.Process.Enable()
-			t.currentFrame().pc = t.FindNextProgramCounter()
+			t.endWithoutYield()
 			return nil, false
 		}
 		vars := t.Process.GetAllVariablesNocopy()
@@ -736,7 +736,7 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 			if stmt.AnyStmt.Block != nil {
 				fork.currentThread().currentFrame().pc = fmt.Sprintf("%s.AnyStmt.Block", currentFrame.pc)
 			} else {
-				fork.currentThread().currentFrame().pc = t.FindNextProgramCounter()
+				fork.currentThread().endWithoutYield()
 			}
 			forks = append(forks, fork)
 		}
@@ -1077,6 +1077,22 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 	return t.executeEndOfStatement()
 }
 
+// endWithoutYield continues after a statement that is not a yield point of a serial block,
+// an any statement without a block or pass.
+func (t *Thread) endWithoutYield() {
+	currentFrame := t.currentFrame()
+	switch currentFrame.scope.flow {
+	case ast.Flow_FLOW_ONEOF:
+		currentFrame.pc = EndOfBlock(currentFrame.pc)
+	case ast.Flow_FLOW_PARALLEL:
+		// The other statements of the block follow as they do after a nested block, here an empty one.
+		t.InsertNewScope()
+		currentFrame.pc = currentFrame.pc + ".Block.$"
+	default:
+		currentFrame.pc = t.FindNextProgramCounter()
+	}
+}
+
 // disableTransition abandons the current transition, similar to a require that does not hold.
 func (t *Thread) disableTransition() ([]*Process, bool) {
 	t.Process.Enabled = false
-- 
2.43.0


From b85fc72b7d609beab49cf74f5a14655b0847e4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:45 +0000
Subject: [PATCH 31/59] fix: a message handler that returns a value panicked

---
 modelchecker/thread.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 96ceb79..d0a9670 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -878,8 +878,10 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 					t.Process.Returns[convertToFunction(function).Name] = val
 				} else if _, ok := action.(*ast.Role); ok {
 					actionPath = pathComp[0] + "." + pathComp[1]
-					action1 = GetProtoFieldByPath(fileAst, actionPath).(*ast.Action)
-					t.Process.Returns[oldFrame.obj.RefStringShort()+"."+convertToAction(action1).Name] = val
+					// A function is not an action that returns: it handled a message, nobody waits for the value.
+					if action1, ok := GetProtoFieldByPath(fileAst, actionPath).(*ast.Action); ok {
+						t.Process.Returns[oldFrame.obj.RefStringShort()+"."+convertToAction(action1).Name] = val
+					}
 					t.Process.Enable()
 				} else {
 					panic(fmt.Sprintf("Unknown protobuf type: %T, value %v at path %s", action, action, currentFrame.pc))
-- 
2.43.0


From ca5f729fbb03b0530d23acd1d471ab63d41bba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:40 +0000
Subject: [PATCH 32/59] fix: a require that does not hold in an assertion made
 the checker loop forever

---
 modelchecker/invariants.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index f6b895e..2d04360 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -208,6 +208,9 @@ func execFunctionBlock(cloned *Process, name string, pc string) starlark.Value {
 	assertThread.currentFrame().Name = name
 	for {
 		forks, _ := assertThread.Execute()
+		if assertThread.Aborted {
+			panic(fmt.Sprintf("Assertion %s did not return a value: a require did not hold or nothing was left to choose", name))
+		}
 		if cloned.GetThreadsCount() <= numThreads {
 			return cloned.Returns[name]
 		}
-- 
2.43.0


From 78b82346b0726f180fc7286adcd88f971f25e721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:49 +0000
Subject: [PATCH 33/59] fix: values of a materialized ordinal or interval
 domain were merged with each other

---
 modelchecker/processor.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 41f6278..f9a4579 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2932,7 +2932,22 @@ func getSymmetryPermutations(process *Process) (*Process, map[starlark.Value]sta
 				canonical[j] = lib.NewSymmetricValueWithKind(prefix, int64(j), kind)
 			}
 
-			if kind == lib.SymmetryKindOrdinal {
+			if domain := domainMap[prefix]; domain != nil && domain.Materialize &&
+				(kind == lib.SymmetryKindOrdinal || kind == lib.SymmetryKindInterval) {
+				// All the values of the domain exist, so values(), min() and max() tell apart what squashing
+				// the ranks or shifting would merge: only the reflection maps the domain to itself.
+				same := make([]*lib.SymmetricValue, len(used))
+				mirrored := make([]*lib.SymmetricValue, len(used))
+				for j, v := range used {
+					same[j] = lib.NewSymmetricValueWithKind(prefix, v.GetId(), kind)
+					mirrored[j] = lib.NewSymmetricValueWithKind(prefix, int64(2*domain.Start+domain.Limit-1)-v.GetId(), kind)
+				}
+				postProcessingMappings = append(postProcessingMappings, staticMapping{used: used, canonical: same})
+				if domain.Reflection {
+					extraMappingForPost[len(postProcessingMappings)-1] = len(rotationalExtraMappings)
+					rotationalExtraMappings = append(rotationalExtraMappings, []staticMapping{{used: used, canonical: mirrored}})
+				}
+			} else if kind == lib.SymmetryKindOrdinal {
 				domain := domainMap[prefix]
 				if domain != nil && domain.Reflection {
 					// Ordinal with reflection: forward (0..N-1) and reverse (N-1..0)
-- 
2.43.0


From d6f3ee68425e1c4e880dd5c8bbacf4fd9b01dc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:55 +0000
Subject: [PATCH 34/59] fix: segments of an ordinal domain kept their concrete
 ids while states were compared under a permutation

---
 modelchecker/clone.go     |  1 +
 modelchecker/processor.go | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/modelchecker/clone.go b/modelchecker/clone.go
index 5e0a2b7..918f622 100644
--- a/modelchecker/clone.go
+++ b/modelchecker/clone.go
@@ -192,6 +192,7 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 			IsHead: s.IsHead,
 			IsTail: s.IsTail,
 		}
+		refs[value] = newSegment
 		return newSegment, nil
 	case "genericset":
 		s := value.(*lib.GenericSet)
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index f9a4579..d495c3f 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2774,6 +2774,23 @@ func (p *Process) symmetricHashWithoutClone(refs map[starlark.Value]starlark.Val
 		}
 	}
 
+	// A segment holds the ids of the values it lies between.
+	origSegments := make(map[*lib.Segment]lib.Segment)
+	for _, val := range refs {
+		seg, ok := val.(*lib.Segment)
+		if !ok {
+			continue
+		}
+		origSegments[seg] = *seg
+		mapping := refMappings[seg.Domain.Name]
+		if newId, found := mapping[seg.Left]; found && !seg.IsHead {
+			seg.Left = newId
+		}
+		if newId, found := mapping[seg.Right]; found && !seg.IsTail {
+			seg.Right = newId
+		}
+	}
+
 	// 3. (Removed explicit Role mutation loop as Roles now hold the same SymmetricValue pointers)
 
 	// 3b. Repair Starlark Dicts
@@ -2844,6 +2861,9 @@ func (p *Process) symmetricHashWithoutClone(refs map[starlark.Value]starlark.Val
 	for sv, oldId := range origSymVals {
 		sv.SetId(oldId)
 	}
+	for seg, orig := range origSegments {
+		*seg = orig
+	}
 	// No need to restore explicit Role refs
 
 	// Repair Dicts again to restore original state validity
-- 
2.43.0


From 0de8ca5ff1d1a43aa0a0417fe3ff3ec1339dab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:29 +0000
Subject: [PATCH 35/59] fix: a segment of a materialized ordinal domain handed
 out a value that does not exist

fresh() is documented to be refused on a materialized domain, because all
of its values exist from the start; Segment.fresh() allocated a further one
outside the domain.
---
 lib/symmetry.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/symmetry.go b/lib/symmetry.go
index 4fcbcc7..05916e3 100644
--- a/lib/symmetry.go
+++ b/lib/symmetry.go
@@ -384,6 +384,10 @@ func (s *Segment) fresh(thread *starlark.Thread, _ *starlark.Builtin, args starl
 		return nil, err
 	}
 
+	if s.Domain.Materialize {
+		return nil, fmt.Errorf("fresh() not allowed on materialized domain %q — all values already exist", s.Domain.Name)
+	}
+
 	// Check Limit
 	// We need to check the domain limit via context
 	ctxVal := thread.Local(SymmetryContextKey)
-- 
2.43.0


From f979d4136c155c0e507d31760e202bf747eb3140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:58 +0000
Subject: [PATCH 36/59] fix: a failure found before the end of a guided trace
 is reported

---
 main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 8277e65..84f9a62 100644
--- a/main.go
+++ b/main.go
@@ -817,8 +817,8 @@ func modelCheckSingleSpec(f *ast.File, stateConfig *ast.StateSpaceOptions, dirPa
 			return rootNode
 		}
 
-		// Check if trace was fully executed
-		if guidedTrace != nil && !guidedTrace.IsExhausted() {
+		// Check if trace was fully executed, unless a failure ended it
+		if failedNode == nil && guidedTrace != nil && !guidedTrace.IsExhausted() {
 			fmt.Printf("WARNING: Trace execution incomplete. Expected %d links, executed %d links.\n",
 				len(guidedTrace.LinkNames), guidedTrace.GetCurrentIndex())
 			fmt.Println("The trace may contain links that don't match the model or are unreachable.")
-- 
2.43.0


From 2ca5e40afbdd3d911f7e6d23baf4a6fa635954ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:58 +0000
Subject: [PATCH 37/59] fix: an incomplete guided trace does not pass in
 no-graph mode

---
 main.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/main.go b/main.go
index 84f9a62..cc08fef 100644
--- a/main.go
+++ b/main.go
@@ -785,6 +785,14 @@ func modelCheckSingleSpec(f *ast.File, stateConfig *ast.StateSpaceOptions, dirPa
 			printTraceAndExit(err)
 		}
 
+		// Check if trace was fully executed, unless a failure ended it
+		if failedNode == nil && guidedTrace != nil && !guidedTrace.IsExhausted() {
+			fmt.Printf("WARNING: Trace execution incomplete. Expected %d links, executed %d links.\n",
+				len(guidedTrace.LinkNames), guidedTrace.GetCurrentIndex())
+			fmt.Println("The trace may contain links that don't match the model or are unreachable.")
+			return nil
+		}
+
 		// In no-graph mode there's no in-memory state graph to walk for
 		// dot generation, exists-witness checking, liveness, or deadlock
 		// detection via traverseBFS. Print a minimal summary and return.
@@ -817,14 +825,6 @@ func modelCheckSingleSpec(f *ast.File, stateConfig *ast.StateSpaceOptions, dirPa
 			return rootNode
 		}
 
-		// Check if trace was fully executed, unless a failure ended it
-		if failedNode == nil && guidedTrace != nil && !guidedTrace.IsExhausted() {
-			fmt.Printf("WARNING: Trace execution incomplete. Expected %d links, executed %d links.\n",
-				len(guidedTrace.LinkNames), guidedTrace.GetCurrentIndex())
-			fmt.Println("The trace may contain links that don't match the model or are unreachable.")
-			return nil
-		}
-
 		//fmt.Println("root", root)
 		if failedNode == nil {
 			var failurePath []*modelchecker.Link
-- 
2.43.0


From 9afe6e617c6b696044d063c0e6631d97d76c49d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:58 +0000
Subject: [PATCH 38/59] fix: a stopped search does not fail for exists
 assertions it had no time to reach

---
 main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index cc08fef..b82a59a 100644
--- a/main.go
+++ b/main.go
@@ -851,7 +851,8 @@ func modelCheckSingleSpec(f *ast.File, stateConfig *ast.StateSpaceOptions, dirPa
 				// invariants legitimately can't be satisfied yet. Letting the
 				// failure short-circuit here would also skip writing the
 				// nodes/links pb files, which the trace consumer needs.
-				if guidedTrace == nil {
+				// The same goes for a search that was stopped.
+				if guidedTrace == nil && !p1.Stopped() {
 					if reportUnsatisfiedExists(f, modelchecker.CheckSimpleExistsWitness(nodes)) {
 						if !isTest {
 							fmt.Println("Time taken to check invariant: ", time.Now().Sub(endTime))
-- 
2.43.0


From 0cc2f6a4cec151fe2f56e18ef2c4b75a5860d3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:30 +0000
Subject: [PATCH 39/59] fix: deadlocks are judged by the states a step leads
 to, also where states are shared

A state in the middle of an action that several states lead to was only
counted for the first of them: for the others, a step that goes on was
overlooked (a deadlock was reported where there is none), and so was a
dead end (no deadlock was reported where there is one).
---
 modelchecker/markovchain.go | 88 ++++++++++++++++++++-----------------
 1 file changed, 47 insertions(+), 41 deletions(-)

diff --git a/modelchecker/markovchain.go b/modelchecker/markovchain.go
index e7c092e..cc02aa6 100644
--- a/modelchecker/markovchain.go
+++ b/modelchecker/markovchain.go
@@ -484,39 +484,61 @@ func traverseDFS(node *Node, visited map[*Node]bool, result *[]*Node, yield *int
 	}
 }
 
+// isBetweenActions tells whether no action is being executed in the node.
+func isBetweenActions(node *Node) bool {
+	return node.Name == "yield" || node.Name == "init" || node.Name == "crash"
+}
+
+// isDeadlocked tells whether some way on from the node, which is between actions,
+// ends in the middle of an action and none, crashes apart, completes one. The nodes
+// in the middle of an action can be shared with the ways on from other nodes.
+func isDeadlocked(node *Node) bool {
+	deadEnd := false
+	seen := map[*Node]bool{node: true}
+	pending := []*Node{node}
+	for len(pending) > 0 {
+		current := pending[len(pending)-1]
+		pending = pending[:len(pending)-1]
+		steps := 0
+		for _, link := range current.Outbound {
+			if link.IsCrashLink() {
+				continue
+			}
+			if isBetweenActions(link.Node) {
+				return false
+			}
+			steps++
+			if !seen[link.Node] {
+				seen[link.Node] = true
+				pending = append(pending, link.Node)
+			}
+		}
+		if steps == 0 {
+			deadEnd = true
+		}
+	}
+	return deadEnd
+}
+
 func traverseBFS(rootNode *Node, maxActions int64) ([]*Node, []string, *Node, int) {
 	msgs := make([]string, 0)
 	msgSet := make(map[string]int)
-	type stat struct {
-		index int
-		deadNode *Node
-		livePaths int
-	}
-	visited := make(map[*Node]*stat)
+	visited := make(map[*Node]bool)
 	var result []*Node
-	type queuedEntry struct {
-		node *Node
-		yieldNode *Node
-	}
-	queue := lib.NewQueue[*queuedEntry]()
-	queue.Enqueue(&queuedEntry{
-		node:      rootNode,
-		yieldNode: rootNode,
-	})
+	queue := lib.NewQueue[*Node]()
+	queue.Enqueue(rootNode)
 	yield := 0
 	maxDepth := 0
 	for queue.Count() > 0 {
-		entry, _ := queue.Dequeue()
-		node := entry.node
-		if _, ok := visited[node]; ok {
+		node, _ := queue.Dequeue()
+		if visited[node] {
 			continue
 		}
-		visited[node] = &stat{}
+		visited[node] = true
 
 		if node.Process != nil && !node.Process.Enabled {
 			continue
 		}
-		visited[node].index = len(result)
 		result = append(result, node)
 		if node.Name == "yield" {
 			yield++
@@ -525,34 +547,16 @@ func traverseBFS(rootNode *Node, maxActions int64) ([]*Node, []string, *Node, in
 			maxDepth = node.forkDepth
 		}
 		enabledLinks := make([]*Link, 0)
-		crashLinks := 0
 		for _, link := range node.Outbound {
 			if !link.Node.Enabled {
 				continue
 			}
 			enabledLinks = append(enabledLinks, link)
-			if link.IsCrashLink() {
-				crashLinks++
-			}
 		}
 		node.Outbound = enabledLinks
 
-		if len(enabledLinks)-crashLinks == 0 && visited[entry.yieldNode].deadNode == nil {
-			visited[entry.yieldNode].deadNode = node
-		}
-
 		for _, link := range node.Outbound {
-			yieldNode := entry.yieldNode
-			if link.Node.Name == "yield" || link.Node.Name == "init" || link.Node.Name == "crash" {
-				if !link.IsCrashLink() {
-					visited[yieldNode].livePaths++
-				}
-				yieldNode = link.Node
-			}
-			queue.Enqueue(&queuedEntry{
-				node:      link.Node,
-				yieldNode: yieldNode,
-			})
+			queue.Enqueue(link.Node)
 
 			if link.Type == "action" {
 				if node == link.Node || node.HashCode() == link.Node.HashCode() {
@@ -610,8 +614,10 @@ func traverseBFS(rootNode *Node, maxActions int64) ([]*Node, []string, *Node, in
 	}
 	var deadlock *Node
 	for _, node := range result {
-		entry := visited[node]
-		if entry.deadNode != nil && entry.livePaths == 0 && (node.Process == nil || (node.Stats != nil && node.Stats.TotalActions < int(maxActions))) {
+		if node != rootNode && !isBetweenActions(node) {
+			continue
+		}
+		if (node.Process == nil || (node.Stats != nil && node.Stats.TotalActions < int(maxActions))) && isDeadlocked(node) {
 			// Return the yield node itself (not the dead non-yield node) so the
 			// deadlock trace stops at the meaningful stuck state rather than
 			// pointing into a dead nondeterministic branch.
-- 
2.43.0


From d1ff803ab0d3ed102da1ba8784c5e0b433d0d035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:37 +0000
Subject: [PATCH 40/59] fix: a fair choice in a cycle does not hide a weakly
 fair action that never runs

---
 modelchecker/invariants.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index 2d04360..5a5386a 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -707,7 +707,9 @@ func isFairCycle(path []*Link, debugLog bool) (bool, *CycleCallbackResult) {
 		if debugLog {
 			fmt.Println("isChoiceLink", isChoiceLink)
 		}
-		if firstYield == -1 {
+		// Weak fairness is about the actions enabled at every yield point, so a choice
+		// node, that offers no actions, cannot be the one the rest is compared with.
+		if firstYield == -1 && !isChoiceLink {
 			firstYield = i
 		}
 		prevNodeHasNonCrashLink = false
-- 
2.43.0


From 5766279263c6705918b75feea70bd3e702620ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:19 +0000
Subject: [PATCH 41/59] fix: generic sets compare as subset and proper subset

---
 lib/starlark_types.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 50d6d22..d8bcfc7 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -585,8 +585,7 @@ func (g *GenericSet) CompareSameType(op syntax.Token, y_ starlark.Value, depth i
 		defer iter.Done()
 		return x.IsSuperset(iter)
 	case syntax.LE: // subset
-		gt, err := y.CompareSameType(syntax.GT, x, depth)
-		return !gt, err
+		return y.CompareSameType(syntax.GE, x, depth)
 	case syntax.GT: // proper superset
 		if x.Len() <= y.Len() {
 			return false, nil
@@ -595,8 +594,7 @@ func (g *GenericSet) CompareSameType(op syntax.Token, y_ starlark.Value, depth i
 		defer iter.Done()
 		return x.IsSuperset(iter)
 	case syntax.LT: // proper subset
-		ge, err := y.CompareSameType(syntax.GE, x, depth)
-		return !ge, err
+		return y.CompareSameType(syntax.GT, x, depth)
 	default:
 		return false, fmt.Errorf("%s %s %s not implemented", x.Type(), op, y.Type())
 	}
-- 
2.43.0


From 4a0b4702592f26a47c3df71fc04c7948630ca6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:19 +0000
Subject: [PATCH 42/59] fix: issubset reports an error instead of a result
 without value

---
 lib/starlark_types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index d8bcfc7..9779160 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -842,6 +842,9 @@ func set_issubset(thread *starlark.Thread, b *starlark.Builtin, args starlark.Tu
 		return nil, err
 	}
 	diff, err := b.Receiver().(*GenericSet).IsSubset(other.(*GenericSet))
+	if err != nil {
+		return nil, nameErr(b, err)
+	}
 	return starlark.Bool(diff), nil
 }
 
-- 
2.43.0


From 11dd2a3f97aad1e802622dbaa71ef873007d4dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:19 +0000
Subject: [PATCH 43/59] fix: a generic map has one entry per key, of its own

---
 lib/starlark_types.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 9779160..72cdca3 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -214,14 +214,18 @@ func updateDict(dict *GenericMap, args starlark.Tuple, kwargs []starlark.Tuple)
 		if mapping, ok := arg.(starlark.IterableMapping); ok {
 			items := mapping.Items()
 			for _, item := range items {
-				dict.entries = append(dict.entries, item)
+				if err := dict.SetKey(item[0], item[1]); err != nil {
+					return err
+				}
 			}
 		} else {
 			return fmt.Errorf("genericmap: got %s, want mapping", arg.Type())
 		}
 	}
 	for _, kwarg := range kwargs {
-		dict.entries = append(dict.entries, kwarg)
+		if err := dict.SetKey(kwarg[0], kwarg[1]); err != nil {
+			return err
+		}
 	}
 	return nil
 }
@@ -307,11 +311,12 @@ func (g *GenericMap) Get(key starlark.Value) (v starlark.Value, found bool, err
 }
 
 func (g *GenericMap) SetKey(key, value starlark.Value) error {
-	for _, entry := range g.entries {
+	for i, entry := range g.entries {
 		if eq, err := starlark.Equal(entry[0], key); err != nil {
 			return fmt.Errorf("%s: %v", "genericmap", err)
 		} else if eq {
-			entry[1] = value
+			// The entries are handed out as items, so they must not change.
+			g.entries[i] = starlark.Tuple{entry[0], value}
 			return nil
 		}
 	}
-- 
2.43.0


From f7d48c43d6868866a63cddb6e8d87656d3fb5515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:20 +0000
Subject: [PATCH 44/59] fix: bags are equal when they have the same elements,
 however they print

---
 lib/starlark_types.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 72cdca3..337501d 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -1009,12 +1009,23 @@ func bagEqual(elems []starlark.Value, elems2 []starlark.Value, depth int) (bool,
 	if len(elems) != len(elems2) {
 		return false, nil
 	}
-	for i, elem := range elems {
-		eq, err := starlark.EqualDepth(elem, elems2[i], depth)
-		if err != nil {
-			return false, err
+	// Equal elements need not print alike (and those that are mutable may have changed since
+	// they were added), so their positions say nothing: look for a partner for each.
+	rest := slices.Clone(elems2)
+	for _, elem := range elems {
+		found := false
+		for i, other := range rest {
+			eq, err := starlark.EqualDepth(elem, other, depth)
+			if err != nil {
+				return false, err
+			}
+			if eq {
+				rest = slices.Delete(rest, i, i+1)
+				found = true
+				break
+			}
 		}
-		if !eq {
+		if !found {
 			return false, nil
 		}
 	}
-- 
2.43.0


From 95db13c6a82b1e27656b676695a321ecf2055b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:20 +0000
Subject: [PATCH 45/59] fix: iterate over a copy of a generic map or bag, as it
 may change meanwhile

---
 lib/starlark_types.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 337501d..f0a2b1e 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -296,7 +296,8 @@ func (it *keyIterator) Next(k *starlark.Value) bool {
 func (it *keyIterator) Done() {}
 
 func (g *GenericMap) Iterate() starlark.Iterator {
-	return &keyIterator{entries: g.entries}
+	// a copy, as the map may be changed during the iteration
+	return &keyIterator{entries: slices.Clone(g.entries)}
 }
 
 func (g *GenericMap) Get(key starlark.Value) (v starlark.Value, found bool, err error) {
@@ -1058,7 +1059,8 @@ func (it *listIterator) Next(k *starlark.Value) bool {
 func (it *listIterator) Done() {}
 
 func (b *Bag) Iterate() starlark.Iterator {
-	return &listIterator{entries: b.elems}
+	// a copy, as the bag may be changed during the iteration
+	return &listIterator{entries: slices.Clone(b.elems)}
 }
 
 func (b *Bag) Len() int {
-- 
2.43.0


From cf7444ee11383277579150ae11d7c9d3a4b291a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:20 +0000
Subject: [PATCH 46/59] fix: set methods that need an argument report that it
 is missing

---
 lib/starlark_types.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index f0a2b1e..2daebcd 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -812,7 +812,7 @@ func set_clear(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwa
 func set_difference(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	// TODO: support multiple others: s.difference(*others)
 	var other starlark.Iterable
-	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &other); err != nil {
+	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 1, &other); err != nil {
 		return nil, err
 	}
 	iter := other.Iterate()
@@ -828,7 +828,7 @@ func set_difference(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple
 func set_intersection(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	// TODO: support multiple others: s.difference(*others)
 	var other starlark.Iterable
-	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &other); err != nil {
+	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 1, &other); err != nil {
 		return nil, err
 	}
 	iter := other.Iterate()
@@ -857,7 +857,7 @@ func set_issubset(thread *starlark.Thread, b *starlark.Builtin, args starlark.Tu
 // https://github.com/google/starlark-go/blob/master/doc/spec.md#set_issuperset.
 func set_issuperset(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	var other starlark.Iterable
-	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &other); err != nil {
+	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 1, &other); err != nil {
 		return nil, err
 	}
 	iter := other.Iterate()
@@ -918,7 +918,7 @@ func set_remove(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kw
 // https://github.com/google/starlark-go/blob/master/doc/spec.md#set·symmetric_difference.
 func set_symmetric_difference(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	var other starlark.Iterable
-	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &other); err != nil {
+	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 1, &other); err != nil {
 		return nil, err
 	}
 	iter := other.Iterate()
@@ -933,7 +933,7 @@ func set_symmetric_difference(_ *starlark.Thread, b *starlark.Builtin, args star
 // https://github.com/google/starlark-go/blob/master/doc/spec.md#set·union.
 func set_union(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	var iterable starlark.Iterable
-	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &iterable); err != nil {
+	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 1, &iterable); err != nil {
 		return nil, err
 	}
 	iter := iterable.Iterate()
-- 
2.43.0


From ab25039b689624d45a3fa4f965ae59f64c25d99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:20 +0000
Subject: [PATCH 47/59] fix: chain takes any number of iterables

---
 lib/starlark_itertools.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/starlark_itertools.go b/lib/starlark_itertools.go
index bd6a24d..ddd1f9d 100644
--- a/lib/starlark_itertools.go
+++ b/lib/starlark_itertools.go
@@ -18,12 +18,15 @@ var ItertoolsModule = &starlarkstruct.Module{
 }
 
 func itertoolsChain(thread *starlark.Thread, fn *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
-	var iterables []starlark.Iterable
-	if err := starlark.UnpackArgs("chain", args, kwargs, "*", &iterables); err != nil {
-		return nil, err
+	if len(kwargs) > 0 {
+		return nil, fmt.Errorf("chain: unexpected keyword arguments")
 	}
 	var result []starlark.Value
-	for _, iterable := range iterables {
+	for i, arg := range args {
+		iterable, ok := arg.(starlark.Iterable)
+		if !ok {
+			return nil, fmt.Errorf("chain: argument %d is not iterable", i)
+		}
 		iter := iterable.Iterate()
 		defer iter.Done()
 		var v starlark.Value
-- 
2.43.0


From 665254917a95e1fdbb468dc69cc183300eb1bd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:20 +0000
Subject: [PATCH 48/59] fix: the length of permutations is optional, as
 documented

---
 lib/starlark_itertools.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/starlark_itertools.go b/lib/starlark_itertools.go
index ddd1f9d..73983ce 100644
--- a/lib/starlark_itertools.go
+++ b/lib/starlark_itertools.go
@@ -77,8 +77,8 @@ func itertoolsCombinations(thread *starlark.Thread, fn *starlark.Builtin, args s
 
 func itertoolsPermutations(thread *starlark.Thread, fn *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	var iterable starlark.Iterable
-	var r int
-	if err := starlark.UnpackArgs("permutations", args, kwargs, "iterable", &iterable, "r", &r); err != nil {
+	var length starlark.Value = starlark.None
+	if err := starlark.UnpackArgs("permutations", args, kwargs, "iterable", &iterable, "r?", &length); err != nil {
 		return nil, err
 	}
 
@@ -90,6 +90,13 @@ func itertoolsPermutations(thread *starlark.Thread, fn *starlark.Builtin, args s
 		items = append(items, v)
 	}
 	n := len(items)
+	r := n
+	if length != starlark.None {
+		var err error
+		if r, err = starlark.AsInt32(length); err != nil {
+			return nil, fmt.Errorf("permutations: for parameter r: %v", err)
+		}
+	}
 	if r > n || r < 0 {
 		return starlark.NewList(nil), nil
 	}
-- 
2.43.0


From 2ffafa553620b66e907c4f6646336bf66bf7cf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:20 +0000
Subject: [PATCH 49/59] fix: products of four and more sequences do not share
 their memory; support repeat

---
 lib/starlark_itertools.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/starlark_itertools.go b/lib/starlark_itertools.go
index 73983ce..a5f63f1 100644
--- a/lib/starlark_itertools.go
+++ b/lib/starlark_itertools.go
@@ -130,6 +130,13 @@ func itertoolsPermutations(thread *starlark.Thread, fn *starlark.Builtin, args s
 }
 
 func itertoolsProduct(thread *starlark.Thread, fn *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
+	repeat := 1
+	if err := starlark.UnpackArgs("product", nil, kwargs, "repeat?", &repeat); err != nil {
+		return nil, err
+	}
+	if repeat < 0 {
+		return nil, fmt.Errorf("product: repeat must not be negative, got %d", repeat)
+	}
 	iterables := make([]starlark.Iterable, len(args))
 	for i, arg := range args {
 		iter, ok := arg.(starlark.Iterable)
@@ -150,11 +157,18 @@ func itertoolsProduct(thread *starlark.Thread, fn *starlark.Builtin, args starla
 		}
 	}
 
+	once := pools
+	pools = nil
+	for i := 0; i < repeat; i++ {
+		pools = append(pools, once...)
+	}
+
 	var result []starlark.Value
 	var product func(int, []starlark.Value)
 	product = func(depth int, acc []starlark.Value) {
 		if depth == len(pools) {
-			result = append(result, starlark.Tuple(acc))
+			// a copy, as the longer tuples share what acc refers to
+			result = append(result, append(starlark.Tuple{}, acc...))
 			return
 		}
 		for _, val := range pools[depth] {
-- 
2.43.0


From 57af9a41f0097e18935bcaa6c5d57a0fa777fabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:20 +0000
Subject: [PATCH 50/59] fix: there is one combination with replacement of no
 elements

---
 lib/starlark_itertools.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/starlark_itertools.go b/lib/starlark_itertools.go
index a5f63f1..4c7bfd1 100644
--- a/lib/starlark_itertools.go
+++ b/lib/starlark_itertools.go
@@ -194,7 +194,7 @@ func itertoolsCombinationsWithReplacement(thread *starlark.Thread, fn *starlark.
 		items = append(items, v)
 	}
 	n := len(items)
-	if r < 0 || n == 0 {
+	if r < 0 || n == 0 && r > 0 {
 		return starlark.NewList(nil), nil
 	}
 
-- 
2.43.0


From 98479da7ed7fc034fb5c3afbb6ce8a71e43d3d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:30 +0000
Subject: [PATCH 51/59] fix: an element that is repeated in the argument is in
 a symmetric difference only if it is not in the set

---
 lib/starlark_types.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 2daebcd..a33c88f 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -766,12 +766,18 @@ func (s *GenericSet) SymmetricDifference(other starlark.Iterator) (starlark.Valu
 	diff := s.clone()
 	var x starlark.Value
 	for other.Next(&x) {
-		found, err := diff.Delete(x)
+		// looked up in s, as other may have the element more than once
+		found, err := s.Has(x)
 		if err != nil {
 			return nil, err
 		}
-		if !found {
-			diff.Insert(x)
+		if found {
+			_, err = diff.Delete(x)
+		} else {
+			err = diff.Insert(x)
+		}
+		if err != nil {
+			return nil, err
 		}
 	}
 	return diff, nil
-- 
2.43.0


From 7ceecf49095296ed7aff9892e2cc33d83db97966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:58 +0000
Subject: [PATCH 52/59] fix: the steps of an exported failure tell their type,
 as those of the graph

---
 modelchecker/graph.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modelchecker/graph.go b/modelchecker/graph.go
index 55d3731..5ba8561 100644
--- a/modelchecker/graph.go
+++ b/modelchecker/graph.go
@@ -178,7 +178,8 @@ func GenerateErrorPathProtoOfJson(errorPath []*Link, pathPrefix string) ([]strin
 			ReqId:    int64(outboundLink.ReqId),
 			Src:      int64(i),
 			Dest:     int64(i + 1),
-			Name:     outboundLink.Name,
+			Name:     outLinkName,
+			Type:     outboundLink.Type,
 			Labels:   outboundLink.Labels,
 			Messages: outboundLink.Messages,
 			Weight:   1.0,
-- 
2.43.0


From ec57fabf668f9cf684f656f62a9d62a202742830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:26 +0000
Subject: [PATCH 53/59] fix: a step to a known state keeps the assertions it
 fails in the graph

---
 modelchecker/processor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index d495c3f..8dbaf4c 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1057,6 +1057,8 @@ func (n *Node) Duplicate(other *Node, yield bool) {
 		Messages:       n.Inbound[0].Messages,
 		ReqId:          n.Inbound[0].ReqId,
 		Returns:        n.Inbound[0].Returns,
+
+		FailedInvariants: n.Inbound[0].FailedInvariants,
 	}
 	parent.Outbound = append(parent.Outbound, newOutLink)
 
-- 
2.43.0


From ccfd36691f8d1bc85906d5b35d2453a35e83ed06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:33 +0000
Subject: [PATCH 54/59] fix: the arguments of a recorded call are in a fixed
 order

---
 modelchecker/processor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 8dbaf4c..1cd5779 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -886,8 +886,8 @@ func (p *Process) RecordCall(callerFrame *CallFrame, receiverFrame *CallFrame, f
 	if receiverFrame.obj != nil {
 		msg.Receivers = []string{receiverFrame.obj.RefStringShort()}
 	}
-	for name, value := range receiverFrame.vars {
-		str := strings.ReplaceAll(value.String(), lib.SymmetryPrefix, "")
+	for _, name := range receiverFrame.vars.Keys() {
+		str := strings.ReplaceAll(receiverFrame.vars[name].String(), lib.SymmetryPrefix, "")
 		msg.Values = append(msg.Values, &ast.NameValue{Name: name, Value: str})
 	}
 	if flow != ast.Flow_FLOW_ATOMIC {
-- 
2.43.0


From eac1ad0cbe9917ce03f92cf3e4147f54c22979b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:55 +0000
Subject: [PATCH 55/59] fix: count a trace as followed only as far as a state
 could follow it

---
 modelchecker/processor.go | 5 +++++
 modelchecker/trace.go     | 1 -
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 1cd5779..2634dcb 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2370,6 +2370,11 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	if node.ThreadProgress {
 		node.Enable()
 	}
+	if p.guidedTrace != nil {
+		// Several states can follow the same link, and some of them cannot take it.
+		// The trace has come as far as the state that followed it furthest.
+		p.guidedTrace.currentIndex = max(p.guidedTrace.currentIndex, node.guidedTrace.currentIndex)
+	}
 	// Add the labels from the process to the inbound links
 	// This must be done even for duplicate nodes
 	// The labels for the outbound links are added when the node is merged/attached
diff --git a/modelchecker/trace.go b/modelchecker/trace.go
index 45bca93..0ded75b 100644
--- a/modelchecker/trace.go
+++ b/modelchecker/trace.go
@@ -148,7 +148,6 @@ func (p *Processor) ShouldScheduleNode(node *Node) bool {
 	// Schedule only if link name matches
 	if linkName == expectedLinkName {
 		node.guidedTrace.Advance()
-		p.guidedTrace.Advance()
 		return true
 	}
 
-- 
2.43.0


From 8e7cbe772b994a3e7a0b1b986dbfaad7bb078d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:49 +0000
Subject: [PATCH 56/59] fix: deliver the messages of several channels in a
 fixed order, so that a seed repeats a run

---
 modelchecker/processor.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 2634dcb..57fb047 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1966,8 +1966,8 @@ func (p *Processor) probeNextStates(process *Process) []*NextTransition {
 	}
 
 	// 2. Pending channel message deliveries (mirrors scheduleChannelMessages).
-	for i, msgs := range process.ChannelMessages {
-		for j := range msgs {
+	for _, i := range process.channelIds() {
+		for j := range process.ChannelMessages[i] {
 			linkName := fmt.Sprintf("channel-%d-message-%d", i, j)
 			nn := base.ForkForAlternatePaths(process.Fork(), linkName)
 			newMsg := nn.ChannelMessages[i][j]
@@ -2912,6 +2912,17 @@ func (p *Process) addChannelMessage(channel *lib.Channel, roleShortRef string, f
 	}
 }
 
+// channelIds returns the channels with messages in a fixed order, so that the same
+// seed leads to the same exploration.
+func (p *Process) channelIds() []int {
+	ids := make([]int, 0, len(p.ChannelMessages))
+	for id := range p.ChannelMessages {
+		ids = append(ids, id)
+	}
+	sort.Ints(ids)
+	return ids
+}
+
 func getSymmetryPermutations(process *Process) (*Process, map[starlark.Value]starlark.Value, map[*lib.SymmetricValue][]*lib.SymmetricValue, int) {
 	var values [][]*lib.SymmetricValue
 	var usedValues [][]*lib.SymmetricValue
@@ -3381,8 +3392,8 @@ func (p *Processor) YieldFork(node *Node, process *Process) {
 }
 
 func (p *Processor) scheduleChannelMessages(node *Node, process *Process) {
-	for i, msgs := range process.ChannelMessages {
-		for j, _ := range msgs {
+	for _, i := range process.channelIds() {
+		for j := range process.ChannelMessages[i] {
 			linkName := fmt.Sprintf("channel-%d-message-%d", i, j)
 			newNode := node.ForkForAlternatePaths(process.Fork(), linkName)
 			newMsg := newNode.ChannelMessages[i][j]
-- 
2.43.0


From 23e551351fa74e9854194e0c6ba439cfe94bfd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:23 +0000
Subject: [PATCH 57/59] fix: mbt/go: unsigned integers stopped the test plugin

---
 mbt/lib/go/plugin_service.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mbt/lib/go/plugin_service.go b/mbt/lib/go/plugin_service.go
index d11e3d9..2875ae0 100644
--- a/mbt/lib/go/plugin_service.go
+++ b/mbt/lib/go/plugin_service.go
@@ -495,8 +495,10 @@ func fromAnyToProtoValue(value any) *pb.Value {
 	switch rv.Kind() {
 	case reflect.String:
 		return &pb.Value{Kind: &pb.Value_StrValue{StrValue: rv.String()}}
-	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return &pb.Value{Kind: &pb.Value_IntValue{IntValue: rv.Int()}}
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return &pb.Value{Kind: &pb.Value_IntValue{IntValue: int64(rv.Uint())}}
 	case reflect.Bool:
 		return &pb.Value{Kind: &pb.Value_BoolValue{BoolValue: rv.Bool()}}
 	case reflect.Map:
-- 
2.43.0


From b08bfd6703a3e34887bb874fee8b3eea30014e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:23 +0000
Subject: [PATCH 58/59] fix: mbt/go: an action that is not registered stopped
 the test plugin

---
 mbt/lib/go/plugin_service.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbt/lib/go/plugin_service.go b/mbt/lib/go/plugin_service.go
index 2875ae0..8356cb7 100644
--- a/mbt/lib/go/plugin_service.go
+++ b/mbt/lib/go/plugin_service.go
@@ -298,6 +298,9 @@ func (s *FizzBeeMbtPluginServer) newCommand(req *pb.ExecuteActionRequest) (*Exec
 	roleId := req.GetRole().GetRoleId()
 	actionName := req.GetActionName()
 	action := s.actions[roleName][actionName]
+	if action == nil {
+		return nil, fmt.Errorf("action %s for role %s is not registered", actionName, roleName)
+	}
 	var instance Role
 	var err error
 	if roleName == "" {
-- 
2.43.0


From efe2105e29e0d7b0f97713d249d5891ccf589bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:23 +0000
Subject: [PATCH 59/59] fix: mbt/go: actions that were not executed after a
 failure were reported as successful

---
 mbt/lib/go/plugin_service.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mbt/lib/go/plugin_service.go b/mbt/lib/go/plugin_service.go
index 8356cb7..2051898 100644
--- a/mbt/lib/go/plugin_service.go
+++ b/mbt/lib/go/plugin_service.go
@@ -211,6 +211,10 @@ func (s *FizzBeeMbtPluginServer) executeSequencesSequential(
 func (s *FizzBeeMbtPluginServer) executeSequence(cmds []*ExecuteActionCommand, seqIdx int) error {
 	for actIdx, cmd := range cmds {
 		if err := s.executeCommand(cmd); err != nil {
+			// The rest of the sequence is not executed, so it must not be reported as successful.
+			for _, rest := range cmds[actIdx+1:] {
+				rest.Err = fmt.Errorf("not executed after action index %d: %w", actIdx, err)
+			}
 			return fmt.Errorf(
 				"execution failed: sequence index %d, action index %d: %w",
 				seqIdx, actIdx, err,
-- 
2.43.0

