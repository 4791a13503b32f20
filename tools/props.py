NOTES = ("Every check is static analysis of /repo's current source (go/ssa dataflow, path queries with branch predicates, call graph; Python ast for the parser and generator). "
         "quick applies the rules to the program as built here; thorough repeats them on the program as built for the other systems it targets (darwin, windows), where build constraints can select other files.")
P = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), technique=technique, note=note, na=na))

prop('S01', 'Deduplication never merges two different states',
 'Two states that differ in anything later behaviour depends on - variables, threads, call frames with their arguments and position, local scopes and loop progress, role fields and reset values, channel contents and pending messages, return values - never share a state identity, so the search never drops a reachable state as a duplicate of a different one. (How many actions led to a state is not part of the state.) A remembered identity is forgotten before the state it describes changes.',
 ['programs', 'inputs', 'histories'], 'every specification, every pair of states reached while exploring it',
 'Tests compare a handful of specifications by node count; a forgotten component only shows up in specifications where exactly that component distinguishes two states.',
 ['modelchecker/processor.go', 'modelchecker/thread.go', 'modelchecker/channel_message.go', 'lib/starlark_role.go', 'lib/jsonmarshaller.go'],
 [('state encoders', 'Process.HashCode, Heap.HashCode, CallStack.HashCode, CallFrame.HashCode, Scope.Hash, ChannelMessage.HashCode, Role.MarshalJSON')],
 'field-coverage dataflow over the SSA form of the state encoders (backward slices, path queries, loop-iteration analysis)',
 'every component must flow into the identity on every path; that the digest is collision free and the encoding injective is not proved')

prop('S02', 'A branch can never change another branch\'s state',
 'When the search forks a state (non-deterministic choice, loop, parallel step, scheduling, crash), the copy has every component of the original and shares no changeable storage with it: variables, scopes, loop values, call stacks, pending messages, return values and statistics of one branch are unaffected by whatever another branch does. A copied thread belongs to the copied process.',
 ['programs', 'schedules', 'histories'], 'every specification, every fork made while exploring it, every later step of either branch',
 'Sharing shows only when two branches modify the same nested value in a particular order; the tests contain few nested values and compare totals.',
 ['modelchecker/processor.go', 'modelchecker/thread.go', 'modelchecker/clone.go', 'modelchecker/channel_message.go'],
 [('clone functions', 'Process.Fork, CloneWithRefs, Thread.Clone, CallStack.Clone, CallFrame.Clone, Scope.Clone, Heap.Clone, ChannelMessage.Clone, Stats.Clone'), ('fork sites', 'Thread.executeStatement, executeForStatement, Processor.scheduleChannelMessages')],
 'alias and ownership dataflow (escape of parent storage into forks), path queries on the clone functions, loop-iteration analysis',
 'storage-sharing is decided per field and per loop iteration over SSA; aliasing through foreign (non-module) containers is assumed to follow their documented behaviour')

prop('S03', 'Every kind of value is copied, visited and encoded completely',
 'For each kind of value a specification can hold (lists, sets, dictionaries, tuples, structs, records, generic sets and maps, bags, roles, stubs, symmetric and model values) copying a state yields an independent copy of the whole content with shared references preserved, the traversal that collects symmetric values reaches all content of all state components, and the state encoding includes all content. This holds for values nested up to the encoder\'s stated depth limit.',
 ['programs', 'inputs'], 'every specification and every value its variables can take',
 'Each kind needs its own code in three places; tests exercise a few kinds in one place, and an omission is silent.',
 ['modelchecker/clone.go', 'modelchecker/state_visitor.go', 'lib/jsonmarshaller.go', 'lib/starlark_types.go', 'lib/starlark_role.go'],
 [('copier', 'deepCloneStarlarkValueWithPermutations'), ('visitor', 'visitStarlarkValue, AcceptVisitor'), ('encoder', 'MarshalJSONStarlarkValue')],
 'kind-sensitive path queries (type-switch specialisation of the control-flow graph) and element-flow analysis',
 'every path of each kind is enumerated; value-level correctness of leaf encodings is not decided')

prop('S04', 'Every explored state is checked against the assertions',
 'Every state at which the system yields - after an action or step, after initialisation, after a role crash, and along a replayed trace - is checked against every always-assertion before the search continues from it. A violation is recorded on that state and reported, and the search does not go on from it unless it was told to.',
 ['programs', 'schedules', 'crash points'], 'every specification, every yield state of the search, every assertion',
 'A skipped check shows only where exactly the skipped kind of state (a crash, an initial state, a state reached under a particular option) is the only one that violates an assertion.',
 ['modelchecker/processor.go', 'modelchecker/invariants.go', 'main.go'],
 [('yield-state check', 'Processor.processNode, Processor.crashRole, CheckInvariantsWithProber'), ('recording and reporting', 'Processor.processNode, Start, main.modelCheckSingleSpec')],
 'interprocedural must-pass path queries from state creation to state registration, loop-completeness analysis of the assertion loops, return-value analysis',
 'decides that the check is made and its result used on every path; the truth value of an assertion expression is computed by the Starlark interpreter and not analysed')

prop('S05', 'Transition assertions, refinement and composition see every step',
 'Every step of an action is checked against every transition assertion, with the state before and after it, and (in a refinement) against the table of the refined specification\'s steps, before it can be dropped as leading to a known state; a step that fails is recorded as the failure and ends the search. The step table pairs every yield state with every yield state reachable from it without another in between, and composition evaluates the composed assertions on every matched combination of steps in which any specification changes, role fields included.',
 ['programs', 'histories'], 'every specification, every step between explored states, every combination of steps in a composition',
 'A step that is left out matters only when it is the only one violating the assertion, and the tests contain two small compositions and one refinement.',
 ['modelchecker/processor.go', 'modelchecker/invariants.go', 'main.go'],
 [('step checks', 'Processor.processNode, CheckTransitionInvariants, CheckTransitionAssertion, CheckRefinement'), ('step table', 'main.populateJoinHashes, addToJoinHashes'), ('composition', 'main.ComposeTransitions, cartesianProduct, isStuttering')],
 'interprocedural must-pass path queries, loop-completeness analysis, origin analysis of the before/after states and of the table keys',
 'the initial composed state is not part of the statement (the code composes steps only); the digest of a role is its JSON form')

prop('S06', 'Evaluating an assertion changes nothing that is explored or checked',
 'Assertions, transition assertions, view functions and next_states() are evaluated on copies: whatever they change is not visible to the explored state, to another assertion, or to the search (visited table, queue, counters for new roles and channels). The look-ahead behind next_states() follows every pending thread, message, action and choice, ignores the limits of the search, and offers exactly the steps that are enabled.',
 ['programs', 'histories'], 'every specification, every assertion, every state it is evaluated in',
 'Leaked effects need an assertion that modifies a nested value or a look-ahead that allocates; the tests\' assertions read only.',
 ['modelchecker/invariants.go', 'modelchecker/processor.go', 'lib/starlark_role.go'],
 [('evaluation', 'CheckInvariant, CheckAssertion, CheckTransitionAssertion, CheckRefinement, ExecFunction'), ('look-ahead', 'Processor.probeNextStates, makeProber, lib.SnapshotGlobalRefs, RestoreGlobalRefs')],
 'effect analysis (roots of every store in the evaluation code), origin analysis of evaluated processes and bound values, must-pass path queries',
 'effects inside the Starlark interpreter are those on the values it is given')

prop('S07', 'Scheduling tries everything within the limits and nothing beyond them',
 'From every yield state the search schedules every thread that can continue, every pending message and every action of the specification and of each of its roles (Init aside), unless an action limit is reached, the trace or simulation filter rejects the step, or its role is gone; no action is scheduled beyond a limit on depth, on concurrent actions, or on an action (for the whole run, per role, and per role instance). Every scheduled step and every intermediate choice is taken up by the search before it ends, unless it ends with a failure or is stopped.',
 ['programs', 'schedules'], 'every specification, every yield state, every configuration of the limits',
 'A step that is not scheduled shows only as a smaller state graph; tests pin the graph of a few specifications under a few settings of the limits.',
 ['modelchecker/processor.go'],
 [('scheduling', 'YieldNode, YieldFork, scheduleRoleActions, scheduleChannelMessages, scheduleAction, processInit, publishYieldPoint'), ('limits', 'ExceedsActionCountLimits, ForkForAction, Stats.Increment, GetThreadsCount'), ('search loops', 'Start, expandToYield, startProcessedQueue, drainAndFlush, enqueueScheduled')],
 'must-pass path queries and loop-coverage analysis on the scheduling code; value-class dataflow on the limit comparisons',
 'that what is scheduled executes correctly is a matter of the other properties; the order in which it is explored is not decided')

prop('S08', 'Crashes are injected wherever they may happen and lose only what they should',
 'When crashes are enabled (for the run and the action), at every yield state of an enabled step the thread may crash, which drops just that thread, and every role with ephemeral fields that is not waiting on a call into another role may crash, alone and in combination; with crashes switched off none is injected. A role crash stops exactly the threads running in that role instance and resets exactly its ephemeral fields to copies of their values at the end of Init. Crashed states are checked and explored further like any other.',
 ['programs', 'crash points'], 'every specification, every yield state, every combination of crashing roles, every setting of the crash options',
 'A crash that is not injected, or that keeps or loses one field too many, shows only in a specification where exactly that crash at exactly that point matters.',
 ['modelchecker/processor.go', 'modelchecker/thread.go'],
 [('injection', 'Processor.processNode, expandToYield, crashThread, shouldThreadCrash, crashProcess, crashRoles, crashRole'), ('reset', 'Processor.ResetEphemeralVariables, DurabilitySpec, CopyInitValues')],
 'must-pass path queries on the injection code, loop-coverage analysis, origin analysis of the crashed role, its threads and its reset values',
 'simulation mode injects thread crashes only, by design')

prop('S09', 'Statements execute with the flow their block prescribes',
 'A oneof block and an any statement give one branch for every alternative (every element that satisfies the condition), a parallel block and a parallel loop continue with each of the statements or elements that remain, in every order, and a sequential block or loop takes its statements or elements one after the other; no alternative is lost, and a statement, flow or kind of loop that is not supported is refused. When a statement, block, if, loop, break or continue ends, the thread goes on at the place that the enclosing block prescribes, in the scope that belongs to that place. Atomic blocks do not yield between statements; serial and parallel ones do if something was executed.',
 ['programs', 'schedules'], 'every specification: every nesting of blocks, loops, any statements, breaks and continues, in every flow',
 'The nestings of five block flows, loops, choices and jumps are unbounded; the tests execute some flat ones. Eight nestings that no test covered were found broken while the rules were written.',
 ['modelchecker/thread.go', 'modelchecker/protopath.go'],
 [('steps of a thread', 'Thread.Execute, executeBlock, executeStatement, executeForStatement, executeWhileStatement, executeEndOfStatement, endOfBlock, endWithoutYield'), ('positions', 'FindNextProgramCounter, EndOfBlock, RemoveLast*, ParentBlockPath'), ('scopes', 'InsertNewScope, ExitScope, Scope.SetFlow')],
 'path queries specialised to each kind of statement and flow, comparison of the composed positions in a canonical form, loop-coverage analysis of the loops that create branches',
 'calls, returns and the binding of variables are separate; the textual position functions are checked by the form of what they return, not by evaluating them')
prop('S10', 'Calls, returns and variables follow the scoping rules',
 'A call evaluates its arguments with the variables of the caller, binds positional ones by position, named ones by name and defaults for the rest (a missing argument and one more than there are parameters are refused), runs the function of that name (of the role of the receiver; through a stub it is sent as a message over its channel) with exactly these variables and the receiver as self, and gives the returned value, or None, to the variable the caller named before the caller goes on; a value an action returns is recorded under its name. A name resolves to the innermost scope that has it, then parameters, self, state, globals, builtins, and an assignment changes the variable the name resolves to (never a global) or declares one in the current scope. The variables of the outermost block of Init become the state, and the Init action of a newly created role runs.',
 ['programs', 'schedules'], 'every specification: every nesting of calls, blocks and scopes, every combination of arguments',
 'Scopes and calls nest without bound and names shadow each other in every combination; the tests call few functions. A message handler that returned a value crashed the checker (repaired).',
 ['modelchecker/thread.go', 'modelchecker/processor.go'],
 [('calls', 'Thread.executeStatement, getDefinition, NewProcess (symbol table)'), ('returns', 'Thread.executeStatement, Thread.endOfBlock'), ('variables', 'Process.GetAllVariables*, updateVariableInternal, updateScopedVariable, Heap.update, Scope.getAllVisibleVariables*'), ('Init', 'Thread.insertTopLevelVars, findRoleInitAction')],
 'path queries specialised to the branches of calls, returns and lookups (which map is written, with which key and value, before what), loop-coverage analysis of the loops over arguments, parameters and variables, ordering of the layers copied into the environment',
 'the evaluation of an expression is Starlark\'s; named arguments that no parameter has are not refused and not claimed to be')
prop('S11', 'Disabled transitions are abandoned; other errors stop the run',
 'When the condition of a require does not hold, when no element satisfies an any statement without a block, or when a symmetry domain is exhausted while a statement or expression of an action, function or message handler is evaluated, the transition is abandoned: nothing more of it executes, it yields no branch, and its state is neither checked, recorded nor scheduled from (in the condition of an any statement only the alternative for that element is dropped); an abandoned assertion stops the run. Every other error that an evaluation raises, in an action, a function, an assertion or the definition of a role, stops the run: it is not ignored and not taken for a disabled transition. An exhausted domain hands out no value, and a step that executed nothing adds no state.',
 ['programs', 'faults'], 'every specification: every place at which an expression can fail or exhaust a domain',
 'An expression can fail or exhaust a domain at every place at which one can stand; the tests exhaust a domain in a few of them. Evaluations that were not covered crashed the run or hung it (repaired).',
 ['modelchecker/thread.go', 'modelchecker/starlark.go', 'modelchecker/processor.go', 'modelchecker/invariants.go', 'lib/symmetry.go'],
 [('evaluation', 'Evaluator.Eval*, Exec*'), ('steps of a thread', 'Thread.executeStatement, executeWhileStatement, Execute, findRoleInitAction'), ('drivers', 'Processor.processNode, probeNextStates, execFunctionBlock, Node.Duplicate'), ('domains', 'SymmetryDomain.fresh, Segment.fresh, IsDisableTransitionError')],
 'the error of every Starlark evaluation is followed through returns and helpers to the function that decides about it (error-flow analysis), with path queries under the assumption that it is (not) the disabling one',
 'which expressions raise an error is Starlark\'s; the load of module files is deferred to their use by design and not included')
prop('S12', 'Symmetry reduction merges exactly the states that are permutations of each other',
 'Every state is looked up and recorded under one hash, the smallest over all permutations of the symmetric values in use (the plain hash in simulation or when symmetry reduction is switched off): nominal values and symmetric roles in every order, interval, ordinal and rotational values only moved, turned or, where the domain is declared with reflection, mirrored, with every tied alternative and every combination of domains tried. Hashing a permuted state gives every symmetric value, segment and message receiver its new id, brings dictionaries, the order of roles and cached hashes up to date, works on a copy and undoes the change before the next permutation. What decides the next value a domain hands out is part of the identity of a state.',
 ['programs'], 'every specification with symmetric roles or values, every number of values in use, every kind of domain, reflection and materialization',
 'Two states that are merged wrongly hide every violation behind one of them; tests compare the number of states of a few specifications. Two kinds of wrong merging were found (repaired), one more is a known finding.',
 ['modelchecker/processor.go', 'modelchecker/state_visitor.go', 'lib/symmetry.go', 'lib/permutations.go'],
 [('lookup', 'Processor.findVisitedSymmetric, Process.minHashCode, Processor.processNode'), ('hash of a permutation', 'Process.getSymmetryTranslations, symmetricHashWithoutClone'), ('candidates', 'getSymmetryPermutations, Process.getUsedSymmetricValuesFromClone, lib.GenerateAllPermutations, lib.GetCanonicalRotations*, lib.Get*ReflectionCandidates')],
 'form analysis of the minimum and of the new ids (affine in the old one), must-pass path queries on the permuting hash and its undoing, loop-coverage analysis of the loops over values, alternatives and groups, per-kind path queries on the choice of candidates',
 'that equal content gives equal hashes is S01 and S03; ends of a segment whose value is no longer in use keep their ids')
prop('S13', 'Symmetric domains hand out, list, compare and compute as their kind says',
 'What a domain counts as used is every value of it in the state being executed plus what the current evaluation allocated; fresh() (of a domain or a segment) hands out a value that is not in use, within limit and divergence, by the rule of the kind (nominal: the smallest free id; ordinal: after the largest or inside the segment; interval: start, then largest plus one; rotational: the next free one after the last allocated), and disables the transition where there is no room; values(), choices(), choose(), min(), max() and segments() describe exactly the used values, in order, and a materialized domain has all its values and hands out none. A domain has the settings and the operations of its declaration, which is refused where they are out of range; values of one domain are compared and added to by their ids (modulo the limit for rotational ones), values of different domains and orders that the kind does not have are refused. A state with more values of an ordinal or interval domain than its limit, or a larger spread than its divergence, is not explored.',
 ['programs', 'inputs'], 'every specification with symmetric domains: every kind, limit, divergence, start and set of values in use',
 'Which value is next depends on the whole set of values in use and on the history of allocations; tests allocate a few values from small domains. A segment of a materialized domain handed out a value that does not exist (repaired).',
 ['lib/symmetry.go', 'lib/starlark_types.go', 'modelchecker/symmetry_check.go', 'modelchecker/processor.go', 'modelchecker/state_visitor.go'],
 [('used values', 'SymmetryContext, Process.createSymmetryContext, saveRotationalLastAllocated, UsedSymmetricValuesCollector'), ('operations', 'SymmetryDomain.fresh, values, choices, min, max, segments, Attr, Segment.fresh, ensureMaterialized, midpoint, make*'), ('values', 'SymmetricValue.CompareSameType, Binary'), ('constraints', 'CheckSymmetryConstraints, Processor.processNode')],
 'path queries specialised to each kind of domain (branches that contradict the kind are cut), recognition of extrema, midpoints, remainders and counting loops in the data flow, origin analysis of the settings of a domain, loop-coverage analysis',
 'an ordinal domain that is appended to about 60 times in a row has no room left behind its largest value; that stops the run with an error and is not claimed otherwise; overflow of 64-bit ids is not considered')
prop('S14', 'The verdict of a run tells what was found',
 'PASSED is printed, and a specification is built upon by composition or refinement, only when the search ran to its end (it was not stopped, and a given trace was followed to its end) and found no error, no failed state or step, no deadlock, no exists assertion without a witness and no failing liveness assertion, judged in the mode the options ask for (exists and liveness assertions are not judged for a guided trace or a simulation, liveness and deadlocks of the graph not in no-graph mode). Everything that is found is printed as FAILED with the name of the assertion (and, in a simulation, the seed, after which no further run starts), an error stops the program. A deadlock is a state between actions, below the action limit, from which a way on ends inside an action (or that has none) and none but crashes completes one; an exists assertion is struck off exactly by a state between actions in which it holds; every liveness assertion is dispatched by its operators and judged by its own witness.',
 ['programs', 'schedules', 'crash points'], 'every specification and every outcome of the search, every combination of options, traces and modes',
 'The verdict is one function with a dozen inputs from the search and the options, the combinations of which no test enumerates; a wrong one is silent. Three combinations that passed, or failed, wrongly and a wrong notion of deadlock were found (repaired).',
 ['main.go', 'modelchecker/invariants.go', 'modelchecker/markovchain.go', 'modelchecker/processor.go'],
 [('verdict', 'main.modelCheckSingleSpec, reportUnsatisfiedExists, runCompositionalModelChecking, runRefinementModelChecking'), ('deadlocks', 'traverseBFS, isDeadlocked, Processor.startProcessedQueue, processNode'), ('exists and liveness', 'CheckSimpleExistsWitness, CheckStrictLiveness, CheckFastLiveness, Processor.recordWitness')],
 'path queries under the assumption of each outcome (PASSED must be unreachable, FAILED with the right name unavoidable), loop-coverage and dispatch analysis of the checks after the search, form analysis of the deadlock criteria',
 'whether the graph algorithms for liveness find every failing cycle is not claimed (see the not-applicable entry); in no-graph mode a deadlock whose only way on leads into the middle of an action that another state already tried is not found, and the name of a failing transition assertion is not printed')
prop('S15', 'A liveness counterexample is a fair behaviour that refutes the assertion',
 'A cycle that the search for liveness failures finds is reported exactly when it is fair and refutes the assertion: for always-eventually the assertion holds in none of its states between actions, for eventually-always it fails in one of them. A cycle is not fair when a strongly fair action (or any option by which an action goes on: options of different statements or roles are different ones) that one of its states offers happens nowhere on it, or a weakly fair action is offered at every yield point of it and never happens, or it takes a crash although it could do something else; otherwise it is fair, where every link carries the fairness its action or choice declares. The paths that are judged follow the links of the explored graph (including doing nothing forever where no fair step is possible, never taking crashes as steps of the cycle), a cycle that lacks a fair step is followed to a state that offers it, and what is printed starts in an initial state and leads along links into the cycle.',
 ['programs', 'schedules', 'histories'], 'every graph, every cycle and every combination of fair and unfair actions and choices',
 'Whether a liveness failure is real depends on all links that leave the states of a cycle; a slip passes specifications that can be stuck forever or fails ones that fairness saves. A weakly fair action was hidden by a fair choice earlier on the cycle (repaired).',
 ['modelchecker/invariants.go', 'modelchecker/processor.go', 'modelchecker/thread.go'],
 [('fair cycles', 'isFairCycle, fairnessLinkName, findMissingLinks'), ('judgement', 'AlwaysEventuallyFinal, EventuallyAlwaysFinal'), ('search', 'CycleFinderFinal, cycleFinderHelper, ExtractFailurePath'), ('fairness of links', 'processNode, Node.Attach, Node.Duplicate, Node.ForkForAlternatePaths, Processor.scheduleAction')],
 'path queries under the assumption of each kind of link and each judgement, set-flow analysis of the four sets of a cycle (which links enter and leave them in which case), loop coverage over links and states, form analysis of path construction and of the sources of the fairness of links',
 'that the search visits every fair cycle is not claimed (it gives up on long ones, see the not-applicable entry), nor is the undocumented fast liveness mode')

prop('S16', 'Collections behave as the sets, maps, bags and records they stand for',
 'A generic map holds exactly one entry for each key, a generic set each element once, a bag each element as often as it was added – in whichever way they came, compared by equality of values; a record has one value per field – and looking up, adding, replacing and removing act on the entry that is equal to the one asked for, on no other one, and report truthfully whether it was there. Operators and methods compute what their names say: comparisons answer whether the two have the same entries (or the one all of the other), union, intersection, differences, subset tests, get, pop, setdefault, update and the like the set or entry so named (an error where there is none), without changing the operands they do not modify; whatever was handed out (items, keys, another collection that was built from it) does not change with the collection it came from, and an iteration visits each element that was there exactly once. itertools and sum go through all of their arguments: chain yields all elements in order, product, permutations, combinations and combinations_with_replacement yield each combination of their kind exactly once, each a tuple of its own.',
 ['inputs', 'programs'], 'all values (hashable or not, equal though of different kinds), all sizes, repeated and nested elements, all sequences of operations',
 'Wrong results show only for certain contents (equal values that print differently, None as a value, four factors of a product, an element removed during a loop), and a model that computes with them is verified wrongly without a sign. Eleven such defects were found and repaired.',
 ['lib/starlark_types.go', 'lib/starlark_itertools.go', 'lib/starlarkstruct.go', 'lib/starlark_role.go'],
 [('lookup, addition, removal', 'GenericMap.Get, SetKey, Delete, Bag.Find, Insert, Delete, GenericSet.Has, Insert, Delete'), ('comparison', 'mapsEqual, setsEqual, bagsEqual, structsEqual, CompareSameType'), ('methods', 'dict_*, set_*, bag_*'), ('iteration', 'Iterate, keyIterator, listIterator'), ('combinatorics', 'itertools*')],
 'search-loop and removal idioms recognised on SSA form with path queries (which branch of which equality test leads to which store and which answer), ownership of backing arrays (every store of entries is a fresh copy, an append, or a removal), method tables against the meaning of each name, loop coverage, form analysis of the recursions of itertools',
 'the sets, dicts and lists of starlark-go itself are outside the repository; the order of iteration and the order in which combinations are produced are not claimed, nor is the behaviour of frozen collections')

prop('N01', 'Every liveness failure of a specification is found',
 'When a specification has a fair behaviour on which a liveness assertion never comes true, the verdict is FAILED.',
 ['programs', 'schedules'], 'every state graph and every cycle in it, however long',
 'The search enumerates paths; whether it reaches every fair cycle depends on the shape of the graph.',
 ['modelchecker/invariants.go'], [('search', 'CycleFinderFinal, cycleFinderHelper')],
 na='Whether the path enumeration of cycleFinderHelper (with its depth cut-off and its marking of globally visited links) reaches some representative of every fair strongly connected component is a question about arbitrary graphs at run time; no finite set of source obligations implies it (the cut-off even makes it false for long cycles). What is decidable at the source – that a cycle that is reached is judged correctly, that its links are the graph\'s and that the report is a path of the graph – is claimed as S15.')

prop('N02', 'Performance figures are the steady state of the Markov chain of the model',
 'The probabilities, means and percentiles that the performance model reports are those of the Markov chain that the explored graph and the given probabilities define.',
 ['inputs', 'programs'], 'every graph and every assignment of probabilities and costs',
 'The result is a numeric fixpoint of an iteration over floating point matrices.',
 ['modelchecker/markovchain.go', 'modelchecker/perf_checker.go'], [('steady state', 'steadyStateDistribution, genTransitionMatrix')],
 na='Convergence and accuracy of a floating point power iteration are quantities of the run (spectral gap of the matrix, rounding, the iteration limit): a static argument over the source can bound none of them.')

prop('N03', 'The exploration of a finite specification ends',
 'For a specification with finitely many states within the configured limits, the checker terminates and does so in memory proportional to its states.',
 ['programs', 'schedules'], 'every specification and configuration',
 'Termination depends on the number of states that the program of the user reaches.',
 ['modelchecker/processor.go'], [('work list', 'Processor.Start, processNode')],
 na='Termination of the exploration needs a bound on the values that a user program computes and on the loops it runs, which is undecidable from the checker\'s source. The parts that are decidable (every state is expanded at most once per identity, limits on actions are applied, no thread is executed twice for one step) are claimed in S05, S07 and S09.')

prop('N04', 'The generated test adapters of Java and Rust drive the system as the model says',
 'The runtimes for model based testing in Java and Rust apply the operations of a trace in order and compare every value they get back.',
 ['histories', 'inputs'], 'every trace and every system under test',
 'Their correctness depends on the interplay with a foreign system.',
 ['mbt/lib/java', 'mbt/lib/rust'], [('runtimes', 'mbt/lib')],
 na='Neither runtime can be built or type-checked here (their dependencies are not installed and there is no network), and an unresolved syntax tree gives no call graph or dataflow to decide on; a textual match would judge how they are written, not what they do.')
prop('S17', 'What is written out is the explored graph and the failing path',
 'Every state and every step of the explored graph is in the exported files and in graph.dot, each step between its own states and with its own name, labels, messages, returned values, type and thread mapping, also when it leads to a known state; a state without a next step gets a step to itself. The exported, drawn and printed failing path has exactly its states and steps in order, and states and steps are drawn red exactly if they fail an assertion. A call between roles is recorded with its name, sender, receiver, arguments in a fixed order or returned value, and as one that can be lost unless it is atomic; the exported JSON of a state holds every part of it.',
 ['programs', 'histories'], 'every explored graph and every failing path, whatever its size (files are split at a million states and ten million links)',
 'Tests compare a few printed graphs; a field lost on links to known states, in the last part of a split file or on the second visit of a state shows in no verdict.',
 ['modelchecker/processor.go', 'modelchecker/graph.go', 'main.go'], [('links', 'Node.Attach, Node.Duplicate, Processor.processNode'), ('messages', 'Process.RecordCall, Process.RecordReturn'), ('export', 'GenerateProtoOfJson, GenerateErrorPathProtoOfJson'), ('pictures and texts', 'GenerateDotFile, GenerateFailurePath, Process.MarshalJSON, Node.GetJsonString')],
 'field-completeness of copies (fields enumerated from the type), value provenance of every stored field (which element of which loop), loop coverage, typestate of the part files (collected → written → told → renamed), path queries with tracked values for colors',
 'communication.dot, the HTML page and the picture of a composed failure are not claimed; steps of a failing path do not carry thread mappings')
prop('S18', 'A run is configured as its flags, fizz.yaml and front matter say',
 'Every specification that is checked (the given, each composed, abstract and implementing one) uses the options of fizz.yaml in its directory, those of its own front matter taking precedence; an option that neither sets has its default (100 actions, two concurrent ones or as many as actions if fewer, deadlock detection and crashes on) and one that is set is never replaced, a guided trace or trace extension uses the options of traces (one concurrent action, no crashes, deadlocks or liveness), and a file or front matter that cannot be read or has unknown options ends the run. Each flag sets what its name says and the search gets exactly that: the strategy (bfs oldest state first, dfs newest, random and simulation a random one), the number of simulation runs (one if a seed is given), and the seed from which alone all random choices come, so that a printed seed repeats its run. The work lists hand out each added element exactly once in their order, until they are empty.',
 ['inputs', 'schedules', 'programs'], 'every combination of files, front matter and flags, every seed, every sequence of additions and removals',
 'The program is not covered by tests as a whole: a wrong default, precedence or order silently explores another state space than the one asked for, and a run that its seed does not repeat cannot be examined. An order of messages that followed the random order of a map was found (repaired).',
 ['main.go', 'modelchecker/options.go', 'modelchecker/processor.go', 'lib/yaml.go', 'lib/queue.go', 'lib/stack.go', 'lib/randomqueue.go'],
 [('options', 'loadStateOptions, applyDefaultStateOptions, getStateConfigForTraceChecking, ReadOptionsFromYaml, ReadProtoFromBytes'), ('flags', 'main, parseFlags, startModelChecker'), ('search', 'NewProcessorWithVisitedTracking, Processor.Start'), ('work lists', 'Queue, Stack, RandomQueue'), ('chance', 'uses of math/rand and iteration over maps in the scheduling')],
 'path queries with tracked values under the assumption of each combination of set and unset options and flags, provenance of the options each search starts with (through helpers), table of flags against the variables and defaults they set, order typestate of the work lists, taint of randomness (every use of chance traces back to the seeded source; no map iteration reaches the schedule)',
 'that the number of actions of fizz.yaml limits the default of concurrent actions before the front matter changes it is not judged; how the python compiler extracts the front matter is not claimed')
prop('S19', 'A guided trace explores exactly its links, and a hook changes only variables',
 'A guided trace has one link for each line of its file or text that is neither empty nor a comment, without surrounding blanks, in order; a trace without links, one that cannot be read, or one together with a simulation ends the run. Along a trace exactly those states are explored that are the initial one, continue a thread, or are reached by a link with the name of the next link of the trace, which that state then has passed (each state has its own position, which its successors inherit, and a known state does not end the trace); after the last link nothing is explored, except with an extension as many further links as it allows and those up to the next yield point, and the run has come as far as the state that followed the trace furthest. The path that no-graph mode keeps consists of the names of its links without thread continuations and is replayed as a trace under the same hook; a hook runs after the top-level statements and before their variables are frozen, sees them, the builtins and the modules, changes top-level variables only, and an error in it stops the program.',
 ['inputs', 'schedules', 'programs'], 'every trace, extension and hook, every specification, at every place that schedules states',
 'The explorer and the replay of counterexamples work by traces: a link too many or too few shows the user another behaviour than the one that failed, and a trace that stops early looks like a specification that allows nothing more.',
 ['modelchecker/trace.go', 'modelchecker/processor.go', 'main.go'],
 [('reading', 'parseTrace, ParseTraceFile, ParseTraceString, modelCheckSingleSpec'), ('decision', 'Processor.ShouldScheduleNode and the places that schedule states'), ('position', 'GuidedTrace, Process.Fork, Processor.InitializeNode, Processor.processNode, Processor.expandToYield'), ('paths', 'extendPath, inheritPath, replayTraceWithFullState'), ('hook', 'processPreInit')],
 'path queries with tracked values: per-line obligations of the reader, the decision for each kind of state under the assumption of its conditions, domination of every scheduling by the decision (once per state), ownership and writers of positions, agreement of the kept names with the names of the links, order typestate and provenance for the hook',
 'whether the specification can take the links of a trace is a fact about the specification and is only reported by the run')
prop('S20', 'The Go adapter runs the operations of a test and reports what they did',
 'An operation of a model based test runs the function that is registered for its role type and name (one that is not registered, or an instance that does not exist, is refused), on the instance with the name and id (the model when no role is named) and with its arguments; strings, integers of every size and sign, booleans, lists, maps and the IGNORE mark are converted both ways without loss, every entry and item in its place. The operations of a sequence run one after the other until one fails and the sequences at the same time, and each result of the answer, in the place of its request, is the value or the error of that operation with the interval around its execution and, if asked for, the state of each role (its snapshot if it can give one); an operation that is not implemented is reported as that, and no failure (of init, cleanup, an operation, roles or states) and no operation that was not executed is reported as OK. The runner gets the address, every option (a flag that is set takes precedence) and the seeds that are set, is the one of the flag, else of the environment, and its failure is the failure of the test.',
 ['inputs', 'schedules', 'faults'], 'every request, registry, value and set of flags; every way in which an operation, the roles, the states or the runner can fail',
 'The adapter is what ties a model to an implementation: a result in the wrong place, a value that changes on the way or a failure that is reported as OK makes a wrong implementation pass, and a right one fail, without any test of the checker noticing.',
 ['mbt/lib/go/plugin_service.go', 'mbt/lib/go/plugin.go', 'mbt/lib/go/types.go'],
 [('conversion', 'fromAnyToProtoValue, fromProtoValueToAny, fromProtoArgsToLibArgs'), ('dispatch', 'newCommand, getRole, executeCommand'), ('sequences', 'executeSequence, executeSequencesConcurrent, deserializeSequences, serializeSequenceResults, ExecuteActionSequences'), ('answers', 'serializeResult, ExecuteAction, Init, Cleanup, GetRoleRefsAndStates, snapshotOrGetState, getRoleStateProto'), ('runner', 'RunTests, ParseFlags, GetMbtBinPath, NewFizzBeeMbtPluginServer')],
 'path queries with tracked values: per-kind obligations of both conversions (17 reflect kinds, 6 protocol kinds), provenance of every field of a command, a result and an answer, status of each return under each combination of failures, loop obligations (every element, in its place), order of clocks and call, happens-before of the wait, provenance of the runner\'s arguments',
 'that requests are delivered by gRPC, that the functions of the user end, and clocks that go backwards are outside the source; keys that Go cannot compare, floats and structs are not claimed')
