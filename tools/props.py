"""What is claimed and what is not; gen.py writes properties.jsonl and MANIFEST.json from it.
P(id, title, statement, over, quantifier text, why tests cannot, files, mechanisms [(name, where)],
observe_at, technique, level note)"""
PROPS = []
NA = []


def P(id, title, statement, over, qtext, why, files, mech, observe, technique, note):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      observe=observe, technique=technique, note=note))


def N(id, title, statement, over, qtext, why, files, mech, observe, reason):
    P(id, title, statement, over, qtext, why, files, mech, observe, None, None)
    NA.append((id, reason))


TRUST = (" Trusts the zone library, the standard library and the compiler; code that does not type-check is reported "
         "as undecided.")

P("R01", "A positive refinement verdict rests on a complete, correctly directed match",
  "A refinement query is answered positively only after every reachable pair of states has been examined and, in each "
  "pair, every output the left system can make has been found allowed by the right system and every input the right "
  "system accepts has been found accepted by the left system, over the pair's whole set of clock values. A refutation "
  "during the exploration is only given for an action that is really not matched or for a delay that is really cut. "
  "Two systems without any initial state refine each other; a system with none and one with some do not.",
  ["inputs", "programs"], "all pairs of systems, all reachable pairs of states, all actions and clock valuations",
  "The refinement tests need the zone library, which cannot be built here, and they fix some models: an action, a "
  "guard combination or an order of exploration they do not contain is never examined.",
  ["src/System/refine.rs"],
  [("exploration loop and verdicts", "src/System/refine.rs check_refinement"),
   ("federation comparison", "src/System/refine.rs has_valid_state_pairs, get_guard_fed_for_sides")],
  ["result of a refinement query"],
  "interprocedural must-facts dataflow over compiler MIR with loop summaries (all iterations), terms up to inlining",
  "Every way round the loop, every successful and every failing return is covered, with helpers and closures "
  "inlined." + TRUST)

P("R02", "Successor pairs in refinement are built, bounded and queued without loss",
  "Each successor pair examined by a refinement check results from applying both transitions' guards, then both "
  "transitions' updates, then delay, then the invariants of both target locations, and every combination of a "
  "transition with a matching one is followed. It is queued unless it is empty or already covered by a pair seen "
  "before, always after extrapolation with both systems' bounds; and it is only accepted if the right system's "
  "invariant cuts none of the left system's delays, which goes for the initial pair as well. Every pair taken from the queue is remembered as seen.",
  ["inputs", "programs"], "all pairs of systems, all reachable pairs of states, all pairs of matching transitions",
  "Whether a pair is lost, left unbounded or built from the wrong side shows only on models where that pair is the "
  "one that refutes; the test models fix a handful.",
  ["src/System/refine.rs", "src/ModelObjects/statepair.rs"],
  [("successor pair construction", "src/System/refine.rs build_state_pair"),
   ("initial pair", "src/System/refine.rs prepare_init_state"),
   ("work list and seen list", "src/System/refine.rs check_refinement")],
  ["result of a refinement query"],
  "effect and value-flow analysis over compiler MIR: zone terms reconstructed and compared, path conditions of queuing",
  "Every place that gives a successor its zone or queues it is covered, in both directions." + TRUST)

P("T01", "Transition identifiers split into per-component parts without loss",
  "The leaves of a transition identifier are listed from left to right, one list for each component: both operands of "
  "a conjunction or composition contribute, left before right; all alternatives of one side of a quotient go to the "
  "same components, the right side following the left; every simple or absent identifier is listed exactly once, at "
  "its component, and no identifier makes the listing fail. Splitting a path gives, for each component in order, one "
  "entry for each step in order, holding exactly that step's non-absent identifiers of the component; it is refused "
  "exactly when some step involves another number of components than the first.",
  ["inputs"], "all transition identifiers and all paths of them",
  "The tests list a dozen identifiers and paths; nesting, several alternatives and absent identifiers combine freely.",
  ["src/TransitionSystems/transition_id.rs"],
  [("leaf listing", "src/TransitionSystems/transition_id.rs TransitionID::get_leaves"),
   ("path splitting", "src/TransitionSystems/transition_id.rs TransitionID::split_into_component_lists")],
  ["component paths of a reachability answer", "edge identifiers of a decision"],
  "structural recursion analysis over compiler MIR: recursion scheme per variant, write sets, value flow of positions",
  "Each shape of identifier is compared with the recursion scheme; each write and refusal of the splitter is covered "
  "with its conditions. Quotients with an empty right side are outside it: nothing says how many components they "
  "span." + TRUST)

P("T02", "Identifiers and system expressions are rendered faithfully",
  "A transition or location identifier is rendered as its left operand, the operator of its kind (&& conjunction, || "
  "composition, \\\\ quotient) and its right operand; an operand stands in parentheses unless it is a simple identifier "
  "or of the same kind under conjunction and composition. A quotient of transitions renders every alternative of either "
  "side. Unique location names and system expressions put every operator application in parentheses; a component with "
  "an identifier is rendered name[identifier]. The special locations have different names. A system expression turned "
  "into a location identifier keeps its operators and the order of operands. A location identifier is partial exactly "
  "if one of its parts is the wildcard _.",
  ["inputs"], "all identifiers and system expressions",
  "The tests render a few shallow identifiers; which operands lose their parentheses depends on the nesting of kinds.",
  ["src/TransitionSystems/transition_id.rs", "src/TransitionSystems/location_id.rs",
   "src/ModelObjects/Expressions/query_expression.rs", "src/System/specifics.rs"],
  [("transition identifiers", "src/TransitionSystems/transition_id.rs impl Display for TransitionID"),
   ("location identifiers", "src/TransitionSystems/location_id.rs impl Display, get_unique_string, From"),
   ("system expressions", "src/ModelObjects/Expressions/query_expression.rs impl Display for SystemExpression")],
  ["names of locations, transitions and systems in answers and messages"],
  "abstract evaluation of the rendering per constructor over compiler MIR, text rebuilt from the format strings",
  "Every constructor and every path of the renderers is covered, with the operand kinds known on it." + TRUST)

P("X01", "Traversals of guards and arithmetic reach every operand",
  "Asking whether a guard or arithmetic expression has a variable answers yes exactly if it occurs in some operand. "
  "Renaming a variable (swap_var_name, replace_varname, swap_clock_names) renames each of its occurrences and only "
  "those, and changes neither the operators nor the order of operands. The number of clocks and variables of an "
  "expression counts every occurrence. Going through the constraints of a guard gives each comparison once, with "
  "its left and right side, under any nesting of conjunctions and disjunctions.",
  ["inputs"], "all guards and arithmetic expressions",
  "The tests use expressions of depth two with one or two operators; a forgotten operand shows only for its operator.",
  ["src/ModelObjects/Expressions/bool_expression.rs", "src/ModelObjects/Expressions/arith_expression.rs"],
  [("guards", "src/ModelObjects/Expressions/bool_expression.rs impl BoolExpression"),
   ("arithmetic", "src/ModelObjects/Expressions/arith_expression.rs impl ArithExpression")],
  ["clock reduction", "combination of components", "bounds of clocks"],
  "recursion equations per constructor extracted from compiler MIR, checked against the list of operands",
  "Every constructor of both expression types is covered for every one of the traversals." + TRUST)

P("X03", "Saved guards, invariants and updates are read back as they were",
  "A guard, invariant or update expression written out (encode_expr, encode_opt_updates) and read again (parse_guard, "
  "parse_updates) is the same expression: every operator is written with the token the reader maps to that operator, "
  "with its operands in order, and an operand is written without parentheses only where precedence and associativity of "
  "the reader give the same tree (chains of && and of || may be regrouped). Negative numbers are written in a form that "
  "can be read. An empty guard reads as true. Every assignment of an update is kept, in order.",
  ["inputs"], "all guards and arithmetic expressions over names and numbers, all lists of assignments",
  "The tests parse some expressions and save none with nested operators; a wrong template shows only for that operator "
  "in that position.",
  ["src/ModelObjects/Expressions/bool_expression.rs", "src/ModelObjects/Expressions/arith_expression.rs",
   "src/DataReader/parse_edge.rs", "src/DataReader/grammars/edge_grammar.pest", "src/DataReader/serialization.rs"],
  [("writing", "src/ModelObjects/Expressions encode_expr"), ("reading", "src/DataReader/parse_edge.rs"),
   ("tokens", "src/DataReader/grammars/edge_grammar.pest")],
  ["get-component and prune write their result as a component file, which is loaded again later"],
  "text templates, reader tables and operator precedence extracted from MIR and grammar, checked to be inverse",
  "Every operator and every pair of operator and operand is covered. The operation of pest and its operator precedence "
  "parser are assumed as documented." + TRUST)

P("X02", "Simplifying an expression keeps its value",
  "ArithExpression::simplify yields an expression with the same value: a clock or name lifted out of sums and differences, "
  "from either side and however deep, and put back with what is left behind, has the sign and the rest it had; a name "
  "that is itself an operand of a multiplication, division or modulo stays that operand. A clock anywhere inside an "
  "operand of multiplication, division or modulo is refused with an error, never computed with. Operators on two numbers "
  "become the number the operator yields. The constructors ADif, AAdd, AMul, ADiv and AMod denote their operators, for "
  "negative numbers too (division and modulo by zero aside). BoolExpression::simplify keeps the truth: connectives with "
  "a known side and comparisons of two numbers become what they are worth, and nothing else is changed.",
  ["inputs"], "all arithmetic expressions and all operators, sides and ways of nesting, all boolean expressions",
  "The tests simplify some fifty expressions; a sign lost for one operator at one side of another does not show in them, "
  "and two of them even expect a wrong one.",
  ["src/ModelObjects/Expressions/arith_expression.rs", "src/ModelObjects/Expressions/bool_expression.rs"],
  [("lifting", "src/ModelObjects/Expressions/arith_expression.rs move_clock_and_vars, clone_expr"),
   ("folding", "simplify_helper of both expressions"), ("constructors", "ADif, AAdd, AMul, ADiv, AMod")],
  ["guards and invariants are simplified before they become constraints", "the parser builds expressions by the constructors"],
  "abstract evaluation of each lifting step, for every operator, side and way the inner clock was lifted, compared as "
  "linear forms; case analysis of folding and constructors against the operators",
  "The recursion is cut at one step: what the step does is compared for every result the step inside may have. Names in "
  "sums inside a product ((n+1)*2) are outside the statement, as integer variables never reach it. Overflow is not "
  "considered. One place where the sign is lost is a known finding, since two tests of the repository expect it." + TRUST)

P("B01", "Extrapolation bounds cover every constant a clock is compared with",
  "The constant a clock is compared with is found wherever it stands in a comparison and whether or not it is written "
  "as arithmetic. The bounds of a component hold, for each of its clocks, the largest constant the clock is compared "
  "with in any guard or invariant of the component, as lower and upper bound. The bounds of a composition, conjunction "
  "or quotient at a location combine those of both operands at their part of the location. A state is extrapolated "
  "with the bounds of its own location, a pair of states with both systems', and a reachability search adds the "
  "constants of its target.",
  ["inputs", "programs"], "all components, systems, locations and clocks",
  "A forgotten constant merges states that differ, which changes an answer only for models whose behaviour depends on "
  "that constant late enough; the tests of bounds fix one component.",
  ["src/ModelObjects/component.rs", "src/ModelObjects/Expressions/arith_expression.rs",
   "src/ModelObjects/Expressions/bool_expression.rs", "src/ModelObjects/state.rs", "src/ModelObjects/statepair.rs",
   "src/TransitionSystems/common.rs", "src/TransitionSystems/quotient.rs",
   "src/TransitionSystems/compiled_component.rs", "src/System/reachability.rs"],
  [("constants of constraints", "src/ModelObjects/Expressions get_constant, get_max_constant"),
   ("bounds of components", "src/ModelObjects/component.rs Component::get_max_bounds"),
   ("bounds of systems", "src/TransitionSystems get_local_max_bounds"),
   ("extrapolation", "src/ModelObjects/state.rs, statepair.rs extrapolate_max_bounds*")],
  ["verdicts of refinement, consistency and reachability queries"],
  "abstract tabulation over operand kinds and contribution analysis of bounds over compiler MIR",
  "All pairs of operand kinds, all contributions and the conditions they are made under are covered. The effect of "
  "assignments between clocks and of difference constraints on extrapolation is the zone library's." + TRUST)

P("C01", "Guards and invariants constrain clock values to exactly what they say",
  "Applying a guard or invariant to a set of clock values keeps exactly the values that satisfy it: a comparison whose "
  "sides are a clock, a number, a clock plus or minus a number, a number minus a clock, or a difference of two clocks "
  "becomes the difference constraint it states, strict exactly if it is written strictly, an equality both of them; a "
  "conjunction keeps what both operands keep, a disjunction what either keeps of the original set; true keeps "
  "everything, false nothing. A name stands for the clock declared under it, else for the number. Assigning a clock, "
  "freeing an assigned clock and requiring its assigned value use the assignment's own clock and value.",
  ["inputs"], "all guards and invariants over clocks and numbers of these forms, all sets of clock values",
  "The tests check the indices of a few comparisons and need the zone library; a sign or strictness wrong for one "
  "operator and one form of sides shows only with that combination.",
  ["src/EdgeEval/constraint_applyer.rs", "src/EdgeEval/updater.rs"],
  [("comparisons to difference constraints", "src/EdgeEval/constraint_applyer.rs get_indices, get_clock_val, combine_clocks"),
   ("connectives", "src/EdgeEval/constraint_applyer.rs apply_constraints_to_state"),
   ("assignments", "src/EdgeEval/updater.rs CompiledUpdate")],
  ["guards and invariants of every query"],
  "abstract evaluation of the constraint builder on every shape of sides with symbolic clocks and numbers, compared with "
  "the linear form of the comparison",
  "Every operator with every pair of forms up to the named depth, every connective. Simplification of the sides before "
  "is X02. Three ways of writing the same are known not to be recognised and would be reported: one arm for a single "
  "clock on either side, += for the union of a disjunction, or_else for the lookup of a name." + TRUST)

P("C02", "Taking a transition computes the successor the timed semantics prescribes",
  "Taking a transition from a state keeps the values of its zone that satisfy the guard, performs all assignments of the "
  "transition in their order, lets time pass, moves to the target locations and keeps what their invariants allow; the "
  "step is possible exactly if something is left. The set of values a transition may be taken from is its guard "
  "together with what its assignments, undone from the last to the first, lead into the target invariant. The "
  "transition of an edge has the edge's guard and identifier, the location the edge names as its target and the edge's "
  "assignments, all of them in order. The initial state of a location is the zero valuation if its invariant allows "
  "it. A state is covered by another only in the same location and with a subset of its values; it is known to a list "
  "if some state of the list covers it.",
  ["inputs", "programs"], "all transitions, edges, states and zones",
  "The semantics of a step cannot be run here without the zone library, and its order of operations only shows with an "
  "invariant, a repeated assignment or a delay that distinguishes the orders.",
  ["src/ModelObjects/transition.rs", "src/ModelObjects/state.rs", "src/ModelObjects/edge.rs", "src/EdgeEval/updater.rs"],
  [("step", "src/ModelObjects/transition.rs use_transition"),
   ("weakest precondition", "src/ModelObjects/transition.rs get_allowed_federation, inverse_apply_updates"),
   ("edges to transitions", "src/ModelObjects/transition.rs from_component_and_edge, combine_edge_guards"),
   ("states", "src/ModelObjects/state.rs")],
  ["successors in refinement, consistency, reachability and simulation"],
  "normal forms of zone terms (intersections as sets, loops and folds over assignments with direction) on every path, "
  "over compiler MIR",
  "All paths of the step and of the functions it is made of. That guards compile to the right constraints is C01; that "
  "zone operations mean what they say is the zone library's." + TRUST)

P("C03", "Joint transitions and joint locations combine exactly the parts of both sides",
  "Combining the transitions of two sides yields one joint transition for every pair, whose identifier has both "
  "identifiers in order under the kind of composition, whose guard is the intersection of both guards, whose target is "
  "the joint target and whose assignments are those of both sides in their order. The joint location of two locations "
  "has both as its sides, both identifiers, the intersection of the invariants that exist, and is initial exactly if "
  "both are; a quotient location carries no invariant. The universal location allows everything, the error location "
  "only its quotient clock at zero. Two locations are the same exactly if identifier and kind agree. A partial "
  "location matches a location of the same structure whose named parts agree; a wildcard matches any single location.",
  ["inputs", "programs"], "all pairs of transitions and locations, both kinds of composition, all location structures",
  "A part that is dropped or taken from the wrong side shows only when the two sides differ in it; tests fix a few "
  "components without invariants on both sides or repeated assignments.",
  ["src/ModelObjects/transition.rs", "src/TransitionSystems/location_tree.rs", "src/ModelObjects/location.rs"],
  [("joint transitions", "src/ModelObjects/transition.rs Transition::combinations"),
   ("joint locations", "src/TransitionSystems/location_tree.rs compose, merge_as_quotient, universal, error"),
   ("kinds", "src/ModelObjects/location.rs LocationType::combine"),
   ("matching", "src/TransitionSystems/location_tree.rs eq, compare_partial_locations")],
  ["every query on a composed system"],
  "symbolic evaluation of the constructors over compiler MIR at every kind of composition and every presence of "
  "invariants; tabulation over pairs of constructors",
  "All pairs of constructors and all combinations of present and absent invariants. Partial matching against the two "
  "special quotient locations is not covered: a query cannot name them." + TRUST)

P("S01", "Composition and conjunction have the actions and transitions of their definition",
  "A composition is refused exactly if an action is an output of both operands; its outputs are the outputs of either, "
  "its inputs the inputs of either that are no output of the other. A conjunction is refused exactly if an input of one "
  "operand is an output of the other or if it turns out inconsistent; its inputs and outputs are those both operands "
  "have. For an action of both operands their transitions are combined, left with left location and right with right, "
  "under the kind of the system; for an action of one operand only, its transitions are combined with the other operand "
  "staying where it is. Locations are all pairs of locations of the operands, the initial location the pair of their "
  "initial locations and the initial state its zone from zero under the invariants if not empty; the checks for "
  "determinism and consistency of a composition pass exactly if both operands pass. A system has an action exactly if it "
  "is one of its inputs or outputs.",
  ["inputs", "programs"], "all pairs of systems without an action that is both input and output of one system; all actions",
  "Which actions a system ends up with depends on every way an action can belong to the two operands, and the tests need "
  "the zone library and fix a handful of models.",
  ["src/TransitionSystems/composition.rs", "src/TransitionSystems/conjunction.rs", "src/TransitionSystems/common.rs",
   "src/TransitionSystems/transition_system.rs"],
  [("constructors", "src/TransitionSystems/composition.rs, conjunction.rs new_ts"),
   ("joint moves", "src/TransitionSystems/composition.rs, conjunction.rs next_transitions"),
   ("methods of composed systems", "src/TransitionSystems/common.rs"),
   ("defaults", "src/TransitionSystems/transition_system.rs")],
  ["every query on a composed system"],
  "sets of actions reduced to Boolean functions of membership over compiler MIR and compared on all assignments; path "
  "conditions of construction and of joint moves; the built value passed to its own methods",
  "All ways an action can belong to the operands, all outcomes of construction. That parts are joined correctly is C03, "
  "that consistency is decided correctly Q02." + TRUST)

P("S02", "The quotient has the actions and transitions of its definition",
  "A quotient of T and S is refused exactly if an output of S is an input of T or if T or S fails its check for "
  "determinism and consistency. Its inputs are the inputs of T, the outputs of S and one further action that neither of "
  "them has; its outputs are the outputs of T that are none of S and the inputs of S that are none of T. From a pair of "
  "locations it has: for every pair of transitions of T and S, or single transition of the one that has the action, a "
  "joint one, allowed where both are and where the invariants hold; to the universal location where S's invariant does not "
  "hold or, for an output of S, no transition of S is allowed; to the inconsistent location, resetting the quotient's "
  "clock, for every transition of S on a common output where no transition of T is allowed, and on the further action "
  "where T's invariant does not hold but S's does. Every action loops in the universal location; every input does in the "
  "inconsistent one while the quotient's clock is 0. Identifiers name the transitions involved, T's before S's. Locations "
  "are all pairs and the two special ones, and the initial location is the pair of initial locations.",
  ["inputs", "programs"],
  "all pairs of systems without an action that is both input and output of one; all actions, locations and invariants",
  "The rules depend on every way an action belongs to the operands and on the guards and invariants of all their "
  "transitions; the tests need the zone library and only see the verdicts on a few models.",
  ["src/TransitionSystems/quotient.rs", "src/TransitionSystems/location_tree.rs"],
  [("construction", "src/TransitionSystems/quotient.rs new_ts"),
   ("rules of the quotient", "src/TransitionSystems/quotient.rs next_transitions"),
   ("special locations", "src/TransitionSystems/location_tree.rs universal, error")],
  ["every query on a quotient"],
  "abstract interpretation of the constructor's result through its own methods over compiler MIR: action sets and guards "
  "reduced to Boolean functions (membership; zones with unions over transitions) and compared on all assignments",
  "Every way an action can belong to the operands with every presence of invariants; guards are compared as sets for "
  "all values of their parts. The dimension and index of the quotient's clock are S04's." + TRUST)

P("S03", "A compiled component is the component as modelled",
  "A compiled component has as inputs exactly the channels of its input edges and as outputs exactly the channels of its "
  "output edges, the wildcard * aside, and is refused exactly if an action is both. Its locations are those of the "
  "component, each found by its own identifier and no other; its initial location is the one marked as such, its initial "
  "state that location from zero under its invariant if that is not empty. In a location it has for an action exactly the "
  "transitions of the edges with that channel that leave it, all of them; the universal location instead loops on every "
  "action and the inconsistent location on every input. Its bounds, name and declarations are the component's, no bounds "
  "hold in the two special locations, and it carries an index the next component does not have. Its checks for "
  "determinism and consistency are those for the component itself.",
  ["inputs", "programs"], "all components, locations and actions",
  "Which transitions a location has depends on all edges of a component, their channels and directions; the tests need "
  "the zone library and fix a handful of models.",
  ["src/TransitionSystems/compiled_component.rs", "src/ModelObjects/component.rs", "src/TransitionSystems/transition_system.rs"],
  [("construction", "src/TransitionSystems/compiled_component.rs compile, compile_with_actions"),
   ("moves and locations", "src/TransitionSystems/compiled_component.rs next_transitions, get_location"),
   ("actions of a component", "src/ModelObjects/component.rs get_specific_actions")],
  ["every query on a component"],
  "collections reconstructed as elements with the conditions each is put in under (compiler MIR), the built value passed "
  "to its own methods, results compared on all paths for each kind of location and action",
  "All edges, locations and outcomes. That the transition of an edge itself is right is C02, the bounds B01." + TRUST)

P("S04", "A query works on the system its expression denotes",
  "The system of a query mirrors its expression operator by operator, left operand before right: compositions, "
  "conjunctions and quotients of the systems of the operands, and for a name the component of that name with its "
  "identifier. Every component of a query has clocks of its own, numbered on from those before it; all quotients of a "
  "query share one clock, numbered when the first is met, after its operands' clocks; the dimension counts them all, and "
  "zero. Components are numbered consecutively. Both systems of a refinement share one numbering of clocks and components, "
  "one quotient clock and one dimension. Each kind of query is answered by its own procedure on the system or systems it "
  "names: reachability from the given start state, which must not be partial, or else from the initial one, to the given "
  "end state; a saved component under its given name. A query is refused only if a system or state in it cannot be "
  "built. Clocks are reduced only if that is not turned off, never for reachability, and then over all systems of the "
  "query at once, sparing the quotient clock.",
  ["inputs", "programs"], "all query expressions and projects",
  "Sharing and numbering go wrong only for particular nestings of operators (a second quotient, a copy of a component, a "
  "right side with its own clocks), of which tests sample a few.",
  ["src/System/extract_system_rep.rs", "src/ModelObjects/component.rs", "src/ModelObjects/Expressions/query_expression.rs"],
  [("recipe of an expression", "src/System/extract_system_rep.rs get_system_recipe"),
   ("compiling a recipe", "src/System/extract_system_rep.rs SystemRecipe::_compile, compile, compile_with_index"),
   ("kinds of queries", "src/System/extract_system_rep.rs create_executable_query"),
   ("numbering of clocks", "src/ModelObjects/component.rs set_clock_indices")],
  ["every query"],
  "abstract interpretation per operator over compiler MIR with the counters followed through memory from call to call; "
  "results and memory compared with the definition on all paths",
  "All operators, query kinds and outcomes. What clock reduction does to a recipe, and what a state expression denotes, "
  "is not part of this." + TRUST)

P("Q01", "Reachability is decided by an exhaustive search that answers with a path it took",
  "A path is reported only to a state reached from the start state by transitions of the system, whose locations match the "
  "end state's (locations left open match any) and which shares a valuation with the end state. Unreachability is reported "
  "only if the start state is empty, the end state is empty or lies outside its invariant, or no state remains to be "
  "explored. From every state taken from the queue every transition of every action of the system is tried; what it leads "
  "to is extrapolated with the system's bounds together with those of the end state and is queued unless its zone is "
  "part of one seen before at the same locations. A zone is forgotten only in favour of a larger one, and recorded as seen "
  "only together with queueing its state. The search starts in the start state restricted to its invariant. The path "
  "reported is the sequence of transitions that led from the start to the state found, complete and in order, each with its "
  "action and the states it connects.",
  ["inputs", "programs"], "all systems, start and end states",
  "Whether a state is wrongly left out shows only on models where zones overlap in particular ways or paths loop; the tests "
  "know a dozen models.",
  ["src/System/reachability.rs"],
  [("search", "src/System/reachability.rs find_path, reachability_search, take_transition"),
   ("end of the search", "src/System/reachability.rs is_trivially_unreachable, reached_end_state"),
   ("path", "src/System/reachability.rs make_path, find_specific_path")],
  ["reachability queries"],
  "the search loop reconstructed from compiler MIR with states followed through memory; the conditions of queueing, "
  "recording, leaving out and answering compared on all paths with those of an exhaustive zone search",
  "All paths of the search. The start state is taken as given (not delayed first). Termination rests on extrapolation "
  "(B01) and is not decided; nor what the zone operations themselves do." + TRUST)

P("Q02", "Consistency and determinism are decided over all moves of every state met",
  "A system is judged consistent only if its initial state exists and is consistent: the universal location is, the "
  "inconsistent location is not, and any other state is if every input transition that is possible leads to a consistent "
  "state and it may delay for ever or some possible output transition leads to a consistent state. It is judged "
  "inconsistent only if that fails. A system is judged deterministic only if, from every valuation in its initial location "
  "and every state met from there, no two possible transitions of one action are permitted (guard, updates into the "
  "target's invariant, and invariant of the location) in a common valuation; nondeterministic only if two are. States are "
  "extrapolated before they are checked. A state is skipped only if it is part of one passed before at the same locations "
  "(name and kind) whose check is not known to have failed: a branch that fails leaves no states behind. Failures found "
  "below are passed on.",
  ["inputs", "programs"], "all systems",
  "A wrong verdict needs a particular branch to fail first or loops to overlap; the tests know a handful of models.",
  ["src/System/local_consistency.rs", "src/ModelObjects/state.rs", "src/TransitionSystems/location_tree.rs"],
  [("consistency", "src/System/local_consistency.rs is_least_consistent, consistency_least_helper"),
   ("determinism", "src/System/local_consistency.rs check_determinism, is_deterministic_helper"),
   ("states passed", "src/ModelObjects/state.rs is_subset_of, is_contained_in_list; LocationTree eq")],
  ["consistency, determinism and refinement queries"],
  "the recursive procedures unrolled once over a symbolic state (compiler MIR); moves, verdicts, and what becomes of the "
  "list of states on each way round the loops compared with the definition",
  "All ways through both procedures. Not decided: termination (extrapolation is B01), the unused is_fully_consistent, and "
  "what the zone operations themselves do." + TRUST)

P("V01", "Queries get their own procedure's verdict; failures are reported as they are",
  "Each kind of query is answered by its decision procedure on its own systems in the order asked: refinement left against "
  "right, consistency, determinism and reachability on theirs, specification by both, and saving with the component reached "
  "by pruning it, under the name asked for and with its edges numbered anew. A query is printed, and replied to the remote "
  "client, as satisfied exactly if the procedure found it so. A failure is replied as its own kind, with the names of the "
  "systems on the sides they had, the action with its kind (input exactly if it is an input of one of the systems named), "
  "the sets of actions on the sides they had, and the state. Every step of a path found is reported, in order. A request "
  "is answered for exactly one query, on the components, user, hash and settings of that request, under its own number; a "
  "query that cannot be read or run is answered by the corresponding error.",
  ["inputs"], "all queries, verdicts and requests",
  "The combinations of query kinds, failures, sides and kinds of action are many; the tests look at satisfied or not on a "
  "few, and at no reply.",
  ["src/System/executable_query.rs", "src/System/query_failures.rs", "src/ProtobufServer/proto_conversions.rs",
   "src/ProtobufServer/ecdar_requests/send_query.rs"],
  [("decision per kind", "src/System/executable_query.rs execute of every executor"),
   ("failures", "src/System/query_failures.rs constructors and conversions to QueryResult"),
   ("replies", "src/ProtobufServer/proto_conversions.rs"),
   ("requests", "src/ProtobufServer/ecdar_requests/send_query.rs handle_send_query")],
  ["every query"],
  "decision tables (conditions and result term of every outcome) of the executors, failure constructors and reply "
  "conversions extracted from compiler MIR by abstract interpretation and compared row by row with the specified ones",
  "All rows. How states, decisions and locations are written in a reply is V02's part; how queries are parsed is not "
  "covered." + TRUST)

P("V02", "Reported states, decisions and edges name what they are, and read back the same",
  "A reported state has the same shape as the locations of the system: conjunction, composition and quotient with their "
  "parts on their sides, left against right for a pair of systems, each location with the name and number of the component "
  "instance it is in, and the special locations as themselves. Its zone is reported complete: all conjunctions and all "
  "constraints, with their sides, strictness and bound, every clock as the zero clock, as the clock of that name of its "
  "component instance, or, only if it belongs to no component, by its number. A decision is reported with its own source, "
  "action and destination and with exactly the edges its transition is made of, left parts before right ones and every "
  "alternative of a quotient, each with its component instance; a path step by step. The message sent to a client holds the "
  "same values in the fields meant for them, and a state or decision read back from such a message is the one it describes: "
  "same locations, same constraints, each clock that of the instance named, restricted to the invariant of its locations.",
  ["inputs", "programs"], "all systems, states and messages",
  "Mix-ups show only for particular nestings, repeated components, quotient transitions or strict bounds; the tests convert "
  "initial states of a few systems there and back, which does not notice errors made in both directions.",
  ["src/System/specifics.rs", "src/ProtobufServer/proto_conversions.rs", "src/DataReader/proto_reader.rs",
   "src/TransitionSystems/transition_system.rs"],
  [("states, zones and edges", "src/System/specifics.rs"),
   ("messages", "src/ProtobufServer/proto_conversions.rs conversions of Specific*"),
   ("reading", "src/DataReader/proto_reader.rs"),
   ("layout of components", "src/TransitionSystems/transition_system.rs ComponentInfoTree, comp_infos")],
  ["every reported state, path and simulation step"],
  "tables of the value built for each variant of the argument extracted from compiler MIR by abstract interpretation, and "
  "compared with the specified ones; lists shown to hold one entry per source element",
  "All variants. The transition of a decision read back is not restored (the code does not claim to); messages with missing "
  "fields are refused by a panic, which the server answers as an error." + TRUST)

P("I01", "Components become input-enabled without changing what they already do",
  "When a component is taken in - from a JSON project, an XML project, a list of components or a client's request - it gets, "
  "before it is stored under its name, for every location and every input (the inputs declared for it in a project; otherwise "
  "the inputs its edges have) an edge for the valuations in which the location would otherwise refuse that input: an input "
  "edge from the location to itself, with no update, and as guard the invariant of the location without the union, over all "
  "input edges of that location for that input or for \"*\", of the valuations the edge accepts. An edge accepts the valuations "
  "that satisfy its guard and the invariant of its location and that its updates, all in their order, take into the invariant "
  "of the location it names as target. If nothing is left no edge is added; locations, declarations and edges that are there "
  "already stay as they are. The input (output) actions of a component are the actions of its input (output) edges "
  "other than \"*\".",
  ["inputs", "programs"], "all components, locations, inputs and clock valuations",
  "Which valuations are refused depends on all guards, invariants and update sequences around a location at once; the tests "
  "have a handful of components, none with several updates of one clock.",
  ["src/System/input_enabler.rs", "src/DataReader/component_loader.rs", "src/ProtobufServer/ecdar_requests/request_util.rs",
   "src/ModelObjects/component.rs"],
  [("new edges", "src/System/input_enabler.rs make_input_enabled"),
   ("projects and lists of components", "src/DataReader/component_loader.rs"),
   ("requests", "src/ProtobufServer/ecdar_requests/request_util.rs"),
   ("actions", "src/ModelObjects/component.rs get_input_actions, get_output_actions")],
  ["every component taken in"],
  "symbolic reconstruction from compiler MIR of the zone subtracted for each edge (normal forms of intersections and folds per "
  "combination of present and absent guard, invariants and updates), truth table of the conditions under which an edge counts, "
  "and must-precede analysis of every place that stores a component",
  "All cases. The zone operations themselves belong to the edbm crate; that constraints are applied as they read is C01, that "
  "updates are compiled as they read is C02." + TRUST)

P("C04", "Zones are written back as the conditions that describe exactly them",
  "Where a zone is turned into a condition again - for the guards and invariants of a component that is saved, combined or "
  "pruned - the condition allows exactly the valuations of the zone. A bound i - j < b or i - j <= b becomes the inequality of "
  "that strictness between the clocks of these numbers, for the zero clock and for a bound of 0 as for others: a lower bound "
  "on one clock, an upper bound, or a bound on a difference. The bounds of a conjunction are all joined by 'and', the "
  "conjunctions of a disjunction all by 'or'; no bound at all is true (no condition), no conjunction at all is false, and one "
  "conjunction that is true makes the whole true. Every clock gets the name that the declarations have for its number. The "
  "guard of a transition is written as the bounds of its guard zone.",
  ["inputs", "programs"], "all zones, sets of bounds and declarations",
  "A bound lost or made non-strict shows only for zones with that bound and for clock values next to it; the tests save a few "
  "components and ask whether they refine themselves.",
  ["src/ModelObjects/Expressions/bool_expression.rs", "src/ModelObjects/transition.rs"],
  [("bounds", "src/ModelObjects/Expressions/bool_expression.rs from_constraint, var_from_naming, var_diff_from_naming"),
   ("conjunctions and disjunctions", "src/ModelObjects/Expressions/bool_expression.rs from_conjunction, from_disjunction"),
   ("guards", "src/ModelObjects/transition.rs get_renamed_guard_expression")],
  ["every condition made of a zone"],
  "the condition returned for each case is read from compiler MIR as a linear inequality and compared with the bound; the loops "
  "or reductions that join them are proved by induction to take in every element, and no early exit to leave one out",
  "All cases. That the edbm crate hands out the bounds of the zone is taken for granted." + TRUST)

P("M01", "A system saved as one component is that system",
  "The component that is made of a system (to save it under a name, or to prune it) has one location for each location of the "
  "system - for a component that is saved: for each one that can be reached, following every transition of every input and "
  "every output from the initial location on - with its name, its invariant and marked initial if it is; one edge for each "
  "transition of each of these locations, input edges for inputs and output edges for outputs, with its action, from that "
  "location to the one it leads to, with its guard and all its updates in their order (clock and value); only transitions "
  "whose guard is false may be left out. It has a clock for each clock of the system: clocks that have the same name in "
  "different parts get different ones, and guards, invariants and updates use the name of the clock they are about.",
  ["inputs", "programs"], "all systems",
  "What is lost shows only for systems with that location, transition, update sequence or pair of clock names; the tests save "
  "a few components and compositions and ask whether they refine themselves.",
  ["src/System/save_component.rs", "src/ModelObjects/transition.rs", "src/EdgeEval/updater.rs"],
  [("locations, edges, clocks", "src/System/save_component.rs combine_components and what it calls"),
   ("updates", "src/ModelObjects/transition.rs get_renamed_updates, src/EdgeEval/updater.rs as_update"),
   ("targets", "src/ModelObjects/transition.rs move_locations")],
  ["every component made of a system"],
  "symbolic reconstruction from compiler MIR of the three collections of the new component (elements, their sources and the "
  "conditions each depends on), closure of the search for reachable locations shown by its recursion or worklist, and "
  "control-dependence conditions reduced to truth tables of the guard",
  "All systems. The condition a zone is written as is C04, the transitions and locations of a system are S01-S04." + TRUST)

P("D01", "A simulation offers exactly the decisions a state allows",
  "From a state a simulation offers, for every action of the system and every transition the system has for it at the state's "
  "locations, a decision exactly if some valuation of the state is one the transition may be taken from; the decision has the "
  "valuations of the state that are, at the same locations, as its source, the action, the transition, and the state the "
  "transition leads to from there. A simulation starts with the decisions of the initial state. A decision that was chosen is "
  "taken from its own source by the transitions of its own action, is refused unless exactly one state is reached, and is "
  "followed by the decisions of that state. The client is answered with the initial state, or the destination of the decision "
  "it chose, and with all decisions, none left out; the system simulated is the composition the client names, of its own components.",
  ["inputs", "histories"], "all systems, states and sequences of decisions",
  "A decision left out, or one with valuations too many, shows only in states with that combination of transitions; the tests "
  "walk a few samples.",
  ["src/Simulation/decision.rs", "src/ProtobufServer/ecdar_requests/simulation_requests.rs", "src/ProtobufServer/ecdar_requests/request_util.rs"],
  [("decisions", "src/Simulation/decision.rs get_decisions_from_state, from_state_transition, get_initial_decisions"),
   ("a step", "src/Simulation/decision.rs resolve"),
   ("requests", "src/ProtobufServer/ecdar_requests/simulation_requests.rs handle_start_simulation, handle_take_simulation_step")],
  ["every list of decisions returned", "both simulation responses"],
  "symbolic reconstruction from compiler MIR of the decisions put into each list (fields, sources of the elements, conditions "
  "each depends on, early exits of the loops), and table of the responses",
  "All states. What a transition allows and leads to is C02, the transitions of a system are S01-S04, the form decisions are "
  "reported in V02." + TRUST)

P("S05", "A query's states are the ones it names",
  "The state that a reachability query names, as its start or its goal, is at the location each 'component.location' in it "
  "names, for the component of the system with that name and identifier, and may be at any location for components it does not "
  "name; the locations are put together as the system is, left before right, by the same operators. Its clock values are exactly "
  "those that satisfy the comparisons, joined by and and or as they are in the query, each clock the one with that name of the "
  "component with that name and identifier. It is refused when two components of the system have the same name and identifier, "
  "when two different locations are named for one component, when a component, location or clock it names is not there, and "
  "when locations are negated or joined by or.",
  ["inputs", "programs"], "all systems and state expressions",
  "A location or clock taken from another component, or a comparison lost, shows only for systems with several instances or "
  "expressions nested that way; the tests ask for one location, or one with one clock.",
  ["src/System/extract_state.rs", "src/ModelObjects/Expressions/state_expression.rs"],
  [("locations", "src/System/extract_state.rs get_state, get_locations, construct_location_tree"),
   ("clock values", "src/System/extract_state.rs create_zone_given_constraints; src/ModelObjects/Expressions/state_expression.rs "
    "to_bool_expression, to_arith_expression")],
  ["every state made of a state expression"],
  "tables of the constructors from compiler MIR (each state expression to its locations and its condition, each system to its "
  "tree of locations), with the sources of every list element and the searches it was found by, and the conditions of every refusal",
  "All cases. How conditions become zones is C01; the numbers of a component's clocks are V02 and T02." + TRUST)

P("P01", "Queries are read, and printed, as they are written",
  "A text is read as the queries that are written in it, in order: each by its keyword as that kind of query, with its systems in "
  "their order, the start state of a reachability query if there is one (init if not) and its goal, and the name to save under "
  "if there is one. A system is read as its components, with their identifiers, joined by the operators written between them: "
  "quotient binds weakest and conjunction strongest, all group to the left, and parentheses are kept to. A state is read as its "
  "locations, comparisons (with their operator and both sides), sums and differences from the left, and/or/not and true/false, "
  "all parts kept in order. Names may start with a keyword. What is read is printed as a text that is read as the same again.",
  ["inputs"], "all query texts",
  "What is read in another way shows only for texts with that combination of operators, names or optional parts; the tests read "
  "some dozens of queries and compare few of the results.",
  ["src/DataReader/parse_queries.rs", "src/DataReader/grammars/query_grammar.pest", "src/ModelObjects/Expressions/query_expression.rs",
   "src/ModelObjects/Expressions/state_expression.rs"],
  [("grammar", "src/DataReader/grammars/query_grammar.pest"),
   ("reading", "src/DataReader/parse_queries.rs parse_query, parse_system, parse_state, parse_operand, comp_var_from_variable_pair"),
   ("printing", "the Display implementations in query_expression.rs and state_expression.rs")],
  ["every query text read or printed"],
  "the grammar file is parsed and compared rule by rule with the query language (silent rules looked through, alternatives as "
  "sets, no alternative hidden behind another); the tables from rules to constructors, the operator precedences and the text "
  "templates of the printers are extracted from compiler MIR and compared with it",
  "All texts. That the pest library follows the grammar is taken for granted; whether 'and' or 'or' binds tighter in a state is "
  "left open." + TRUST)

P("L01", "Each request is answered on its own, from its own user's components",
  "A query, the start of a simulation and a step of one are each handled by their own procedure, on the request as it came and on "
  "the cache all requests share. If handling a request panics, that request is answered by an internal error and nothing else is "
  "affected; otherwise it is answered by what its procedure returned, result or error. Every user who asks for a number gets one "
  "never given before. Components are kept per user together with the hash they were sent with (replacing what was kept for that "
  "user), and are given again only to that user and only for exactly that hash; hash 0 is never kept or looked up. What is not "
  "kept is read from the request: all components of all its texts that can be read, each under its own name, the later of two "
  "with one name. Loaders give the component asked for by name: a project's component is read from its file once, and one that "
  "was saved is written to its file and given from then on. The server starts with the number of threads and the size of the "
  "cache asked for.",
  ["inputs", "histories"], "all histories of requests, of any users and hashes",
  "What is kept depends on the history of requests, and a panic on where in a request it happens; the tests send single requests, "
  "each to a fresh server.",
  ["src/ProtobufServer/ecdar_backend.rs", "src/DataReader/component_loader.rs", "src/ProtobufServer/ecdar_requests/request_util.rs",
   "src/ProtobufServer/server.rs"],
  [("panics caught", "src/ProtobufServer/ecdar_backend.rs catch_unwind, send_query, start_simulation, take_simulation_step"),
   ("cache", "src/DataReader/component_loader.rs ModelCache::get_model, insert_model"),
   ("reading", "src/ProtobufServer/ecdar_requests/request_util.rs get_or_insert_model"),
   ("loaders", "src/DataReader/component_loader.rs get_component, save_component")],
  ["every request to the server", "every component looked up"],
  "the endpoints are evaluated over compiler MIR through the bodies of their futures: the call of the handler must lie in a frame "
  "under the panic catcher, and the three outcomes of catching must be passed on; the cache, the collection of components and the "
  "loaders are compared, way by way with the conditions that lead there, with the table of what they must give",
  "All requests and histories: the cache itself (the lru crate) and catching a panic are taken for granted. That the components "
  "are made input-enabled is I01, what the answer to a query is V01, and to a simulation D01." + TRUST)
P("K01", "Removing redundant clocks leaves every verdict as it is",
  "Before a query is answered the clocks of its system may be reduced, which must not change the answer. What a clock is needed for is "
  "gathered from every location reachable from the initial one along the transitions of any action, target after target: both clocks "
  "of every constraint of its invariant and of the guards of all its transitions, whatever their updates; the clocks from 1 up to the "
  "dimension that nothing needs are removed. Clocks that are needed are merged only if they were together in one group at first (all "
  "needed clocks are) and every transition resets both to one value or neither: of a group of two or more the least is kept and the "
  "others are replaced by it. Clocks of different groups never come together again. A reduction of a refinement is carried out only if both "
  "sides found it, on the left for clocks up to the last one the left side declares and on the right for those after; the clock of "
  "a quotient is never removed. The dimension shrinks by exactly the number of clocks removed and replaced. A clock that is removed "
  "is no longer declared by the component that had it, guards and invariants that mention it (by name, anywhere inside) become "
  "false, and its updates are dropped; a clock that is replaced gets the kept one's number in every component. Then the clocks left, of both sides, are "
  "numbered 1, 2, ... in the order they had, merged clocks alike and without gaps, and every quotient, however deep, on either "
  "side, gets the last number, the new dimension.",
  ["inputs"], "all systems, pairs of systems and sets of clocks",
  "Whether a clock is redundant depends on every reachable transition; a mistake shows only in models in which clocks are redundant in "
  "a particular combination, and then as a wrong verdict or an index out of bounds.",
  ["src/System/extract_system_rep.rs", "src/TransitionSystems/transition_system.rs", "src/ModelObjects/component.rs"],
  [("what is needed", "src/TransitionSystems/transition_system.rs find_edges_and_nodes, find_used_clocks"),
   ("what is equal", "src/TransitionSystems/transition_system.rs find_equivalent_clock_groups, find_clock_redundancies"),
   ("carrying out", "src/System/extract_system_rep.rs clock_reduction, reduce_clocks, change_quotient"),
   ("components", "src/ModelObjects/component.rs remove_clock, replace_clock, has_varname")],
  ["every reduction of clocks before a query"],
  "each step is evaluated over compiler MIR: where the elements of the collections of needed, unused and merged clocks come from and "
  "under which conditions, the keys by which groups are told apart, the filters on the instructions of either side, the terms "
  "stored as the new dimension, numbers and quotient clocks, and what is made of guards, invariants and updates, compared with "
  "what the statement says",
  "All inputs to the steps looked at. That these steps together preserve verdicts is argued in the statement's terms, not proved. That "
  "queries hand the right system and dimension to the reduction is S04; what minimal_constraints gives is the zone library's." + TRUST)
