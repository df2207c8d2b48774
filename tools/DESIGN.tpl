# Deciding Aviary's properties by static analysis

All checks parse `/repo/aviary` on every run and never import or execute it. Entry point: `python3-vt check.py <ID>`
(exit 0 held / 1 + `VIOLATION` / 2 no answer); each check lives in `sa/checks/<id>.py`, evidence goes to `evidence/<id>.json`.

## The value-graph analyser (`sa/`)  — C01 to C07, C10
* `sa/omodel.py`, `sa/components.py`: class model of every OpenMDAO component in the repository (inheritance, mixins, helper functions
  resolved through the import graph); option configurations are enumerated from `options.declare` / `add_aviary_option`,
  enum types and the predicates that the code tests on them (sampled around the thresholds it compares with).
* `sa/interp.py`, `sa/models.py`: abstract interpreter of `setup`, `setup_partials`, `compute`, `compute_partials` (helpers inlined,
  any syntactic form: loops over concrete ranges are unrolled, branches on data are *if-converted*). Its result is a hash-consed, gated SSA
  *value graph*: one term per output element and per declared Jacobian entry. Every other input is a free symbol.
* `sa/terms.py`: terms, forward-mode differentiation of a graph.
* `sa/partition.py`, `sa/fingerprint.py`, `sa/sweep.py`: two graphs are compared by *global value numbering by random interpretation*
  (Gulwani–Necula): each symbol is assigned random field values, in lanes grouped into the cells of the graph's predicate
  abstraction (trace partitioning: plans flip each gate of the graph so that every branch combination reachable by the sampled plans is
  represented). Two graphs which agree as functions get equal fingerprints, whatever way they were written, so
  refactorings are quiet; graphs that differ in some cell get different ones with high probability. Lanes in which the
  evaluation would raise, is non-finite or sits on a gate boundary are discarded.

| id | decided by |
|---|---|
| C01 | graph of `compute`, differentiated, = graph of the declared Jacobian in every cell |
| C02 | every (output element, input element) with a nonzero derivative in some cell lies in the declared sparsity |
| C03 | symbols for previous outputs, previous Jacobian entries, kept attributes reach no result in any cell; input arrays are not written in place |
| C04 | graph of one node built at several positions and node counts, under renamed inputs; equal, and free of other nodes' symbols |
| C05 | for entries declared by complex step: an entry with nonzero derivative whose complex part is dropped by a non-analytic operation (abs, real cast, real-typed store, ...) |
| C06 | scaler x d(mass)/d(scaler) = mass, as graphs (Euler relation of a quantity of degree one) |
| C10 | interpreting `setup` collects what is declared; any access to something undeclared, any read of an unassigned name whose condition is feasible, any declared output left untouched is reported |
| C07 | graph for three engine models in two listing orders, with inputs and options permuted alike: totals equal, per-model entries permuted |

Bounds: array options are given small representative sizes (nodes, engines, passengers); option combinations are covered pairwise around the
thresholds the code mentions, not exhaustively; lanes are samples of each cell. Components that mix complex-step or finite differences are
out of scope of C01/C02 for those entries (`approximated`). What could not be modelled is counted in the evidence and stays quiet.

## Whole-program analyses over the syntax tree (`sa/program.py`)
`Program` indexes all non-test modules of `aviary`: classes (with inheritance and attributes), functions (nested too), imports and star
imports; it resolves dotted names across modules, gives simple types to expressions (constructor calls, `self`, attributes set
once) and a call graph with virtual dispatch on `self`.

| id | decided by |
|---|---|
| C08 | interprocedural information flow from the verbosity level (explicit flows through locals, parameters, results; implicit flows through conditions and early exits) to anything other than prints, warnings, report/recorder/solver print settings: state changes, calls with effects, exceptions, accepted inputs |
| C09 | name resolution over all scopes; member lookup in modules, classes, evident instances; binding of the arguments of every resolved call (OpenMDAO and dymos are parsed too, the standard library looked up); interface calls against every builder override; variable-name strings and options against what is declared; definite assignment of locals (conditions correlated by the names they mention) |
| C13 | `sa/alias.py`: a compositional alias and effect analysis of all 2 300 functions to a fixpoint (flow-sensitive in a function, summaries substituted at calls, three levels of containment, fields by class family, container classes transparent). Roots are what outlives a call: module-level objects, default argument objects, class attributes, what component options hold, what a user's subsystem builder returns, and the containers a user passes to anything `aviary.api` exports. Every store, in-place method, `del` and augmented assignment that may reach a root is a violation, except tables built while modules are imported and the parameters documented to be completed in place (`IN_PLACE`). Contracts on top: builder methods leave the builder and their arguments as they are, derived missions leave the sized problem as it is, copies share nothing with their original |
| C15 | exception classes are resolved (project, builtin, external); rules on every statement: errors built must be raised or issued, raised things must be exceptions, messages filled, guards able to be both true and false, no report after an exit, no return in `finally`; *exception flow*: the errors the project raises are propagated through the call graph to handlers, and a handler that neither re-raises, prints, warns nor uses the error may not catch them; documented `Raises` sections are compared with what can be raised; `data/reports.json` (made by `tools/reports.py`) lists the errors and warnings of each function by class and words of the message: each must still be reported by the function, its callees, or a function that is new |
| C16 | the construction code of every group (81 classes: `setup`, `configure`, the builders and the groups inside them) is interpreted abstractly for base options, every structural option alone in the context in which it appears, and random combinations; the promotions, aliases, connections, solvers and execution order are resolved as OpenMDAO does (`sa/groups.py`), giving a data-flow graph whose nodes are the real component classes evaluated by the same interpreter. Rules (`sa/wiring.py`): one source per quantity, promotions and connections hit something, no unfed input behind a dotted path that influences a visible output (influence decided on the value graph of the component), no computed quantity that a component of the same model reads from outside instead, same dimension along links, producers before consumers unless an iterating solver encloses both, a circular dependence or an implicit component under a solver that can solve it, indices and engine slots of a link select what is there and not another engine's, two instances of one class are not fed crosswise. `data/interface.json` (made by `tools/interface.py`) lists for each group in its base configuration what it takes from and gives to the outside; a quantity that got lost or is no longer fed is reported. About 2 500 models, 153 000 links, 18 s |
| C17 | for every group model of C16's enumeration, `sa/totals.py` differentiates the value graph of each component with respect to inputs of the same physical dimension (user scalers at one, margins at zero); an entry that is constant over all lanes is a link of a sum, an output without remainder is an exact sum; links are multiplied along the resolved wiring (unit conversions included, exact sub-totals expanded, circular definitions not). Oracle: `data/totals.json` (made by `tools/totals.py`, reviewed by hand: composition of 92 totals in 50 groups, per structural option), and no part may be counted a whole number of times other than once or once per engine. A difference is reported only if lanes with other seeds confirm it. Quantities a change introduces or removes are not judged; sub-totals are compared by their parts, so regrouping a sum is quiet |
@@AST

## Planted bugs (`seeded/`) and what catches them
| bug | property | caught by |
|---|---|---|
@@SEEDS

## Not applicable
R01–R04: convergence, numerical agreement with reference codes, equality of optimisation outcomes and interpolation accuracy are
facts about numbers produced at run time; no sound static argument in reach bounds them.
