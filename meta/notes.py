# hand-written parts of DESIGN.md: per property how, oracle, false alarms
N = {
"N01": dict(how="per-process dumps of the network (indices, ownership, endpoints, neighbour lists, data) after each stage; offline conservation and topology checker",
            oracle="the input network itself: owned sets must partition it, held sets must be the closure of the owned ones, references must resolve"),
"N02": dict(how="every byte of every exchange buffer is dumped after each update", oracle="the value last written by the owner before the update (a function of object, writer and step)"),
"N03": dict(how="dumps of indices, look-ups, component pointers and clones on every process", oracle="bijection with the input network; equality between owner and copies"),
"S01": dict(how="the produced files and gathered vectors are read back", oracle="concatenation over the components in global-index order of what each was told to say"),
"P01": dict(oracle="a dictionary from key to multiset of values", how="results of each look-up on each process, delays injected before array calls"),
"P02": dict(oracle="the set of local copies of each record's object on each process", how="results of each distribution on each process"),
"P03": dict(oracle="the multiset of things sent to each process", how="contents before and after each move"),
"P04": dict(oracle="exactly-once over the merged logs of handed-out indices per round; agreement inside groups", how="event log of every next-task call of every process, delays injected",
            alarms="the manager over a sub-group needs the group made by all processes of the world and all processes in the same number of rounds; the generator now respects that."),
"P05": dict(oracle="a dictionary from index to stored vector or element", how="every element read back on every process"),
"P06": dict(oracle="the member lists and data of the group, recomputed from the plan", how="membership, order, sums, extremes of every group on every process",
            alarms="groups that are created by some of the processes only are not a use GridPACK supports; not generated."),
"M01": dict(oracle="a dense matrix assembled by the checker from the plan of contributions", how="all elements of the matrix after every operation, calls of the components' accessors counted"),
"M02": dict(oracle="a vector assembled by the checker; the values each bus must be given back", how="all elements and all values pushed back"),
"M03": dict(oracle="numbering must be a bijection; matrices and vectors assembled by the checker", how="assigned indices, all elements, all values pushed back"),
"L01": dict(oracle="a reference interpreter of the same program in Python", how="all elements on all processes after each operation"),
"L02": dict(oracle="a reference interpreter of the same program in Python", how="all elements, shapes, ranges and storage after each operation",
            alarms="setting an element outside a preallocated pattern, and operations that PETSc refuses for a pattern or a storage type, are preconditions and not generated."),
"L03": dict(oracle="the residual of the returned solution in the generated equations and a Gaussian elimination by the checker", how="returned solutions, exceptions"),
"L04": dict(oracle="the residual of the generated equations at the returned vector, and the checker's own Newton iteration from each recorded iterate", how="vectors of all function and Jacobian evaluations, returned vector, exception, settings",
            alarms="systems with several roots may end at any of them; SNES may stop on a short damped step; failures are judged only for linear systems and starts at the solution."),
"L05": dict(oracle="the theta method's equations between consecutive recorded states, event values computed from the states, actions replayed", how="state after every step on every process, arguments given to TSSetEventHandler (linker wrap), handler calls, results of solve",
            alarms="PETSc 3.19 handles crossings in the direction not asked for, and several events at once or on several processes lead it to go back in time or fail: its event location is used with one value on one process only, and the direction is judged at the registration."),
"R01": dict(oracle="the generator's record of what each field of each line means under the format's definition (variable_defs documents keys and types)", how="dump of every key of every object with its type, at the reader and after partitioning",
            alarms="data lines that do not begin with a digit or start with digit 0 are terminators in this reader; blank owner fields are read as zero; transformer impedances with CZ=1/3 are converted only for windings documented; generator restricted accordingly."),
"R04": dict(oracle="the dump before the export", how="dumps before the export and after reading the exported file",
            alarms="normalised units (CW, CZ), multi-section groups, defaults of fields that were absent and loads without any power are not differences; numbers compare up to the six printed decimals."),
"A01": dict(oracle="balance of power at every bus with the reported voltages in an admittance model built by the checker from the generated records; a planted solution", how="voltages, angles, generator outputs and flows reported by the module",
            alarms="the default tolerance 1e-6 of the linear solver can stall the Newton iteration, so convergence is asserted only with a tighter linear tolerance and a start near the planted solution."),
"A02": dict(oracle="a model in Python that follows the operations (statuses, limits, ignore flags, scaling)", how="dump of the module's state and the results of checks after every operation",
            alarms="convergence is not asserted together with reactive limits; the voltage of an isolated bus is not judged."),
"A03": dict(oracle="each contingency recomputed alone (balance, a Newton solution by the checker, violation class), statistics recomputed, equality between divisions into groups", how="all files the program writes",
            alarms="islands without a reference bus, reference generators all out, isolated buses in a violation list, and the violation class under reactive limits are not judged."),
"A04": dict(oracle="own network reduction and modified Euler steps of the swing equations", how="the generator watch file: all states at all steps",
            alarms="the initial guess of a step is the previous voltage, so the direct solver is run as richardson with a tight tolerance (preonly refuses an initial guess); the MVA base must be 100 (constant in the classical model); the conductance of yfault enters with the sign reversed and is kept 0; event times that match no step within 1e-6 s are ignored by the program and not generated; generators initially out of service are not closed."),
"A05": dict(oracle="a Gauss-Newton weighted least squares estimate with exact derivatives; the planted state for exact measurements", how="printed iterations, state, flows and comparison tables",
            alarms="current measurements (IIJ: derivatives marked unfinished in the source; IJI, PJ, QJ: not implemented) are left out."),
"A06": dict(oracle="own fourth order integration of the model equations (machines, saturation, exciters, governors, limits) on the reduced network, from the printed steady state", how="the generator watch file of two runs, with the time step and half of it",
            alarms="the error of the run with half the step must not exceed three times the change from halving, plus the change of the oracle over one step near events and limits; limiter corners are compared over the neighbouring steps; HYGOV gate velocity limits, the WSIEG1 deadband and valve curve, EXDC1 with KE=0 and rates above the 1000 per second the control blocks allow are not generated (see the list of unrepaired defects)."),
"R02": dict(oracle="the generator's own record of what was written, through a table of columns per model", how="all keys of every copy of every bus and branch after partitioning",
            alarms="relays of one bus on several processes arrive in any order; parameters missing at the end of a record may be zero or absent."),
"R03": dict(oracle="the generator's own record of what was written", how="all keys of every copy of every bus and branch before and after partitioning",
            alarms="values the parser adds of its own accord are not judged; circuits and generators are named by their order."),
"K01": dict(oracle="the state space form of each transfer function with clamps, evaluated in Python", how="every output and state"),
"H01": dict(oracle="modified Euler integration of the classical model with the admittance matrix as the actions so far leave it", how="every observation after every step on every process; lists; powers and zone totals before and after",
            alarms="what is connected to isolated buses may or may not count in zone totals; an action during a fault is documented as unsupported; two load changes at a bus before one step replace each other."),
"X01": dict(oracle="the other runs of the same deck, and the initial state before events", how="every row and column of watch files, printed tables and written files",
            alarms="a fault on a branch the other way round is ignored by dsf.x; contingencies named in *_mm files may differ where values tie."),
"D01": dict(oracle="a typed dictionary", how="result of every operation of the history"),
"C01": dict(oracle="the tree the input was generated from", how="every key, cursor and child list read on every process; deadline for hangs",
            alarms="the XML reader of boost does not compare the names of closing tags and reads a text with a NUL as empty: not errors of GridPACK."),
"U01": dict(oracle="reference definitions of the documented behaviour", how="results of each call"),
"B01": dict(oracle="tables recomputed from the entries", how="written tables"),
"B02": dict(oracle="the generated file", how="rows, tags, columns and comments obtained on every process"),
}
CAUGHT = {}
TAIL = """## Left outside, and why

* Impedance units of two-winding transformers other than CZ=2; loads' constant-current and admittance parts, which the power flow treats as
  constant power; RAW files that lack a block terminator (the readers loop at the end of the file) or a newline at the end of the
  last line (the line is dropped); comments inside the four lines of a transformer.
* `PTI3x_parser::parse(vector)` does not compile when instantiated; nothing uses it.
* `getGeneratorMargins` documents current output but uses the output of the file; kept as it is because applications depend on it.
* kalman_ds is excluded: its test is not in the stable list and its results depend on random ensembles.
* Goss and MATPOWER input are not generated (no documentation of the accepted dialect and no decks).
"""
