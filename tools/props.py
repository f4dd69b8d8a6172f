#!/usr/bin/env python3
"""Single source of the property list: writes ../properties.jsonl"""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    assert len(title)<=80, (id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],
                   observe_at=observe,hook_needed=None)))

p("C01","Propagation visits exactly the requested elements, in order, once each",
 "Propagating a beam state from a start element for a signed element count applies exactly the elements of that range, each once, in lattice order for positive counts and reverse order for negative ones, stopping at the lattice ends; a start outside the lattice or a zero count applies nothing. The longitudinal position moves by the lengths of the applied elements and the next-element index names the element that would follow. Cutting a propagation into consecutive segments at any places gives the same final state, bit for bit.",
 ["inputs","histories","configurations"],
 "all lattices, start indices, signed counts (including 0, beyond the ends and the extremes), and all ways of cutting a run into segments",
 "Existing tests run a few lattices end to end and a couple of fixed sub-ranges; boundary starts/counts and arbitrary cut points are not enumerated.",
 ["src/base.cpp","src/linear.cpp","src/moment.cpp","python/flame/modmachine.cpp"],
 [("propagate loop: index, direction flag, bound","src/base.cpp Machine::propagate"),("element advance updates position","src/moment.cpp MomentElementBase::advance, src/flame/linear.h LinearElementBase::advance"),("start/max conversion","python/flame/modmachine.cpp PyMachine_propagate")],
 ["StateBase::next_elem/pos/state arrays after propagate","Python Machine.propagate"],
 [("next_elem","element to follow","src/flame/base.h StateBase"),("retreat","direction","src/flame/base.h StateBase")])

p("C02","Observers and trace report each visited element once, in order, harmlessly",
 "During a propagation every visited element that is being observed yields exactly one observation, taken right after that element acted and carrying the state at that moment, in visiting order; elements not visited or not observed yield none. The textual trace reports the same sequence. Observing or tracing any subset of elements never changes the propagated result, and the snapshots handed out stay frozen afterwards.",
 ["inputs","histories","configurations"],
 "all subsets of observed elements (repeats included), ranges, directions, nested or repeated observations, and later activity on the same machine",
 "Tests observe one or two fixed elements in forward direction and never compare observed with unobserved runs or look at snapshots later.",
 ["src/base.cpp","src/flame/base.h","python/flame/modmachine.cpp"],
 [("view() after advance()","src/base.cpp Machine::propagate"),("observer ownership and restore","python/flame/modmachine.cpp PyStoreObserver/PyScopedObserver")],
 ["Observer callback sequence","Python propagate(observe=) result list","Machine::set_trace stream"])

p("C03","Beam results never depend on what the machine computed before",
 "For moment-tracking machines the state produced by a propagation depends only on the current element settings, the direction and the incoming state: any earlier propagations of other states, energies, charge states, phases, ranges or directions on the same machine leave no trace in the result. Reuse of remembered transfer matrices is invisible, and switching it off changes nothing. Backward runs through accelerating elements may rely only on the forward run that they documentedly undo.",
 ["histories","inputs","configurations"],
 "all sequences of propagations with different incoming states and directions, interleaved with reconfigurations, on one machine",
 "Tests build a fresh machine and propagate once or twice; no test compares a long-lived machine with a fresh one over histories.",
 ["src/moment.cpp","src/rf_cavity.cpp","src/flame/moment.h"],
 [("cache key comparison","src/moment.cpp MomentElementBase::check_cache"),("cache store/restore","src/moment.cpp MomentElementBase::advance, src/rf_cavity.cpp ElementRFCavity::advance"),("skipcache","src/moment.cpp")],
 ["state arrays of long-lived machine vs fresh machine, bitwise"],
 [("last_ref_in/last_real_in/last_*_out","cache key and cached outputs","src/flame/moment.h")])

p("C04","Reconfiguring an element equals building the machine with that setting",
 "After an element has been reconfigured, every later propagation, listing and configuration query gives exactly what a machine freshly built with the element's new configuration gives, for every element type and simulation type and after any earlier use. Other elements, the element's position in the lattice and its observers are unaffected. A partial update keeps every setting of the element that it does not mention.",
 ["histories","inputs","configurations"],
 "all element types and parameters, all orders of reconfigurations and propagations",
 "Tests reconfigure three parameters once each and do not compare with a freshly built machine.",
 ["src/base.cpp","src/linear.cpp","src/moment.cpp","src/rf_cavity.cpp","src/chg_stripper.cpp","python/flame/modmachine.cpp"],
 [("rebuild by assign()","src/flame/base.h element_builder_impl::rebuild"),("per-type assign()","src/moment.cpp, src/linear.cpp, src/rf_cavity.cpp, src/chg_stripper.cpp"),("dict merge","python/flame/modmachine.cpp PyMachine_reconfigure")],
 ["state arrays vs fresh machine, bitwise","Machine.conf(i)"])

p("C05","A failed operation reports an error and leaves everything as it was",
 "When building a machine, allocating a state, reconfiguring an element, parsing a lattice or looking something up fails, the caller gets an error and the existing machines, states and configurations behave afterwards exactly as if the failed call had never been made. A propagation that an element refuses leaves the machine (though not the state being propagated, nor an accelerating element's memory of the forward run to be undone) as before and usable.",
 ["fault_sequences","histories","inputs"],
 "all failing calls (bad index, unknown type, type change, missing or mistyped or wrongly sized parameter, refused element) at every point of a history",
 "Tests check that a few bad inputs raise, never that what existed before is unchanged afterwards.",
 ["src/base.cpp","src/flame/base.h","src/linear.cpp","src/moment.cpp","src/rf_cavity.cpp","src/chg_stripper.cpp","python/flame/modmachine.cpp"],
 [("build new element before assigning","src/flame/base.h element_builder_impl::rebuild"),("swap-in at end of construction","src/base.cpp Machine::Machine")],
 ["exceptions","behaviour of machine/state after the failure vs a twin that never saw it"])

p("C06","Configuration copies are independent values",
 "A copy of a configuration, an inner scope derived from it, or a configuration stored inside another one is unaffected by any later change to the original or to other copies, in whatever order copies, assignments, scope operations, merges and changes happen; reading or printing a configuration never changes it or any other.",
 ["histories","programs"],
 "all sequences of copy, assign, swap, set, exchange, new scope, push scope, flatten and nested storage over several configurations",
 "Tests copy once and modify once; aliasing among several handles after scope operations is not explored.",
 ["src/config.cpp","src/flame/config.h","python/flame/modconfig.cpp"],
 [("copy on write","src/config.cpp Config::_cow"),("immutable outer scope","src/config.cpp Config::new_scope/push_scope/flatten")],
 ["Config get/iteration on every handle after every step"],
 [("values/implicit_values","shared maps","src/flame/config.h Config")])

p("C07","Inner configuration values hide outer ones and typed reads are strict",
 "A read returns the innermost definition of a name, falling back to the enclosing scope only when the inner one has none; merging a scope keeps exactly these visible values. A typed read succeeds exactly when that visible value has the requested type; otherwise it reports an error, or the caller's default where one was given, never another scope's or another type's value. Iteration and printing show exactly the innermost scope.",
 ["histories","inputs"],
 "all nestings of scopes, key presence patterns, value types and default/no-default reads",
 "Tests look at one two-level example.",
 ["src/config.cpp","src/flame/config.h"],
 [("lookup order","src/config.cpp Config::getAny/tryGetAny"),("non-overwriting merge","src/config.cpp Config::new_scope/flatten"),("typed get","src/flame/config.h Config::get/tryGet")],
 ["Config get<T>/get<T>(default)/tryGet/iteration/show"])

p("C08","Beamline definitions expand to the element sequence they denote",
 "Parsing a lattice yields exactly the element sequence its selected beamline denotes: element references stand for themselves, nested lines are spliced in place, negation reverses, multiplication by a count repeats (zero gives nothing), and the selected line is the one named for use, otherwise the last one defined. Every element of the sequence carries its own properties (its name and type included) and inherits every global variable of the file that it does not define itself.",
 ["inputs","programs"],
 "all lattice programs of elements, variables, nested, negated and repeated lines and line selections",
 "Tests parse a handful of fixed lattices.",
 ["src/glps_ops.cpp","src/glps_parser.cpp","src/glps.y","src/config.cpp"],
 [("line operators","src/glps_ops.cpp"),("line/element stores","src/glps_parser.cpp glps_add_line/glps_add_element"),("expansion and scope inheritance","src/config.cpp GLPSParser::Pvt::fill_context")],
 ["Config returned by the parser: elements vector, names, types, properties"])

p("C09","The parser accepts exactly well-formed lattices, all or nothing",
 "A lattice text is accepted exactly when it follows the documented grammar, uses every name after its definition, defines no variable, element or line twice in its own name space, applies operators and functions only to operands they support, and selects an existing non-empty line. Everything else is rejected with an error, which for an offence within a statement names its line, and no configuration is produced. Comments, blank space and layout never matter, and a parser can be used again after a failure.",
 ["inputs","programs","histories"],
 "all token sequences and statement sequences, with any layout, and any mix of good and bad parses on one parser",
 "Tests cover about ten malformed inputs.",
 ["src/glps.l","src/glps.y","src/glps_parser.cpp","src/glps_ops.cpp","src/config.cpp"],
 [("lexer","src/glps.l"),("grammar","src/glps.y"),("duplicate and reference checks, first error kept","src/glps_parser.cpp glps_add_*/glps_error"),("line selection","src/config.cpp fill_context")],
 ["exception or Config from parse_byte/parse_file","error message line number"])

p("C10","Printing a parsed lattice and parsing it again gives the same lattice",
 "Printing a configuration obtained from a lattice and parsing the printed text yields a configuration with the same variables, element sequence, element types and properties (finite numbers, to the printed precision; no variable called elements); printing that again reproduces the text exactly.",
 ["inputs","programs"],
 "all accepted lattices whose strings can be written in the lattice syntax",
 "Tests print two fixed lattices.",
 ["src/config.cpp","src/glps.y","src/glps.l","python/flame/modconfig.cpp"],
 [("printer","src/config.cpp GLPSPrint"),("parser","src/glps.y")],
 ["GLPSPrint output, reparsed Config"])

p("C11","Backward propagation undoes forward propagation",
 "Propagating forward over a range and then backward over the same range restores position, reference and real particle energies and phases, and the beam's centroid and envelope to within numerical precision, for every moment-tracking element that supports it. Elements that cannot be undone refuse with an error rather than return a wrong state, an accelerating element refuses when no matching forward run precedes, and a source leaves the state alone when passed backward.",
 ["inputs","histories","configurations"],
 "all supported element types, misalignments, charge states, ranges and interleavings with other runs",
 "Tests do one forward-backward round trip on one lattice with a fresh machine.",
 ["src/base.cpp","src/moment.cpp","src/rf_cavity.cpp","src/chg_stripper.cpp"],
 [("retreat flag and inverse matrices","src/moment.cpp MomentElementBase::advance, per-element recompute_matrix"),("forward-run match check","src/rf_cavity.cpp check_backward"),("refusals","src/chg_stripper.cpp, src/moment.cpp sextupole")],
 ["state arrays before and after a round trip","exceptions"])

p("C12","Beam states are independent values",
 "A cloned, allocated or assigned state equals its origin at that moment and shares nothing with it: later propagation of, or writes to, either one never shows in the other, and arrays read from a state are snapshots that neither change later nor write through. Copying gives equality of every exported quantity, including position and per-charge-state data of any count.",
 ["histories","inputs"],
 "all sequences of allocate, clone, assign, read, write and propagate over several states of one machine",
 "Tests clone once and do not track several states through histories.",
 ["src/base.cpp","src/moment.cpp","src/linear.cpp","src/flame/state","python/flame/modstate.cpp"],
 [("clone/assign","src/moment.cpp MomentState, src/linear.cpp VectorState/MatrixState"),("array snapshot","python/flame/modstate.cpp")],
 ["exported arrays of every live state after every step"])

p("C13","Charge-state bookkeeping and beam averages stay consistent",
 "A moment-tracking state always exposes per-charge-state arrays of one common length equal to the number of charge states it carries, and the beam centroid, rms sizes and envelope it reports are the charge-weighted averages of those arrays after every element. A source replaces the whole set with the configured one, a stripper with the configured outgoing one (weights conserving the stripper's distribution), other elements keep each charge state's identity and weight; an inconsistent configuration is rejected.",
 ["inputs","histories","configurations"],
 "all numbers of charge states, weights, centroids and element sequences",
 "Tests compare a few fixed end-to-end results with two charge states.",
 ["src/moment.cpp","src/chg_stripper.cpp","src/flame/moment.h"],
 [("weighted averages","src/moment.cpp MomentState::calc_rms"),("source and initial state set-up","src/moment.cpp MomentState::MomentState"),("stripper","src/chg_stripper.cpp Stripper_GetMat")],
 ["exported arrays of MomentState"])

p("C14","Element lookup finds exactly the matching elements, in lattice order",
 "Looking up elements by name, by type or by pattern returns exactly the matching elements of the machine, each once, in lattice order, the n-th match being the n-th in the lattice; unknown names give nothing. This stays true after any reconfiguration, renaming included, and indices always identify the element at that lattice position.",
 ["inputs","histories"],
 "all lattices with repeated and prefix-sharing names, all types, all reconfiguration histories",
 "Tests look up two names in one lattice.",
 ["src/flame/base.h","src/base.cpp","python/flame/modmachine.cpp"],
 [("(name,index) ordered maps","src/flame/base.h Machine::find/equal_range/equal_range_type"),("map construction","src/base.cpp Machine::Machine")],
 ["Machine::find/equal_range/equal_range_type/all_range, Python Machine.find"])

p("C15","Type registration is atomic and exclusive under any interleaving",
 "A simulation type or element type name is registered at most once until the registry is cleared, with every other attempt (and any for an unknown simulation type) refused with an error and without effect; machines can be built exactly from what is registered. This holds for registration, clearing and machine construction called from any threads in any interleaving, which behave as if executed one after another and never block each other forever.",
 ["schedules","histories"],
 "all interleavings of concurrent register, construct and clear calls",
 "No test registers from more than one thread or twice.",
 ["src/base.cpp","src/flame/base.h"],
 [("global registry mutex","src/base.cpp info_mutex"),("duplicate checks","src/base.cpp p_registerState/p_registerElement")],
 ["results of registerState/registerElement/Machine construction"])

p("C16","Cached data files always reflect the file's current content",
 "A caller that asks for a data file, and an element when it is built or reconfigured, gets the content the file has at that time: a file may be served from memory as long as its modification time (in whole seconds) is the one at its last reading, but whenever that time has changed, in either direction, it is read again; different files are never confused, and a missing, unreadable or malformed file is reported every time and not remembered; clearing the cache forgets everything. Content already handed out, and elements already built, do not change with the file.",
 ["histories","fault_sequences"],
 "all sequences of writing, replacing, touching, breaking, removing and reading files",
 "Tests read each data file once.",
 ["src/util.cpp","src/flame/util.h","src/rf_cavity.cpp"],
 [("mtime-keyed cache","src/util.cpp numeric_table_cache::fetch"),("table parser","src/util.cpp numeric_table::read")],
 ["numeric_table_cache::fetch results","rfcavity results after data change"])

p("C17","Recorded HDF5 output rows equal the observed states, in order",
 "A state recorder's output holds, for every exported quantity, one row per recorded state, in recording order, each row bit-equal to the value the state had when recorded, for any number of rows and any number of charge states (entries of a row beyond the charge states it was recorded with are padding); nothing recorded later, with more or fewer charge states, changes a row. Opening a recorder on a named group starts that group afresh and leaves other groups and files alone; recording through a closed recorder, or into a root group that already holds data, is refused with an error and changes nothing.",
 ["inputs","histories","configurations"],
 "all sequences of appended states with any array shapes",
 "No test reads back a recorded file.",
 ["src/h5writer.cpp","src/flame/h5writer.h","tools/cli.cpp"],
 [("dataset creation and extension","src/h5writer.cpp H5StateWriter::append")],
 ["HDF5 datasets read back with the HDF5 library"])

p("C18","The command line prints exactly the selected elements' states",
 "The command line tool runs the lattice it is given (with the requested overrides) up to the requested element count and reports, in lattice order, exactly the states of the elements selected by name, by type, all or last, formatted as requested, the same as the library computes. A selection that matches nothing and an unknown format sub-option are warned about on the error stream. Bad options, definitions, formats, unusable output files or lattices produce an error message and a failing exit status, never a silent success.",
 ["inputs","configurations"],
 "all combinations of selection, limit, format and definition options",
 "No test runs the command line tool.",
 ["tools/cli.cpp"],
 [("observer factories and selection","tools/cli.cpp"),("option handling","tools/cli.cpp getargs/main")],
 ["stdout, stderr and exit status of the flame executable"])

p("C19","The Python interface reports misuse as exceptions and never crashes",
 "Any sequence of calls on the Python objects with arguments of any type and value either performs the documented operation or raises an exception; it never terminates or corrupts the interpreter, leaks an error into a later call, or leaves objects unusable. Dictionaries, sequences and arrays passed in and read back round-trip in value and type, and objects stay valid in whatever order they are dropped.",
 ["inputs","histories","fault_sequences"],
 "all call sequences, argument types and object lifetimes",
 "Tests use well-formed arguments apart from a few.",
 ["python/flame/modmain.cpp","python/flame/modconfig.cpp","python/flame/modmachine.cpp","python/flame/modstate.cpp"],
 [("exception translation","python/flame/pyflame.h CATCH macros"),("dict/Config conversion","python/flame/modconfig.cpp"),("attribute access","python/flame/modstate.cpp")],
 ["results, exceptions and exit status of a Python process"])

p("C20","Log messages at or above the threshold reach the current sink, once, whole",
 "Every log message whose severity reaches the threshold is delivered completely and exactly once to the sink installed when it is emitted, and messages below the threshold are not; this holds while sinks are being exchanged concurrently, and from within sinks, element construction and propagation, without deadlock. Emitting or suppressing messages never changes a simulation result.",
 ["schedules","histories","inputs"],
 "all message levels, thresholds, sink exchanges and interleavings",
 "No test looks at logging.",
 ["src/base.cpp","src/flame/base.h","python/flame/modmain.cpp"],
 [("sink pointer copied under a lock, called outside it","src/base.cpp LogRecord::~LogRecord/set_logger"),("python bridge","python/flame/modmain.cpp PyLogger")],
 ["Logger callback sequence","Python logging records"])

p("C21","Lattice expressions evaluate by the documented arithmetic rules",
 "Every accepted expression evaluates to the value given by the usual precedence and left associativity of + - * /, unary minus and parentheses, over the current values of earlier variables, with vectors taken element by element and documented functions applied to their argument; a division without finite result or an operator without meaning for its operand types is an error. A later definition never changes the value of an earlier one.",
 ["inputs","programs"],
 "all expression token sequences and variable histories",
 "Tests evaluate about a dozen expressions.",
 ["src/glps.y","src/glps_ops.cpp","src/glps_parser.cpp"],
 [("precedence declarations","src/glps.y"),("operator table and dispatch","src/glps_ops.cpp, src/glps_parser.cpp glps_add_op")],
 ["variable values in the Config returned by the parser"])

p("C22","Names of files in a lattice mean the same file wherever the lattice is used from",
 "file() and dir() evaluate to the canonical absolute name of the existing file or directory they are given: an absolute name as it is, a relative one from the directory of the lattice file being read (for a text: from the directory given with it, for a Python file object from the directory part of its name, otherwise from the current directory), with links, '.' and '..' resolved. h5file() does the same for the longest leading part of its argument that exists and keeps the rest. parse() evaluates to the configuration the named lattice has on its own: nothing defined outside is visible in it, its own relative names start at its own directory, and what it prints is printed in place. Something that does not exist, or another lattice that is rejected, is an error on the line of the expression.",
 ["inputs","programs","environment"],
 "all directory trees, links, names, ways to enter the parser and nested lattices",
 "Two tests resolve one name each.",
 ["src/glps_ops.cpp","src/config.cpp","python/flame/modconfig.cpp"],
 [("file functions","src/glps_ops.cpp unary_file, unary_h5file, unary_parse"),("directory of a lattice","src/config.cpp GLPSParser::parse_file/parse_byte, src/glps_ops.cpp parse_context()"),("directory of a Python file object","python/flame/modconfig.cpp PyGLPSParse2Config")],
 ["values in the Config returned by the parser","error message"])

p("C23","Transport obeys the laws of beam optics; equivalent lattices are equal",
 "In machines of drifts, quadrupoles, solenoids, sextupoles, sector bends, electrostatic quadrupoles and dipoles, orbit trims, markers and monitors, for all settings and beams: no element changes an energy, a charge or a weight; position advances by the length and phases by wave number times length (a bend adds its change of the centroid's phase). The matrix reported for each charge state is the map applied to its centroid and envelope, has determinant one and, bends apart, is symplectic transversely with a longitudinal shear that is the change of the phase advance with energy. A charge state's result depends on itself and the reference only, and on charges and fields only through their products, and not on the sampling frequency except that phases count in it. Lattices that describe the same fields give the same beam up to rounding: an element cut into pieces (an electrostatic dipole for its design particle), a field profile and the elements it is made of, other parameters for the same strength, elements without strength (electrostatic dipoles apart) and drifts, elements without length and nothing, a roll and a turned frame, and mirror images of lattice and beam. A lattice passed from its other end (solenoids reversed) undoes itself, momenta and phases reversed; a tilted element acts as seen from its own axis.",
 ["inputs","configurations","programs"],
 "all lattices of guiding elements, all strengths including zero and negative ones, rolls and offsets, all ways to cut, merge, describe, turn and mirror them, all beams of any number of charge states",
 "Tests compare single elements with recorded numbers of one setting; a wrong formula for another sign, regime or description is recorded as the expected number or never evaluated.",
 ["src/moment.cpp","src/moment_sup.cpp","src/linear.cpp","src/flame/moment.h"],
 [("matrices of elements","src/moment_sup.cpp GetQuadMatrix, GetSBendMatrix, GetSolMatrix, GetEBendMatrix, GetSextMatrix; src/linear.cpp"),("misalignment and turned frames","src/moment.cpp get_misalign, src/moment_sup.cpp RotMat"),("phases and energies","src/moment.cpp MomentElementBase::advance"),("field profiles","src/moment_sup.cpp GetCurveData")],
 ["state arrays after each element (moment0, moment1, transmat, phis, IonEk, ...)"])

p("C24","Cavities act by their field, phase and data alone; equivalent cavities are equal",
 "For lattices with accelerating cavities of every built-in and generic type, among guiding elements, at all fields, phases, multipole levels, offsets and rolls, and for all beams: a cavity changes no charge, weight or rest energy, and no energy without field; the centroid's phase and energy are those of its charge state against the reference; the reported matrix is the map applied, damps both transverse planes alike and keeps the longitudinal area. The result is the same for: phases that differ by whole turns; the opposite field half a period later; a cavity that follows the reference and one driven at the phase it reports; another sampling frequency with phases converted; twice the charge in half the field; a charge state alone or among others; mirror images; rolled cavities and turned frames; any roll without multipoles; a data file with drifts cut, idle elements added (magnetic quadrupoles of built-in types apart), fields rescaled or multipoles above the level left out; and equivalent guiding elements between cavities. A charge state that is the reference gains what the reference gains, and cavities that follow the reference give it the same energy wherever they stand.",
 ["inputs","configurations","programs"],
 "all lattices of cavities and guiding elements, all field scales, phases, frequencies, modes and data files, all beams of any number of charge states that are not lost",
 "Tests compare a few accelerators with recorded numbers at one phase, field and frequency each; a term that is wrong for another phase, sign, frequency ratio, multipole level or description is not evaluated or is recorded as expected.",
 ["src/rf_cavity.cpp","src/flame/rf_cavity.h","src/moment.cpp"],
 [("energy and phase of a passage","src/rf_cavity.cpp GetCavBoost, PropagateLongRFCav, InitRFCav"),("matrices","src/rf_cavity.cpp GenCavMat2, GetCavMatGeneric, GetCavMatParams"),("applied to the beam","src/flame/rf_cavity.h ElementRFCavity::advance"),("data files","src/rf_cavity.cpp LoadCavityFile")],
 ["state arrays after each element (moment0, moment1, transmat, phis, IonEk, last_caviphi0, ...)"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
