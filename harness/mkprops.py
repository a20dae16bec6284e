"""Writes properties.jsonl (run by hand when the property list changes)."""
import json, pathlib
S = "src/mccode_antlr/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=False):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files], state=[dict(name=x) for x in state or []],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

prop("P01", "Instrument source text means the component sequence it designates",
 "Parsing an instrument definition yields exactly the components written, in order, with unique names, and every reference (by name, PREVIOUS or PREVIOUS(n), ABSOLUTE; in AT, ROTATED, COPY and JUMP) denotes the earlier component the text designates, with ROTATED defaulting to the AT reference. SPLIT, WHEN, GROUP, EXTEND, JUMP, REMOVABLE, CPU and parameter values end up on that component and only there, and groups list exactly their members. A source with a duplicate name or a reference that designates no earlier component is rejected, never read as something else.",
 ["programs"], "every instrument source built from any sequence of component instances, references and modifiers",
 "The reference forms, modifiers and their order combine without bound; tests parse a handful of fixed sources and only compare a few attributes.",
 ["instr/visitor.py", "instr/instr.py", "instr/instance.py", "instr/group.py", "instr/jump.py", "loader/loader.py"],
 [("reference resolution", S+"instr/visitor.py component_ref/visitReference"), ("unique names", S+"instr/instr.py Instr.add_component"), ("groups", S+"instr/instr.py determine_groups")],
 ["Instr.components, Instr.groups, Instance.at_relative/rotate_relative"], ["Instr returned by parse_mccode_instr"])

prop("P02", "Including an instrument inserts its non-removable part in place",
 "Including another instrument file inserts its non-removable components at that point and in order, keeps the including instrument's own parameters (an included parameter is added only when its name is new), and appends the included code blocks, metadata and other components' names so that later references can use them. The result is the same as if the kept components had been written out at that point, including for nested includes and for references that reach back into the including instrument; removable components stay when the file is read on its own.",
 ["programs"], "every including instrument, every included instrument (nested), every position of the include, every removable subset",
 "Interaction of include position, nesting, removable components and PREVIOUS counting is combinatorial; the tests use single fixed pairs of files.",
 ["instr/visitor.py", "reader/reader.py", "instr/instr.py"],
 [("include", S+"instr/visitor.py visitInstrument_trace_include"), ("removable", S+"instr/visitor.py visitComponent_instance"), ("nested reader", S+"reader/reader.py get_instrument")],
 ["Instr.components, Instr.parameters, Instr.included"], ["Instr returned by the loader"])

prop("P03", "Copied instances inherit and override without disturbing the original",
 "An instance made with COPY has the original's component type, parameter values, WHEN, GROUP, EXTEND code and JUMPs unless the copy states its own, has exactly the stated placement, and explicitly given parameter values override inherited ones. Making or changing the copy never alters the original, through any chain of copies, and each anonymous copy receives its own fresh name.",
 ["programs", "histories"], "every chain of copies with every subset of overridden attributes",
 "Aliasing between original and copy only shows in particular chains of copies followed by later use; tests use one copy.",
 ["instr/instance.py", "instr/visitor.py"],
 [("copy constructor", S+"instr/instance.py Instance.from_instance"), ("instance names", S+"instr/visitor.py visitInstanceNameCopy*")],
 ["Instance attributes"], ["Instr.components", "generated C program"])

prop("P04", "Writing an instrument as text and reading it back preserves it",
 "For every instrument that can be built, the instrument text it writes parses again, and yields an equivalent instrument: the same name, parameters with types, units and defaults, dependency flags, code blocks, metadata, and the same components with the same types, parameter values, placement, SPLIT, WHEN, GROUP, EXTEND, JUMP, REMOVABLE and CPU attributes. Writing the result again gives the same text.",
 ["programs"], "every instrument reachable by parsing or by programmatic assembly",
 "Losing one attribute or one pair of parentheses in one combination is invisible to the few fixed strings compared in tests.",
 ["instr/instr.py", "instr/instance.py", "instr/jump.py", "common/parameters.py", "common/metadata.py", "common/raw.py", "common/expression.py"],
 [("instrument writer", S+"instr/instr.py Instr.to_file"), ("instance writer", S+"instr/instance.py Instance.to_file")],
 ["Instr"], ["text written by Instr.to_file/str", "re-parsed Instr"])

prop("P05", "Programmatic assembly and instrument text build the same instrument",
 "Any sequence of assembly calls that adds parameters, components with placements, modifiers, code blocks and metadata yields the same instrument as the instrument text stating the same things. A call that is refused (unknown or repeated name, unknown parameter) leaves the instrument as it was before the call.",
 ["histories"], "every sequence of assembly calls, including refused ones",
 "The two construction paths have separate code and can only be compared over many sequences; tests check single calls.",
 ["assembler/assembler.py", "instr/instr.py", "instr/instance.py"],
 [("placement handling", S+"assembler/assembler.py Assembler.component"), ("raw blocks", S+"assembler/assembler.py")],
 ["Assembler.instrument"], ["Assembler.instrument compared with the parsed text"])

prop("P06", "Storing an instrument in a file store and loading it gives it back",
 "Saving any instrument (or any part of one) to the binary store and loading it returns an equal object: same parameters, component definitions, instances, placements, groups, metadata, code blocks, flags and file sources, with instance references again pointing at the loaded instrument's own components. A loaded instrument can be used like the original: it writes the same text and generates the same program.",
 ["programs"], "every instrument reachable by parsing or assembly, with in-memory, local and remote file sources",
 "Each optional attribute has its own storage path; a dropped or mistyped one only shows for instruments that use it.",
 ["io/hdf5.py", "instr/instr.py", "common/expression.py", "instr/orientation.py", "reader/registry.py"],
 [("dataclass walker", S+"io/hdf5.py"), ("registry storage", S+"io/hdf5.py")],
 ["HDF5 file content"], ["loaded Instr"])

prop("P07", "Splitting an instrument partitions it and keeps every part self-contained",
 "Splitting at a component yields two instruments whose components are the originals in order with only the split component shared; each part references only its own components, keeps all of its components' attributes and relative poses, has consistent groups, and keeps the parameters its components and code use. With an intermediate particle file, the split point is replaced by a writer that ends the first part and a reader that starts the second, both using the same file parameter. Copying or splitting never changes the original instrument.",
 ["programs"], "every instrument, every split point",
 "Which references dangle depends on the whole reference graph and on the split point; tests split two fixed instruments.",
 ["instr/instr.py", "instr/instance.py", "instr/orientation.py"],
 [("split", S+"instr/instr.py split/mcpl_split/copy"), ("parameter pruning", S+"instr/instr.py check_instrument_parameters")],
 ["Instr.components, references, groups, parameters"], ["the two Instr objects", "the original"])

prop("P08", "Component placement equals the composition of its relative placements",
 "The absolute position and orientation reported for a component equal the composition of all AT and ROTATED transformations along its two reference chains, position being displaced in the AT reference's frame and orientation being applied on top of the ROTATED reference. The same pose results for equivalent absolute placements, and inverse and combined transformations satisfy the group laws, mapping points back and forth between frames consistently.",
 ["programs", "inputs"], "every reference graph, every displacement and every rotation about any of the three axes",
 "Errors in composition order or handedness vanish in the single-axis, short-chain cases tests use.",
 ["instr/orientation.py", "instr/instance.py", "common/expression.py"],
 [("dependent orientation", S+"instr/orientation.py Orient.from_dependent_orientations"), ("parts", S+"instr/orientation.py Parts/Seitz")],
 ["Orient of each instance"], ["Orient.position/rotation", "compiled program positions"])

prop("P09", "The generated program moves each particle through the components as declared",
 "In the compiled program each particle meets the components in sequence; a component acts only if its WHEN holds; SPLIT runs the rest of the sequence the stated number of times from the same state with the weight divided; in a GROUP the first member that scatters claims the particle, members that do not scatter leave it unchanged and one that no member scatters is absorbed; JUMP transfers to the designated component under its condition or for its iteration count; absorption ends the particle and restore returns it to its state on entry. This holds for every outcome each component may produce.",
 ["programs", "schedules"], "every sequence of components with these modifiers and every sequence of component outcomes",
 "No existing test compiles and runs a program here; control flow depends on modifier combinations and on run-time outcomes.",
 ["translators/c_raytrace.py", "translators/c_trace.py", "translators/c_header.py", "translators/target.py", "instr/group.py", "instr/jump.py"],
 [("event loop", S+"translators/c_raytrace.py cogen_raytrace"), ("component trace", S+"translators/c_trace.py"), ("jump targets", S+"translators/target.py set_jump_absolute_targets")],
 ["_particle->_index/_absorbed/_scattered/_restore"], ["event log of the compiled program"])

prop("P10", "Particles reach each component in that component's own coordinate frame",
 "In the compiled program, the coordinates and velocity a component sees are those of the same laboratory point and direction expressed in that component's frame, whatever components lie between (including ones that do nothing, are skipped, or were not executed), and group members all see the particle as it entered the group. A jump hands the particle over with its coordinates unchanged in the target's frame. The program's component positions equal the composition of the declared placements.",
 ["programs", "schedules"], "every reference graph and rotation, every subset of empty components, every outcome sequence",
 "The transform chain is optimised (identity, zero shift and empty components are skipped); only particular combinations expose a wrong relative transform.",
 ["translators/c_initialise.py", "translators/c_raytrace.py", "translators/target.py", "instr/instance.py"],
 [("set positions", S+"translators/c_initialise.py"), ("transform skipping", S+"translators/target.py detect_skipable_transforms")],
 ["_position_relative/_rotation_relative"], ["coordinates logged by the compiled program"])

prop("P11", "The generated program runs every section once per instance, with its own values",
 "The compiled program runs the instrument's and then each component instance's INITIALIZE, SAVE, FINALLY and DISPLAY code once per phase in instrument order; code of a component type sees the parameter values of the instance it runs for: the instance's value if given, otherwise the definition's default, with instrument parameters replaced by their run-time value. Any parameter kind (number, integer, string, vector, expression) reaches the code unchanged, and private and per-particle variables of one instance never alias another's.",
 ["programs", "inputs"], "every combination of definition defaults, instance settings, parameter kinds, sections present and run-time instrument parameters",
 "No test runs a generated program offline; mistakes are per-section and per-kind in separate generators.",
 ["translators/c_initialise.py", "translators/c_decls.py", "translators/c_save.py", "translators/c_finally.py", "translators/c_display.py", "translators/c_macros.py", "translators/c.py", "instr/instance.py"],
 [("initialise", S+"translators/c_initialise.py"), ("save/finally/display", S+"translators/c_save.py c_finally.py c_display.py"), ("uservars", S+"translators/c.py _determine_uservars")],
 ["component parameter structs"], ["log of the compiled program"])

prop("P12", "Every needed library appears once, after the libraries it depends on",
 "For any set of components and instrument code that pull in libraries, directly or through other libraries, the generated program contains each needed library's declarations and definitions exactly once, each after everything it itself pulls in, and contains no other library. A file included with its extension is inserted in place at its include statement.",
 ["programs"], "every include graph without cycles and every set of places that start the inclusion",
 "Ordering depends on the whole dependency graph and on discovery order; tests contain at most one chain.",
 ["translators/c.py"],
 [("include handling", S+"translators/c.py _handle_raw_c_include"), ("ordering", S+"translators/c.py sort_include_hierarchy")],
 ["CTargetVisitor.includes"], ["generated C text order of marker declarations", "compiles"])

prop("P13", "Names resolve to the highest-priority source that provides them",
 "Looking up a component, instrument or library file always gives the content of the highest-priority source providing it, the earliest-added among equals, independent of the order sources were given and of earlier lookups; a name no source provides is an error. Below a directory a name means the file right there or else the only one whose path ends so; one of several is never taken but refused. A search path added within a file takes precedence over existing sources for later lookups, and each component definition is read once per instrument so that all its instances share one definition.",
 ["histories", "configurations"], "every set of sources, priorities, provided names and every interleaving of lookups and added search paths",
 "Resolution depends on order, priority ties and caching history, which the single-source tests cannot exercise.",
 ["reader/reader.py", "reader/registry.py", "instr/visitor.py"],
 [("lookup", S+"reader/reader.py Reader"), ("ordering", S+"reader/registry.py ordered_registries"), ("search", S+"reader/reader.py handle_search_keyword")],
 ["Reader.registries, Reader.components"], ["contents and definitions returned"])

prop("P14", "A scan runs exactly the requested points, each with its own values and output",
 "A range yields the same values by iteration, indexing and count, from its start by its step, up to and including its end when that is reached. A scan over several parameters visits the element-wise tuples, or every combination in grid mode, in order and exactly once; each visited point is run with that point's values and its own output location; command-line names and values reach the program unchanged.",
 ["inputs", "histories"], "every range (start, step, stop), every set of parameters and both scan modes",
 "Boundary arithmetic and the mapping from points to runs need many combinations; no test executes a scan.",
 ["run/range.py", "run/runner.py"],
 [("ranges", S+"run/range.py MRange/Singular"), ("points", S+"run/range.py parameters_to_scan"), ("runs", S+"run/runner.py mccode_run_scan")],
 ["scan state"], ["arguments and directories of each run"])

prop("P15", "Expressions keep their value when parsed, combined, simplified and printed",
 "Parsing an expression gives the value C precedence rules give it; the text an expression prints, parsed again, and its simplified form have the same value as the expression for every assignment of the names in it. Arithmetic performed on expression objects agrees with arithmetic on their values, equal expressions are interchangeable as keys, and the names an expression reports to depend on are exactly those occurring in it.",
 ["inputs", "programs"], "every expression over the supported operators, built from text or by operations, and every assignment of its names",
 "Parenthesisation and folding errors need particular operator nestings; tests list a few.",
 ["common/expression.py", "common/textwrap.py", "common/visitor.py"],
 [("printing", S+"common/expression.py"), ("simplify/evaluate", S+"common/expression.py"), ("operators", S+"common/expression.py")],
 ["Expr tree"], ["value, text, simplified form"])

prop("P16", "A component definition derived from another inherits what it does not restate",
 "A definition made as a copy of another has all of the base's parameters and sections; parameters it adds or restates are its own, a section it states anew replaces the inherited one, and one stated as an extension of another definition's section runs after it. Deriving a definition never changes the base definition or any other definition derived from it.",
 ["programs", "histories"], "every tree of derived definitions, every subset of restated sections and parameters, every order of first use",
 "Sharing between base and derived only shows in particular derivation trees and orders of use.",
 ["comp/visitor.py", "comp/comp.py", "reader/reader.py"],
 [("copy", S+"comp/visitor.py visitComponentDefineCopy"), ("sections", S+"comp/visitor.py")],
 ["Comp"], ["Comp fields of base and derived"])

prop("P17", "Metadata attached by instance, definition or instrument is kept and found",
 "Each metadata entry keeps its exact name, type and text; a later entry of the same name from the same owner replaces the earlier one, and an instance's own entry takes precedence over its definition's entry of that name. Collecting an instrument's metadata gives each surviving entry once, tagged with its owner, and the generated program carries all of them.",
 ["programs"], "every set of metadata entries over definitions, instances and instrument, with repeated names",
 "Precedence and ordering only show with colliding names across owners.",
 ["common/metadata.py", "instr/instr.py", "instr/instance.py", "comp/comp.py", "translators/c_decls.py"],
 [("collection", S+"instr/instr.py collect_metadata / instance.py collect_metadata"), ("table", S+"translators/c_decls.py")],
 ["metadata tuples"], ["Instr.collect_metadata", "generated metadata table"])

prop("P18", "Unused instrument parameters are the only ones reported or removed",
 "An instrument parameter counts as used when its name occurs as an identifier in any component parameter, placement, SPLIT, WHEN, JUMP condition, EXTEND or instrument code block, and only then. Removing unused parameters removes exactly the others and changes nothing else, so the instrument still compiles and behaves the same.",
 ["programs"], "every instrument and every place a parameter name can occur",
 "One missing place among many only matters for instruments that use a parameter solely there.",
 ["instr/instr.py", "instr/instance.py", "common/raw.py", "common/expression.py"],
 [("usage", S+"instr/instr.py parameter_used/check_instrument_parameters"), ("instance usage", S+"instr/instance.py parameter_used")],
 ["Instr.parameters"], ["parameter set after removal"])

prop("P19", "Compile flags of every used definition reach the build once, decoded",
 "The flags of an instrument are its own dependency string and those of every component definition and included instrument read for it (also definitions which others copy), and those added later, each kept once, in the order in which they are stated, and -DFUNNEL when a component runs on the CPU; nothing else. Environment, command and path directives and @...FLAGS@ placeholders within them are replaced by their value, leaving the rest of the flag unchanged; a command which fails is an error. The compiler chosen for the target is told the configured flags of that target, where the program goes, and then the words of all those flags in their order; the generated source names the flags as they were stated.",
 ["programs", "histories"], "every set of definitions with dependencies, every nesting of includes, every mix of directives in a flag",
 "Loss or duplication depends on the path by which a definition is reached.",
 ["reader/reader.py", "loader/loader.py", "instr/visitor.py", "comp/visitor.py", "instr/instr.py"],
 [("collection", S+"reader/reader.py add_c_flags; loader.py"), ("decoding", S+"instr/instr.py decoded_flags")],
 ["Instr.flags"], ["Instr.unique_flags()/decoded_flags()"])

prop("P20", "Combining result files adds counts and leaves the inputs alone",
 "Combining data files of repeated runs gives, for every bin, the sum of intensity, squared error and event count and the total particle number, independent of grouping; files of different shape or kind are refused. Combining one file gives it back, and no input is altered. Reading a result file gives the header entries and numbers it contains.",
 ["inputs", "histories"], "every collection of compatible 0-, 1- and 2-dimensional files and every order or grouping of combining",
 "Associativity, aliasing and dimension handling need several files combined in different groupings.",
 ["loader/datfile.py"],
 [("combine", S+"loader/datfile.py combine_*/__add__"), ("parse", S+"loader/datfile.py read_mccode_dat")],
 ["DatFile data"], ["combined data and metadata"])

prop("P21", "Variables declared in C blocks are recognised completely",
 "Every variable declared in a DECLARE or USERVARS block is found with its name, type, pointer depth, array size and initial value, in order, and nothing else is taken for a variable (types, functions, tags). Declarations that clash between the instrument and its components are refused, and identical repeats are merged.",
 ["programs"], "every sequence of C declarations over base, struct, typedef, pointer, array, initialised and multi-declarator forms",
 "The declarator grammar combines freely; tests list a few strings.",
 ["translators/c_listener.py", "translators/c.py"],
 [("extraction", S+"translators/c_listener.py extract_c_declared_variables"), ("clashes", S+"translators/c.py _determine_uservars")],
 ["CDeclarator list"], ["extracted declarations", "members of generated structs"])

prop("P22", "Combining simulation descriptions keeps every detector once, with summed results",
 "Combining simulation description files (mccode.sim) gives every detector of any of them exactly once, in order of first appearance. A detector found in several is described as in each of them, with the sum of the rays, intensities and event counts, errors added in quadrature, the overall minimum and maximum and the means weighted by event counts, whatever the order or grouping; if the files describe it differently the combination is refused and nothing is written. The combination names the texts and all the parameters of each file, and repeats of one simulation add their rays. What is read is what the file contains, a written file reads back the same, and no input is altered.",
 ["inputs", "histories"], "every collection of simulation files over 0-, 1- and 2-dimensional detectors and every order or grouping of combining",
 "Which detectors meet, empty ones among them, and in which grouping, combines freely; no test covers it.",
 ["loader/simfile.py"],
 [("combine", S+"loader/simfile.py combine_mccode_sims and the combine methods"), ("parse and write", S+"loader/simfile.py SimFile.parse/to_file")],
 ["SimFile data"], ["combined fields and detectors"])

prop("P23", "The command line translators write exactly the asked-for program",
 "The mcstas and mcxtrace commands write one C file: the one named by -o, else one beside the named instrument with the suffix .c. It is the program the library makes of the instrument at the given path, or else found by name, with component definitions from the first of a SEARCH in the instrument, the -I folders in the order given, the working directory and the flavor's own; of a stored instrument (.h5) it is that of the definitions stored. Flavor, trace, portability, main function and the embedded source, byte for byte that of the file, follow the options wherever they stand in the call. A call which fails ends with an error and leaves every file as it was.",
 ["inputs", "configurations"], "every sequence of options, every distribution of files over the folders, and every instrument",
 "Options, folders and what they contain combine freely; no test runs the commands.",
 ["cli/commands.py", "translators/c_header.py", "reader/reader.py", "common/utilities.py"],
 [("commands", S+"cli/commands.py mccode"), ("headers", S+"translators/c_header.py"), ("save", S+"translators/target.py TargetVisitor.save")],
 ["files"], ["the files after the call and the program in them"])

prop("P24", "The management command changes exactly what it names",
 "Of the cache, remove deletes all, the named cache or the named version of it, only when forced or agreed to, and nothing else: a name which is no direct entry of the cache is refused, so that nothing outside is ever touched; list shows exactly the entries there are. Of the configuration, get, list (of the groups its expression matches) and save give the values in effect: set by the process, else of the environment, else of the configuration file, else the default, with groups merged from all of these. What is saved is in effect for later processes, byte for byte.",
 ["inputs", "histories"], "every content of the cache, every argument and answer, and every history of configuration commands over several processes",
 "Removing is destructive and what is in effect depends on the history; no test runs the command.",
 ["cli/management.py", "config/__init__.py"],
 [("cache", S+"cli/management.py cache_remove, cache_list"), ("configuration", S+"cli/management.py config_get/list/set/save")],
 ["the cache folder, the configuration"], ["what is left and what is shown"])

prop("P25", "A generated program is a function of the instrument and of what is asked for",
 "The program made of an instrument depends on the instrument as it is when it is translated, the flavor and the options, and on nothing else: not on how often or by which translator it, other instruments, copies or stored forms of it were translated before, whether definitions of the same components were read once or several times, nor on the process. A translator keeps the program it made until told to make it again or let go of it, and saves exactly that. Translating changes neither the instrument, its text nor what it is equal to. The runtime library in the program is configured with the version of the library which provides it and the names of the flavor.",
 ["inputs", "histories"], "every instrument and every history of translating, saving, editing and copying",
 "What is left over from earlier operations only shows in particular sequences of them; tests translate once.",
 ["translators/target.py", "translators/c.py", "common/block.py", "instr/jump.py", "config/__init__.py"],
 [("translators", S+"translators/target.py TargetVisitor.translate/save/contents"), ("collected", S+"translators/c.py CTargetVisitor.__post_init__"), ("configured", S+"translators/target.py configure_file")],
 ["the translator, the instrument"], ["the generated text, the instrument afterwards"])

prop("P26", "Compiled programs give access by name to particle variables and components",
 "In the compiled program every member of a particle's state, and every variable which the instrument's and each component instance's definitions add to it, is found by its name: its value as a number whatever its type, its place, and by number in order of declaration; setting one by name changes it and nothing else, arrays element by element; names of nothing are reported and change nothing. A new particle has its state at the start, user variables begin as zero or as declared, and restoring gives back exactly the state and not the user variables. Components' parameters and positions are found by their names.",
 ["inputs", "histories"], "every set of user variables of instrument and components, for neutrons and x-rays, and every history of accesses",
 "Monitors and other components use these functions with names known only at run time; tests run none of them.",
 ["translators/c_header.py", "translators/c_particle.py", "translators/c_macros.py", "translators/c.py"],
 [("access", S+"translators/c_header.py header_pre_runtime"), ("members", S+"translators/c_particle.py"), ("names", S+"translators/c_macros.py")],
 ["_class_particle"], ["what the compiled functions return and set"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
