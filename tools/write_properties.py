#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit titles and statements)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
PATCHOUT=["parsed output of `svdtools patch` / svdtools::patch::process_reader"]
SMALL="The unit tests patch one hand-written SVD with one hand-written YAML file and look at a few elements of the result; "
p("C01","A patch changes only what its rules name; an empty patch changes nothing",
 "Patching a device with an empty rule file yields exactly the same device description, and patching with any accepted rule file leaves every peripheral, register, cluster, field, interrupt and property that no rule addresses exactly as it was, in the same relative order. The result depends only on the SVD, the rules and the options: the same run repeated gives byte-identical output.",
 ["inputs","programs"],"every device description x every accepted rule file",
 SMALL+"none looks at the untouched rest of a device, and no test applies an empty patch.",
 ["src/patch/mod.rs","src/patch/device.rs","src/patch/peripheral.rs","src/patch/register.rs"],
 [("patch driver","src/patch/mod.rs process_reader"),("device walk","src/patch/device.rs DeviceExt::process")],PATCHOUT)
p("C02","A rule applies to exactly the elements whose name its pattern matches",
 "At every level (peripherals, registers, clusters, fields, interrupts) a rule acts on all the elements whose whole, case-sensitive name matches its pattern and on no others. `?` is one character, `*` any run of characters, `[..]` one character of a set, range or negated set, `{a,b}` alternatives, and a comma-separated list matches when any of its patterns does.",
 ["inputs"],"every pattern x every set of element names, at every nesting level and for every kind of rule",
 SMALL+"a handful of fixed patterns is used, and never against near-miss names.",
 ["src/patch/mod.rs","src/patch/iterators.rs","src/patch/device.rs","src/patch/peripheral.rs","src/patch/register.rs"],
 [("pattern matcher","src/patch/mod.rs matchname/matchsubspec"),("matching iterators","src/patch/iterators.rs")],PATCHOUT)
p("C03","A rule whose target is missing fails the patch unless marked optional",
 "A peripheral, register, cluster or field section, a register/cluster/field modification, a merge, split, array, cluster, derive-source, copy-source or rebase rule that finds nothing to act on makes the whole patch fail. With the `?~` marker (on sections, modifications, splits, arrays, enums and ranges) the rule is silently skipped when nothing matches, and behaves exactly like the unmarked rule when something does.",
 ["inputs","programs"],"every rule kind and position x present/absent target x optional/not",
 SMALL+"no test checks a missing target or an optional rule in more than one position.",
 ["src/patch/mod.rs","src/patch/device.rs","src/patch/peripheral.rs","src/patch/register.rs"],
 [("optional marker","src/patch/mod.rs Spec"),("not-found errors","src/patch/{device,peripheral,register}.rs")],PATCHOUT)
p("C04","A failing command exits non-zero and leaves its output file untouched",
 "When patching, expanding a patch, converting or generating dependencies fails (malformed or missing SVD, YAML, included file or format configuration, a rule that cannot be applied, a failed validation), the command exits with a non-zero status and an already existing output file keeps its old content, while a missing one is not created. When it succeeds it exits with zero and the output file holds exactly the complete result, whatever it held before.",
 ["inputs","fault_sequences"],"every command x every failure cause x output file absent/existing (longer or shorter than the result)",
 "No test runs the command line tool; the tests call internal functions with valid inputs only.",
 ["src/cli.rs","src/patch/mod.rs","src/convert/convert_cli.rs","src/makedeps/makedeps_cli.rs"],
 [("compute before create","src/patch/mod.rs process_file, src/convert/convert_cli.rs convert"),("exit status","src/cli.rs run")],
 ["exit status and output file of the svdtools binary"])
p("C05","Included rule files merge into the including file, which wins conflicts",
 "Loading a rule file adds the rules of all (transitively) included files, found relative to the including file, both at top level and inside a peripheral section: rules present on one side only are kept, mappings are merged recursively, lists are joined, the including file's entries first (an identical list is not repeated), a single string and a list are combined without repeating an entry, and where two plain values conflict the including file's one is kept. Earlier includes take precedence over later ones, and sections keep their order in the files, the including file's first.",
 ["inputs","programs"],"every tree of rule files (depth, diamond sharing, relative directories, include lists and single strings) x every overlap of keys",
 "The only include test has one include of a few keys; conflicts, lists, nesting and directories are not covered.",
 ["src/patch/mod.rs"],[("include loader","src/patch/mod.rs load_patch/yaml_includes"),("merge","src/patch/mod.rs update_dict")],
 ["svdtools::patch::load_patch","output of `svdtools expand-patch`"])
p("C06","Patching with an expanded rule file equals patching with the original",
 "The document printed by the patch expansion command is valid YAML without include directives and contains the same merged rules; used in place of the original file it yields the same patched SVD (or fails likewise). Expanding it again does not change it.",
 ["inputs","programs"],"every accepted tree of rule files x device",
 "Patch expansion has no test.",
 ["src/patch/patch_cli.rs","src/patch/mod.rs"],[("expansion","src/patch/patch_cli.rs expand_patch")],["output of `svdtools expand-patch` and `svdtools patch`"])
p("C07","Generated dependencies list exactly the included rule files",
 "The dependency file names, for the given output file as target, every rule file included directly or transitively at top level or inside peripheral sections (each resolved relative to the file that includes it, files without rules too), and nothing else. A missing included file makes the command fail.",
 ["inputs","programs"],"every tree of rule files",
 "One test checks a fixed two-file tree in the Python version; none runs the Rust command.",
 ["src/makedeps/makedeps_cli.rs","src/patch/mod.rs"],[("dependency writer","src/makedeps/makedeps_cli.rs"),("include loader","src/patch/mod.rs yaml_includes")],
 ["dependency file written by `svdtools makedeps`"])
p("C08","Rule kinds apply in a fixed order, whatever order the file lists them in",
 "At device level: delete, copy, modify, clear fields, add, derive, rebase, then peripheral sections in file order; in a peripheral: delete, copy, strip, strip end, prefix, suffix, modify, clear fields, add, derive, register sections, expand arrays, collect arrays, collect clusters, cluster sections, expand clusters; in a cluster: delete to derive alike, cluster sections, register sections, then arrays and clusters; in a register: delete, strip, strip end, prefix, suffix, clear, modify, add, derive, merge, split, field sections, field arrays. Reordering the directive keys of any mapping of the rule file therefore never changes the result.",
 ["inputs","programs"],"every rule file x every permutation of its directive keys",
 SMALL+"each exercises a single kind of rule.",
 ["src/patch/device.rs","src/patch/peripheral.rs","src/patch/register.rs"],
 [("device order","src/patch/device.rs process"),("peripheral/cluster order","src/patch/peripheral.rs process"),("register order","src/patch/register.rs process")],PATCHOUT)
p("C09","Delete rules remove exactly the matching elements",
 "Deleting by a name, pattern or list of patterns removes every matching peripheral, register, cluster, field or interrupt of the addressed parent and keeps all others, contents and order included; in the typed form a register (cluster, interrupt) pattern removes only elements of that kind. A delete pattern without a match is a no-op, except that one in the typed cluster form is an error unless optional.",
 ["inputs"],"every device x every delete rule at every level",
 SMALL+"one test deletes two peripherals.",
 ["src/patch/device.rs","src/patch/peripheral.rs","src/patch/register.rs"],
 [("delete","delete_peripheral, delete_child, delete_register, delete_cluster, delete_interrupt, delete_field")],PATCHOUT)
p("C10","Modify rules set exactly the given properties of every matching element",
 "A modification of the device, CPU, peripherals, registers, clusters, fields or interrupts sets each property it gives (numbers, names, descriptions, access, reset values, address blocks, array dimensions, bit ranges, write constraints) on every matching element and leaves every other property alone; an empty text removes an optional text property, and an empty access the access of a register or field. Renaming a peripheral re-points the peripherals derived from it; giving derivedFrom drops the element's own contents; results that cannot be represented (enumerated value, constraint or reset value too wide) are rejected.",
 ["inputs"],"every device x every modification rule at every level",
 SMALL+"one test modifies a version, a CPU property and a peripheral name.",
 ["src/patch/device.rs","src/patch/peripheral.rs","src/patch/register.rs","src/patch/mod.rs"],
 [("modify","modify_cpu, modify_peripheral, modify_register, modify_cluster, modify_field, modify_interrupt"),("builders","src/patch/mod.rs make_*")],PATCHOUT)
p("C11","Add rules insert the described element, in address order, once",
 "An add rule creates a peripheral, register, cluster, field or interrupt with exactly the given properties and contents (arrays included). Peripherals, registers and clusters are placed right after the last of the elements with the highest address not above the new one (or first if there is none), fields and interrupts last; an existing element of the same kind and name, or a missing mandatory property, is an error.",
 ["inputs"],"every device x every added element at every level",
 SMALL+"each adds one element with fixed contents.",
 ["src/patch/device.rs","src/patch/peripheral.rs","src/patch/register.rs","src/patch/mod.rs"],
 [("add","add_peripheral, add_register, add_cluster, add_field, add_interrupt"),("position","src/patch/mod.rs adding_pos")],PATCHOUT)
p("C12","Copy rules duplicate an element while keeping the target's identity",
 "Copying a peripheral gives the target all contents of the source under the target's name; an existing target keeps its base address, interrupts and position, a new one is appended; interrupts are copied only from another SVD file, which is located relative to the rule file. Copying a register clones the source under the new name with the given properties changed and its display name removed; an existing target keeps its offset and position. The source stays unchanged.",
 ["inputs"],"every device x copy rules for peripherals (same file, other file) and registers in peripherals and clusters",
 SMALL+"one test copies one peripheral within a file.",
 ["src/patch/device.rs","src/patch/peripheral.rs"],[("copy","copy_peripheral, copy_register")],PATCHOUT)
p("C13","Deriving or rebasing peripherals keeps identity and re-points references",
 "Deriving A from B makes A a derivation of B without registers, address blocks or register defaults of its own but with its name, base address and interrupts (given properties applied), and rebasing A on B swaps roles: A takes everything of B except A's name, base address and interrupts, and B, keeping those, becomes derived from A. In both cases every peripheral that was derived from the element that lost its contents is re-pointed to the other one, and the base is placed before all of them.",
 ["inputs"],"every device (including derivation fans) x every derive/rebase rule",
 "No Rust test derives or rebases a peripheral.",
 ["src/patch/device.rs"],[("derive","derive_peripheral"),("rebase","rebase_peripheral")],PATCHOUT)
p("C14","Register arrays: collecting and expanding preserve names and addresses",
 "Collecting matching registers into an array keeps, for every collected register, its index (taken from the name, or counted from zero on request), its address offset and the layout of its first element; expanding an array yields one register per element with the same names, offsets and contents. Registers that are not evenly spaced, have different field masks, or lack a common description or display name are rejected unless the rule supplies one; field rules inside the array rule apply to the array.",
 ["inputs"],"every device x every collect/expand rule in peripherals and clusters",
 SMALL+"one fixed array is collected.",
 ["src/patch/peripheral.rs","src/patch/mod.rs"],[("collect","collect_in_array, spec_ind, check_offsets, common_description"),("expand","expand_array")],PATCHOUT)
p("C15","Clusters: collecting and expanding preserve every register's address",
 "Collecting registers into a (single or array) cluster moves exactly the listed registers, at the position of the first of them, so that the expansion of the new cluster has every collected register at its old absolute address and with its index; groups with different numbers, indexes, spacing, or field masks, or registers falling outside the increment, are rejected. Expanding an array cluster replaces it by its registers and sub-clusters, one copy per element, at the same absolute addresses, with names built from the cluster name, index, delimiters and member name.",
 ["inputs"],"every device x every cluster collect/expand rule",
 SMALL+"one fixed device with one cluster per rule form.",
 ["src/patch/peripheral.rs"],[("collect","collect_in_cluster"),("expand","expand_cluster, expand_cluster_register_name_prefix")],PATCHOUT)
p("C16","Merging and splitting fields preserve the covered bits",
 "Merging replaces all matching fields by one field with the lowest offset, the summed width, the first field's description, the access they all share (if any) and the given (or longest common prefix) name, at the position of the first of them. Splitting replaces the one matching field of width n by n single-bit fields covering the same bits in ascending order, with the bit number substituted in name and description; more than one match is an error.",
 ["inputs"],"every register layout x every merge/split rule form",
 SMALL+"one merge and one split of fixed fields.",
 ["src/patch/register.rs"],[("merge","merge_fields"),("split","split_fields")],PATCHOUT)
p("C17","Field arrays preserve the position and index of every collected field",
 "Collecting matching fields into an array yields one array field, at the position of the first of them, whose expansion has every collected field at its old bit offset under its index (from the name or counted from zero on request), with the given or common description. Fields with uneven spacing or without a common description (unless one is given) are rejected, and unmatched fields stay as they were.",
 ["inputs"],"every register layout x every field array rule",
 SMALL+"one fixed field array.",
 ["src/patch/register.rs","src/patch/mod.rs"],[("collect","collect_fields_in_array")],PATCHOUT)
p("C18","Enumerated values reach every matching field with the right usage",
 "An enum rule gives all matching fields (equal width required) the listed values, sorted by value, -1 being the default entry: the one at the lowest bit offset holds them under the given or derived name, the others refer to it by enum derivation, by field derivation, or hold copies, as selected. Read/write-only rules set the usage, combine with an existing set of the other direction, must be compatible with the field's access, and an already occupied direction is an error unless the replace form is used. Duplicate values, names starting with a digit and multi-level derivations are rejected.",
 ["inputs","configurations"],"every register layout x every enum rule x enum derivation mode",
 SMALL+"a few fixed enums with the default mode.",
 ["src/patch/register.rs","src/patch/mod.rs"],[("enum","process_field_enum, set_enum, check_usage, make_usage"),("values","src/patch/mod.rs make_ev_array, make_ev_name")],PATCHOUT)
p("C19","Ranges and access side effects are set on exactly the matching fields",
 "A two-number field rule gives every matching field that inclusive write range and nothing else; a write-constraint modification sets a range, the enumerated-values constraint, or removes the constraint. Each read or write action keyword sets its corresponding read action or modified-write-value kind on all matching fields (the plain modify write kind being the absence of one), together with the enumerated values it carries.",
 ["inputs"],"every register layout x every range/action rule",
 "No test sets a read action or modified write value and only one sets a range.",
 ["src/patch/register.rs"],[("range","process_field_range"),("actions","process_field, set_field_read_action, set_field_modified_write_values")],PATCHOUT)
p("C20","Strip, prefix and suffix rules edit exactly the names they should",
 "Stripping removes the given text from the start (end) of the name, display name and alternate-register name of every register and the name, struct name and alternate-cluster name of every cluster directly in the addressed block that starts (ends) with it, and of every field name in an addressed register; names without it are untouched. Prefix and suffix rules put the text before (after) those names of all registers of a block or all fields of a register. A pattern with wildcards removes the shortest text that it matches.",
 ["inputs"],"every device x every affix rule at peripheral, cluster and register level",
 "No test strips or affixes names.",
 ["src/patch/peripheral.rs","src/patch/register.rs"],[("affixes","strip_start, strip_end, add_prefix, add_suffix")],PATCHOUT)
p("C21","Clearing fields removes their enums and constraints and nothing else",
 "A clear rule at device, peripheral, cluster or register level removes the enumerated values and write constraint of every field it addresses (at block level, of all fields of the matching registers, nested clusters included) and leaves everything else alone; derived peripherals, registers and fields are not touched.",
 ["inputs"],"every device x every clear rule at every level",
 "No test clears fields.",
 ["src/patch/device.rs","src/patch/peripheral.rs","src/patch/register.rs"],[("clear","clear_fields, clear_field")],PATCHOUT)
p("C22","Derived elements are protected from section rules",
 "A peripheral section applied to a peripheral that is derived from another changes at most its interrupts (delete, modify, add); register-level rules in it are ignored without error. A register section applied to a derived register changes nothing, while non-derived elements matched by the same pattern are processed normally.",
 ["inputs"],"every device with derived elements x every section rule",
 "No test applies rules to derived elements.",
 ["src/patch/peripheral.rs","src/patch/register.rs"],[("derived guard","src/patch/peripheral.rs Peripheral::process, src/patch/register.rs Register::process")],PATCHOUT)
p("C23","Converting between XML, YAML and JSON loses nothing",
 "Converting a device description from any of the three formats to any other and back gives the same description, and the target format depends on the explicit format option first and the file extension otherwise. Ignoring enums drops exactly the enumerated values and write constraints of an XML input; expanding properties fills in size, access, reset value and mask from the parents wherever absent and changes nothing else.",
 ["inputs","configurations"],"every device x format pair x option combination",
 "One test re-reads one SVD; no test runs the converter.",
 ["src/convert/convert_cli.rs","src/lib.rs"],[("converter","src/convert/convert_cli.rs")],["output file of `svdtools convert`"])
p("C24","Expanded conversion keeps every register at its address",
 "With the expand option the output has no arrays, clusters, or derived peripherals, registers, fields or enumerations left, and describes exactly the same flat set of peripherals, registers (those of clusters as CLUSTER_REGISTER) and fields (names with indexes, absolute addresses, bit positions, access and enumerated values after derivation) as the input.",
 ["inputs"],"every device with arrays, nested clusters and derivations",
 "No test expands a device.",
 ["src/convert/convert_cli.rs"],[("expand","src/convert/convert_cli.rs open_svd")],["output file of `svdtools convert --expand`"])
p("C25","The memory map lists every element once, at its absolute address, sorted",
 "The memory map of a device has exactly one line per interrupt, peripheral, register, cluster and field (array elements and cluster members individually, and the base's registers for peripherals that are derived, also through a chain; derived registers and clusters are one line naming their source), with the absolute address in hexadecimal, the kind, indented full name, derivation, access and single-line description, and the lines are in ascending text order.",
 ["inputs"],"every device",
 "One test compares the output for one SVD file.",
 ["src/mmap/mmap_cli.rs"],[("listing","src/mmap/mmap_cli.rs")],["stdout of `svdtools mmap`"])
p("C26","The interrupt list is complete and sorted, and gaps are its complement",
 "The interrupt listing has one line per interrupt of every peripheral (number, name, single-line description, peripheral), in ascending order of number with ties in document order. Unless disabled, the gap line lists exactly the numbers from zero to the highest used one that no interrupt uses.",
 ["inputs","configurations"],"every device",
 "One test compares the output for one SVD file.",
 ["src/interrupts/interrupts_cli.rs","src/interrupts/interrupt_list.rs","src/interrupts/svd_reader.rs"],[("listing","src/interrupts/")],["stdout of `svdtools interrupts`"])
p("C27","The HTML report shows every element and counts coverage correctly",
 "The report of a device shows every peripheral (derived ones with their base's registers), register (nested clusters included) and field with its base address, offset or bit position and access, and its coverage figures equal the documented fields (read-only ones, and those with enumerated values or a write constraint, own or derived) over all fields, per register, peripheral and device. Descriptions are shown verbatim (escaped), never as markup; a default value is shown with the least number that has no name. The register map and the bit picture show the same cells at the same bits, peripherals come by name, registers by offset and fields by bit, the index and the overall figures add up, a field outside of its register is an error, and running again rewrites exactly the pages that are older than their SVD file.",
 ["inputs"],"every device",
 "No test generates HTML.",
 ["src/html/html_cli.rs"],[("report","src/html/html_cli.rs")],["files written by `svdtools html`"])
p("C28","The HTML comparison reflects which device has which element",
 "For every set of SVD files the comparison tables have a row for every peripheral name and, per peripheral, register and field of any device, and mark an element as present for exactly the devices that have it at that address or bit position.",
 ["inputs"],"every set of devices",
 "No test runs the comparison.",
 ["src/html/htmlcompare_cli.rs"],[("comparison","src/html/htmlcompare_cli.rs")],["files written by `svdtools htmlcompare`"])
p("C29","Numbers in rules mean the same in every notation",
 "Every place of a rule file that takes a number accepts it as a YAML integer or as text in decimal, hexadecimal (0x, 0X) or binary (0b, #; x as a don't-care digit meaning zero) with underscores as separators, and all notations of a value give the same result; texts that are not numbers, and wrongly typed values, fail the patch. Booleans may be true/false, True/False text, or 0/1.",
 ["inputs"],"every numeric or boolean rule position x every notation",
 "No test uses a textual notation.",
 ["src/patch/yaml_ext.rs"],[("number parser","src/patch/yaml_ext.rs parse_i64, parse_bool")],PATCHOUT)
p("C30","Path placeholders in rules expand to the element they are applied in",
 "In descriptions and derivedFrom texts of added or modified registers, clusters and fields the placeholders for peripheral, block path, register and register path are replaced by the names on the path of the element the rule is applied in, for each matching parent separately, and all other text is kept verbatim.",
 ["inputs"],"every description/derivedFrom position x every nesting of peripherals and clusters",
 "No test covers placeholders beyond one fixed file.",
 ["src/patch/mod.rs"],[("interpolation","src/patch/mod.rs Interpolate")],PATCHOUT)
p("C31","Deriving registers and fields re-points and validates references",
 "A register derive rule makes every matching register (or a new one with the given properties when none matches) a derivation of the named register, drops its own contents, applies given properties, and re-points registers of that block that were derived from it; an unqualified source that does not exist is an error. A field derive rule does the same for fields, and a source qualified with a sibling register or cluster is completed to a full path.",
 ["inputs"],"every device x every derive rule in peripherals, clusters and registers",
 SMALL+"one fixed device covers cross-cluster derives.",
 ["src/patch/peripheral.rs","src/patch/register.rs"],[("derive","derive_register, derive_field")],PATCHOUT)
p("C32","Output location, format options and validation follow the command line",
 "The patched SVD goes to the given output path, or by default next to the input SVD (located relative to the rule file) with .patched added to its name, and the input SVD itself is never modified. A number or bit-range format configuration changes only the notation of the output, never the described device; strict validation rejects exactly the results that break the SVD rules and otherwise does not alter the output.",
 ["inputs","configurations"],"every device x rule file x option combination",
 "No test runs the command line tool.",
 ["src/cli.rs","src/patch/mod.rs","src/lib.rs"],[("output path","src/patch/mod.rs process_file"),("encoder config","src/lib.rs get_encoder_config")],["files written by `svdtools patch`"])
p("C34","A failing patch names the device, the sections and the rule that failed",
 "When exactly one rule of a patch fails, wherever it stands in the included files, the error message names the device, every enclosing section by its key as written, and the rule by its pattern or element name. With the option to show the patch on errors, and only then, the message has the complete rules after all includes as YAML.",
 ["inputs","programs"],"every failing rule kind x position x rest of the rules",
 "No test looks at an error message.",
 ["src/patch/mod.rs","src/patch/device.rs","src/patch/peripheral.rs","src/patch/register.rs"],[("error contexts","src/patch/*.rs with_context"),("shown rules","src/patch/mod.rs process_reader")],["stderr of `svdtools patch`"])
p("C35","The info command prints the device name for every input format",
 "`info FILE device-name` prints the name of the device, whether the file is SVD, JSON or YAML, told by the format option first and the file extension otherwise; an unknown request, an unknown format, a missing or a damaged file fail and print nothing.",
 ["inputs","configurations"],"every device x format x request",
 "No test runs the command.",
 ["src/info/mod.rs","src/convert/convert_cli.rs"],[("request","src/info/mod.rs Request"),("reader","src/convert/convert_cli.rs open_svd")],["stdout of `svdtools info`"])
p("C33","The Python version agrees with the Rust version",
 "For the same input the Python and the Rust tool give the same memory map, interrupt list (with and without gaps), merged rules of included files and dependency list, and patching gives the same device up to the order of elements. For patches this covers the rule kinds both document: device level delete, copy, modify, clear, add, derive and rebase; the same in peripherals, with stripping, register arrays and clusters; in registers delete, strip, modify, add, merge, split, enumerated values, write ranges, derived fields and field arrays. Rules that name a missing peripheral, register or field are rejected by both, except modify rules, which Python ignores then.",
 ["inputs"],"every device and rule file within the common subset",
 "The Python tests compare each command with one stored output; no test runs both versions on the same input.",
 ["svdtools/mmap.py","svdtools/interrupts.py","svdtools/makedeps.py","svdtools/patch.py"],[("python patch","svdtools/patch.py process_device"),("python lists","svdtools/mmap.py, svdtools/interrupts.py"),("python includes","svdtools/patch.py yaml_includes")],["output of `python -m svdtools` and of the Rust binary"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
