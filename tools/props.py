"""The properties, in the format of properties.jsonl."""

PROPS = []
NA = {}


def P(id, title, statement, over, q, why, files, mech, observe=None, na=None):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over.split(), "text": q},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [
            {"name": n, "where": w} for n, w in mech],
            "observe_at": observe or []},
    })
    if na:
        NA[id] = na


P("P01", "Class files are read according to the ClassFile structure",
  "Reading a class file consumes exactly the fields of the ClassFile, "
  "field_info, method_info, attribute, Code, exception-table and inner-class "
  "structures of the JVM specification, in order, every table being read as "
  "often as its own count says. The reported version (major, minor), this and "
  "super class, interfaces, member names, descriptors and flags, code limits "
  "and bytes, handler entries, and the bytes stored under each attribute name "
  "are those of the corresponding fields. Data which does not start with the "
  "magic number is rejected, also when the caller has already consumed the "
  "magic number and passes it on.",
  "inputs", "every byte string offered as a class file",
  "The tests read a handful of compiled sample classes, which exercise each "
  "table with a few small counts; swapped or mis-sized fields that happen to "
  "be equal or empty there, and malformed magic numbers, go unnoticed.",
  ["javatools/__init__.py", "javatools/pack.py"],
  [("structure readers", "the unpack methods of the class, member, attribute, "
    "code, exception and inner-class objects in javatools/__init__.py"),
   ("counted arrays", "Unpacker.unpack_array, unpack_struct_array, "
    "unpack_objects in javatools/pack.py")],
  ["unpack_class", "JavaClassInfo accessors", "is_class"])

P("P02", "Constant pool entries are read with the layout of their tag",
  "For each of the constant kinds of the JVM specification, reading a "
  "constant pool consumes exactly the fields of that kind's structure, with "
  "their specified widths and signedness, and stores the tag together with "
  "these values at the entry's index; text is decoded as UTF-8. Indices start "
  "at one, a long or double entry occupies two of them, of which the second "
  "is unusable, and as many indices are filled as the pool's count announces. "
  "An unknown tag is rejected with an exception.",
  "inputs", "all 256 tag values, every sequence of entries",
  "The sample classes contain only the constant kinds which old compilers "
  "emit, and few with two slots followed by entries whose index matters.",
  ["javatools/__init__.py"],
  [("pool reader", "JavaConstantPool.unpack"),
   ("entry layouts", "_unpack_const_item in javatools/__init__.py")],
  ["JavaConstantPool.get_const", "JavaConstantPool.consts"])

P("P04", "The opcode table agrees with the JVM instruction set",
  "Every instruction of the JVM instruction set is known under its opcode and "
  "its specified mnemonic, in both directions and through the exported "
  "constants, and nothing else is. The operand format recorded for it is the "
  "specified one, and exactly the instructions whose operand is a constant "
  "pool index are marked as referring to a constant.",
  "inputs", "all opcodes 0..201, all mnemonics, all exported opcode names",
  "No test enumerates the opcode table; the sample classes contain a small "
  "part of the instruction set.",
  ["javatools/opcodes.py"],
  [("opcode table", "the registrations at the end of javatools/opcodes.py"),
   ("table queries", "get_opcode_by_name, get_opname_by_code, "
    "get_arg_format, has_const_arg")],
  ["get_opcode_by_name", "get_opname_by_code", "has_const_arg"])

P("P05", "Disassembly decodes every instruction with the JVM operand layout",
  "Disassembling a method body yields one entry per instruction with its "
  "offset, its opcode and its operands decoded with the specified widths and "
  "signedness, and continues at the next instruction exactly after them up to "
  "the end of the code. The padding of the switch instructions depends on the "
  "instruction's offset in the method, their tables have the specified number "
  "of entries, and wide instructions have widened operands.",
  "inputs", "every method body made of well formed instructions, at every "
  "offset alignment",
  "The tests disassemble the few methods of the sample classes: most opcodes, "
  "alignments of the switch instructions and wide forms never occur.",
  ["javatools/opcodes.py"],
  [("disassembler", "disassemble in javatools/opcodes.py"),
   ("operand readers", "_unpack, _unpack_tableswitch, _unpack_lookupswitch, "
    "_unpack_wide")],
  ["disassemble"])

P("P03", "Every constant kind can be dereferenced, rendered and listed",
  "For every kind of constant, looking an entry up by index gives its value "
  "with the entries it refers to resolved in the same pool, in order; the "
  "readable form can be made without an error and mentions every component, "
  "with class names and descriptors in readable form. Listing the pool visits "
  "every index from one on exactly once, with the kind's own name and the "
  "entry's own tag, skipping only unusable slots.",
  "inputs", "every tag, every value and every index",
  "The pools of the sample classes contain about half of the constant kinds, "
  "so the rendering of the others is never executed by a test.",
  ["javatools/__init__.py"],
  [("dereferencing", "JavaConstantPool.deref_const"),
   ("rendering", "JavaConstantPool.pretty_const, pretty_deref_const, "
    "_pretty_const_type_val"),
   ("listing", "JavaConstantPool.constants, pretty_constants")],
  ["javap style output of classinfo", "class constant pool changes"])

P("P06", "Unpackers deliver exactly the next bytes or raise UnpackException",
  "A read, an unpack by format or an unpack by compiled structure on an "
  "in-memory or a stream unpacker delivers exactly the bytes which follow "
  "those already consumed and leaves the position right behind them; if fewer "
  "bytes than requested are left it raises UnpackException and never returns "
  "short or shifted data. Counted reads perform exactly as many reads as the "
  "count read from the data says. The same holds for any sequence of "
  "operations.",
  "inputs histories", "all data, offsets, sizes and formats, every "
  "succession of two operations, by induction every sequence",
  "Truncated data and mixed operations on one unpacker are not tested at all; "
  "an off by one in a bounds test shows only if data ends at that byte.",
  ["javatools/pack.py"],
  [("in-memory unpacker", "BufferUnpacker"),
   ("stream unpacker", "StreamUnpacker"),
   ("counted reads", "Unpacker.unpack_array, unpack_struct_array, "
    "unpack_objects")],
  ["unpack", "UnpackException"])

P("P07", "Context managers release their resource and pass exceptions on",
  "Leaving the with-block of any context manager of the package closes the "
  "resource it manages exactly once, whether the block ends normally or by an "
  "exception, and an exception raised in the block is never swallowed. "
  "Entering it binds the managed object. The archive openers and closing() "
  "always give a context manager, also for exploded archives.",
  "inputs schedules", "every context manager class of the package, every way "
  "of leaving the block",
  "No test raises an exception inside such a block or checks that the "
  "underlying file was closed.",
  ["javatools/pack.py", "javatools/dirutils.py", "javatools/ziputils.py",
   "javatools/jarinfo.py"],
  [("managers", "Unpacker.__exit__, ClosingContext.__exit__, "
    "JarInfo.__exit__, DistInfo, ExplodedZipFile"),
   ("factories", "closing, open_zip, open_zip_entry")],
  ["with unpack(...)", "with open_zip(...)"])

P("P09", "Access flag predicates and keywords follow the JVM flag bits",
  "Each is_xxx predicate of a class, field or method based on its access "
  "flags is true exactly if the bit which the JVM specification assigns to "
  "that flag is set, whatever the other bits are. The readable flag list "
  "contains each applicable keyword exactly once if its flag is set and not "
  "otherwise; flags with a shared bit are named according to whether the "
  "member is a field or a method.",
  "inputs", "all 65536 values of the flag word, for classes, fields and "
  "methods",
  "The samples have a few flag combinations; a predicate testing a wrong "
  "bit answers them correctly if both bits happen to agree.",
  ["javatools/__init__.py"],
  [("class predicates", "JavaClassInfo.is_public .. is_enum"),
   ("member predicates", "JavaMemberInfo.is_public .. is_module"),
   ("keywords", "pretty_access_flags of both classes")],
  ["pretty_descriptor", "classinfo output", "flag changes in classdiff"])

P("P10", "Type descriptors are split and rendered completely",
  "For every field and method descriptor of the JVM specification's grammar, "
  "the argument and return type descriptors delivered are exactly its "
  "components in order, whatever the nesting of array dimensions and class "
  "names, and the readable forms are the Java type names with one pair of "
  "brackets per dimension and dots in class names. A member's identifier "
  "contains its name and its argument types, so overloads are distinguished, "
  "and the return type does too where the identifier promises it. Class "
  "names referenced by the class (this, super, interfaces) are rendered the "
  "same way.",
  "inputs", "all descriptors: base types, class names and arrays of them in "
  "every position",
  "The samples use few types; a splitter failing for an array of a class "
  "followed by a primitive needs just that descriptor to be noticed.",
  ["javatools/__init__.py"],
  [("splitting", "JavaMemberInfo.get_arg_type_descriptors, "
    "get_type_descriptor and the sequence iterator they use"),
   ("rendering", "pretty_type, pretty_arg_types, pretty_descriptor, "
    "pretty_this, pretty_super, pretty_interfaces"),
   ("identity", "get_identifier, pretty_identifier")],
  ["classinfo output", "method matching in classdiff"])

P("P11", "Deprecated and Synthetic are recognised by presence of the marker",
  "A class, field or method is deprecated exactly if it has the Deprecated "
  "attribute, and a member is synthetic exactly if it has the Synthetic "
  "attribute or the ACC_SYNTHETIC flag. The content of the attribute, which "
  "is empty in every valid class file, plays no role.",
  "inputs", "presence and content of the attributes, all flag words",
  "No sample class had such a marker compared with its predicate: the "
  "zero-length markers were in fact ignored.",
  ["javatools/__init__.py"],
  [("predicates", "is_deprecated and is_synthetic of JavaClassInfo and "
    "JavaMemberInfo"), ("attribute lookup", "get_attribute")],
  ["classinfo output", "deprecation changes in classdiff"])

P("P12", "Attribute accessors read their own attribute with its JVM layout",
  "Each accessor for an attribute of a class, field, method or code (source "
  "file, signature, inner classes, enclosing method, constant value, "
  "exceptions, code, line number and local variable tables, annotations of "
  "every kind, annotation default, source debug extension) interprets the "
  "attribute of its own name and no other, with the layout of the JVM "
  "specification, every table as often as its count says, and gives the "
  "values of the corresponding fields. Without the attribute it gives an "
  "empty value. Asking again gives the same value.",
  "inputs histories", "every content of the attributes, every subset of "
  "attributes present, repeated calls",
  "The samples carry few attributes, most with one entry; a reader which "
  "takes the wrong attribute's data or swaps two index fields agrees on "
  "those.",
  ["javatools/__init__.py"],
  [("class accessors", "JavaClassInfo.get_sourcefile .. get_enclosingmethod"),
   ("member accessors", "JavaMemberInfo.get_code, get_exceptions, "
    "get_constantvalue, get_annotations .. get_annotationdefault"),
   ("code accessors", "JavaCodeInfo.get_linenumbertable, "
    "get_localvariabletable, get_localvariabletypetable")],
  ["classinfo output", "every change of classdiff"])

P("P13", "Annotations are read, compared and rendered by their tags",
  "An annotation's elements are read with the structure belonging to each "
  "element_value tag, nested annotations and arrays recursively. Two "
  "annotations, possibly of different classes, are equal exactly if type, "
  "element names, tags and the constants referenced are equal, each "
  "reference being resolved in its own class's constant pool, independent of "
  "the indices. Every annotation can be rendered and its references occur in "
  "the text.",
  "inputs", "all tags, nested values, any two annotations with any two "
  "constant pools",
  "Samples hold few annotations; equality by index is right as long as both "
  "class files happen to number their constants alike.",
  ["javatools/__init__.py"],
  [("reading", "JavaAnnotation.unpack"),
   ("comparing", "JavaAnnotation.__eq__ and __ne__"),
   ("rendering", "pretty_annotation, pretty_elements, pretty_type")],
  ["AnnotationsChange of classdiff", "classinfo --show"])

P("P15", "The platform follows from the class file version",
  "For each class file version of the JVM specification up to Java 8, all "
  "minor versions included, the platform reported by a class and by "
  "platform_from_version is the first Java release which supports this "
  "version; versions older than any release have no platform.",
  "inputs", "all major versions up to 52 with every minor version",
  "Tests query the versions of the samples only.",
  ["javatools/__init__.py"],
  [("table lookup", "platform_from_version"),
   ("class accessor", "JavaClassInfo.get_platform")],
  ["classinfo output", "platform changes of classdiff and jardiff"])

P("P14", "Provided and required APIs of a class are complete and exact",
  "The APIs a class provides are the class itself and its members, all of "
  "them or the public ones as asked, regardless of what was asked for before. "
  "The APIs it requires are those named by the class, field, method and "
  "interface-method references of its constant pool, an array counting as "
  "its element class at any dimension and primitive arrays as nothing, minus "
  "what the class itself provides. A filter removes exactly the entries "
  "matching one of its patterns.",
  "inputs histories", "every constant pool, member set, visibility and "
  "sequence of queries",
  "Tests look at a few entries of sample classes without multi-dimensional "
  "arrays and query each object once.",
  ["javatools/__init__.py", "javatools/jarinfo.py"],
  [("provided APIs", "JavaClassInfo.get_provides"),
   ("required APIs", "JavaClassInfo.get_requires"),
   ("deriving from pool constants", "helper functions and generators of "
    "javatools/__init__.py")],
  ["classinfo --provides/--requires", "jarinfo and distinfo equivalents"])

P("P24", "Comparing two archives classifies every entry exactly once",
  "Comparing two archives yields for every entry name occurring in either of "
  "them exactly one event, directories occurring in both excepted: only left, "
  "only right, or in both. An entry in both is reported the same exactly if "
  "its complete contents are equal, whatever sizes and checksums say, and "
  "however the content is split by the reads. The collecting variants file "
  "every event under its own list and lose none.",
  "inputs", "any two archives: all combinations of presence, equal or "
  "different size, checksum and content",
  "Test archives differ in size or checksum; equal checksums with different "
  "content, content above the read size, and exploded archives are not "
  "sampled.",
  ["javatools/ziputils.py"],
  [("event generator", "compare and compare_zips in javatools/ziputils.py"),
   ("collectors", "collect_compare, collect_compare_zips")],
  ["jardiff and distdiff reports", "ziputils.compare"])

P("P41", "A directory tree can stand in for an archive",
  "A directory opened as an archive lists exactly its subdirectories, with "
  "trailing slash, and regular files, symbolic links excepted, under their "
  "paths relative to it, with the size and checksum of the file. Whatever "
  "mode is asked for, entries are opened as binary streams of their own file "
  "and reading delivers the complete content. Whether a path is opened as "
  "archive or directory follows from what it is, statistics count every "
  "entry once, and testing a stream for being an archive leaves its position "
  "alone and accepts exactly streams with an end-of-archive record.",
  "inputs", "any directory tree, mode, content length and stream",
  "Tests use one exploded sample; links, text modes, long files and "
  "unseekable streams do not occur in them.",
  ["javatools/ziputils.py"],
  [("exploded archives", "ExplodedZipFile and its listing helper"),
   ("opening", "zip_file, open_zip, open_zip_entry"),
   ("reading", "file_crc32, chunk_zip_entry, ExplodedZipFile.read"),
   ("statistics and stream test", "zip_entry_rollup, is_zipstream")],
  ["jardiff, jarinfo and distinfo on exploded archives"])

P("P43", "Bytecode offsets map to their source lines",
  "The source line of a bytecode offset is that of the line-number entry with "
  "the greatest start not above it, in whatever order the table is stored, "
  "and none if there is no such entry. Grouping code by line delivers every "
  "instruction exactly once, in order, under the line of its offset; relative "
  "lines count from the method's first line. Merging the code of two methods "
  "puts all instructions of each under the relative line they belong to.",
  "inputs", "every line-number table and instruction sequence",
  "Compilers behind the samples emit mostly ascending tables; the lookup in "
  "unsorted tables and before the first entry is not sampled.",
  ["javatools/__init__.py"],
  [("lookup", "JavaCodeInfo.get_line_for_offset"),
   ("grouping", "iter_code_by_lines, get_linenumbertable")],
  ["classinfo --lines", "method code changes of classdiff"])

P("P44", "Member lookup finds exactly the members described",
  "Looking up a method by name and argument types, methods or fields by "
  "name, and a method's bridges gives exactly the members with that name and "
  "those argument types, bridges only those with the bridge flag, in the "
  "order of the class file, however the argument types are passed; a lookup "
  "without match gives nothing.",
  "inputs", "all combinations of equal and different names, argument types "
  "and flags",
  "Samples have hardly any overloads together with bridges, on which the "
  "lookups differ.",
  ["javatools/__init__.py"],
  [("lookup functions", "get_method, get_methods_by_name, "
    "get_method_bridges, get_field_by_name of JavaClassInfo")],
  ["class comparison", "users of the library"])

P("P16", "The comparison of two classes covers every facet",
  "Comparing two classes reports a change whenever they differ in name, "
  "version, platform, superclass, interfaces, access flags, deprecation, "
  "signature, annotations, constants, fields or methods; members are compared "
  "in name, descriptor, flags, deprecation, signature, annotations, constant "
  "value, thrown exceptions and code, and code in instructions, referenced "
  "constants, line numbers, stack, locals and handlers. Constants differ if "
  "their kind or exact value does. A field or method present in one class "
  "only is reported as added or removed, all others are compared with their "
  "counterpart exactly once, and classes equal in all of this are reported "
  "unchanged.",
  "inputs", "every pair of classes which differ in one facet, for any values",
  "The test samples differ in a few facets only, and several at once, so "
  "that a facet which is never compared goes unnoticed.",
  ["javatools/classdiff.py", "javatools/__init__.py"],
  [("class comparison", "JavaClassChange, ClassInfoChange, the constant pool, "
    "field and method changes in javatools/classdiff.py"),
   ("member pairing", "the collecting of member changes in ClassFieldsChange "
    "and ClassMethodsChange"),
   ("code comparison", "MethodCodeChange and its parts")],
  ["classdiff exit status and report", "jardiff and distdiff"])

P("P17", "Change trees combine their parts faithfully",
  "A composite change is changed exactly if one of its parts is, and ignored "
  "exactly if it is changed and every changed part is ignored; each part is "
  "created once, with the left and right data, and checked once. A change of "
  "a single value is changed exactly if the values differ, additions and "
  "removals always are. Grouping changes by type loses none and keeps their "
  "order.",
  "inputs history", "all outcomes of up to four parts, in any order of calls",
  "Tests look at the exit status of whole runs, in which the outcomes of "
  "parts occur in few combinations.",
  ["javatools/change.py"],
  [("composites", "SuperChange"), ("single values", "GenericChange"),
   ("additions and removals", "Addition, Removal"),
   ("grouping", "yield_sorted_by_type")],
  ["is_change, is_ignored, check and collect of all changes"])

P("P18", "The comparing commands report their result by exit status and output",
  "The commands comparing two class files, archives or distributions compare "
  "the two inputs given, the first as the left one, and end with status 0 "
  "exactly if there is no change or the change is ignored under the options, "
  "otherwise with 1. The result is printed once unless silenced, as JSON "
  "exactly if asked for and else as text, and report files are written "
  "exactly if report formats are requested, into the directory requested. "
  "Whether comparisons of distributions look into files is up to the option "
  "for it.",
  "inputs configurations", "all options and all outcomes of the comparison",
  "The tests check the exit status for some sample pairs and options, while "
  "the combinations of options, outcomes and output are many.",
  ["javatools/classdiff.py", "javatools/jardiff.py",
   "javatools/distdiff.py"],
  [("commands", "cli_classes_diff, cli_jars_diff, cli_dist_diff, and cli and "
    "main of each module")],
  ["exit status of classdiff, jardiff and distdiff", "standard output"])

P("P19", "The ignore options ignore exactly what they name",
  "Each ignore option of the comparing commands, given alone, by its group or "
  "in the list form, makes exactly the changes it names ignored: versions "
  "and platforms in the direction named, line numbers, deprecation, constant "
  "pool, added members, signature files, manifests, manifest subsections, "
  "entries and files matching a pattern, text differing in trailing "
  "whitespace only, and manifest sections all of whose differing keys are "
  "among those listed, regardless of case. A composite change is ignored by "
  "its own option or if all its changed parts are, any other change never, "
  "and no option is on by default.",
  "configurations inputs", "all options, versions, names, keys and outcomes "
  "of parts",
  "The tests use a few of the options on samples which also differ in other "
  "ways; an option without effect, or with too much of it, goes unnoticed.",
  ["javatools/classdiff.py", "javatools/jardiff.py", "javatools/distdiff.py",
   "javatools/manifest.py", "javatools/dirutils.py"],
  [("decisions", "the is_ignored methods of all changes"),
   ("options", "create_optparser and the option groups and actions of "
    "javatools/classdiff.py, jardiff.py and distdiff.py"),
   ("patterns", "fnmatches in javatools/dirutils.py")],
  ["exit status and reports of the comparing commands"])

P("P20", "Text and JSON reports show exactly the changes requested",
  "A text or JSON report of a comparison shows a part exactly if it is "
  "changed and not ignored, if it is changed and ignored and ignored changes "
  "are requested, or if it is unchanged and unchanged parts are requested; "
  "the parts of a part that is not shown are not shown either. Parts follow "
  "their whole in order, in text indented one level deeper and marked if "
  "ignored. JSON data gives for each part its own label, outcome, "
  "description, entry, addition or removal marker and compared data.",
  "configurations inputs", "all trees of changes and outcomes, all options",
  "The tests do not read the reports of comparisons, and the trees, outcomes "
  "and options combine freely.",
  ["javatools/report.py", "javatools/change.py"],
  [("text", "TextReportFormat.run, _indent_change in javatools/report.py"),
   ("data", "simplify of the changes in javatools/change.py, "
    "JSONChangeEncoder and JSONReportFormat in javatools/report.py")],
  ["output of classdiff, jardiff and distdiff"])

P("P22", "Reports keep the outcome and the overview of the comparison",
  "A squashed change has the label, description, entry, outcome and kind of "
  "the original and is ignored exactly if the original is under the same "
  "options, all of it taken before the original is cleared. Comparisons which "
  "write reports of their changed parts have the outcome and the parts of the "
  "same comparison without reports, each such part being checked once, "
  "reported under its own entry and replaced by its squashed overview. Each is "
  "itself reported once all its parts are compared, whatever the outcome.",
  "inputs configurations", "all parts, outcomes and options",
  "The tests check that reports can be written for some archives, not that "
  "outcome and overview agree with the plain comparison.",
  ["javatools/change.py", "javatools/jardiff.py", "javatools/distdiff.py"],
  [("squashing", "squash, SquashedChange and SuperChange.squash_children in "
    "javatools/change.py"),
   ("reporting comparisons", "JarContentsReport in javatools/jardiff.py, "
    "DistReport in javatools/distdiff.py")],
  ["reports and exit status of jardiff and distdiff"])

P("P25", "Helper processes do not change the result of a comparison",
  "Comparing distributions with helper processes gives, for any number of "
  "them and any order in which they finish, the outcome and parts of the "
  "comparison without helpers, each part being checked once and each report "
  "of a part by a helper, after the report formats were set up. Every helper "
  "ends and the parent does not wait for a result which does not come. A "
  "failing part makes the comparison fail instead of being lost.",
  "schedules inputs fault points", "all numbers of helpers and orders of "
  "results, all outcomes and failures of parts",
  "The tests run small distributions in one schedule, and none of them lets "
  "a helper fail.",
  ["javatools/distdiff.py"],
  [("parent", "DistReport.check_impl, mp_check_impl in "
    "javatools/distdiff.py"),
   ("helpers", "_mp_run_check in javatools/distdiff.py")],
  ["distdiff with --processes"])

P("P23", "Changed entries are compared by their kind",
  "Each entry found to be added, removed, changed or the same in the "
  "comparison of two archives or distributions becomes one part naming it, an "
  "addition, a removal or a comparison by its kind: manifests, signature "
  "files and blocks directly below META-INF, classes, archives, text files "
  "and others, or, in shallow comparisons of distributions, files as such. A "
  "changed entry compares the content of the left with that of the right "
  "entry, read as its kind requires, and counts as changed exactly if that "
  "comparison does, or, where there is none, in any case; text may hold any "
  "bytes. An unchanged entry is not read as its kind and stays unchanged.",
  "inputs", "all entries by kind and event, all contents and outcomes",
  "The tests compare a few samples, in which several kinds and events do not "
  "occur, and only look at the exit status.",
  ["javatools/jardiff.py", "javatools/distdiff.py", "javatools/manifest.py"],
  [("archives", "JarContentsChange.collect_impl and the parts in "
    "javatools/jardiff.py"),
   ("distributions", "DistChange.collect_impl and the parts in "
    "javatools/distdiff.py"),
   ("signature entries", "file_matches_sigfile, file_matches_sigblock in "
    "javatools/manifest.py")],
  ["parts, outcome and reports of jardiff and distdiff"])

P("P26", "Comparing and copying directory trees covers every file",
  "Comparing two directory trees reports each file of either tree exactly "
  "once by its path relative to the tree: as left or right only if the other "
  "tree has no file there, else as same if the content could be compared and "
  "is equal, otherwise as changed; names, sizes and times do not exempt "
  "files. Collecting files each path under the list of its event, skipping "
  "those not wanted. Copying a tree copies each file to the same relative "
  "path, below directories created as needed, and reports each copy.",
  "inputs", "all trees of regular files and directories, all contents",
  "The tests compare two sample trees which do not share several "
  "subdirectories, nor hold files of equal size and time or of names which "
  "are skipped by default.",
  ["javatools/dirutils.py"],
  [("comparison", "compare, _gen_from_dircmp, collect_compare, "
    "collect_compare_into in javatools/dirutils.py"),
   ("copying", "copydir, makedirsp in javatools/dirutils.py")],
  ["distdiff, dirutils.compare, HTML reports"])

P("P27", "Only an archive signed for the given certificate verifies",
  "Verifying an archive succeeds exactly if its signature block, found by the "
  "alias of the signature file, is a valid signature over the signature file "
  "under the given certificate, the signature file's digests match the "
  "manifest (the whole or, failing that, its main attributes and all its "
  "sections) and the manifest's digests match each entry. A missing manifest, "
  "signature file or block, several signature files without a choice, or a "
  "failure of any step makes it fail with an exception, and the command line "
  "report failure by message and exit status.",
  "inputs", "all archives, signatures, digests and certificates",
  "The tests verify two sample archives and a few tampered ones; which of "
  "the conditions is skipped shows only for archives forged accordingly.",
  ["javatools/jarutil.py", "javatools/manifest.py", "javatools/crypto.py"],
  [("verification", "verify in javatools/jarutil.py"),
   ("command line", "cli_verify_jar_signature in javatools/jarutil.py")],
  ["jarutil verify"])

P("P28", "Digests vouch for exactly the data they were recorded for",
  "Checking a manifest against an archive names as failed exactly the entries "
  "whose content has the digest recorded for them under none of the supported "
  "algorithms recorded, exempting but the manifest, directories and the "
  "signature files and blocks directly below META-INF; without strictness "
  "also entries which have no digest pass. A signature file accepts a "
  "manifest, its main attributes or its sections exactly if a digest recorded "
  "for it equals that of its own text as written, and every section which the "
  "signature file names exists; the digests it records for a manifest are of "
  "these texts.",
  "inputs", "all contents, recorded digests and entry names",
  "The tests check two archives and a few tampered entries with one or two "
  "algorithms.",
  ["javatools/manifest.py"],
  [("entries", "Manifest.verify_jar_checksums in javatools/manifest.py"),
   ("signature files", "SignatureManifest.verify_manifest, "
    "verify_manifest_checksum, verify_manifest_main_checksum, "
    "verify_manifest_entry_checksums in javatools/manifest.py")],
  ["jarutil verify, manifest v"])

P("P29", "Signing adds a matching signature and keeps the archive",
  "The signed archive holds manifest, signature file and signature block "
  "first, then every other entry of the original by name and content, without an older "
  "signature of the same alias. Its manifest keeps the attributes it had and "
  "holds the digest of each entry's content by the algorithm chosen; the "
  "signature file holds digests of the manifest, its main attributes and "
  "each of its sections as written, and the block is the signature of the "
  "signature file as written with the given key, certificates and suffix by "
  "kind of key. The output file is replaced only when complete, even if it "
  "is the input.",
  "inputs fault points", "all archives, manifests, keys and options",
  "The tests sign one sample archive with one key, without looking into the "
  "result beyond verifying it.",
  ["javatools/jarutil.py", "javatools/manifest.py", "javatools/crypto.py"],
  [("signing", "sign in javatools/jarutil.py"),
   ("manifest", "Manifest.add_jar_entries, SignatureManifest.digest_manifest, "
    "get_signature in javatools/manifest.py"),
   ("command line", "cli_sign_jar in javatools/jarutil.py")],
  ["jarutil sign"])

P("P31", "Manifest lines hold at most 72 bytes and unfold to their attribute",
  "Each line written for an attribute has at most 72 bytes with its line "
  "separator, and every line after the first starts with one space; without "
  "separators and these spaces the lines are the name, a colon, a space and "
  "the value, in UTF-8, for values of any length including none. An empty "
  "name or one too long for a line is rejected before anything is written.",
  "inputs", "all names, values and separators of the sizes explored, any "
  "content",
  "The tests write a few values; a boundary off by one, or one depending on "
  "bytes per character, shows for single lengths.",
  ["javatools/manifest.py"],
  [("writing", "write_key_val in javatools/manifest.py")],
  ["manifest c, jarutil create and sign"])

P("P32", "Manifests are read and written as the specification says",
  "Reading a manifest yields exactly the sections which its blank lines "
  "separate, each under its name and with the attributes its lines spell, "
  "with lines ended by CR LF, LF or CR, the last one possibly by none, and "
  "continuation lines joined without their leading space, before UTF-8 is "
  "decoded. A continuation without an attribute or a line without a colon is "
  "rejected as malformed. Writing yields the main attributes and each section, "
  "starting with its name and ended by a blank line, with the line separator "
  "asked for or else its own, which reads as the same manifest.",
  "inputs", "all texts of the line structures explored; words between "
  "separators are unknown",
  "The tests read some manifests of plain ASCII; values which hold other "
  "line boundaries of Unicode or are split within a letter do not occur.",
  ["javatools/manifest.py"],
  [("reading", "Manifest.parse, parse_file, parse_sections, "
    "ManifestSection.load in javatools/manifest.py"),
   ("writing", "Manifest.store, get_data, get_main_section, "
    "ManifestSection.store in javatools/manifest.py")],
  ["manifest, jarutil, jardiff, jarinfo"])

P("P33", "Manifests and archives created cover exactly the files given",
  "The manifest created for an archive or a directory has one section for "
  "each file in it, by its path within, except for those below META-INF at "
  "the top or matching a pattern to ignore, holding the digest of its whole "
  "content by each algorithm asked for, or else MD5 and SHA1; asked to be "
  "recursive it records the paths given, a file as itself. It is written "
  "to the file asked for, whose directories are created, or else to the "
  "standard output. The archive created holds a manifest, with the main class "
  "if given, followed by each file and directory given and all below them.",
  "inputs", "all trees and archives of the shapes explored, all contents, "
  "sizes and options",
  "The tests create the manifests of two archives with one set of options.",
  ["javatools/manifest.py", "javatools/jarutil.py", "javatools/dirutils.py"],
  [("manifests", "cli_create and main in javatools/manifest.py"),
   ("archives", "cli_create_jar, create_jar and main in "
    "javatools/jarutil.py")],
  ["manifest c, jarutil c"])

P("P34", "Signatures are made and accepted for the given key and content only",
  "A signature block is a detached signature of the data as it is, by the "
  "given key and digest, with its certificate and the additional ones "
  "embedded. It is accepted exactly if it is well-formed and valid for the "
  "content under the given certificate as the only trusted one, and reported "
  "as failing otherwise; the only failure waived is the purpose of the signing "
  "certificate itself, if it has no key usage or one which allows to sign. The "
  "kind of a key is that of RSA, DSA and EC as which it can be loaded, and "
  "without the cryptographic library each of these refuses to work.",
  "inputs", "all keys, certificates, data and answers of the library",
  "The tests sign and verify with a few certificates, none of which has a key "
  "usage for signing together with another purpose.",
  ["javatools/crypto.py"],
  [("signing", "create_signature_block, private_key_type in "
    "javatools/crypto.py"),
   ("verification", "verify_signature_block, "
    "ignore_missing_email_protection_eku_cb in javatools/crypto.py"),
   ("availability", "requires_crypto, crypto_enabled in "
    "javatools/crypto.py")],
  ["jarutil sign and verify"])

P("P42", "Reports of parts stay below the report directory, each in its place",
  "The report of a part of a comparison is written to the directory named by "
  "the part's entry within the directory of the report it belongs to, once for "
  "each format requested, under the report's name with the format's extension, "
  "directories being created as needed. Whatever the entry is called, no "
  "report is written outside of the report directory. Each report has links to "
  "the enclosing reports, in order and relative to its own directory. A format "
  "run by itself writes to the output given, or else to the file of the name "
  "given, or else to the standard output.",
  "inputs", "all entry names, report directories, formats and nestings of the "
  "shapes explored",
  "No test has an archive with hostile entry names, or follows the links.",
  ["javatools/report.py", "javatools/dirutils.py"],
  [("placement", "Reporter.subreporter, Reporter.run, ReportFormat.run in "
    "javatools/report.py"),
   ("links", "Reporter.get_relative_breadcrumbs in javatools/report.py")],
  ["report directories of jardiff and distdiff"])

P("P46", "APIs of archives and distributions follow from their classes",
  "An archive, packed or exploded, provides exactly what its classes provide "
  "publicly, and requires exactly what they require and none of them provides, "
  "be it privately. A distribution, packed or a directory, provides what its "
  "archives and classes provide, and requires what they require unless "
  "another of them provides it. Each symbol comes with the entries concerned, "
  "patterns remove what matches them for this query only, and what was "
  "extracted is removed when the distribution is closed, and nothing else is.",
  "inputs", "all assignments of symbols to the classes of the archives and "
  "distributions explored, all outcomes of matching, each order of queries",
  "The tests ask for the APIs of one archive and one directory without "
  "looking at the answers.",
  ["javatools/jarinfo.py", "javatools/distinfo.py", "javatools/ziputils.py"],
  [("archives", "JarInfo in javatools/jarinfo.py"),
   ("distributions", "DistInfo in javatools/distinfo.py")],
  ["jarinfo and distinfo"])

P("P47", "Listings of classes show the members and details asked for",
  "A listing of a class names exactly those members whose access is asked "
  "for, in the order of the class, with each detail asked for complete and "
  "under the label and member it belongs to, and no detail not asked for: "
  "signatures, code, handlers, lines, local variables, constants, "
  "annotations, marks and the header; several classes are listed one by one "
  "as given. As JSON it has the same members and "
  "details and is always made of what JSON can hold. If the APIs are asked "
  "for, each is listed once, without those to be ignored.",
  "inputs", "all accesses of the members, all contents of classes of the "
  "shapes explored, the options one by one and in pairs",
  "The tests run the command on one class without looking at what it prints.",
  ["javatools/classinfo.py"],
  [("listings", "cli_print_classinfo and main in javatools/classinfo.py"),
   ("JSON", "cli_simplify_classinfo, cli_json_class in "
    "javatools/classinfo.py")],
  ["classinfo, also with --json"])

P("P48", "Archives, distributions and manifests are listed as they are",
  "The counts and sizes shown of an archive, packed or exploded, are those of "
  "its files and directories, also if they are empty; the listing of its "
  "manifest shows each attribute in its section or says that there is none; "
  "its classes are each listed once with their entry. The APIs listed, also as "
  "JSON, are those provided or required by the archive or distribution, each "
  "once, without those to be ignored. A manifest query answers each key in "
  "turn with the value of that attribute of the main or the named section.",
  "inputs", "all sizes, attribute values, APIs and outcomes of matching of the "
  "archives explored",
  "The tests run the commands on one archive and one directory without "
  "looking at what they print.",
  ["javatools/jarinfo.py", "javatools/distinfo.py", "javatools/manifest.py",
   "javatools/ziputils.py"],
  [("archives", "main and JarInfo.get_manifest in javatools/jarinfo.py, "
    "zip_entry_rollup in javatools/ziputils.py"),
   ("distributions", "main in javatools/distinfo.py"),
   ("queries", "main and cli_query in javatools/manifest.py")],
  ["jarinfo, distinfo, manifest q"])

P("P21", "HTML reports are well-formed and show texts literally",
  "An HTML report is well-formed whatever the comparison found, and shows "
  "each name, type, signature, value, constant, annotation and instruction "
  "of both classes literally, those of the original first and in tables "
  "labelled for them. Members added or "
  "removed, sections of manifests and entries of archives and distributions "
  "are each named, and marked as changed, unchanged or ignored as they are. "
  "Changed classes and archives are linked to the reports of them, which link "
  "back, whatever the entries are called; style sheets and scripts are linked "
  "as given, or where they have been copied to.",
  "inputs", "all texts in classes of the shapes explored, all names of "
  "entries, each kind of part of archives and distributions",
  "The tests write no HTML report.",
  ["javatools/cheetah/__init__.py", "javatools/cheetah/report.tmpl",
   "javatools/cheetah/change_Change.tmpl", "javatools/report.py",
   "javatools/classdiff.py"],
  [("templates", "the templates in javatools/cheetah/*.tmpl"),
   ("escaping", "xml_entity_escape in javatools/cheetah/__init__.py"),
   ("documents", "CheetahReportFormat.run_impl in javatools/report.py"),
   ("links", "change_SquashedChange.tmpl and report.tmpl in "
    "javatools/cheetah, Reporter.subreporter in javatools/report.py")],
  ["jardiff, distdiff and classdiff with --report=html"])

P("P45", "Text and JSON results name what changed, with both values",
  "The result of comparing two classes tells each difference in name, version, "
  "platform, superclass, interfaces, flags, signature, annotations and, below "
  "the member they belong to, in those of its members and the limits of their "
  "code, with the readable values in the original and then the other class; "
  "members, sections and entries added, removed or changed are named and told "
  "apart. As JSON it holds these values, constants and instructions as old and "
  "new data of objects marked as changed, added or removed as they are, and is "
  "made of what JSON can represent.",
  "inputs", "all data of classes of the shapes explored, each kind of part of "
  "archives and distributions, all names of entries",
  "Tests of the comparing commands look at the exit status only, and the "
  "sample classes differ in few respects.",
  ["javatools/change.py", "javatools/classdiff.py", "javatools/jardiff.py",
   "javatools/distdiff.py", "javatools/manifest.py", "javatools/report.py"],
  [("descriptions", "GenericChange.check_impl and the get_description methods "
    "in javatools/classdiff.py, jardiff.py, distdiff.py and manifest.py"),
   ("data", "GenericChange.simplify and the fn_pretty methods"),
   ("JSON", "JSONChangeEncoder.default in javatools/report.py")],
  ["classdiff, jardiff, distdiff, also with --json"])

P("P08", "What the commands and functions open they close again",
  "Each file, archive, entry of an archive and temporary file or directory "
  "which a command or a function of the package opens or makes for itself is "
  "closed or removed again by the time it is done, also when it fails with an "
  "exception in between. What is opened for the caller is returned to be "
  "closed by it, and objects keeping something open close it in their close.",
  "faults", "all paths through each function, with an exception at any call "
  "following the opening",
  "Leaks do not change results; the tests fail no command after it opened "
  "something.",
  ["javatools/jarutil.py", "javatools/manifest.py", "javatools/jarinfo.py",
   "javatools/distinfo.py", "javatools/ziputils.py", "javatools/jardiff.py",
   "javatools/distdiff.py", "javatools/report.py"],
  [("commands", "cli in javatools/jarinfo.py and distinfo.py, cli_create in "
    "javatools/manifest.py"),
   ("signing", "verify and sign in javatools/jarutil.py"),
   ("owners", "JarInfo.close, DistInfo.close"),
   ("archives", "compare, open_zip, open_zip_entry in "
    "javatools/ziputils.py")],
  ["all commands, and the functions reading files and archives"])

P("P37", "Output and report options of the comparing commands take effect",
  "The comparing commands write their result once to the file named by the "
  "output option, replacing it, or else to standard output, as JSON with the "
  "indentation asked for exactly if asked to, and nothing if quiet. Each "
  "report format named, in any spelling, list or repetition, is written once "
  "for the whole and for each part into the report directory or below it, and "
  "parts ignored or unchanged are included exactly if shown on request or "
  "verbose. Options may stand anywhere; unknown ones and wrong numbers of "
  "inputs are refused before anything is compared or written; the default "
  "options for use without a command line do the same.",
  "inputs", "options of output, formats, directories and visibility in all "
  "three commands, alone, combined and in different places",
  "The tests only pass options along and look at the exit status; no report "
  "and no output file is looked at.",
  ["javatools/classdiff.py", "javatools/jardiff.py", "javatools/distdiff.py",
   "javatools/report.py"],
  [("options", "add_general_optgroup in javatools/classdiff.py, "
    "add_general_report_optgroup and add_json_report_optgroup in "
    "javatools/report.py"),
   ("commands", "main and the cli functions of the three modules"),
   ("defaults", "default_options in javatools/classdiff.py"),
   ("output", "quick_report in javatools/report.py")],
  ["classdiff, jardiff, distdiff"])
