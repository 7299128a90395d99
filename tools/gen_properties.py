#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run after editing)."""
import json, os
P = []
E = "edk2toollib/"
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": [E + f for f in files],
                    "state": state or [],
                    "mechanism": [{"name": n, "where": E + w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None}})

BP = "uefi/edk2/parsers/base_parser.py"
DSC = "uefi/edk2/parsers/dsc_parser.py"
FDF = "uefi/edk2/parsers/fdf_parser.py"
INF = "uefi/edk2/parsers/inf_parser.py"
DEC = "uefi/edk2/parsers/dec_parser.py"

prop("P01", "Conditional directives take effect on exactly the active lines",
 "For any well-nested arrangement of !if, !ifdef, !ifndef, !elseif, !else and !endif in a DSC or FDF file, exactly the lines of the first branch whose condition is true (and whose enclosing branches are all active) take effect, and of the else branch only if no earlier branch of that group was true. Lines, definitions and nested directives in every other branch have no effect at all, and after the file is parsed no conditional is left open. The same holds when a parser is driven directive by directive.",
 ["inputs", "programs"], "every nesting depth, branch count, truth assignment and placement of directives and content lines",
 "the tests exercise a handful of fixed if/else snippets; nesting x elseif x ifdef x truth assignment is a product space nobody samples",
 [BP, DSC, FDF], [("PushConditional/PopConditional/ProcessConditional/InActiveCode", BP), ("two-pass line loop", DSC), ("GetNextLine", FDF)],
 ["BaseParser.ProcessConditional / InActiveCode", "DscParser.ParseFile results", "FdfParser.ParseFile results"])
prop("P02", "Conditional expressions evaluate to their specified truth value",
 "Every well-formed conditional expression over integers, hex numbers, TRUE/FALSE, quoted strings and macros, with ==, !=, EQ, NE, <, >, <=, >=, AND/OR and their &&/|| spellings, NOT, IN and parentheses, evaluates to the value obtained by fully parenthesised evaluation of the same tree; alternative spellings and letter case of an operator and extra blanks never change the result. Malformed expressions and type-mismatched relational operands raise an error, they never silently yield a truth value.",
 ["inputs"], "every expression tree (operators, literals, nesting depth, spelling, spacing)",
 "tests check individual operator examples; equivalence over nested trees is unbounded",
 [BP], [("EvaluateConditional / _TokenizeConditional / _ConvertTokensToPostFix / _EvaluateTokens / ComputeResult / ConvertToInt", BP)],
 ["BaseParser.EvaluateConditional", "BaseParser.ComputeResult"])
prop("P03", "Macro references resolve to the value in force at the point of use",
 "A $(NAME) reference in DSC, FDF and INF text is replaced by the value NAME has there: caller supplied input variables win over definitions in the file and later definitions over earlier ones (a DSC is resolved with the final active definitions of the file, an FDF with those in force at the point of use, definitions inside an FDF section ending with it); references to undefined names are left untouched, text outside references is never altered, and replacement never depends on other names that merely share a prefix. Lines defined in inactive code do not define anything.",
 ["inputs", "programs"], "every set of definitions and references, including shared prefixes, redefinitions, repeated and adjacent references",
 "tests use one or two macros with unrelated names",
 [BP, DSC, FDF, INF], [("ReplaceVariables / SetInputVars / LocalVars", BP), ("__ParseDefineLine / __ProcessDefines", DSC)],
 ["BaseParser.ReplaceVariables", "DscParser.LocalVars and parsed paths", "FdfParser.Defines"])
prop("P04", "An included file behaves as if its lines were spliced in place",
 "Parsing a DSC or FDF file that uses !include (nested to any depth, inside or outside conditionals, in any section, with macros in the include path) yields the same result as parsing the single file in which every active include is replaced by the text of the file it names; included paths resolve relative to the including file, the workspace or the packages path. A missing include is an error and never silently skipped, and every file contributing to the result is reported by the parser that offers such a list.",
 ["inputs", "programs"], "every split of a file into a tree of include files over several directories",
 "tests include one or two hand written files",
 [BP, DSC, FDF], [("FindPath / PushTargetInfo / PopTargetInfo", BP), ("!include handling", DSC), ("!include handling", FDF)],
 ["DscParser.ParseFile results and GetSources-like include list", "FdfParser.ParseFile results"])
prop("P05", "Comments, blank lines, indentation and line endings never change a parse",
 "Adding or removing comments, blank lines, leading or trailing blanks, or switching between LF and CRLF line ends anywhere between or at the end of the lines of a DSC, FDF, INF or DEC file never changes what the parser reports. A comment marker inside a quoted string is part of the string, and removing a comment never removes anything before the marker.",
 ["inputs"], "every file and every placement of comments (any length of comment runs) and blanks",
 "tests contain fixed comments only; long comment blocks and quoted markers are not covered",
 [BP, DSC, FDF, INF, DEC], [("StripComment", BP), ("line normalisation of each parser", DSC)],
 ["results of ParseFile of each parser", "BaseParser.StripComment"])
prop("P06", "A parsed DSC reports every component, library and PCD that it lists",
 "After parsing, the modules, library modules, PCDs, definitions and per-component override maps of a DSC are exactly the ones listed in its active sections, each attributed to every architecture its section header names ('common' meaning all supported ones), in file order and without entries that were not written. The result does not depend on how the same lines are distributed over repeated sections.",
 ["inputs", "programs"], "every DSC built from components, overrides, library classes, PCD sections and architectures",
 "tests parse a few platform files",
 [DSC, BP], [("__ParseLine / _parse_* section handlers", DSC)],
 ["DscParser.Modules, Libs, ThreeMods, SixMods, OtherMods, Components, Pcds, LocalVars"])
prop("P07", "Library class mappings are recorded under exactly the scopes of their section",
 "Every library class mapping of a DSC [LibraryClasses] section is recorded under exactly the architecture and module-type scopes named by the section header, the most recently listed instance of a class in a scope comes first, every earlier different instance is kept after it, and NULL libraries accumulate without loss. Nothing leaks into scopes the header does not name.",
 ["inputs", "histories"], "every sequence of sections and mappings, with repeated classes, repeated instances and repeated scopes",
 "tests list each class once or twice",
 [DSC], [("_parse_library_classes / ScopedLibraryDict", DSC)], ["DscParser.ScopedLibraryDict"])
prop("P08", "A parsed INF reports exactly what its sections list",
 "After parsing an INF, its defines, library classes, sources, packages, protocols, PPIs, GUIDs, PCDs and binaries are exactly the entries of the corresponding sections, per architecture where the section header names architectures, in file order, with flags, expressions and family qualifiers removed from names. A query for an architecture returns the common entries and that architecture's entries and no other architecture's.",
 ["inputs"], "every INF built from these sections, headers with several architectures, repeated sections and qualifiers",
 "tests cover a few fixed INF texts", [INF, BP], [("ParseStream / get_libraries / get_sources", INF)],
 ["InfParser attributes", "InfParser.get_libraries / get_sources"])
prop("P09", "A parsed DEC reports exactly what its sections declare",
 "After parsing a DEC, the package name, include paths, library classes, protocols, PPIs, GUIDs and PCDs are exactly the declared ones with their exact name, GUID value, token space, default value, type and token, whatever the order, repetition or architecture list of sections. A malformed declaration raises an error and is never silently mis-attributed.",
 ["inputs"], "every DEC built from these sections, defaults containing separators inside quotes included",
 "tests cover a few fixed DEC texts", [DEC, BP], [("ParseStream, *Declarationentry classes", DEC)],
 ["DecParser attributes"])
prop("P10", "A parsed FDF reports every FV, FD and the INFs and files inside them",
 "After parsing, the defines, FDs and FVs of an FDF are exactly those written in active code, and each FV lists exactly the INF statements (text after the keyword, macros expanded) and the FILE entries with their sections, in file order, independent of the number of lines, comments or inactive lines between them.",
 ["inputs"], "every FDF built from these sections and any number of lines", "tests parse one or two small files",
 [FDF, BP], [("ParseFile / GetNextLine / InsertLinesFromFile", FDF)], ["FdfParser.FVs, FDs, Dict, CAPSULEs, FMPs"])
prop("P11", "GUID texts, C initialisers, registry forms and bytes all denote one value",
 "Every conversion between a GUID's C initialiser form, registry form, UUID object and little endian bytes is exact for every 128-bit value, any letter case, any amount of leading zeros or blanks in the C form, and round trips. A text that is not a GUID is reported as such and never converted to some value.",
 ["inputs"], "all 128-bit values, textual variants and near-miss texts", "tests convert a few GUIDs with full-width fields",
 [BP, "uefi/edk2/parsers/guid_parser.py"], [("ParseGuid / IsGuidString", BP), ("GuidParser", "uefi/edk2/parsers/guid_parser.py")],
 ["GuidParser.*", "BaseParser.ParseGuid / IsGuidString"])
prop("P12", "Target.txt, build reports and override records parse to what they record",
 "Settings of a Target.txt, the modules of a build report with their firmware volume, libraries and PCD data, and #OVERRIDE records of an INF are reported exactly as recorded, for any number and order of records. A malformed or incomplete override record is rejected with an error and never reported as a record.",
 ["inputs"], "every generated file with any number and order of records", "tests parse single samples",
 ["uefi/edk2/parsers/targettxt_parser.py", "uefi/edk2/parsers/buildreport_parser.py", "uefi/edk2/parsers/override_parser.py"],
 [("ParseFile", "uefi/edk2/parsers/targettxt_parser.py"), ("BuildReport.LoadReport", "uefi/edk2/parsers/buildreport_parser.py"), ("OverrideParser.parse_override_lines", "uefi/edk2/parsers/override_parser.py")],
 ["TargetTxtParser.Dict", "BuildReport.Modules / Regions", "OverrideParser.override_lines"])
PU = "uefi/edk2/path_utilities.py"
prop("P13", "EDK2-relative and absolute paths convert consistently",
 "For every file below the workspace or a packages path, converting its absolute path to an EDK2 relative path and back yields the same file whenever no earlier root shadows it; the relative path is relative to the innermost packages path containing the file, or else to the workspace, is in posix form, and for a normalised path has no '..'. An EDK2 relative path resolves to the workspace first and then to packages paths in the given order, and a path below no root or naming no existing file yields None or the documented error instead of a wrong path.",
 ["inputs", "configurations"], "every directory tree, root nesting and order, relative or absolute roots, and path spelling",
 "tests build a few trees with one nesting pattern", [PU],
 [("__init__ / GetEdk2RelativePathFromAbsolutePath / GetAbsolutePathOnThisSystemFromEdk2RelativePath", PU)],
 ["Edk2Path public methods"])
prop("P14", "The package and modules containing a path are found, and the search ends",
 "For every path in a workspace the containing package is the name of the nearest directory, walking up from the path to its root, that holds a DEC file (its root being the workspace if that contains the path, else the first packages path that does), and the containing modules are the INF files of the nearest ancestor directory that holds any, or nothing when no ancestor up to the root has one. The search always terminates, whatever the path, including roots themselves, files directly in a root, non-existing paths and paths outside every root.",
 ["inputs", "configurations"], "every directory tree with DEC and INF files placed anywhere and every queried path",
 "tests query a few well-placed paths", [PU], [("GetContainingPackage / GetContainingModules", PU)],
 ["Edk2Path.GetContainingPackage / GetContainingModules"])
prop("P15", "Ignore rules decide like git does",
 "For every ignore file, the rule engine, asked from the top directory downwards, says a path is ignored exactly when git's own rules for that file say so (a path without trailing slash may be a directory), considering comments, escapes, trailing blanks, anchoring, directory-only rules, single and double asterisks, sets and ranges of characters and negation with the last matching rule winning.",
 ["inputs"], "every list of patterns and every path", "tests have a few patterns; git's semantics is a product of pattern shape and path shape",
 ["gitignore_parser.py"], [("parse_gitignore_file/lines, rule_from_pattern, fnmatch_pathname_to_regex", "gitignore_parser.py")],
 ["gitignore_parser.parse_gitignore_file / parse_gitignore_lines"])
GL = "uefi/edk2/guid_list.py"
prop("P16", "The workspace GUID index lists every GUID of every non-ignored file once",
 "Scanning a directory tree yields exactly one entry per GUID declared in each DEC file and per INF file with a GUID that is not ignored, carrying the right name, value (spelled the same way wherever it comes from, so that equal GUIDs compare equal) and file, whatever the nesting; files matched by the ignore rules contribute nothing, and files that lack a name or GUID do not hide those of other files.",
 ["inputs", "configurations"], "every tree of DEC/INF files and ignore rules", "tests use a flat sample",
 [GL, "gitignore_parser.py"], [("guidlist_from_filesystem / parse_guids_from_*", GL)], ["GuidList.guidlist_from_filesystem"])
UF = "utility_functions.py"
prop("P17", "RunCmd delivers all output in order, the true exit code, and never hangs",
 "Running a command returns its exit code (or raises if asked to), and every byte that the command prints reaches every requested sink (log, stream, file) completely, in order and exactly once, before the call returns, for any volume, burst pattern, missing final newline or non-ASCII content, also with several commands running at the same time. The call always returns once the command has ended, whatever the capture, encoding and error-handling options, and exceptions raised while consuming the output reach the caller.",
 ["inputs", "schedules", "fault_sequences"], "all output volumes, timings, encodings, options, exit codes, interleavings of concurrent commands and sink failures",
 "tests echo one line", [UF], [("RunCmd / reader / PropagatingThread", UF)],
 ["return value, outfile, outstream and log records of RunCmd", "RunPythonScript"],
 )
prop("P18", "Removing a tree removes exactly that tree",
 "Removing a directory tree removes everything below it, including read-only files and directories, leaves everything else untouched (in particular the targets of symbolic links inside it), and either succeeds or raises; a failing removal is retried a bounded number of times and then reported.",
 ["inputs", "fault_sequences"], "every tree shape with read-only entries, links and injected transient or permanent failures",
 "tests remove plain trees", [UF], [("RemoveTree", UF)], ["file system state before and after RemoveTree"])
prop("P19", "Dumps and C-array exports are lossless",
 "Reading back the printed hex dump or the exported C array of any byte sequence gives exactly those bytes with correct offsets and lengths, for every size and every formatting option, and every dump line has the same column layout.",
 ["inputs"], "all byte strings and option combinations", "tests check one or two lengths",
 [UF], [("hexdump / export_c_type_array", UF)], ["text written by hexdump and export_c_type_array"])
prop("P20", "Version comparison is a consistent order and class lookup is exact",
 "Comparing dotted versions is a total preorder (antisymmetric, transitive, reflexive) that agrees with comparing the numeric fields, treating missing trailing fields as zero. Looking up a class in a module returns the most derived of the subclasses found there, whatever their names, never the base class itself or an unrelated class, nothing if there is none, and refuses to choose between unrelated ones, and importing a module by file name never disturbs already imported modules.",
 ["inputs"], "all version pairs and triples; all modules with several classes", "tests check a few pairs",
 [UF], [("version_compare / locate_class_in_module / import_module_by_file_name", UF)], ["return values"])
FC = "uefi/fmp_capsule_header.py"; UC = "uefi/uefi_capsule_header.py"; FA = "uefi/fmp_auth_header.py"; FP = "uefi/edk2/fmp_payload_header.py"
prop("P21", "Capsules encode and decode without loss and with consistent sizes",
 "Any UEFI capsule, FMP capsule (with any number of embedded drivers and payload items), FMP authentication header and payload header built from field values encodes to bytes that follow the UEFI layout, whose size and offset fields equal the real sizes and offsets, and decodes again to equal field values and the same bytes.",
 ["inputs"], "all field values, payload sizes and nesting of the four layers", "tests build single instances",
 [UC, FC, FA, FP], [("Encode/Decode", UC), ("Encode/Decode", FC), ("Encode/Decode", FA), ("Encode/Decode", FP)], ["Encode/Decode of each class"])
prop("P22", "Damaged capsules are rejected, never misread",
 "Decoding a truncated, mis-sized or corrupted capsule, FMP capsule, authentication header or payload header either raises ValueError or yields an object consistent with the bytes that were given: it never returns data lying outside the buffer, never loses payload silently and never fails with an unrelated error.",
 ["inputs", "fault_sequences"], "every truncation point and every corruption of size, offset, count, version and signature fields",
 "tests try a few corrupt headers", [UC, FC, FA, FP], [("bounds checks in Decode", FC)], ["Decode of each class"])
WC = "uefi/wincert.py"; AV = "uefi/authenticated_variables_structure_support.py"
prop("P23", "Certificate wrappers and authentication descriptors round trip exactly",
 "WIN_CERTIFICATE wrappers of every kind, EFI_TIME values and variable authentication descriptors decode from their encoded bytes or stream to equal objects, consume exactly their own bytes of a stream, and carry length, revision, type and GUID fields that match their content. Decoding from a stream and from bytes agree, and truncated input is rejected.",
 ["inputs"], "all certificate data, sizes, times, stream offsets and truncations", "tests use fixed certificate blobs",
 [WC, AV], [("WinCertPkcs1 / WinCertUefiGuid / WinCert.factory", WC), ("EfiTime / EfiVariableAuthentication2", AV)], ["encode/decode/populate/write of each class"])
prop("P24", "Signature lists and databases round trip and keep every signature",
 "A signature list or database of X.509 and SHA-256 signatures built or decoded in any order encodes to bytes following the UEFI layout with matching list, header and signature sizes, and decodes to the same signatures in the same order; adding, merging and sorting keeps every signature exactly once. Illegal operations (mixing types or sizes, headers of non-zero size) are refused and leave the list unchanged.",
 ["inputs", "histories"], "all databases and all sequences of add/merge/sort operations", "tests use a few fixed databases",
 [AV], [("EfiSignatureList / EfiSignatureDatabase / EfiSignatureData*", AV)], ["Encode, write, decode, AddSignatureData, MergeSignatureList, Sort"])
prop("P25", "Canonicalising a signature database keeps each distinct signature exactly once",
 "Splitting a database into canonical part and duplicates keeps every distinct signature exactly once in the canonical part and puts every further occurrence in the duplicates, so together they hold exactly the original multiset; hashes come first, merged into one sorted list, certificates after, sorted. The result does not depend on the original order or grouping, is its own canonical form, and neither input nor result changes when the other is used.",
 ["inputs"], "all databases with any duplication pattern", "tests use three fixed databases",
 [AV], [("EfiSignatureDatabase.get_canonical_and_dupes", AV)], ["EfiSignatureDatabase.get_canonical_and_dupes and related"])
prop("P26", "A signed authenticated variable carries a signature that verifies",
 "For any variable name, GUID, attributes, time and payload, building and signing an authenticated variable produces a descriptor whose PKCS#7 signature verifies with the signer's public key over exactly name (UTF-16, no terminator), GUID, attributes, time and payload, and whose encoded form decodes to the same time, payload and signature; changing any covered field makes verification fail. A variable made without a time carries the time of its making. The certificate data identifies each signer and additional certificate.",
 ["inputs"], "all names, payload sizes, attribute sets, times and one to several signers", "tests sign fixed inputs and check structure sizes",
 [AV], [("EfiVariableAuthentication2Builder", AV)], ["Builder.get_digest / sign / finalize, encoded descriptor"])
MP = "uefi/uefi_multi_phase.py"
prop("P27", "Variable attributes mean the same as number, text and bytes",
 "An attribute set given as integer, as full or short attribute names in any order, case or spacing, or as bytes, converts to the same integer, name list and bytes in every direction, and any unknown name or unrepresentable value is refused.",
 ["inputs"], "all subsets of attributes and spellings, all 32-bit values", "tests convert a few",
 [MP], [("EfiVariableAttributes", MP)], ["EfiVariableAttributes.encode/decode/get_*/__str__"])
VF = "uefi/edk2/variable_format.py"; VS = "uefi/edk2/variablestore_manulipations.py"
prop("P28", "A variable store file round trips and keeps every variable",
 "Loading a variable store (plain or authenticated headers) and writing it back reproduces the file; after any sequence of added variables and changed data, reloading yields exactly the old and new variables with name, GUID, attributes, state and data intact, 4-byte aligned, inside the store and followed only by erased bytes. A store that would overflow is refused without damaging the file.",
 ["inputs", "histories"], "all stores, variable sizes, counts and edit sequences", "tests cover header packing only",
 [VF, VS], [("VariableHeader/AuthenticatedVariableHeader/VariableStoreHeader", VF), ("VariableStore", VS)], ["VariableStore load, append, flush_to_file; header pack/load"])
FV = "uefi/pi_firmware_volume.py"; FF = "uefi/pi_firmware_file.py"; FT = "uefi/edk2/ftw_working_block_format.py"
prop("P29", "Firmware volume, file and working-block headers load and serialise exactly",
 "Loading a firmware volume header (with any block map), extended header, firmware file header, or fault-tolerant-write working block and queue serialises back to the same bytes, reports each field, size and GUID as encoded, and rejects a block whose signature or minimum size is wrong.",
 ["inputs"], "all field values, block map lengths, queue lengths and truncations", "these modules have no unit tests at all",
 [FV, FF, FT], [("load_from_file/serialize", FV), ("load/serialize", FF), ("load/serialize", FT)], ["serialize() against loaded bytes"])
VP = "uefi/edk2/variable_policy.py"
prop("P30", "Variable policy entries decode to what was encoded",
 "Every variable policy entry (any namespace, name, sizes, attributes and lock type, with or without lock-on-variable-state data) decodes to exactly those values and reports them in its text and CSV rows; entries whose sizes, versions or offsets are inconsistent are rejected with ValueError.",
 ["inputs", "fault_sequences"], "all entries, truncations and corruptions", "tests decode fixed buffers",
 [VP], [("VariablePolicyEntry.decode / VariableLockOnVarStatePolicy.decode / csv_row", VP)], ["decode, __str__, csv_row"])
prop("P31", "Bitmaps round trip and inconsistent bitmaps are rejected",
 "Loading a BMP and writing it again reproduces the file bytes, including colour maps and padding, and the reported dimensions, depth and offsets are the encoded ones; a file that is too short or whose sizes are inconsistent raises an error.",
 ["inputs"], "all sizes, depths, colour maps, paddings and truncations", "tests use one image",
 ["uefi/bmp_object.py"], [("BmpObject.PopulateFromFileStream / Write", "uefi/bmp_object.py")], ["BmpObject fields and Write output"])
DM = "acpi/dmar_parser.py"; IV = "acpi/ivrs_parser.py"
prop("P32", "Any DMAR table is decoded completely or rejected",
 "Decoding a well-formed DMAR table reports every remapping structure and device scope with its exact fields, paths, counts and flags in table order, in its text, XML and accessor forms, and the RMRR check accepts exactly the tables whose RMRR paths are all listed. Decoding a corrupted table always terminates, with an error unless the structures tile the table exactly.",
 ["inputs", "fault_sequences"], "all structure sequences, scope lists and corruptions of length and type fields", "unit tests decode one or two recorded tables",
 [DM], [("DMARTable", DM)], ["DMARTable attributes, str(), toXml, CheckRMRRCount, DMARBitEnabled, ANDDCount"])
prop("P33", "Any IVRS table round trips or is rejected",
 "Decoding a well-formed IVRS table and encoding it reproduces its bytes and reports every block, device entry and flag exactly in its accessors, XML and printed forms; after adding blocks the length and checksum fields are again correct. Corrupted tables (checksum, length, type) are rejected and decoding always terminates.",
 ["inputs", "histories", "fault_sequences"], "all sequences of IVHD/IVMD blocks and device entries; all additions; corruptions", "unit tests decode one or two recorded tables",
 [IV], [("IVRS_TABLE", IV)], ["IVRS_TABLE.Decode/Encode/addIVHDEntry/addIVMDEntry/ToXmlElementTree/DumpInfo"])
prop("P34", "Device paths are decoded node by node without loss",
 "Decoding a device path yields one node per encoded node in order, of the class for its type, with every field equal to the encoded one, and each node's text form is JSON that states those values; node types that are unknown or not implemented keep their raw data. Truncated or zero-length nodes are rejected, and decoding always terminates.",
 ["inputs", "fault_sequences"], "all node sequences, field values, unknown types, truncations", "tests decode a few recorded paths",
 ["uefi/device_path.py"], [("DevicePathFactory.from_binary and node classes", "uefi/device_path.py")], ["DevicePathFactory.from_binary"])
TS = "tpm/tpm2_stream.py"; TP = "tpm/tpm2_policy_calc.py"; TD = "tpm/tpm2_defs.py"; TM = "tpm/tpm2_simulator.py"
prop("P35", "TPM command streams and policy digests follow the TPM 2.0 marshalling rules",
 "A command stream is the big-endian header followed by its elements in order, its size field always equal to the number of bytes produced after any sequence of additions and updates; policy digests of any tree of or/and/solo nodes over locality and command-code assertions equal the digest computed by the TPM 2.0 policy rules, for both hash algorithms. Invalid localities, sizes, hash names, branch counts and non-primitive operands are refused.",
 ["inputs", "histories"], "all element sequences and policy trees", "tests compute a few digests", [TS, TP],
 [("Tpm2CommandStream/TPM2B/Tpm2StreamPrimitive", TS), ("PolicyTree*/PolicyLocality/PolicyCommandCode/PolicyHasher", TP)], ["marshal, get_stream, get_size, get_policy"])
prop("P36", "Status and response codes decode by the specification's bit layout",
 "Every EFI status code maps to the same name from its 32-bit and 64-bit form, as number or text, and unknown codes are reported as unknown; every TPM command code maps to its name and back, and every TPM response code decodes to the class, kind, number and name its bits prescribe; the named TPM algorithms, structure tags and permanent handles have the values of the specification.",
 ["inputs"], "all codes in both widths, all 12-bit response codes", "tests check some codes",
 ["uefi/status_codes.py", TD], [("UefiStatusCode", "uefi/status_codes.py"), ("CommandCode/ResponseCode", TD)], ["UefiStatusCode methods", "CommandCode, ResponseCode"])
prop("P37", "The TPM simulator transport frames commands and returns whole responses",
 "Each command sent through the simulator transport reaches the simulator as the power-up sequence and then send-command code, locality, size and exactly the command bytes, and the call returns exactly the response bytes however the network splits, delays or coalesces them. A closed connection is reported instead of returning partial data or waiting forever.",
 ["inputs", "schedules", "fault_sequences"], "all commands, response sizes, TCP segmentations and connection losses", "this module has no tests",
 [TM], [("TpmSimulator.send_data/read_raw_data", TM)], ["bytes seen by a fake simulator; return values"])
FW = "windows/policy/firmware_policy.py"
prop("P38", "Firmware policy blobs round trip and keep every rule once",
 "A firmware policy built from any rules (strings, 32 and 64-bit values) serialises to the documented layout with correct counts and value-table offsets and reads back, by bytes or by stream offset, to equal rules in the same order; adding a rule equal to an existing one is refused and changes nothing. A blob that is too small, of a newer format, or whose tables exceed the buffer is rejected.",
 ["inputs", "histories"], "all rule lists, strings, values, shared offsets, stream positions and corruptions", "tests use fixed blobs",
 [FW], [("FirmwarePolicy.Serialize/FromFileStream/AddRule", FW)], ["Serialize, FromFileStream, Rules, AddRule"])
IG = "windows/capsule/inf_generator.py"; IG2 = "windows/capsule/inf_generator2.py"; CG = "windows/capsule/cat_generator.py"
prop("P39", "Generated INF and CAT inputs state exactly what the caller gave",
 "A generated driver INF is a well-formed INF in which every section, string and file that is referenced is defined exactly once, and name, version, date, architecture, GUID, firmware version, file names, rollback and integrity settings equal the caller's for any number of firmware entries; values that would break the file (illegal names, versions, architectures, out-of-range numbers) are refused. Catalog generation runs the tool with exactly the mapped OS and architecture and fails if the tool fails or produces no file.",
 ["inputs", "fault_sequences"], "all field values, entry counts, option combinations, and tool outcomes", "tests compare a few golden files",
 [IG, IG2, CG], [("InfGenerator.MakeInf", IG), ("InfFile and sections", IG2), ("CatGenerator.MakeCat", CG)], ["generated text", "command run by MakeCat"])
LT = "windows/locate_tools.py"
prop("P40", "Tool discovery never returns an unverified download and picks the best match",
 "Whatever happens during the download of vswhere (errors at any point, truncated or altered content), no file other than one with the pinned hash is left in place or reported as found. Searching the SDK returns the tool matching the host architecture with the SDK's own version if present and otherwise the highest version, independent of directory order, and visual studio queries return every line the locator printed and reject unsupported versions.",
 ["fault_sequences", "inputs", "configurations"], "all fault points of the download, SDK trees and directory orders", "tests need Windows and are skipped here",
 [LT], [("_DownloadVsWhere/GetVsWherePath/FindAllWithVsWhere/FindToolInWinSdk", LT)], ["file system and return values with a stubbed host"])
prop("P41", "JUnit reports are well-formed XML that states every result",
 "A written report is always a well-formed XML document whose suites, test cases, counts, messages and captured output equal what was recorded, for any text including markup, quotes, control characters and non-ASCII, and any number of suites and cases. A test case gets exactly one verdict: a second verdict or reporting without one is refused.",
 ["inputs", "histories"], "all texts and sequences of verdict calls", "tests use plain words", ["log/junit_report_format.py"],
 [("JunitTestReport.Output and escaping", "log/junit_report_format.py")], ["XML file parsed back"])
prop("P42", "Log handlers write each accepted record once, intact, leaving it unchanged",
 "Every record that passes a handler's level and filters is written exactly once, uninterrupted by other threads and in each thread's order, to the string, file and coloured handlers; other records are not written. Control sequences are removed exactly when stripping is on, turned into the matching console calls when conversion is on, and nothing else is removed. The coloured formatter colours the level name below a warning and the whole message from a warning on, and leaves the record unchanged for other handlers even when formatting fails.",
 ["schedules", "inputs"], "all records, levels, filters, colours, threads and interleavings", "tests log a few records from one thread",
 ["log/ansi_handler.py", "log/file_handler.py", "log/string_handler.py"], [("ColoredFormatter/ColoredStreamHandler", "log/ansi_handler.py"), ("FileHandler", "log/file_handler.py"), ("StringStreamHandler", "log/string_handler.py")], ["handler output, record fields"])
DB = "database/edk2_db.py"
prop("P43", "Database parsing is all-or-nothing per table and tagged by one run id",
 "Each parse run with the environment table creates one new environment record, every row of an instance, value or volume written in that run refers to it, and a table whose parsing fails leaves no partial rows behind, no matter where the failure happens, while rows of tables already committed and of earlier runs stay. Parsing again never duplicates or removes rows of earlier runs and the database file stays readable.",
 ["histories", "fault_sequences", "crash_points"], "all sequences of parse runs, table sets and failure points", "tests parse once without failures",
 [DB, "database/tables/environment_table.py", "database/__init__.py"], [("Edk2DB.parse/session", DB)], ["rows of the SQLite file after each run"])
prop("P44", "INF, source and environment tables mirror the workspace",
 "After a parse the INF and source tables contain exactly one row for every INF and source file of the workspace outside its Build folder, with path, GUID, library class, type, libraries, sources, line counts and licence as in the files, and the environment values and versions of the run; re-parsing after edits updates the rows to the new content without duplicates.",
 ["inputs", "histories"], "all workspaces and edits between runs", "tests parse one generated workspace",
 ["database/tables/inf_table.py", "database/tables/source_table.py", "database/tables/environment_table.py", "database/__init__.py"],
 [("InfTable.parse", "database/tables/inf_table.py"), ("SourceTable.parse", "database/tables/source_table.py")], ["rows of the tables"])
II = "database/tables/instanced_inf_table.py"
prop("P45", "Library instances are resolved in the order the DSC specification gives",
 "For every component built by a platform description and architecture, the recorded library instances are exactly the transitive closure of its library classes, each resolved by the first of: the component's override, the scope of architecture and module type, the common scope for that module type, the architecture, the common scope; NULL libraries are included. Every recorded instance names an INF of the workspace, and firmware-volume rows list exactly the INFs of each volume.",
 ["inputs", "programs"], "all platforms with any mix of scopes, overrides and library dependency graphs, cycles included", "tests check a few resolutions",
 [II, "database/tables/instanced_fv_table.py", DSC], [("InstancedInfTable.parse and library resolution", II), ("InstancedFvTable.parse", "database/tables/instanced_fv_table.py")], ["instanced_inf, instanced_fv and junction rows"])
BO = "uefi/edk2/build_objects/dsc.py"
prop("P46", "DSC build objects behave as sets and maps and write back to an equal DSC",
 "Build-description objects that compare equal have equal hashes, sections accept only entries of their kind and never hold two entries for the same key, and writing an object as DSC text and reading it yields the same components, libraries, PCDs, defines and SKUs.",
 ["inputs", "histories"], "all objects and sequences of add/remove operations", "tests add a few objects",
 [BO, "uefi/edk2/build_objects/dsc_translator.py"], [("dsc, dsc_set, dsc_dict, entry classes", BO), ("DscTranslator", "uefi/edk2/build_objects/dsc_translator.py")], ["object equality/hash, section content, translated text"])
UV = "os/uefivariablesupport.py"
prop("P47", "UEFI variables are read, listed, written and deleted exactly",
 "On Linux, setting a variable stores exactly the attributes and data under its name and GUID, reading returns exactly the stored data or the not-found code, listing returns one well-formed entry per stored variable with its name and GUID for any legal name, and deleting removes only that variable. No variable name can make the library touch files elsewhere or run other commands. On Windows the same holds through the firmware functions of the system, and a refusal is reported.",
 ["inputs", "histories"], "all sequences of operations over any names, GUIDs, data and attributes", "the module cannot be tested without firmware and has no tests",
 [UV], [("GetUefiVar/GetUefiAllVarNames/SetUefiVar", UV)], ["file system operations redirected to a scratch directory"])

prop("P48", "Signing runs exactly the given tool on the given files",
 "DetachedSignWithSignTool and CatalogSignWithSignTool run the given tool, once, and nothing else. The file, the certificate, the password and the options each reach it as one argument that means what the caller's value means, for paths and passwords with spaces or punctuation and for relative paths. The detached signature ends up at the requested output file; a failing tool's code is returned and a tool that produces nothing is reported, and in both cases an earlier output file is kept. A missing tool is reported without running anything.",
 ["inputs", "fault_sequences", "histories"], "all file, folder, tool and certificate names without quotes and shell variables, absolute or relative; all tool outcomes", "there are no tests (they would need signtool)",
 [UF], [("DetachedSignWithSignTool / CatalogSignWithSignTool", UF)], ["recording stub for the signing tool"])

prop("P49", "Printing an object never fails, shows its values and changes nothing",
 "Printing or converting to text a signature list, signature database, certificate wrapper, EFI time, authenticated variable, bitmap, firmware policy, capsule or one of the headers inside a capsule, built or decoded, in the long and in the compact form, does not fail, goes to the given stream only, shows every field under its own label, every signature and all data in order, and leaves the object and its encoding as they were. Printing again, or by the deprecated name, gives the same text.",
 ["inputs"], "all such objects with printable strings", "tests print a few objects and look at nothing",
 ["uefi/wincert.py", "uefi/authenticated_variables_structure_support.py", "uefi/bmp_object.py", "windows/policy/firmware_policy.py", "uefi/uefi_capsule_header.py", "uefi/fmp_capsule_header.py", "uefi/fmp_auth_header.py", "uefi/edk2/fmp_payload_header.py"],
 [("WinCertUefiGuid.dump_info / WinCertPkcs1.print", "uefi/wincert.py"), ("print methods", "uefi/authenticated_variables_structure_support.py"), ("BmpObject.Print", "uefi/bmp_object.py"), ("FirmwarePolicy.Print", "windows/policy/firmware_policy.py"), ("UefiCapsuleHeaderClass.DumpInfo", "uefi/uefi_capsule_header.py"), ("FmpCapsuleHeaderClass.DumpInfo", "uefi/fmp_capsule_header.py")], [])

prop("P50", "Deprecated names behave exactly like their replacements",
 "Every deprecated method, property, factory and class of the certificate, signature list, EFI time and authenticated variable modules, and the deprecated way of configuring a parser's paths, has the same result, the same effect on the object and on streams, and the same refusals as its replacement, for any object, argument and history of calls.",
 ["inputs", "histories"], "all objects, arguments (also damaged data, failing streams and None) and histories", "tests call most old names never",
 ["uefi/wincert.py", "uefi/authenticated_variables_structure_support.py", "uefi/edk2/parsers/base_parser.py"],
 [("deprecated members", "uefi/wincert.py"), ("deprecated members", "uefi/authenticated_variables_structure_support.py"), ("SetBaseAbsPath / SetPackagePaths", "uefi/edk2/parsers/base_parser.py")], [])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
