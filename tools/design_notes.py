NOTES = {
"P01": dict(how="A reference interpreter of conditional directives (stack of groups: taken, else seen, enclosing active) runs next to the parser, line by line (`driven`: the active state after every line), and on whole FDF files (content read through active lines).", out="unterminated groups; `!elseif` after `!else`."),
"P02": dict(how="Random expression trees are rendered to text with random spacing, parentheses and operator spellings and evaluated by a separate evaluator; malformed token lists must raise.", out="AND/OR have equal precedence and associate left, comparison is tighter, relational tighter than equality, NOT highest; `a NOT OR b` negates the connective; IN is substring; an undefined macro is 0 only on `!if` lines (all pinned by tests)."),
"P03": dict(how="Definitions with unique values; every reference is resolved by a model (DSC: final definition, input variables win; FDF: value at the point of use, local definitions end with their section; INF: order of definition).", out="values that contain `$(`; `!ifndef X / DEFINE X` in a DSC (two-pass reading); FDF dictionary lines with more than one `=`."),
"P04": dict(how="A flat file is cut into a tree of includes over directories (relative to root, to the including file, to a packages path) and both parses are compared; missing includes must raise exactly when active.", out="self-inclusion; include spans that cut a conditional in two."),
"P05": dict(how="Metamorphic: the same file with comments, blank lines, indentation, CR LF endings; snapshots of all parse results are compared; StripComment against a character automaton; long runs of skipped lines."),
"P06": dict(how="Generator with model: DSC text with components, overrides, libraries, PCDs; all reported lists are compared with the model; distribution over repeated sections; PCD conditionals."),
"P07": dict(how="Model of scope histories: a mapping (class, scope) to the instances in order with the rule for repeated entries; absolute instance paths must be recorded relative."),
"P08": dict(how="Generator with model for every INF section, scoped lists and DEFINEs."),
"P09": dict(how="Generator with model for DEC sections; one malformed declaration among good ones must raise."),
"P10": dict(how="Generator with model for FVs, FDs, FILE statements, rules and capsules; long volumes with runs of comments; nested conditionals.", out="headers naming several volumes; duplicate FILE GUIDs; `[fmpPayload.` sections."),
"P11": dict(how="128-bit values are written in every spelling (registry, C initialiser with missing zeros and blanks, bytes) and must be read as the same value by every reader; near misses must be refused."),
"P12": dict(how="Generated Target.txt, build reports (regions, wrapped lines, absolute and relative paths, paths that are tails of others) and override records with a model.", out="report paths with spaces, unbalanced braces in quoted values, non-unique GUIDs."),
"P13": dict(how="Random trees with nested roots; both directions are compared with a model and with each other (round trip names the same file).", out="for paths that are not normalised only the identity of the file is decided."),
"P14": dict(how="Every path of a generated tree is asked for; the model searches nearest DEC / INF directories; non-termination is decided by CPU budget.", out="see P13; links."),
"P15": dict(how="Differential against `git check-ignore` on real trees, with re-included directories, paths with detours and relative base folders.", out="patterns with `x**` and a slash, POSIX classes, tabs, newlines, wildcards on non-ASCII names; a path without trailing slash may be a directory."),
"P16": dict(how="Generated trees of DEC, INF and other files with ignore lines; the index is compared as a multiset with a model whose ignore decisions come from git.", out="rules `x/` on names with a dot."),
"P17": dict(how="Commands print planned output in planned segments on both streams, with delays, signals, large amounts; the sinks (log, stream, file) are compared with the plan; failing sinks and undecodable bytes must reach the caller without blocking (60 s watchdog); concurrent commands must not mix.", out="log lines are compared without trailing blanks; a signal may be reported as -n or 128+n."),
"P18": dict(how="Trees with modes, links, locked directories; run as user nobody in a forked child, with transient failures injected into unlink/rmdir; afterwards a snapshot of everything outside the tree must be unchanged and the tree gone (or an exception raised).", out="more than one unreadable directory per tree."),
"P19": dict(how="Dumps and exports are read back by an independent parser, and the C arrays by gcc.", out="the offset column may widen."),
"P20": dict(how="Order axioms and an independent comparison over pools of versions; class hierarchies in modules; module files of equal names.", out="own class against imported brother."),
"P21": dict(how="Trees of headers are encoded and compared byte for byte with an independent encoder; edit histories (decode, change, encode).", out="alignment gaps; undefined capsule flags; revision checks."),
"P22": dict(how="One-directional: every truncation and systematic or random corruption is either refused or read exactly as an independent strict reader reads it."),
"P23": dict(how="Independent encoders for certificates, times and descriptors, at any stream position, with truncations and corruptions, foreign revisions and types, and certificate data assigned to the object.", out="EFI_TIME fractions; pkcs1 revision; empty pkcs1 data."),
"P24": dict(how="Databases are built by an independent encoder; histories of adds, merges, sorts and reloads run next to a model.", out="lists whose header has not been set up; X509 merges are refused."),
"P25": dict(how="Multiset arithmetic: canonical plus duplicates equals the input; the canonical bytes do not depend on the order or grouping (up to owners).", out="signatures are compared by data; the owner of the first occurrence is kept."),
"P26": dict(how="An own DER reader verifies the PKCS#7 signature over the digest the specification defines, after histories of payload changes and signers; signers that would sign different data (a payload replaced between them, a digest of their own) must be refused.", out="payload changes after the last signer; other than RSA / PKCS1v15."),
"P27": dict(how="All 128 attribute sets in all spellings against a table of the specification; numbers of 32 bits; unknown names.", out="spaces only are ignored; unknown bits are kept but not named."),
"P28": dict(how="Variable store files built by an independent encoder; histories of edits and flushes; damaged files must be refused and left alone; a new variable is a complete one; names may hold NULs.", out="invalid unicode names."),
"P29": dict(how="Independent encoders for volume, file and working-block headers; any stream position; truncations; volume headers shorter than their map."),
"P30": dict(how="Tables of entries against an independent encoder, with new and used objects; damaged entries.", out="several terminators, gaps between the parts, empty lock names."),
"P31": dict(how="Bitmaps of every depth at any stream position; damaged size fields are refused or reproduced exactly.", out="bad magic is accepted (pinned); pixel count against image size."),
"P32": dict(how="DMAR tables from an independent encoder; the XML and the RMRR check against the model; damage: refused or read like a strict reader; device scopes that do not tile their structure, and inner damage with the checksum recomputed.", out="bytes after the table; long RHSA; scopes without a path."),
"P33": dict(how="IVRS tables from an independent encoder, then blocks added through the interface; checksums and lengths recomputed; damage (also with checksums kept right); zero and extreme 64-bit fields; tables beyond 64 KiB.", out="reserved bytes are zero; IVRSBitEnabled with IVMD type 20h."),
"P34": dict(how="Device paths of every node type from an independent encoder; damage.", out="IPv4 with 14..22 bytes and text nodes when damaged."),
"P35": dict(how="Streams and policy digests are recomputed from the TPM 2.0 rules by an independent marshaller after any history of additions and updates.", out="OR with fewer than two branches."),
"P36": dict(how="All 4096 response codes, all defined status and command codes and samples of the rest against tables written from the specifications (`lib/tpmtables.py`).", out="reserved bit 9, TPM 1.2 codes, values beyond 32 bits for the 32-bit converter."),
"P37": dict(how="A fake simulator on the loopback interface splits, delays and loses its answers; frames received and responses returned are compared with the plan.", out="zero size words before an answer are skipped; any exception but a timeout counts as reported."),
"P38": dict(how="Policies are built and serialised next to a model, decoded by an independent reader, and foreign policies (any order of strings and values, gaps) are read; damage.", out="Reserved1/Reserved2, other value types; lone surrogates."),
"P39": dict(how="A strict INF reader recovers every value the caller gave from the generated text; hostile values (including tags whose sections collide) are either refused or recovered exactly; catalog tools are replaced by scripts that record and misbehave.", out="equal integrity file, non-ASCII names, years below 1000."),
"P40": dict(how="Downloads go to a fake opener with planned faults, crash points and wrong hashes; SDK trees are searched in permuted directory orders; vswhere is a script. The download is also called directly, into other folders and on top of present files, and contents whose hash differs in one digit are served.", out="ties."),
"P41": dict(how="Reports are parsed by an XML parser and compared with the history of verdicts; durations are bracketed by a monotonic clock; one family runs in the C locale.", out="characters XML cannot express may be anything; texts are compared stripped."),
"P42": dict(how="Handlers with filters, levels and formatters, histories and threads: every accepted record is written once, whole lines, the exact coloured text, the record unchanged afterwards, handleError called once per failure. The string handler is compared with a model of text and position; exceptions that leave a handler must leave its lock free; a stand-in for the Windows console records the calls made for each sequence; one family runs in the C locale.", out="caches of the record; a formatter that returns None."),
"P44": dict(how="Generated workspaces (package paths, packages, modules, sources, INFs that are no EDK II INFs, folders named like files) are parsed, edited and parsed again, with new and reused objects and in any order of tables; every row, association and count is compared with the model of the files; line statistics with pygount itself; versions, repositories and submodules with git.", out="deleted files (their rows stay), two files with the same relative path, sources outside the workspace, upper case file extensions, several licence lines in a file, blanks after the licence."),
"P45": dict(how="Generated platforms (sections of every scope in any order and spelling, overrides, NULL libraries, phases, includes, conditionals, cycles, the same component twice) are parsed; the graph of rows and links of every component is compared with a model of the specification's search order, as are architecture, sources, package, repository, and the modules of each volume; runs are repeated after edits with new and used objects.", out="instances that do not exist, INFs without MODULE_TYPE or GUID, the architecture to which a volume's module belongs when it is built for several, the same module twice in a volume, packages of equal names."),
"P43": dict(how="Histories of parse runs over a scratch platform with faults at chosen statements, at the commit of a chosen table, in the inputs, in user-defined tables, by a foreign lock, by KeyboardInterrupt/SystemExit and by death of the process (`os._exit` in a forked child, with a tiny page cache so that pages spill); every table is wrapped by a monitor that notes the committed content when it starts, and other connections look in the middle of tables. The database must always equal the last noted state, new rows carry one new run id, links never cross runs, and a retry gives what a clean database gives. Blocks of `db.session()` run next to a model.", out="tables that commit by themselves; runs without EnvironmentTable have no environment record."),
"P46": dict(how="Pools of objects of all kinds are compared pairwise (equality by key, symmetric, with equal hashes); histories over sets and over sections run next to a model (aliens and wrong sets refused, each key once, order of sections); random DSC objects are written, read back by a strict reader that must understand every line, and by DscParser, and compared with objects built in another order and with one more entry; the vocabularies (module, PCD and codebase names, variable attributes) are accepted in every writing and nothing else is.", out="copies of the sets; the older [Libraries] and [DefaultStores], which are not written; definitions inside [Components] for DscParser."),
"P47": dict(how="The real class runs on a stand-in for efivarfs: os.stat/listdir/remove/open, io.open, builtins.open, subprocess.Popen and os.system are redirected, so that the paths the library names are opened below a scratch root and the commands it runs find only recording stubs of sudo, chattr and a sentinel on their PATH. The stand-in keeps efivarfs's immutable flag (a stored variable can be neither overwritten nor removed before 'chattr -i' was run on exactly its path) and records every raw write. Histories of set/get/list/delete with hostile names (shell syntax, newlines, dashes, names that end like a GUID, unicode, trailing NULs) are followed by a model of the store compared byte for byte after each call; 'elsewhere' plants decoy files outside the store and watches that no name or GUID reads, changes, creates or removes anything there; 'refused' gives values that cannot be packed and watches that the stored one survives; 'no-store' covers a missing, an empty and a polluted store; 'troubled' takes sudo or chattr away, or fills the store; 'windows' loads the module as Windows would (os.name, windll and the privilege calls are stand-ins whose argument types are enforced) and runs the same histories over a dict.",
 out="The Windows branch (needs win32 APIs); zero-length data and append writes (their meaning is the firmware's); variables whose file is shorter than its attributes."),
"P48": dict(how="A recording stub stands in for signtool: it notes its working directory and arguments, reads the files it is told to and writes what signtool would write where it is told to, or fails before or after that, or writes nothing. The oracle reads the recorded arguments the way signtool does and compares the folder before and after; programs of the same name on the search path must not run.",
 out="Real signatures (signtool is Windows only); names with double quotes, dollar signs, backticks or backslashes, which the shell expands inside quotes; a stale <file>.p7 left by someone else when the tool writes nothing."),
"P49": dict(how="Objects of every kind are built or decoded from generated bytes (with the generators of P21, P24, P26, P31 and P38, and real PKCS #7 signatures), printed in every form and by every name, and the text is read back: labelled numbers, GUIDs, dates, hex dumps in order, one entry per signature, rule or colour. The encoding before and after is compared, and standard output is watched.",
 out="Objects whose certificate is no PKCS #7 data (printing is refused with ValueError); signature headers (not implemented by the library); DMAR, IVRS, capsules, device paths, variable attributes and variable policies are printed in P32, P33, P21, P34, P27 and P30."),
"P50": dict(how="Twins: two equal objects go through the same history of calls with equal arguments (fresh streams, damaged data, failing streams, None), one by the old names and one by the new ones. After each call the outcome, the value, the streams and everything the objects hold are compared. Parsers configured the old way are compared with parsers given a path object, by paths found and by what a file parses to.",
 out="Whether a warning is issued (counted as an event, not judged)."),
}
CATCHES = {
"B05": "missed at first (override blocks had no values in braces); generator extended; caught",
"B07": "missed at first (no module path was the tail of another); generator extended; caught",
"B10": "caught (graph family of P45)",
"B11": "caught (names beyond the basic plane are generated)",
"B12": "caught (colour sequences with several parameters are generated)",
}
