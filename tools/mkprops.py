"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, syms, **kw):
    anchors = {"files": files, "mechanism": [{"name": x, "where": files[0] if len(files) == 1 else " | ".join(files[:3])} for x in syms],
               "observe_at": kw.pop("observe_at", ["TexReader / LatexParser / TokenBuilder public methods and the file system around them"]), "hook_needed": None}
    P.append(dict({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                   "why_tests_cant": why, "anchors": anchors}, **kw))


TR, TP, TE, SP, BP, PP = ("latex2json/tex_reader.py", "latex2json/parser/tex_parser.py", "latex2json/tex_file_extractor.py",
                          "latex2json/parser/sty_parser.py", "latex2json/parser/bib/bib_parser.py", "latex2json/parser/tex_preprocessor.py")
BU, TF, EN, TU = ("latex2json/structure/builder.py", "latex2json/structure/token_factory.py", "latex2json/utils/encoding.py",
                  "latex2json/utils/tex_utils.py")
H = "latex2json/parser/handlers/"
UC = "latex2json/latex_maps/latex_unicode_converter.py"

p("C01", "Conversion history never leaks into a conversion",
  "The result of converting a document depends only on that document and its project files: it equals the result of converting the same document with a brand-new reader in a fresh process, whatever documents were converted before, with whichever reader, parser, builder or helper objects of the process, and whether those conversions succeeded or failed. This covers every kind of document state: macros, conditionals, theorem names, environments, colours, labels, numbering, boxes, citation aliases, key families, packages and bibliography entries.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of conversions (of files, folders, archives, strings, style and bibliography files) by any mix of long-lived objects in one process, some failing at any I/O step, and every document converted afterwards",
  "the tests convert one fixed string per fresh parser; state that survives clear(), a failure, or lives on a class or module only shows up in particular pairs of documents in a particular order",
  [TR, TP, PP, SP, BP, BU, H + "environment.py", H + "content_command.py", H + "command_processor.py", "latex2json/parser/packages/boxes.py"],
  ["TexReader.clear", "LatexParser.clear", "TokenBuilder.clear", "LatexPreprocessor.clear", "CommandManager.clear", "TokenHandler.clear", "LatexStyParser.clear", "BibParser.clear"])

p("C02", "Concurrent conversions behave as if each ran alone",
  "When several threads of one process convert documents at the same time, each with its own reader, every thread obtains exactly the result (or the error) it would obtain running alone, under every interleaving, including the first use of the package in the process. No interleaving deadlocks, and when all threads are done the process-wide state (warning filters, working directory, umask, environment, locale, temporary files) is what it was before.",
  ["schedules", "histories", "inputs"],
  "every interleaving, at source-line granularity, of any number of conversions, archive extractions, JSON serialisations and saves by independent readers, cold or warm process",
  "tests are single threaded; a race needs one particular interleaving of lazy initialisation, shared tables or process-wide settings",
  [TR, UC, TE, TF, H + "command_processor.py", BU],
  ["LatexUnicodeConverter._ensure_initialized", "TexReader.to_json", "TexFileExtractor.process_compressed_file", "TokenFactory"])

p("C03", "Unpacking an archive stays inside its private folder",
  "Whatever entries an archive contains (absolute or parent-relative names, symbolic or hard links, link chains, duplicate entries, device nodes, pipes, odd names), unpacking it never creates, changes, links to, reads through a link or deletes anything outside the temporary folder made for it, and never leaves in that folder a link leading outside or a special file. This holds for every order of entries and when individual file operations fail during unpacking; refusing an entry or the whole archive is allowed.",
  ["inputs", "fault_sequences"],
  "every zip, tar.gz, tgz and gz archive, every order of its entries, and every failure of a file operation during extraction",
  "tests contain a single '../' sample; escapes need combinations such as a link entry followed by an entry below it",
  [TE], ["TexFileExtractor.process_compressed_file", "TexFileExtractor.from_compressed"])

p("C04", "Temporary work folders never outlive their owner",
  "After any attempt to process an archive with clean-up requested, or any attempt that fails or is interrupted at a file operation or while converting, nothing created for it remains in the system temporary folder. When processing succeeds without clean-up the result owns exactly one temporary folder which stays until its clean-up is called; calling clean-up removes it, and calling clean-up again, or on a result whose folder is already gone, is harmless.",
  ["crash_points", "fault_sequences", "histories"],
  "every archive (valid, damaged, without a main file), every clean-up setting, every point before the removal of the folder begins at which an I/O operation fails or an interrupt arrives, any sequence of clean-ups; the removal itself may be refused only while the file system refuses it",
  "tests check one happy path of the temporary folder; the leaks are on the failure paths between creating the folder and handing it over",
  [TE, TR], ["TexFileExtractor.process_compressed_file", "TexReader.process_compressed", "TexReader.process", "ProcessingResult.cleanup"])

p("C05", "A failed main input is never reported as a success",
  "If the main document, the folder or the archive to convert is missing, unreadable or fails while being read, the reader raises one of its documented errors; it never returns an empty, shortened or otherwise different result as if it were a success. If it does return, the result is exactly the result of the same conversion without the failure.",
  ["fault_sequences", "crash_points", "inputs"],
  "every file operation on the main input failing with every errno, transient or permanent, at every occurrence, for every entry point (file, folder, compressed, generic), for folders and archives with a single top-level document",
  "tests only cover a path that does not exist at all; a failure at the n-th read or open needs fault injection",
  [TR, TP, TE, EN, TU], ["TexReader.process_file", "TexReader.process", "TexReader.process_folder", "TexReader.process_compressed", "LatexParser.parse_file", "read_file", "read_tex_file_content"])

p("C06", "A failing secondary file costs only its own content",
  "If an included document, package, class or bibliography file of a project is missing or cannot be read (completely or at some point while reading), the conversion still succeeds, and its result is the one obtained with that file absent from the project or contributing nothing. No content of any other file is lost, changed or duplicated.",
  ["fault_sequences", "inputs"],
  "every project with included, package, class and bibliography files, nested to any depth, every secondary file and every file operation on it failing with every errno, also several at once",
  "tests have one project and at most one missing file; partially failing reads and nested inclusion need fault injection",
  [TP, PP, SP, BP, TU, EN], ["LatexParser.parse_file", "LatexParser._parse_bib_file", "LatexStyParser.parse_file", "BibParser.parse_file", "LatexPreprocessor._parse_packages"])

p("C07", "Output does not depend on the environment",
  "Converting the same project gives the same output whatever the order in which the file system lists directory entries, the interpreter's hash seed, locale, default encoding, optimisation level, current directory, temporary folder, clock, file time stamps and location of the project, and whichever way its path is spelled (relative, absolute, with redundant separators, string or path object).",
  ["configurations", "schedules"],
  "every listing order of every directory and every combination of hash seed, locale, default encoding, -O, working directory, TMPDIR, clock value, file modification times, project location and path spelling",
  "all tests run in one environment and one directory order",
  [TE, BP, TR, EN, TP, SP], ["TexFileExtractor.find_main_tex_file", "BibParser.parse_file", "BibParser._open_file", "TexReader.process", "LatexStyParser.parse_file"])

p("C08", "Packaging is transparent",
  "The same project yields the same output whether it is handed over as a main file, as a folder, as a zip, tar.gz or tgz archive or (for a single document) as a gz file, with any entry order, with or without directory entries, with any archive format variant and compression, and however the operating system splits the reads and writes of the archive and its members.",
  ["inputs", "configurations", "schedules"],
  "every project with one top-level document, every packaging, entry order, compression and partition of reads and writes into shorter ones",
  "tests compare one archive with one expectation; equality across packagings is over all projects and entry orders",
  [TE, TR], ["TexFileExtractor.process_compressed_file", "TexFileExtractor.from_folder", "TexReader.process", "TexReader.process_compressed", "TexReader.process_folder"])

p("C09", "A reported save is complete, a failed save is reported",
  "If saving a result returns normally, the target file holds exactly the serialised result as UTF-8, at once and whatever was at that path before, in a folder created if necessary; a failure of any file operation of the save that keeps that from being true raises the documented processing error. After a failed save the same result can be saved again, to the same or another path, and serialised as before.",
  ["fault_sequences", "crash_points", "histories"],
  "every result, every target (new, existing longer or shorter, nested folders), every file operation of the save failing, torn or coming back short, also at close, and every sequence of retries",
  "tests save once to a healthy file system",
  [TR], ["TexReader.save_to_json", "TexReader.to_json"])

p("C10", "Results are independent snapshots",
  "A returned result never changes afterwards: further conversions, clearing, serialising, saving or failing with the same or another reader leave its tokens, colours and serialisation exactly as they were, and changing one result never affects the reader, a later conversion or another result. Serialising the same result any number of times gives the same text, and a result that its owner changed serialises as what it has become.",
  ["histories"],
  "every sequence of conversions, serialisations, saves, clears, clean-ups and caller-side modifications over any number of held results",
  "tests look at a result once, right after producing it",
  [TR, BU, TF, TP], ["TexReader.process_file", "TexReader.to_json", "TokenBuilder.build", "LatexParser.get_colors", "TokenFactory.create"])

p("C11", "An interrupt stops the conversion and harms nothing",
  "If the user interrupts a conversion (keyboard interrupt at any moment) the interrupt reaches the caller promptly instead of being swallowed or turned into a result, and the same reader, used again afterwards for any document, gives the same result as a brand-new reader in a fresh process.",
  ["crash_points", "histories"],
  "every program point of a conversion at which an interrupt can arrive and every document converted next with the same objects",
  "no test interrupts anything; the interesting points lie inside nested parsing with half-changed state",
  [TR, TP, PP, SP, H + "command_processor.py", TF], ["TexReader.process_file", "LatexParser.parse", "LatexParser.clear", "TexReader.clear"])

p("C12", "Conversion terminates on every include graph",
  "Converting a project always comes to an end after work bounded by a small multiple of that for the same text with every inclusion written out, whatever its files include: themselves, one another in cycles of any length, the same file many times, through inputs, packages, classes or bibliographies, through links or differently spelled paths, or pipes, sockets, folders and unreadable files in place of the included ones. Every readable file contributes its content each time it is included, except where it is included while it is itself still being read.",
  ["inputs", "schedules"],
  "every include graph nested at most 14 files deep (TeX stops at 15) over every inclusion command, with cycles, diamonds, self-loops, links, alternative path spellings and special or unreadable included files",
  "tests include no cycle; a hang or a blow-up cannot be seen by example-based tests of healthy projects",
  [TP, SP, PP, BP, TU], ["LatexParser.parse_file", "LatexParser._process_token", "LatexStyParser.parse_file", "LatexPreprocessor._parse_packages", "read_tex_file_content"])

p("C13", "Inputs are read-only and every handle is returned",
  "Converting never creates, changes, renames or deletes anything except its own temporary folder and the requested output file, and in particular leaves the input files, folders and archives byte for byte untouched. After each operation, successful or not, no file handle it opened is still open and the process-wide state (working directory, umask, environment, warning filters, recursion limit, logging configuration, standard streams) is unchanged.",
  ["fault_sequences", "histories", "inputs"],
  "every input, entry point and operation, every failing file operation during it",
  "tests never look at the file system or at open handles around a conversion, let alone on failure paths",
  [TR, TE, EN, BP, TP], ["TexReader.process", "TexReader.to_json", "TexFileExtractor.process_compressed_file", "read_file", "detect_encoding"])

p("C14", "A damaged archive is an error, never a different document",
  "Processing an archive that was truncated at any byte, lost, repeated or had zeroed a block, had other data appended, or had bits of its checksummed data flipped either gives exactly the output of the undamaged archive or raises a documented error; it never returns output built from partial or altered content.",
  ["fault_sequences", "crash_points", "inputs"],
  "every archive kind, every truncation point, every lost, zeroed or repeated block and every bit flip in data protected by the format's checksums",
  "tests know healthy archives and one garbage file; whether a damage slips through depends on where in the format it lands",
  [TE, TR], ["TexFileExtractor.process_compressed_file", "TexReader.process_compressed", "TexReader.process"])

p("C15", "Diagnostics never change the outcome",
  "The outcome of a conversion, serialisation or save (result or kind of error) does not depend on where its diagnostics go: on the logger passed in, its level or handlers, on log handlers that fail (reporting it as the logging library's handlers do) or whose disk is full, or on whether standard output and error are absent, broken pipes or full, or standard output is closed or unable to encode the message.",
  ["configurations", "fault_sequences"],
  "every logger configuration and level, every failing handler, and every failing write to the standard streams, for every input including archives with refused entries",
  "tests run with one logging configuration and healthy standard streams",
  [TR, TE, TP, "latex2json/utils/logger.py", SP, BP], ["TexReader.__init__", "TexFileExtractor.find_main_tex_file", "TexFileExtractor.process_compressed_file", "setup_logger"])

p("C16", "A torn project never stalls a conversion",
  "Whatever a crash or a failing disk made of the files of a project (a file cut off at any byte; blocks lost, zeroed, duplicated, exchanged, overwritten by stale data or by a block of another file; flipped bits), converting it ends within a bounded amount of work, with a result that is valid JSON or with one of the documented errors. When the main file was merely cut off, the plain paragraphs standing before the cut outside of any construct are still in the result. The same reader afterwards converts the undamaged project exactly as a fresh process does.",
  ["fault_sequences", "crash_points", "inputs"],
  "every project (single documents, several files, archives), every file of it, every place and extent of the damage, several damages at once, and every sequence of conversions of damaged states by one reader; damage that turns a macro definition into one that calls itself without end is excluded, as TeX itself does not end on it",
  "a loop that does not end, or a scan that runs away, needs a construct to be cut at one particular byte next to other particular text; the tests contain only a few well-formed documents",
  [TP, PP, H + "environment.py", H + "new_definition.py", H + "command_processor.py", H + "tabular.py", TU],
  ["LatexParser.parse", "LatexPreprocessor.preprocess", "EnvironmentHandler", "CommandProcessor", "extract_nested_content", "find_matching_env_block", "substitute_patterns"])

p("C17", "Running out of memory or stack is never a success",
  "If an allocation fails, or the caller leaves too little stack, at any moment of a conversion, serialisation or save, the operation raises an out-of-memory, recursion or documented error, or its result is exactly the undisturbed one (in a project of several files it may lack content of an included, package, class or bibliography file that was being read); a single document is never returned shortened or altered. The same reader, used again afterwards for any document, gives the same result as a brand-new reader in a fresh process.",
  ["fault_sequences", "histories", "inputs"],
  "every document, every point of the operation at which the failure can strike, repeated failures, cold and warm processes, and every history of operations of the same process afterwards",
  "the handful of broad exception handlers in the package turn failures into results only when one strikes at a particular place; no test fails an allocation or limits the stack",
  [TR, TP, SP, BU, H + "command_processor.py", TF, TE],
  ["TexReader.process", "TexReader.process_file", "TexReader.save_to_json", "LatexParser.parse_file", "LatexStyParser.parse_file", "TokenBuilder.build", "TexFileExtractor.from_compressed"])

NA = [
 ("N01", "Macros are expanded as TeX would", "Every macro definition form is expanded recursively with correct parameter substitution, defaults and scoping.", [H + "new_definition.py", H + "command_processor.py", H + "command_manager.py"], ["NewDefinitionHandler", "CommandProcessor", "CommandManager"],
  "Pure function of the input text: no scheduling, time, I/O or fault can influence which expansion is produced; a simulator has nothing to drive (its dependence on history, threads and interrupts is covered by C01, C02, C11)."),
 ("N02", "Mathematics is preserved", "Inline and display mathematics keep their source after macro expansion, with numbering and labels attached.", [H + "equation.py"], ["EquationHandler"], "Pure function of the input text; deciding it needs a semantics of TeX mathematics and input generation, not schedules or faults."),
 ("N03", "Verbatim, code and drawings are kept raw", "Verbatim text, code blocks and drawing environments are kept character for character and never macro-expanded.", [H + "code_block.py", "latex2json/parser/packages/tikz_pgf.py"], ["CodeBlockHandler", "TikzPGFHandler"], "Pure function of the input text, no environment interaction to simulate."),
 ("N04", "Tables keep their cells and spans", "Every cell of a table, with its row and column span and mixed content, appears in the output.", [H + "tabular.py", "latex2json/structure/tokens/tabular.py"], ["TabularHandler", "TabularToken"], "Pure function of the input text, no environment interaction to simulate."),
 ("N05", "Hierarchy and numbering follow the document", "Sections, floats, equations and theorem-like environments are nested and numbered consistently in document order.", [BU], ["TokenBuilder.build"], "Pure function of the token list; only its isolation across documents depends on history, which C01 decides."),
 ("N06", "Bibliography entries keep keys and fields", "Every entry of a bibliography source appears once with its key, type and fields.", ["latex2json/parser/bib/bibtex_parser.py", "latex2json/parser/bib/bibitem_parser.py"], ["BibTexParser", "BibItemParser"], "Pure function of the file content; the I/O around it is covered by C06 and C07."),
 ("N07", "Labels attach to the element they name", "Each label is attached to the section, float, equation or item in whose scope it stands.", [TP], ["LatexParser._handle_label"], "Pure function of the input text, no environment interaction to simulate."),
 ("N08", "Output always matches the documented token schema", "Every token of every output is one of the documented types with its documented fields, as valid JSON.", [TF, "latex2json/structure/tokens/registry.py"], ["TokenFactory", "TokenRegistry"], "Pure function of the input text; a schema check over generated inputs is property-based testing without any simulated nondeterminism."),
 ("N09", "Accents and symbols become Unicode", "Diacritics and symbol commands are converted to the right Unicode characters.", [UC, H + "diacritics.py"], ["LatexUnicodeConverter", "DiacriticsHandler"], "Pure function of the input text; the lazily shared tables are covered by C02."),
 ("N10", "Source encodings are recognised", "Source files in common legacy encodings are decoded to the characters their authors wrote.", [EN], ["detect_encoding", "read_file"], "Statistical detection is a pure function of the bytes of the file; no schedule, fault or clock can influence it."),
]
for id, t, s, f, sy, why in NA:
    p(id, t, s, ["inputs"], "every input document", "the input space is unbounded; the tests sample it", f, sy)
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")


def manifest(claimed, notes_by):
    LEVEL = {k: "exploration" for k in claimed}
    checks = []
    for k in claimed:
        checks.append({"property": k, "quick_cmd": "./run check %s --tier quick" % k, "thorough_cmd": "./run check %s --tier thorough" % k,
                       "evidence_file": "evidence/%s.json" % k, "technique": notes_by[k][0], "level": notes_by[k][2] if len(notes_by[k]) > 2 else "exploration",
                       "level_note": notes_by[k][1]})
    na = [{"property": i, "reason": w} for i, t, s, f, sy, w in NA]
    for x in P:
        if x["id"] not in claimed and not x["id"].startswith("N"):
            na.append({"property": x["id"], "reason": "check under construction in this revision"})
    m = {"version": 1, "setup_cmd": "./run setup", "hooks": {"guard": "L2J_SIM (unused: no hook was needed in the package, every seam is interposed from outside)",
         "enable": "none needed; the simulator replaces os.*, open, locks, clock and entropy in its own process before importing /repo", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "All checks import the package from /repo's working tree (pure Python, nothing to build). ./run replay FILE re-executes a violation; ./run selftest checks determinism."}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


from mknotes import NOTES
claimed = [k for k in sorted(NOTES) if os.path.exists(os.path.join(here, "sim", "props", k.lower() + ".py"))]
manifest(claimed, NOTES)
