"""developer tool: writes properties.jsonl, MANIFEST.json and levels.json from the one list below"""
import json
from pathlib import Path

HERE = Path(__file__).resolve().parent
LF = "text is LF-separated (Python's text mode turns CR LF and lone CR into LF on reading) and holds no NUL character"
RPM = "RPM 4.18 as installed in the sandbox (its macro expansion, version comparison and spec parser) is trusted"
MATH = "Python integers are mathematical integers, recursion depth and memory are not exhausted"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), level="proof", explanation="",
         rule="", assumptions=(), bounded=(), note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, level=level, explanation=explanation, rule=rule,
                  assumptions=list(assumptions) + [MATH], bounded=list(bounded), note=note))


prop("C01", "Loading and saving without edits reproduces the file byte for byte",
     "Opening a spec file and then saving or reloading it, with any number of read-only uses of its views (lines, sections, tags, macro definitions, changelog, prep, sources, patches), nested or not, with or without autosave, leaves exactly the bytes that were in the file. This includes files without a final newline, empty files, bytes that are not UTF-8 and characters that only some functions treat as line breaks. After an edit, everything but the edited line is still written as it was, including the presence or absence of the final newline.",
     ["inputs", "histories"], "every spec file RPM can parse (LF text, no NUL) and every sequence of read-only accesses and saves",
     "the tests save a handful of fixture files; they neither vary the bytes nor interleave views that each rewrite the lines on exit",
     ["specfile/specfile.py", "specfile/sections.py", "specfile/utils.py"],
     [("splitting into lines and joining them", "specfile/specfile.py: Specfile._read_lines, Specfile.__str__, Specfile.save, Specfile.reload"),
      ("each view writes back what it parsed", "specfile/specfile.py: Specfile.lines, sections, tags, changelog, prep, macro_definitions, sources, patches"),
      ("sharing of open views", "specfile/context_management.py: ContextManager")],
     state=[("_lines", "content of the file without line ends", "specfile/specfile.py: Specfile")],
     observe=["str(Specfile)", "bytes of the saved file"],
     rule="random spec files (grammar of tags, conditions, macros, sections, junk lines, non-UTF-8 bytes) with random programs of nested read-only views, saves and reloads; a case counts if RPM accepts the file",
     explanation="the line-splitting and joining functions and the parse/write pairs of every view are under contract; the composition in Specfile (file I/O, RPM) is exercised by the bounded check",
     assumptions=[LF, RPM], bounded=["Specfile.__init__/save/reload (file I/O)"])

prop("C02", "Splitting into sections is lossless and finds exactly the section headers",
     "Splitting any list of lines into sections and joining them again gives the same lines, and the argument is not modified. A section starts exactly at a line that consists of a known section name (in any letter case) after a percent sign, followed by the end of the line or whitespace and options, outside of a multi-line macro definition body; its name, options and content are those of the text, everything before the first header belongs to the preamble, and looking up a section by id finds the first section with that id. Changing the content of, adding or deleting one section leaves the text of the others unchanged.",
     ["inputs"], "every list of lines without embedded newlines, except a second bare %package header and option strings that cannot be tokenised",
     "tests parse a few well-formed lists; indentation, letter case, trailing whitespace, look-alike macros and headers within macro bodies are not covered",
     ["specfile/sections.py", "specfile/options.py", "specfile/constants.py"],
     [("splitting by headers", "specfile/sections.py: Sections.parse"), ("joining", "specfile/sections.py: Sections.get_raw_data, Section.get_raw_data"),
      ("lookup", "specfile/sections.py: Sections.find, get, __contains__, Section.id")],
     observe=["Sections.get_raw_data()", "Section.id", "Section.options", "list of Section"],
     rule="lists of lines drawn from section headers, look-alikes, macro bodies and junk; structured lists with known expected sections",
     explanation="Sections.parse and the writers are under contract (text of the result equals the text of the lines)",
     assumptions=["lines contain no newline characters"])

prop("C03", "Parsing tags and comments and writing them back is lossless",
     "Parsing the tags of any section content and writing them back gives exactly the same lines, and neither parsing nor writing modifies its argument. Every tag has exactly the name, value (including multi-line values and values inside conditional expansions), separator and the comment lines directly above it that the text has; parsing the written lines again gives equal tags. The comments of a block of lines are exactly its trailing comment lines, each with its own text and prefix.",
     ["inputs"], "every list of lines without embedded newlines",
     "tests hold a few sections; the quantifier is over all lines, and brackets, conditional wrappers, whitespace and conditions combine freely",
     ["specfile/tags.py", "specfile/utils.py", "specfile/conditions.py"],
     [("parsing", "specfile/tags.py: Tags.parse, Comments.parse"), ("writing", "specfile/tags.py: Tags.get_raw_section_data, Comments.get_raw_data"),
      ("multi-line values", "specfile/utils.py: count_brackets, split_conditional_macro_expansion")],
     state=[("_remainder", "lines below the last tag", "specfile/tags.py: Tags"), ("_preceding_lines", "lines above the comments", "specfile/tags.py: Comments")],
     observe=["Tags.get_raw_section_data()", "Tag.name", "Tag.value", "Tag.comments"],
     rule="lists of lines drawn from tag lines, comments, conditions, macros and junk; structured lists with known expected tags",
     explanation="all functions involved are under contract; the text view of the result equals the text of the lines, and the writer gives the text view line by line",
     assumptions=["lines contain no newline characters", "expansion of condition expressions gives an arbitrary string or raises RPMException"])

prop("C04", "Parsing macro definitions and writing them back is lossless",
     "Parsing the macro definitions of any lines and writing them back gives exactly the same lines, with and without evaluation of conditions. Every definition has exactly the name (with options), scope, body (including bodies continued by backslashes or open brackets over several lines) and comment-out style that the text has, in order; parsing the written lines again gives equal definitions. A string form of a definition is the text it has in the file.",
     ["inputs"], "every list of lines without embedded newlines",
     "tests hold a few definitions; continuation, unterminated bodies, %dnl, trailing whitespace and conditions combine freely",
     ["specfile/macro_definitions.py", "specfile/conditions.py"],
     [("parsing", "specfile/macro_definitions.py: MacroDefinitions._parse, MacroDefinitions.parse"),
      ("writing", "specfile/macro_definitions.py: MacroDefinition.get_raw_data, MacroDefinitions.get_raw_data")],
     state=[("_whitespace", "whitespace around the parts of a definition", "specfile/macro_definitions.py: MacroDefinition")],
     observe=["MacroDefinitions.get_raw_data()", "MacroDefinition attributes"],
     rule="lists of lines drawn from definitions, continuation lines, conditions and junk; structured lists with known expected definitions",
     explanation="all functions involved are under contract: conservation of text through the parser's two loops and through the writer",
     assumptions=["lines contain no newline characters", "expansion of condition expressions gives an arbitrary string or raises RPMException"])

prop("C05", "Parsing the changelog and writing it back is lossless and ordered",
     "Parsing any %changelog content and writing it back gives exactly the same lines. Entries are presented from the oldest (bottom) to the newest (top); an entry starts at a line beginning with an asterisk, its content is the following lines up to the next entry without the trailing blank lines, and text above the first entry is kept. Nothing is lost for entries that are malformed, empty or separated by any number of blank lines.",
     ["inputs"], "every list of lines without embedded newlines",
     "tests hold three or four entries in standard form",
     ["specfile/changelog.py"], [("parsing", "specfile/changelog.py: Changelog.parse"), ("writing", "specfile/changelog.py: Changelog.get_raw_section_data")],
     state=[("_predecessor", "lines above the newest entry", "specfile/changelog.py: Changelog"), ("_following_lines", "blank lines below an entry", "specfile/changelog.py: ChangelogEntry")],
     observe=["Changelog.get_raw_section_data()", "list of ChangelogEntry"],
     rule="lists of lines drawn from headers, content, blank lines and junk, compared with an independent splitter",
     explanation="parser and writer under contract", assumptions=["lines contain no newline characters"])

prop("C06", "Parsing %prep macros and writing them back is lossless",
     "Parsing any %prep content and writing it back gives exactly the same lines. Every %setup, %autosetup, %autopatch and %patch invocation (with its prefix, options and an enclosing conditional expansion) is recognised with the right kind, name, options and patch number, in order, and no other line is.",
     ["inputs"], "every list of lines without embedded newlines whose option strings can be tokenised; otherwise an exception of the library",
     "tests hold a few common invocations",
     ["specfile/prep.py", "specfile/options.py", "specfile/utils.py"],
     [("parsing", "specfile/prep.py: Prep.parse"), ("writing", "specfile/prep.py: PrepMacro.get_raw_data, PrepMacros.get_raw_data, Prep.get_raw_section_data"),
      ("kinds and numbers", "specfile/prep.py: PatchMacro.number, PrepMacro.CANONICAL_NAME")],
     observe=["Prep.get_raw_section_data()", "Prep.macros"],
     rule="lists of lines drawn from prep macros, look-alikes and junk; structured lists with known expected macros",
     explanation="parser and writers under contract", assumptions=["lines contain no newline characters"])

prop("C07", "Parsing %sourcelist and %patchlist and writing them back is lossless",
     "Parsing any %sourcelist or %patchlist content and writing it back gives exactly the same lines. The entries are exactly the lines that are neither empty nor comments, each with the comment lines directly above it.",
     ["inputs"], "every list of lines without embedded newlines", "tests hold two lists",
     ["specfile/sourcelist.py", "specfile/tags.py"], [("parsing", "specfile/sourcelist.py: Sourcelist.parse"), ("writing", "specfile/sourcelist.py: Sourcelist.get_raw_section_data")],
     observe=["Sourcelist.get_raw_section_data()", "list of SourcelistEntry"],
     rule="lists of lines drawn from locations, comments, blank lines, conditions and junk, compared with an independent splitter",
     explanation="parser and writer under contract", assumptions=["lines contain no newline characters", "expansion of condition expressions gives an arbitrary string or raises RPMException"])

prop("C08", "Values are parsed into nodes that make up exactly the value",
     "Parsing any string into nodes (literals, macro substitutions, enclosed substitutions, conditional expansions, shell and expression expansions, built-in macros) gives nodes whose string forms concatenated are the string, or raises the unterminated-macro exception exactly when some macro does not end. Each node has the kind, prefix, name, arguments and body that the text has, with escaped percent signs kept as literals and adjacent literals never split; flattening only opens conditional expansions.",
     ["inputs"], "every string", "tests hold a dozen values; nesting, escapes, brackets in bodies and whitespace combine freely",
     ["specfile/value_parser.py"], [("parsing", "specfile/value_parser.py: ValueParser.parse"), ("string forms", "specfile/value_parser.py: Node subclasses, __str__"),
                                    ("flattening", "specfile/value_parser.py: ValueParser.flatten")],
     observe=["ValueParser.parse()", "str(node)"],
     rule="strings generated from the macro grammar, mutated and joined with junk, compared with an independent scanner; node lists rendered and parsed",
     explanation="string forms under contract; parser under contract as far as the verifier reaches", assumptions=["no NUL character"])

prop("C09", "Option strings are tokenised without loss",
     "Tokenising any option string gives tokens whose string forms concatenated are the string, or raises an exception of the library, which happens exactly for unbalanced quotes, a trailing backslash or an unterminated macro. Quotes, escapes and macros (also within quotes) are delimited as in a shell, each token has the literal value, and reading options changes nothing.",
     ["inputs"], "every string", "tests hold a dozen option strings",
     ["specfile/options.py", "specfile/value_parser.py"], [("tokenisation", "specfile/options.py: Options.tokenize"), ("string form", "specfile/options.py: Token.__str__, Options.__str__")],
     observe=["Options.tokenize()", "str(Options)"],
     rule="strings generated from quotes, escapes, macros, options and junk; token lists rendered and tokenised; errors compared with an independent scanner",
     explanation="Options.__str__ and tokenize under contract", assumptions=["no NUL character"])

prop("C10", "Validity of items inside conditions agrees with RPM",
     "A tag, macro definition or source-list entry is marked valid exactly if RPM takes the line into account when it evaluates the conditions around it (%if, %ifarch, %ifnarch, %ifos, %ifnos, %elif, %elifarch, %elifos, %else, %endif, nested to any depth). Evaluating conditions never adds, drops, changes or reorders lines, also when conditions are unbalanced, continued on further lines or part of macro bodies.",
     ["inputs", "configurations"], "every nesting of conditions whose expressions depend on macros with a constant value, with any user-defined macros; lines kept for every list of lines",
     "tests have one mocked example with two levels", ["specfile/conditions.py", "specfile/tags.py", "specfile/macro_definitions.py", "specfile/sourcelist.py"],
     [("evaluation", "specfile/conditions.py: process_conditions, resolve_expression")], observe=["Tag.valid", "MacroDefinition.valid", "SourcelistEntry.valid"],
     rule="random nestings of conditions with the parsed output and the macro table of RPM as the oracle; random nestings of literal conditions with an independent evaluator",
     level="exploration", explanation="process_conditions keeps the lines (proved); validity itself is decided by RPM at run time and checked bounded",
     assumptions=[RPM], bounded=["truth of validity against RPM"])

prop("C11", "A local edit changes only the text of the edited item",
     "Changing the value, name, comments, body, scope, options, location, header or content of one item (tag, comment, macro definition, prep macro, source, patch, changelog entry, section, line) changes only the text of that attribute in the written file. All other lines, whitespace, separators, prefixes and the order stay byte for byte, and reading the attribute back gives the new value.",
     ["inputs", "histories"], "every parsed structure, every item in it and every new value without newlines that does not change how the line is parsed",
     "tests compare single edits of fixture files", ["specfile/tags.py", "specfile/macro_definitions.py", "specfile/prep.py", "specfile/changelog.py", "specfile/sourcelist.py", "specfile/specfile.py"],
     [("writers", "get_raw_data and get_raw_section_data of each structure"), ("attribute access by name", "specfile/tags.py: Tags.__setattr__; specfile/macro_definitions.py: MacroDefinitions.__setattr__"),
      ("write back", "specfile/specfile.py: Specfile.sections and the views on it")], observe=["str(Specfile)", "get_raw_section_data()"],
     rule="structured contents with known rendering, one edit, expected rendering computed independently",
     level="exploration", explanation="the writers are proved to give the text view, which depends on the attributes of the item and the texts of the others only",
     assumptions=[LF, RPM], bounded=["setters through Specfile"])

prop("C12", "Deleting an item keeps all other lines",
     "Deleting one or more tags, macro definitions, prep macros, patch macros or changelog entries, by index (also negative), slice (any step) or name, removes the lines of exactly those items (a tag together with the comments directly above it). All other lines remain, in order; only blank lines next to a deleted item may go with it; the remaining items keep their attributes and comments.",
     ["inputs"], "every parsed structure and every valid selector", "tests delete one or two items by index or name",
     ["specfile/tags.py", "specfile/macro_definitions.py", "specfile/prep.py", "specfile/changelog.py"],
     [("deletion", "specfile/tags.py: Tags.__delitem__, __delattr__; specfile/macro_definitions.py: MacroDefinitions.__delitem__; specfile/prep.py: PrepMacros.__delitem__, Prep.remove_patch_macro")],
     observe=["get_raw_section_data()", "get_raw_data()"], rule="structured contents with known rendering, one selector, expected rendering computed independently",
     explanation="deletions under contract as far as the verifier reaches", assumptions=["lines contain no newline characters"])

prop("C13", "Inserting an item keeps all other lines and stays out of condition blocks",
     "Inserting or appending a tag, macro definition, changelog entry or patch macro adds exactly the lines of that item, at the place given by the index, and keeps all other lines in order. An inserted tag never ends up between a condition keyword and the tag it was inserted before in a way that changes which tags are valid.",
     ["inputs"], "every parsed structure, every index and every item", "tests insert one item into fixtures",
     ["specfile/tags.py", "specfile/macro_definitions.py", "specfile/prep.py", "specfile/changelog.py"],
     [("insertion", "specfile/tags.py: Tags.insert; specfile/macro_definitions.py: MacroDefinitions.insert; specfile/prep.py: Prep.add_patch_macro; specfile/changelog.py: Changelog")],
     observe=["get_raw_section_data()", "get_raw_data()"], rule="structured contents with known rendering, one insertion, expected rendering computed independently",
     level="exploration", explanation="insertions under contract as far as the verifier reaches", assumptions=["lines contain no newline characters"])

prop("C14", "Lookups and positions match the text",
     "Finding a tag (case-insensitively), macro definition, section or prep macro by name gives the first valid one, or the first one if none is valid, and raises or returns nothing exactly when there is none; with a position, it gives the item at that line. The position reported for a tag or macro definition is the number of lines above it in the written text, also after multi-line items and with duplicates.",
     ["inputs"], "every parsed structure, every name and every position", "tests look up items in one fixture",
     ["specfile/tags.py", "specfile/macro_definitions.py", "specfile/prep.py", "specfile/sections.py"],
     [("positions", "specfile/tags.py: Tag.get_position; specfile/macro_definitions.py: MacroDefinition.get_position"), ("lookup", "Tags.find, MacroDefinitions.find, PrepMacros.find, Sections.find")],
     observe=["find()", "get()", "get_position()", "attribute access", "in"], rule="structured contents with known rendering, all names and positions of it",
     explanation="get_position proved for every container; lookups under contract as far as the verifier reaches", assumptions=["lines contain no newline characters"])

prop("C15", "Sources and patches behave as an ordered, consistently numbered sequence",
     "Sources and patches (from tags and from %sourcelist or %patchlist) form one sequence whose locations and numbers are those of the text, an implicit number being one more than the highest number so far, as in RPM. Insertion at an index, with a number or at the end, assignment, removal by index, slice, location or number, and adding a patch have the effect they have on a list; numbers stay unique and ascending, preceding sources keep their numbers, the text parsed again gives the same sequence, and all unrelated lines are kept. Duplicate locations are refused without a change unless allowed.",
     ["inputs", "histories"], "every content with ascending numbers and every sequence of operations", "tests run single operations on a few sequences",
     ["specfile/sources.py", "specfile/sourcelist.py", "specfile/specfile.py"],
     [("sequence operations", "specfile/sources.py: Sources, Patches"), ("numbers", "specfile/sources.py: TagSource.number, ListSource.number"), ("adding patches", "specfile/specfile.py: Specfile.add_patch")],
     observe=["Sources as a sequence", "Source.number", "written lines"], rule="random contents with explicit, implicit and mixed numbering and lists; random operation sequences against a list model read from the text",
     level="exploration", explanation="operation sequences against a list model", assumptions=["numbers ascend in the initial content (RPM does not require it)"],
     bounded=["specfile/sources.py: Sources, Patches"])

prop("C16", "Nested context managers share content and lose no edit",
     "Any program of nested contexts of one spec file, where inner contexts view the same data as outer ones, is equivalent to making the edits one after another: a context opened inside an open context of the same view gives the same object, every edit is in the result once the outermost context ends, contexts opened later start from the current content, and exceptions raised inside propagate without losing the edits made before them. Contexts of different spec files, sections or arguments never mix. With autosave, the file holds the current content whenever the outermost context has ended, and without it only after saving.",
     ["programs", "histories"], "every nesting of views derived from each other (lines, sections and the views of sections; macro definitions within themselves)",
     "tests nest two fixed contexts", ["specfile/context_management.py", "specfile/specfile.py"],
     [("sharing of generators", "specfile/context_management.py: ContextManager"), ("write back on exit", "specfile/specfile.py: the methods decorated with ContextManager")],
     state=[("generators", "open contexts by function and arguments", "specfile/context_management.py: ContextManager")],
     observe=["objects given by with", "str(Specfile)", "saved file"], rule="random programs of nested views with edits and exceptions against the same edits done in sequence",
     level="exploration", explanation="program equivalence against sequential edits", assumptions=["views that overwrite each other (macro definitions inside sections, edits of lines inside sections) are excluded"],
     bounded=["specfile/context_management.py"])

prop("C17", "Parsing has no lasting side effects and fails only with library exceptions",
     "Parsing or expanding a spec file, successfully or not, with or without forced parsing, leaves environment variables (including LANG and LC_ALL, set or unset before), the working directory, standard error, open descriptors and the contents of the source and temporary directories as they were; dummy files made for missing sources are removed and existing files are never touched. A file RPM cannot parse gives an exception of the library and nothing else.",
     ["inputs", "fault_sequences", "configurations"], "every spec file, every set of present and missing sources and every initial environment",
     "tests check one environment and one missing source", ["specfile/spec_parser.py", "specfile/macros.py", "specfile/utils.py"],
     [("environment", "specfile/spec_parser.py: SpecParser._sanitize_environment"), ("dummy sources", "specfile/spec_parser.py: SpecParser._make_dummy_sources"),
      ("standard error", "specfile/utils.py: capture_stderr")], observe=["os.environ", "file system", "file descriptors", "exceptions"],
     rule="random spec files with includes, loads, shell expansions, errors and long names in a scratch directory; state of the process and of the directory compared before and after",
     level="exploration", explanation="restoring of the environment proved for every outcome of the parse; before/after comparison of the observable state for the rest", assumptions=[RPM, "no disk errors", "no other thread changes the environment"], bounded=["specfile/spec_parser.py"])

prop("C18", "Macro expansion always uses the current content of its own spec file",
     "Expanding anything in the context of a spec file gives what a fresh instance with the same content, source directory and macros gives, whatever happened before: edits, reloads, changes of the macros, expansions with extra macros, failed parses, and creation, copying, parsing or destruction of other instances. Extra macros passed to one expansion do not affect the next one.",
     ["histories"], "every interleaving of operations on any number of live instances", "tests use one instance and one edit",
     ["specfile/spec_parser.py", "specfile/specfile.py", "specfile/macros.py"],
     [("parse cache", "specfile/spec_parser.py: SpecParser.parse, id, _last_parse_hash"), ("expansion", "specfile/specfile.py: Specfile.expand"), ("macro context", "specfile/macros.py: Macros")],
     state=[("_last_parse_hash", "which content the global macro context belongs to", "specfile/spec_parser.py: SpecParser")],
     observe=["Specfile.expand()", "expanded_* attributes"], rule="random histories over up to three instances, each result compared with a fresh instance",
     level="exploration", explanation="the conditions under which the parse is reused are proved (identity of content, macros, source directory); histories compared with fresh instances", assumptions=[RPM, "files outside of the spec file do not change in between"], bounded=["specfile/spec_parser.py"])

prop("C19", "Versions compare as RPM compares them and survive text conversion",
     "Ordering and equality of EVR, NEVR and NEVRA objects is RPM's: a total order by epoch, then version, then release, compatible with hashing, the same for all comparison operators. Converting to a string and back gives an equal object, and the parts are those of the string; malformed strings raise an exception of the library and comparing objects of different packages or types is refused.",
     ["inputs"], "all epochs, versions, releases, names and architectures", "tests compare a few pairs", ["specfile/utils.py"],
     [("comparison", "specfile/utils.py: EVR, NEVR, NEVRA"), ("parsing", "EVR.from_string, NEVR.from_string, NEVRA.from_string")], observe=["comparison operators", "hash()", "str()", "from_string()"],
     rule="random triples of versions incl. mutations of each other, compared with an independent implementation of RPM's comparison",
     explanation="comparison operators under contract over an assumed total preorder of RPM's comparison", assumptions=[RPM])

prop("C20", "Setting or bumping the release keeps its macros and increases it",
     "Setting the release (alone or together with the version) gives the new release followed by the dist macro that ended the old value (%{?dist}, %{dist} or %dist, without the minor bump that may follow it), reading it back gives the release that was set, and nothing else in the file changes. Bumping a release gives a release that is greater by RPM's comparison, changes nothing else in the value, and leaves %autorelease alone.",
     ["inputs"], "every release string made of numbers, dots, letters and macros", "tests have a dozen release strings", ["specfile/specfile.py"],
     [("splitting", "specfile/specfile.py: Specfile._split_raw_release"), ("updating", "specfile/specfile.py: Specfile._get_updated_release, bump_release, _bump_release_string")],
     observe=["Specfile.release", "raw_release", "bump_release()"], rule="random release strings, split, set and bumped, compared with an independent splitter and RPM's comparison",
     explanation="string functions under contract as far as the verifier reaches", assumptions=[RPM])

prop("C21", "A new changelog entry is well formed, first, and disturbs nothing",
     "Adding a changelog entry puts one entry, with the weekday, date, author, e-mail address and version-release RPM expects, above the newest entry of every %changelog section, in the timestamp style and day padding of that section, followed by a blank line if there are entries below. All other lines are unchanged; nothing is added where %autochangelog is in use. An assembled entry gives back the data it was made from.",
     ["inputs", "configurations"], "every changelog, author, e-mail address, timestamp, content and version", "tests add to a few fixtures with a mocked date",
     ["specfile/changelog.py", "specfile/specfile.py"], [("assembling", "specfile/changelog.py: ChangelogEntry.assemble"), ("adding", "specfile/specfile.py: Specfile.add_changelog_entry, contains_autochangelog")],
     observe=["str(Specfile)", "ChangelogEntry"], rule="random spec files with changelogs in different styles and conditions; the expected file is computed independently",
     level="exploration", explanation="expected file computed independently", assumptions=[RPM, "an empty %changelog section followed by a condition is excluded"], bounded=["ChangelogEntry.assemble", "Specfile.add_changelog_entry"])

prop("C22", "Filtering the changelog selects exactly the requested range",
     "Filtering a changelog by lower and upper version bounds gives the entries from the first one that is not older than the lower bound to the last one that is not newer than the upper bound, in order and unchanged; for an ordered changelog these are exactly the entries within the bounds. The changelog itself is not modified, and the version of an entry is the one in its header in any usual notation.",
     ["inputs"], "every list of entries with or without versions, every pair of bounds", "tests filter one changelog", ["specfile/changelog.py", "specfile/utils.py"],
     [("filtering", "specfile/changelog.py: Changelog.filter"), ("version of an entry", "specfile/changelog.py: ChangelogEntry.evr")], observe=["Changelog.filter()"],
     rule="random entries, ordered and not, random bounds, compared with an independent version comparison", explanation="comparison of versions proved; selection compared with an independent comparison", level="exploration",
     assumptions=[RPM], bounded=["Changelog.filter"])

prop("C23", "Updating a tag goes through its macros and gives the requested value",
     "Updating a tag to a value modifies the macro definitions and tags that its value refers to, where possible, instead of replacing the references, and afterwards the expanded value of the tag is the requested one. If a macro is defined several times, the definition closest above is the one updated. Nothing but the tag and the entities it refers to, directly or not, is changed; entities below the tag, in false branches of conditions, with options or matching the protected pattern (by default the package name) never are, and no line is added or lost. Updating the version with a pre-release pattern gives the version with its suffix separated by a tilde.",
     ["inputs"], "every tag whose referenced entities are each reachable in one way only, every requested value; the frame for every tag", "tests update a few tags with simple references",
     ["specfile/specfile.py", "specfile/value_parser.py", "specfile/macro_definitions.py"], [("updating", "specfile/specfile.py: Specfile.update_value, update_tag, update_version"),
                                                                                             ("matching", "specfile/value_parser.py: ValueParser.construct_regex")],
     observe=["Tag.expanded_value", "str(Specfile)"], rule="random graphs of macro definitions and tags with conditional references", level="exploration",
     explanation="expanded value after the update compared with the requested one", assumptions=[RPM, "a macro that is defined several times is not used in bodies of other macros"], bounded=["Specfile.update_value"])

prop("C24", "Options behave as a mapping and keep each other's text",
     "Setting, toggling, deleting or adding an option or a positional argument of a macro or section changes that option only: reading it back gives the value that was set (numbers as numbers), all others keep their values and order, and the string form read again gives the same options. Options absent have their default; names and number of options are those present in the string.",
     ["inputs", "histories"], "every option string of flags, options with attached or separate, quoted or unquoted values and positional arguments; every sequence of operations",
     "tests run single operations on a few strings", ["specfile/options.py"], [("access", "specfile/options.py: Options.__getattr__, __setattr__, __delattr__, Positionals")],
     observe=["Options attributes", "Options.positional", "str(Options)"], rule="random option strings and operation sequences against a dictionary model", level="exploration",
     explanation="operation sequences against a dictionary model", assumptions=["values do not start with a dash and contain no quotes or backslashes"], bounded=["Options.__setattr__ and friends"])

prop("C25", "Equality and representation reflect the content",
     "Tags, comments, macro definitions, changelog entries, prep macros, source-list entries, tokens, value nodes, macros, sources and the collections of them are equal exactly if they are of the same kind and all attributes that make up their text are equal, whether or not they are valid and wherever they come from. Comparison with anything else is False and never raises, equality is symmetric, and objects that are equal and hashable have equal hashes. Two spec file objects are equal exactly if path, content (including the presence of the final newline), autosave and parser settings agree. The representation of such an object evaluates to an equal object.",
     ["inputs"], "all pairs of objects of these classes", "tests compare a few pairs of some classes and never vary one attribute at a time",
     ["specfile/tags.py", "specfile/macro_definitions.py", "specfile/changelog.py", "specfile/prep.py", "specfile/sources.py", "specfile/sourcelist.py", "specfile/options.py", "specfile/value_parser.py", "specfile/macros.py", "specfile/formatter.py", "specfile/specfile.py", "specfile/spec_parser.py"],
     [("equality", "__eq__ of each class"), ("representation", "__repr__ of each class, specfile/formatter.py: formatted")],
     observe=["==", "!=", "hash()", "repr()"], rule="random objects of every class, pairs that differ in one attribute, pairs made separately from the same text; representations evaluated",
     explanation="__eq__ of every class under contract (equal exactly if all content attributes are); representations and collections bounded",
     assumptions=[RPM, "equality of the attributes' values themselves is Python's for strings, numbers and lists"], bounded=["__repr__ and formatter.formatted", "__eq__ of collections inherited from UserList", "Options.__eq__", "__hash__"])

prop("C26", "Copies are independent of the original",
     "A deep copy of a spec file or of any structure obtained from it (sections, tags, comments, macro definitions, sources, source lists, prep, changelog, options) is equal to the original and has the same text. Changing the copy never changes the original and the other way round, and a copy is independently usable after the original is gone.",
     ["inputs", "histories"], "every structure and every edit of one side", "tests copy a few objects", ["specfile/specfile.py", "specfile/tags.py", "specfile/macro_definitions.py", "specfile/prep.py", "specfile/changelog.py", "specfile/options.py", "specfile/sections.py"],
     [("copying", "__deepcopy__ and __copy__ of each class")], observe=["copy.deepcopy()", "==", "get_raw_data()"], rule="random structures, an edit of one side, text of both sides compared", level="exploration",
     explanation="copies of the classes with their own __deepcopy__ under contract; text of both sides compared after edits", assumptions=[RPM], bounded=["__deepcopy__ methods"])


def main():
    base = json.loads((HERE / "baseline.json").read_text()) if (HERE / "baseline.json").exists() else {"proved": {}, "props": {}}
    with open(HERE / "properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                                                         "observe_at": list(p["observe"]), "hook_needed": None}}
            if p["state"]:
                d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
            f.write(json.dumps(d) + "\n")
    lv, checks = {}, []
    for p in P:
        proved = sorted(t for t, ps in base.get("props", {}).items() if p["id"] in ps)
        level = p["level"] if proved else "exploration"
        lv[p["id"]] = {k: p[k] for k in ("rule", "explanation", "assumptions", "bounded")} | {"level": level}
        n = (f"{len(proved)} functions discharged by the verifier for all inputs: {', '.join(proved)}. " if proved else "") + (
            "Bounded (labelled so, never counted as proved): " + (", ".join(p["bounded"]) or "structure of the result (names, values, order)")
            + ", checked by executing the contract on the real code for generated inputs. Assumes: " + "; ".join(p["assumptions"]) + ".")
        checks.append({"property": p["id"], "quick_cmd": f"python3-vt check.py {p['id']} quick", "thorough_cmd": f"python3-vt check.py {p['id']} thorough",
                       "technique": "contracts on the real functions discharged by a deductive verifier (pyvc: symbolic execution with inferred loop laws, z3), "
                       "contract execution on the real code for functions out of its reach" if proved else
                       "contract of the API executed on the real code for generated inputs (bounded stand-in; verifier does not reach these functions)",
                       "level": level, "level_note": n, "evidence_file": f"evidence/{p['id']}.json"})
    (HERE / "levels.json").write_text(json.dumps(lv, indent=1) + "\n")
    (HERE / "MANIFEST.json").write_text(json.dumps({
        "version": 1, "setup_cmd": "python3-vt selftest.py --quick", "checks": checks, "not_applicable": [],
        "notes": "No hooks are needed in /repo. Each check regenerates all obligations from /repo's working tree. See DESIGN.md."}, indent=1) + "\n")


if __name__ == "__main__":
    main()
