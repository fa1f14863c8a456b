import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":["include/sharg/"+f for f in files],"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
FP="detail/format_parse.hpp"; PA="parser.hpp"; FB="detail/format_base.hpp"; FH="detail/format_help.hpp"; VA="validators.hpp"; VC="detail/version_check.hpp"

p("C01","Every accepted spelling delivers exactly the written value",
"For every declared set of options, flags and positional options and every valid command line, a successful parse stores in each bound variable exactly the value written for it, whichever accepted spelling was used (short or long identifier; value attached, after '=', or as the next argument). Every variable that the command line does not mention keeps the value it had before.",
["inputs","configurations"],"all parser set-ups over all supported value types x all valid command lines and spellings",
"The tests fix about two dozen literal command lines with one or two options; they never combine many options, prefix-related identifiers, values that look like identifiers or contain '=', and spellings.",
[FP,PA],[("option look-up and value extraction","format_parse::find_option_id, identify_and_retrieve_option_value, get_option"),("deferred declaration calls","parser::operations / parser::parse")],
[("arguments","what is left of the command line","format_parse::arguments")],["bound variables after parse()"])
p("C02","The outcome does not depend on argument order or declaration order",
"Reordering the option/value and flag groups of a command line (keeping the relative order of positional arguments and of the values of one list option), or declaring the same options and flags in another order, never changes the outcome: the same success with the same values, or a failure in both cases.",
["inputs","configurations"],"all command lines without '-'-leading ambiguous values x all their permutations x all declaration orders",
"Two tests permute one three-option command line; no test permutes clusters, lists, positionals interleaved with options, or failing command lines.",
[FP,PA],[("options, then flags, then positionals","format_parse::parse"),("erasing consumed arguments","identify_and_retrieve_option_value, flag_is_set, get_positional_option")],None,["outcome and bound variables of permuted runs"])
p("C03","No argument is silently ignored; wrong usage gets its own error",
"A successful parse has used every argument given. A command line with an undeclared option or flag, a surplus or missing positional argument, an option without its value, a flag or non-list option given more than once (also when once by its short and once by its long identifier, or twice in a cluster), or a missing required option is rejected, with the documented error class for that mistake.",
["inputs","configurations"],"all parser set-ups x valid command lines with one injected mistake at any place",
"Tests inject each mistake once, at one place of one tiny command line; whether it is caught at every place and in combination with every other feature is universally quantified.",
[FP,"exceptions.hpp"],[("leftover checks","check_for_unknown_ids, check_for_left_over_args"),("duplicate detection","get_option_by_id, get_option"),("missing values","identify_and_retrieve_option_value, get_positional_option")],None,["class of the exception leaving parse()"])
p("C04","Everything after a lone '--' is positional, verbatim",
"After the first argument '--' that is not itself the value of an option, every argument is treated as a positional argument and delivered verbatim, even if it looks like a declared option, flag, flag cluster, special request such as --help, or another '--'; the terminator itself is never delivered.",
["inputs","configurations"],"all parser set-ups x all argument lists after the terminator",
"One test passes two harmless arguments after '--'; none passes arguments that look like declared flags, clusters or special requests.",
[FP,PA],[("end of options","format_parse::parse end_of_options_it"),("format detection","parser::determine_format_and_subcommand")],None,["positional variables, flags and options after parse()"])
p("C05","Numbers and booleans are converted exactly or rejected",
"For every integer, floating point and boolean option (scalar or list element), a text is accepted if and only if the complete text is a decimal number (or 0/1/true/false for booleans) representable in the bound type, and then exactly that value is stored; any other text, in particular out-of-range values, trailing characters, blanks, plus signs or an empty text, is rejected with a user input error. Nothing is ever wrapped, truncated or dropped.",
["inputs"],"all texts for all arithmetic value types, as option, list option, positional and positional list",
"The tests try a handful of literals per type and no out-of-range element of a list; the domain is all texts around all type boundaries.",
[FP,"std/charconv"],[("conversion","parse_option_value overloads"),("error reporting","throw_on_input_error")],None,["bound variables; exception class"])
p("C06","List options collect all values in order and replace the default",
"A list option (any supported container) ends up with exactly the values given for it on the command line, in command line order, with nothing of its default content left if it was given at least once and its default untouched otherwise. A positional list collects all remaining positional arguments in order.",
["inputs","configurations"],"all container types, default contents, numbers and placements of occurrences and spellings",
"Tests use one or two list options with at most three values in adjacent places; short and long spellings are hardly mixed.",
[FP],[("list retrieval","get_option_by_id (container), get_option, get_positional_option")],None,["bound containers after parse()"])
p("C07","Flag clusters equal separate flags",
"A flag variable is true after a successful parse exactly if its short or long identifier was given before the terminator, alone or anywhere inside a cluster of short flags; a cluster '-abc' behaves like '-a -b -c' in every order and split. A cluster that contains an undeclared letter makes the parse fail.",
["inputs","configurations"],"all sets of declared flags x all partitions and orders of any subset into clusters, mixed with options, lists and positionals",
"Tests cover one cluster of three flags; partitions, orders, and interference with options and positionals are unbounded.",
[FP],[("cluster handling","flag_is_set, get_flag"),("unknown letters","check_for_unknown_ids, expand_multiple_flags")],None,["flag variables; exception class"])
p("C08","A value is accepted exactly if its validators accept it",
"A value given for an option or positional argument is accepted if and only if every validator attached to it (alone, chained, built in or user defined; for lists: for every element) accepts it, where built-in range, value-list and pattern validators mean closed interval, membership and full match. Chained validators are run left to right, each at most once per value, stopping at the first rejection; a rejection, whatever exception it raises, surfaces as a validation error, and an option that was not given is not validated.",
["inputs","configurations"],"all values x all validator parameters, chains and value types, as options, lists and positionals",
"Tests use one range, one pattern and short lists with few values; interval end points, special values, chain order and per-element behaviour are sampled once.",
[VA,FP],[("built-in predicates","arithmetic_range_validator, value_list_validator, regex_validator"),("chaining","validator_chain_adaptor"),("running them","get_option, get_positional_option")],None,["exception class; calls seen by probe validators"])
p("C09","Any command line is answered without crash or undefined behaviour",
"Whatever bytes the user passes as arguments, parsing ends in one of three ways: it returns, it ends the program with exit status 0 after a special request, or it throws an exception of the library's documented error hierarchy that is not a developer (design) error. It never crashes, hangs, aborts on an assertion or executes undefined behaviour, in debug and in release builds.",
["inputs","configurations"],"all byte strings as arguments x all valid parser set-ups x debug/release builds",
"The tests only feed well-formed text, run without sanitizers and only in one build type.",
[FP,PA,FB,"exceptions.hpp"],[("argument handling","determine_format_and_subcommand, find_option_id, flag_is_set, expand_multiple_flags"),("error messages","throw_on_input_error, parse_option_value")],None,["process status, exception type, sanitizer reports"])
p("C10","Developer misuse is reported at once; correct set-ups never are",
"Each documented misuse of the interface (invalid, empty, duplicate or reserved identifiers, flags that default to true, default messages on required options, flags or positionals, identifiers or visibility settings on positionals, anything positional after a positional list, positionals next to subcommands, declarations after parsing, parsing twice, querying unknown or unparsed options, invalid application or subcommand names) raises a design error at the offending call (names: when parsing starts). A set-up that breaks none of the rules never raises one.",
["programs","configurations"],"all sequences of declaration calls with all identifiers, including every single byte as identifier character",
"Tests try each rule with one or two hand-picked identifiers; acceptance of all legal and rejection of all illegal identifiers and call orders is not enumerated.",
[PA],[("checks","verify_identifiers, verify_option_config, verify_flag_config, verify_positional_option_config, check_parse_not_called, verify_app_and_subcommand_names")],[("used_ids","identifiers already taken","parser::used_ids")],["exception class per call"])
p("C11","Asking whether an option was set tells the truth",
"After a successful parse, asking for a declared option or flag by its identifier answers true exactly if that identifier spelling occurred on the command line before the terminator as an identifier, never because of an argument that is a value, a positional argument, or another identifier with a common prefix. Asking never changes any value and can be repeated.",
["inputs","configurations"],"all parser set-ups with prefix-related identifiers x all valid command lines x all declared identifiers",
"One test asks for three identifiers on one command line; prefixes, values and clusters are not explored.",
[PA,FP],[("look-up","parser::is_option_set, format_parse::find_option_id")],[("format_arguments","arguments of this parser","parser::format_arguments")],["return value of is_option_set"])
p("C12","Subcommand keyword splits the command line between parsers",
"With subcommands declared, the first argument that equals a subcommand name and is not the value of a preceding option selects the sub-parser, which receives exactly the arguments after it, in order; everything before it belongs to the top-level parser. A word that is neither is rejected as a user input error, special requests before the keyword concern the top-level parser and after it the sub-parser, and this holds at every nesting depth.",
["inputs","configurations"],"all parser trees x all command lines",
"Tests use one two-level tree (and one recursion) with few command lines.",
[PA],[("routing","parser::determine_format_and_subcommand found_subcommand"),("sub-parser","parser::get_sub_parser")],[("sub_parser","the selected sub-parser","parser::sub_parser")],["values of both parsers; sub-parser name; exit"])
p("C13","Special requests print to stdout, exit 0 and touch nothing",
"A request for help, advanced help, version, copyright or an export given as an argument of its own before the terminator, and not as the value of an option, makes parsing print exactly that document to standard output and end the program successfully, whatever other (even invalid) arguments follow it (except that, with subcommands declared, a word that is none of them is still rejected); an empty command line prints the short help the same way. No bound variable is changed, no validator runs, nothing is written to standard error; an unsupported or missing export format and a missing or non-boolean value of the update-check switch are rejected with an error instead.",
["inputs","configurations"],"all parser set-ups x all command lines containing special requests at any place",
"Tests request each document alone; combinations with invalid arguments, option values that look like requests, and untouched variables are not covered.",
[PA,FH],[("detection","parser::determine_format_and_subcommand"),("exit","parser::parse")],None,["process status, stdout, stderr, variables at exit"])
p("C14","Every help form lists exactly the visible interface",
"In help, HTML and man output every visible option, flag, positional argument, section, line, list item, subcommand and piece of meta data appears with its full text, exactly once and in declaration order, including value type, default (or default message), and validator description; required options show no default. Hidden entries never appear, advanced ones appear in the advanced help and the exports but not in the normal help, and the short help shows only the synopsis.",
["configurations"],"all parser set-ups x all help forms",
"Tests compare a few fixed pages literally; no arbitrary combination of attributes, types, defaults and entry order is checked.",
[FB,FH,"detail/format_html.hpp","detail/format_man.hpp","config.hpp"],[("collecting entries","format_help_base::add_option/add_flag/add_positional_option/add_section/..., store_help_page_element"),("printing","format_help_base::parse, print_version, print_legal")],None,["stdout of the special request"])
p("C15","Console help wraps at the terminal width without losing words",
"In the console help every text is printed completely, word by word in order, for every terminal width; no line is longer than the layout width (terminal width clamped to 40..120 columns, 80 if unknown) unless a single word or term alone does not fit. Every entry starts on a line of its own with its indentation. Emphasis is shown by control sequences on a terminal and leaves no trace in output that is no terminal.",
["inputs","configurations"],"all texts (including escape sequences) x all terminal widths",
"Tests run with one fixed width and short texts.",
[FH],[("wrapping","format_help::print_text, text_width, to_text"),("width","console_layout_struct, get_terminal_width")],None,["stdout on a pseudo terminal of chosen width"])
p("C16","HTML export is well formed and escapes all text",
"For every set of texts the HTML export is well-formed markup: every opened element is closed in the right nesting, and characters with a meaning in HTML coming from names, descriptions, defaults or meta data appear escaped, so that the rendered text equals the original text with formatting escapes turned into emphasis.",
["inputs","configurations"],"all texts as description, default, meta data, section, line and list item",
"The only two tests use plain words without any special character.",
["detail/format_html.hpp",FB],[("conversion","format_html::to_html, escape_special_xml_chars, in_bold"),("element state","maybe_close_list, maybe_close_paragraph")],None,["stdout parsed by an HTML parser"])
p("C17","Man page export keeps every text line as text",
"For every set of texts the man page export has a title line and a NAME section, one macro line per section, subsection and entry, and every text occurs as text: no text supplied by the developer or stemming from a default can become a formatter request.",
["inputs","configurations"],"all texts as description, default, meta data, section, line and list item",
"Tests compare fixed pages of plain words.",
["detail/format_man.hpp",FB],[("printing","format_man::print_*")],None,["stdout"])
p("C18","Input validators reflect the file system",
"An input file validator accepts a path exactly if it names an existing regular file (following links) that the calling user can read and that has an accepted extension; an input directory validator exactly if it names an existing directory whose content the user can list. Everything else is rejected with a validation error, for single paths and for every element of a list.",
["inputs","configurations"],"all file system objects (files, directories, links, dangling links, loops, fifos, devices, permissions, odd names) as root and as unprivileged user",
"Tests check one file, one directory and one permission case, and skip permissions when run as root.",
[VA],[("predicates","input_file_validator, input_directory_validator, validate_readability")],None,["exception class; the scratch file system"])
p("C19","Validating output paths leaves the file system unchanged",
"Whatever path an output file or output directory validator checks, and whether it accepts or rejects it, afterwards every file, directory and link that existed before still exists with the same content and permissions, and nothing new is left behind. Input validators never modify anything either.",
["inputs","fault_sequences"],"all file system states x all paths x both open modes x users with and without write permission",
"Tests look only at the return of the validator and at fresh paths, never at existing content.",
[VA,"detail/safe_filesystem_entry.hpp"],[("write probe","validate_writeability, output_directory_validator"),("clean up","safe_filesystem_entry")],None,["snapshot of the scratch directory before and after"])
p("C20","Output validators accept exactly the writable paths",
"An output file validator accepts a path exactly if the user could create (or, in the mode that allows overwriting, write) that file there, it is not a directory, it does not exist yet in the create-only mode, and it has an accepted extension; an output directory validator accepts exactly an existing directory the user can write into or a directory the user could create. Everything else is rejected with a validation error.",
["inputs","configurations"],"all file system states x paths x modes x privileged/unprivileged user",
"Tests check few states and skip permission cases for root.",
[VA],[("predicates","output_file_validator, output_directory_validator, validate_writeability")],None,["exception class; the scratch file system"])
p("C21","File extensions match whole, case-insensitive suffix components",
"With a non-empty list of valid extensions a file name is accepted exactly if, ignoring case and ignoring one leading dot of a hidden file, it ends with a dot followed by one of the extensions (which may themselves contain dots, such as fa.gz); a name without extension is rejected. With an empty list every name is accepted.",
["inputs"],"all file names x all extension lists",
"Tests try about ten names; in particular no name that ends with the letters of an extension without the dot.",
[VA],[("matching","file_validator_base::validate_filename, case_insensitive_string_ends_with")],None,["exception class"])
p("C22","The update check runs only when developer, environment and user allow it",
"An update request is started exactly if the developer did not disable notifications, the opt-out environment variable is unset, and the user asked for it on the command line or, without such an instruction, the stored decision is to always check and is at least a day old or the user answers a prompt with yes/always; the prompt appears only on a terminal and only if no decision is due from the stored state. The user's answer and time are stored so that later runs, of the same application only, honour it.",
["configurations","histories"],"all combinations and sequences of developer setting, environment, switch, stored state, terminal and answer",
"Tests cover single decisions with hand-written state files and never a terminal or a sequence of runs.",
[VC,PA],[("decision","version_checker::decide_if_check_is_performed"),("state","write_cookie, get_time_diff_to_current")],[("timestamp file","time and decision of the last run","~/.config/seqan/<app>_{dev,usr}.timestamp")],["commands handed to the shell stand-in; files in the scratch home; stderr"])
p("C23","Opting out leaves no trace",
"If notifications are disabled by the developer, by the environment variable or by the switch on the command line, parsing starts no process and no thread, asks nothing, prints nothing about updates and creates, changes or deletes no file; an unusable or missing home directory never makes parsing fail.",
["configurations","fault_sequences"],"all opt-out combinations x all states of home and temporary directory",
"Tests check only that no state file of this application is written and always have a fresh usable home.",
[VC,PA],[("opt-out","decide_if_check_is_performed"),("location of state","get_path")],None,["file system snapshot; shell stand-in; exception type"])
p("C24","The update request is safe, single and never changes the parse",
"If a check is performed, at most one request is started per parse; the only external commands are the download tool tests and one download whose arguments are the server address with application name, version and platform and the target file, with no way for names, versions or directories to inject anything else into the shell. The request runs in the background without data races, and whatever it does (success, failure, slowness, corrupt answers) parsing returns promptly with the same values, output and errors as without it.",
["schedules","configurations","fault_sequences"],"all application names/versions/home directories x results and delays of the external commands x interleavings of the background thread with parsing and destruction",
"Tests tolerate any outcome of the request since the server is unreachable, and never run with a race detector.",
[VC,PA],[("command","version_checker::operator(), get_program"),("background call","call_server"),("waiting","parser::~parser")],None,["commands handed to the shell stand-in; ThreadSanitizer; timing"])
p("C25","Update notices match the versions on record",
"The notices printed by an update check are exactly those implied by comparing the recorded and the running versions numerically component by component (user build: newer application version; developer build: newer library version, application version ahead of the record, unregistered application). Missing, empty or malformed records produce no notice and no failure.",
["inputs","configurations"],"all contents of the version record x all application versions x debug/release builds",
"Tests use four literal records.",
[VC],[("comparison","version_checker::operator(), get_numbers_from_version_string")],None,["stderr"])
p("C26","A parser can be moved or destroyed at any time",
"Moving a parser (by construction or assignment, also after the source is gone, also with sub-parsers) at any point between its calls gives a parser that behaves exactly like the unmoved one; destroying parsers in any order and at any point is safe. No operation accesses dead objects.",
["histories","programs"],"all interleavings of declarations, moves, assignments, parsing, queries and destruction",
"Tests move a parser only right after construction.",
[PA],[("deferred calls","parser::operations"),("defaulted moves","parser(parser &&), operator=")],[("operations","deferred declarations","parser::operations")],["values and exceptions compared with the unmoved run; AddressSanitizer"])
p("C27","Parsers are independent of each other and deterministic",
"Parsing the same command line with the same set-up always gives the same outcome, output and messages, no matter which other parsers were used before in the process or are used concurrently in other threads; using separate parsers in separate threads is free of data races.",
["schedules","histories"],"all pairs and sequences of independent parser uses, sequential and concurrent",
"All tests are single threaded and use fresh processes or parsers.",
[PA,FP,"enumeration_names.hpp","validators.hpp"],[("no shared mutable state","function-local and per-parser state only")],None,["outcomes of concurrent and repeated runs; ThreadSanitizer"])
p("C28","Named values of enumerations are a faithful dictionary",
"For an option whose type has registered value names, a text is accepted exactly if it equals one of the names and then yields the value registered for it; otherwise the user input error lists every registered name exactly once, ordered by value and then by name. The help shows the default by one of its registered names.",
["inputs","configurations"],"all texts x all registered name tables (ordered, unordered, several names per value, odd names)",
"Tests use two tables and few texts.",
["enumeration_names.hpp",FP],[("look-up","format_parse::parse_option_value (named_enumeration)"),("printing","operator<<")],None,["values; exception class and message; help output"])
p("C29","Error messages name the culprit",
"Whenever a command line is rejected because of a particular option, value or unknown argument, the message names that option identifier (as declared), the rejected value, or the unknown argument; a conversion error also names the expected type or valid range with its true limits, and an unknown subcommand error lists the available ones.",
["inputs","configurations"],"all parser set-ups x all command lines with one mistake",
"Tests compare literal messages of a few single cases.",
[FP,PA],[("messages","throw_on_input_error, combine_option_names, check_for_unknown_ids, expand_multiple_flags")],None,["what() of the exception leaving parse()"])
p("C30","The CTD and CWL exports describe every declared parameter",
"When the library is built with tool description support, the CTD and CWL exports are valid documents that list each declared option, flag and positional argument with its type, default and restrictions.",
["configurations"],"all parser set-ups",
"Only a few literal documents are compared, and only where the external library is available.",
["detail/format_tdl.hpp"],[("export","format_tdl::parse")],None,["stdout"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
print(len(P))
