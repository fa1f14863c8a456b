#!/usr/bin/env python3
"""Writes known_findings.json (run by hand; no check runs it)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = {}
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    log[s.removeprefix("fix: ")] = h
FIX = [
 ("C05", "report out-of-range values of list options instead of dropping them", "a list option given an out-of-range number silently dropped it (-l 1 -l 99999999999 -l 2 gave {1,2})"),
 ("C09", "report out-of-range values of list options instead of dropping them", "the same call ended without error although the command line was invalid"),
 ("C29", "name the true lower limit of floating point options in the error message", "the message of an invalid floating point value named numeric_limits::min() (1.17549e-38) as lower limit"),
 ("C04", "do not search for short flags after --", "'-- -f' set the flag f and removed the argument"),
 ("C07", "do not search for short flags after --", "a short flag after the terminator set the flag variable"),
 ("C04", "do not take arguments after -- as special requests", "'-- --help' printed the help page instead of delivering '--help'"),
 ("C01", "read path values verbatim", "a std::filesystem::path value with quotes/blanks was unquoted or cut by operator>>"),
 ("C01", "do not mistake the value of an option for another option", "'-o -f' (value '-f' of -o) was taken as flag -f"),
 ("C02", "do not mistake the value of an option for another option", "the outcome of '-o -f' depended on which of the two was declared first"),
 ("C11", "do not mistake the value of an option for another option", "a value equal to an identifier made is_option_set answer true"),
 ("C14", "print a synopsis without blanks", "a synopsis entry without blanks was lost"),
 ("C15", "do not read past the end of help texts ending in a backslash", "heap/stack over-read in the text formatter for a text ending in a backslash"),
 ("C09", "do not read past the end of help texts ending in a backslash", "the over-read was reachable from --help of a parser with such a default value"),
 ("C15", "compute the width of help texts as they are printed", "escapes counted as columns: lines wrapped at wrong widths"),
 ("C16", "escape all texts in the HTML export and keep it well-formed", "texts with <, >, &, quotes produced ill-formed markup; elements were left open"),
 ("C26", "keep declared options valid when a parser is moved", "moving a parser after add_option left the stored operations referring to the moved-from parser (use after free)"),
 ("C21", "only accept file extensions that are preceded by a dot", "'myfa' was accepted for extension 'fa'"),
 ("C19", "output file validation neither deletes unwritable files nor truncates link targets", "validation of an unwritable file removed it; of a link truncated the target"),
 ("C20", "judge output directories independent of a dummy.txt they contain", "a directory containing an unwritable dummy.txt was rejected"),
 ("C19", "judge output directories independent of a dummy.txt they contain", "an existing dummy.txt in a validated directory was truncated and removed"),
 ("C23", "do not access the file system if the version check is disabled", "with notifications disabled a ~/.config/seqan was still created and probed"),
 ("C23", "cope with missing or unusable home and temporary directories in the version check", "parse threw filesystem_error with an unusable HOME/TMPDIR"),
 ("C24", "quote the path of the version file in the shell command", "HOME containing shell syntax was interpreted by the shell"),
 ("C22", "renew the timestamp when a version check is performed", "with decision ALWAYS the time stamp was never renewed: one request per run instead of one per day"),
 ("C15", "end the line of help page entries without text", "an entry without text was joined with the next entry"),
 ("C14", "end the line of help page entries without text", "an entry without text was joined with the next entry"),
 ("C14", "print lists of 8 bit integers as numbers", "defaults of vector<int8_t>/<uint8_t> were printed as raw bytes"),
 ("C10", "reject add_subcommands after parse as documented", "add_subcommands after parse was accepted although documented as an error"),
 ("C28", "do not read past the end of enumeration names", "names that are not NUL-terminated were over-read when a name was compared or listed"),
 ("C14", "always show advanced options in exports as documented", "exports lacked advanced options unless advanced help was asked for"),
 ("C11", "find flags inside clusters in is_option_set", "is_option_set('b') was false for '-ab'"),
 ("C17", "print texts starting with a control character as text in the man page export", "a text starting with '.' or a quote became a formatter request and vanished"),
 ("C06", "keep all values of a list option given by both its identifiers", "values given by the short and by the long identifier of a list option: only those of the long one survived"),
 ("C03", "do not drop empty positional arguments", "an empty positional argument was ignored"),
 ("C25", "cope with overlong and overflowing version records", "a version record of many digits overflowed the stack inside std::regex_match; a component too large for int was read as 0"),
 ("C25", "a version record of a single line says nothing about the version of the library", "the only line of a record without newline was also taken for the version of the library (getline leaves the string alone at the end of the file)"),
 ("C25", "compare versions with components that exceed an int", "version 20261118093000.0.0 compared as 0.0.0: an update to any lower version was announced"),
 ("C28", "reject values of enumerations without any registered name with a user input error", "a value for an option whose type has an empty name table raised std::out_of_range"),
 ("C18", "input file validator rejects directories", "input_file_validator accepted a directory (without extensions, or with a matching name)"),
 ("C20", "accept existing output files in directories that do not permit removal", "a writable existing file in a directory without write permission ended the program in an assertion (debug) or was rejected (release) in mode open_or_create"),
 ("C08", "match the pattern of a regex_validator with a whole path, not with its components", "a std::filesystem::path is a range: the pattern was matched with each of its components"),
 ("C08", "range and value list validators of integers do not convert numbers to their own type", "1.5 was accepted by value_list_validator{0, 1}, uint32_t 4294967295 by {-20, 20}, int64_t 2^32+5 by arithmetic_range_validator{1, 10}; out-of-range conversions of doubles were undefined"),
 ("C08", "a value_list_validator of a single path accepts that path", "value_list_validator{path} took the path for a range of values: its components"),
 ("C02", "do not take the rest of a flag cluster for another identifier", "'-a-bc' was read as -a --bc if the flag a was declared before the long flag bc, and as an error otherwise"),
 ("C03", "do not take the rest of a flag cluster for another identifier", "'-i-' (a flag and a dash that names nothing) was accepted, the dash ignored"),
 ("C01", "accept values of types whose extraction operator does not read beyond the end", "every value of a user type whose operator>> reads exactly one character was rejected"),
 ("C10", "report subcommands that are added after positional options", "add_subcommands after add_positional_option was no design error although the other order is one"),
 ("C09", "do not read the name of the program if there is none", "argc == 0 (an empty argument vector) was undefined behaviour: the name of the program was read unconditionally"),
 ("C01", "do not drop empty positional arguments", "an empty positional argument shifted the following values"),
]
alias = {"do not take arguments after -- as special requests": "do not treat arguments after -- as special requests"}
fixed = []
for p, s, w in FIX:
    fixed.append("fixed: property=%s %s %s" % (p, log[alias.get(s, s)], w))
FINDINGS = [
 {"key": "existing file deleted by open_or_create", "property": "C19",
  "what": "output_file_validator in mode open_or_create removes an existing writable file while validating it "
          "(file_guard deletes what it opened); the existing test validator_test.output_file pins this (its comment says "
          "'Todo: Expected?'), so it is recorded, not repaired"},
 {"key": "crash on a long value of a pattern validator", "property": "C09",
  "what": "-o with a value of a million characters checked by sharg::regex_validator{\"a*\"} overflows the stack inside "
          "std::regex_match (libstdc++ matches recursively, one frame per character); needs another regex engine, so it "
          "is recorded, not repaired"},
]
json.dump({"findings": FINDINGS, "fixed": fixed}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
