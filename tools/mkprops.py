#!/usr/bin/env python3
"""Source of truth for properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "BUFR encode then decode returns the same bulletin",
 "For every BUFR bulletin whose subsets match its data descriptors and whose header values fit the edition's fields, encoding it (edition 2, 3 or 4) and decoding the result gives back the same header fields, optional section, descriptors, number of subsets, variables in the same order with the same exact values (or missing), and the same attributes. This holds for plain elements, strings, table D sequences, fixed and delayed (also nested) replications, width/scale/reference/string-length operators, associated fields, character data, local descriptors, and quality or substituted-value attributes selected by bitmaps. (Precisely: the optional section comes back padded to an even length, strings without trailing blanks, values are those inside their variable's range, and before edition 4 the year is the one implied by the year of the century.)",
 ["inputs", "programs"], "All editions, header values, table versions, descriptor lists (treated as small programs) and all values/missing patterns in the subsets.",
 "The tests round-trip a few dozen sample files and a handful of hand-made messages; operator combinations, edge values (minimum, maximum, missing), nested replication counts and header extremes are not sampled.",
 ["wreport/bufr_encoder.cc", "wreport/bufr/decoder.cc", "wreport/bufr/input.cc", "wreport/buffers/bufr.cc", "wreport/bulletin/interpreter.cc", "wreport/bulletin/internals.cc", "wreport/bulletin/associated_fields.cc"],
 [("encoder walks the DDS", "bufr_encoder.cc"), ("decoder walks the same DDS", "bufr/decoder.cc")],
 ["BufrBulletin::encode", "BufrBulletin::decode", "Bulletin::diff"])

prop("C02", "BUFR decoding and encoding follow the WMO FM-94 wire format",
 "For every well-formed BUFR message laid out according to the FM-94 rules, compressed or not, decoding yields exactly the values, missing markers, attributes and header fields an independent implementation of the format put in it, and the same data sent compressed and uncompressed decodes to the same subsets. For every encodable bulletin the bytes written (section lengths, total length, flags, descriptors, and each data field's bit pattern in order) are the ones the format prescribes. Coverage is the operators the library supports: C01, C02, C03, C04, C05, C06, C07, C08, C22, C23, C36, C37; C03, C05 and C06 on unknown local descriptors are considered in uncompressed messages only.",
 ["inputs", "programs"], "All well-formed messages over the shipped WMO tables: editions, descriptor programs, values, subset counts, compression layouts (base value, difference width, missing differences, string differences).",
 "A symmetric mistake in encoder and decoder passes any round trip; tests compare against a fixed set of sample files only, with few compressed ones.",
 ["wreport/bufr/input.cc", "wreport/bufr/decoder.cc", "wreport/buffers/bufr.cc", "wreport/bufr_encoder.cc", "wreport/bulletin/interpreter.cc", "wreport/varinfo.cc"],
 [("bit-level input", "bufr/input.cc"), ("compressed target", "bufr/decoder.cc"), ("bit-level output", "buffers/bufr.cc")],
 ["BufrBulletin::decode on reference-encoded bytes", "bytes from BufrBulletin::encode"])

prop("C03", "CREX encode then decode returns the same bulletin",
 "For every CREX bulletin whose subsets match its descriptors (elements, fixed and delayed replications, table D sequences) and whose values fit their CREX field widths, the text produced by encoding has the FM-95 layout (sections, field widths, signs, slashes for missing) and decoding it gives back the same header fields, descriptors, subsets, variables and values. A reference-written CREX text, with or without check digits, decodes to the values it was written from. Header fields are the ones the text has a place for, strings are printable ones that do not start or end with a blank and are not made of slashes only, numeric values that do not fit an integer are rejected; C operators and explicit replication factor descriptors are outside of this property.",
 ["inputs", "programs"], "All CREX editions/table versions/header values, descriptor programs and in-range or missing values.",
 "Tests re-encode a few sample files; sign handling, width limits, missing values, check digits and replication counts are not varied.",
 ["wreport/crex_encoder.cc", "wreport/crex_decoder.cc", "wreport/buffers/crex.cc"],
 [("text field writer/parser", "buffers/crex.cc")],
 ["CrexBulletin::encode", "CrexBulletin::decode"])

prop("C04", "Decoding arbitrary bytes as BUFR is memory-safe and ends cleanly",
 "For any byte string, decoding it as BUFR (full, header only or verbose) either returns a bulletin or throws one of the library's exceptions: it never crashes, never reads or writes outside its buffers, never executes undefined behaviour, never leaks memory, and returns. A bulletin returned from such a decode can be inspected, printed, compared and destroyed safely, and a truncated message is rejected rather than completed from memory beyond its end.",
 ["inputs", "fault_sequences"], "All byte strings: random, mutated and truncated real messages, and messages built from arbitrary (also illegal) descriptor programs.",
 "Tests decode two AFL-found inputs and a few corrupted files; the input space is unbounded and memory errors need sanitizers to be seen.",
 ["wreport/bufr/input.cc", "wreport/bufr/input.h", "wreport/bufr/decoder.cc", "wreport/bulletin/interpreter.cc", "wreport/bulletin/bitmaps.cc", "wreport/tables.cc", "wreport/vartable.cc"],
 [("available data checks", "bufr/input.cc"), ("alteration range checks", "vartable.cc")],
 ["BufrBulletin::decode / decode_header / decode_verbose under ASan+UBSan"])

prop("C05", "Decoding arbitrary text as CREX is memory-safe and ends cleanly",
 "For any byte string, decoding it as CREX (full, header only or verbose) either returns a bulletin or throws one of the library's exceptions: it never crashes, never reads or writes outside its buffers, never executes undefined behaviour, never leaks memory, and returns (no endless loop). A bulletin returned from such a decode can be inspected, printed and destroyed safely.",
 ["inputs", "fault_sequences"], "All byte strings: random, mutated, truncated and grammar-generated CREX text.",
 "Tests decode a handful of valid files; malformed text is not explored.",
 ["wreport/crex_decoder.cc", "wreport/buffers/crex.cc"],
 [("end-of-input checks", "buffers/crex.cc")],
 ["CrexBulletin::decode / decode_header / decode_verbose under ASan+UBSan"])

prop("C06", "A variable only ever holds values in its domain; bad values obey options",
 "Setting a variable from an integer, a real, a string or another variable stores exactly the requested value (rounded to the variable's scale) when it lies in the variable's range; otherwise the variable becomes unset and an error is raised by default, becomes unset silently, takes the nearest bound, or is handed to the user's hook, as the domain-error options say. Whatever is set, a set numeric variable's raw value always lies in the range of its Varinfo and reading an unset variable always raises an error.",
 ["inputs", "configurations"], "All Varinfo definitions (type, scale, width, reference, BUFR or CREX), all int/double/string inputs including NaN, infinities, extremes and over-long digits, and all option combinations.",
 "Tests set a few values on a few variables; boundaries, overflows and the option matrix are not covered.",
 ["wreport/var.cc", "wreport/options.h", "wreport/varinfo.cc"],
 [("checked assignment", "var.cc assign_*_checked")],
 ["Var::seti/setd/setc/sets/setf/setval, enqi/enqd/enqc/enqs, options"])

prop("C07", "Variables behave as values under any history of copy/move/attr operations",
 "After any sequence of construct, set, unset, copy, move, assign, self-assign, seta, unseta, setattrs, setval and clear operations, each variable has exactly the definition, value and code-ordered attribute set a simple value model predicts; a moved-from variable is unset and without attributes but usable; copies are independent of their source. No operation sequence leaks memory, frees twice or touches freed memory.",
 ["histories"], "All sequences of operations over several variables of all types (integer, decimal, string, binary), set or unset, with and without attributes.",
 "Tests exercise one operation at a time on fresh variables; aliasing and ownership mistakes need specific sequences across differing definitions.",
 ["wreport/var.cc", "wreport/var.h"],
 [("copy/move/assign", "var.cc"), ("attribute chain", "var.cc seta/unseta")],
 ["Var public API, allocator byte counts, ASan"])

prop("C08", "Text forms of a variable round trip exactly",
 "For every set numeric variable, setting a variable of the same definition from its formatted text, from its raw string or from its raw integer gives back the same value, and the formatted text is the exact decimal representation of the value with the number of decimals given by the scale. String variables reproduce their text up to the field length, binary variables format as two hex digits per byte, and stream and string formatting agree. The exact decimal text applies while the value is within the 2^53 precision of a real number.",
 ["inputs"], "All variable definitions (scale from strongly negative to strongly positive, all widths) and all raw values in range, all strings.",
 "Tests format a handful of values; long numbers, negative scales and extremes are not sampled.",
 ["wreport/var.cc"], [("format/setf", "var.cc"), ("fast int to string", "var.cc")],
 ["Var::format, setf, enqc, enqs, setc, sets, print"])

prop("C09", "Unit conversions are exact inverses with the right physical factors",
 "For every pair of units the library converts between, the conversion applies the physically correct factor and offset, converting there and back returns the original value within floating-point tolerance, converting through an intermediate unit agrees with the direct conversion, and identical units leave the value unchanged bit for bit. Unknown pairs always raise an error instead of returning a number. Precision of the factors is the one of their published decimal values.",
 ["inputs"], "All ordered pairs of unit names known to the library plus unknown names, all finite doubles.",
 "Tests check a few pairs at one value in one direction.",
 ["wreport/conv.cc", "wreport/conv.h"], [("conversion repository", "conv.cc")],
 ["convert_units, Var::setval"])

prop("C10", "Legacy code-table conversions stay consistent over their whole domain",
 "For every input code, the AOF and WMO code conversions (cloud type, height and amount, weather, past weather, vertical significance, sounding significance, octants) return the value the documented table gives or raise an error, pairs of conversions that are inverse of each other compose to the identity where both are defined, and degrees map to the octant containing them. The code tables' bit values are distinct and as documented. Codes are the ones of the tables' documented domain (weather 0..99 or 0..9, non negative).",
 ["inputs"], "All integer codes in and around the tables' ranges, all angles.",
 "Tests check single codes only.",
 ["wreport/conv.cc", "wreport/codetables.h"], [("switch tables", "conv.cc")],
 ["convert_* functions"])

prop("C11", "Varinfo ranges and encode/decode functions are mutually consistent",
 "For every variable definition (scale, bit width, reference, digits, unit), the type follows the unit and scale, the integer range is exactly the set of raw values that both the BUFR field (leaving out the all-ones missing pattern) and the CREX digits can represent, and the real range is that range scaled. For every raw value in range decimal and binary encode/decode are mutual inverses, order preserving, and the encoded bits fit the field width. Ten digits or more do not restrict the range below the 32-bit integer range.",
 ["inputs"], "All Varinfo definitions accepted by the table loaders or by query_altered, all raw values in range.",
 "Tests check a few definitions from the tables.",
 ["wreport/varinfo.cc", "wreport/varinfo.h"], [("compute_range", "varinfo.cc"), ("encode/decode", "varinfo.cc")],
 ["_Varinfo::set_bufr/set_crex, encode_decimal, decode_decimal, encode_binary, decode_binary"])

prop("C12", "Loading a table B returns exactly the entries in the file",
 "For every well-formed table B file, querying the loaded table returns exactly the definition written in the file for each code, codes not in the file are reported missing by contains and by query, iteration yields each entry once in code order, and malformed lines are rejected with an error instead of being misread. Altered definitions (changed scale, width or reference) differ from the base entry only in the requested fields, are stable when asked for again in any order, and never disturb the base entry or other alterations. Malformed means lines too short or too long, or entries out of order or duplicate.",
 ["inputs", "histories"], "All shipped tables and generated table files (valid and malformed lines), and all sequences of queries and alterations.",
 "Tests query a few codes of one table; alteration chains and malformed lines are not explored.",
 ["wreport/vartable.cc", "wreport/vartable.h"], [("line parser", "vartable.cc"), ("alteration chain", "vartable.cc query_altered")],
 ["Vartable::load_bufr/load_crex, query, contains, query_altered, iterate"])

prop("C13", "Loading a table D returns exactly the sequences in the file",
 "For every well-formed table D file, querying a code returns exactly the list of descriptors written for it, in order, codes not in the file are reported with an error, and malformed files (bad fields, missing counts) are rejected with an error rather than answered wrongly. Recursive expansion of any shipped sequence equals the expansion computed independently from the file. Entries out of order are tolerated; of a duplicate sequence, the last one counts.",
 ["inputs"], "All shipped D tables, all codes, and generated valid and malformed files.",
 "Tests query one or two entries.",
 ["wreport/dtable.cc", "wreport/opcodes.h"], [("table parser and binary search", "dtable.cc")],
 ["DTable::load_bufr/load_crex, query, Tables"])

prop("C14", "Table lookup picks the closest usable table deterministically",
 "For every table identification (centre, subcentre, master table, version, local version, BUFR or CREX), lookup over a set of table directories returns the entry the documented preference order ranks best, the choice does not depend on the order in which tables were added or on earlier lookups, never returns a table older than requested when a newer one exists, and an exact match is always preferred. The preference comparison is a consistent order. Between equally good tables, the directory added first wins, then the file name.",
 ["inputs", "histories", "configurations"], "All sets of table files in one or more directories, all requested identifications, all query orders.",
 "Tests check a handful of requests against the shipped tables.",
 ["wreport/tableinfo.cc", "wreport/internals/tabledir.cc"], [("is_acceptable_replacement / closest_match", "tableinfo.cc"), ("Query/search", "internals/tabledir.cc")],
 ["tabledir::Tabledirs::find_bufr/find_crex, BufrTableID/CrexTableID"])

prop("C15", "Reading a stream returns every message, intact and in order",
 "For any file made of BUFR (or CREX) messages interleaved with arbitrary other bytes that contain no message start, reading returns exactly the messages in order with their right file offsets and bytes, then end of file, and leaves the stream after each message. A message cut short by the end of the file is reported as an error, and writing messages then reading them back is the identity. A BUFR message whose declared length is less than the minimum of 12 is an error, and so is a failure to read or write. A CREX message ends at the first end mark (two plus signs, newlines, 7777).",
 ["inputs", "histories", "fault_sequences"], "All message sequences, all junk between them (including partial or overlapping signatures), all truncation points.",
 "Tests read files with one message and no junk.",
 ["wreport/bulletin.cc"], [("seek_past_signature", "bulletin.cc"), ("BufrBulletin::read / CrexBulletin::read", "bulletin.cc")],
 ["BufrBulletin::read/write, CrexBulletin::read/write"])

prop("C16", "diff reports zero exactly for equal bulletins and variables",
 "Comparing a bulletin (BUFR or CREX), subset or variable with an identical copy reports zero differences, and changing any single header field, descriptor, subset count, variable, value, missing state or attribute makes the comparison report at least one difference, in both directions. Variable equality agrees with diff being zero. What is compared is the content: not the compression flag, file name, offset or buffer positions.",
 ["inputs"], "All bulletins and all single mutations of them.",
 "Tests compare only identical bulletins after a round trip; a comparison that ignores a field passes every such test.",
 ["wreport/bulletin.cc", "wreport/subset.cc", "wreport/var.cc", "wreport/notes.cc"], [("diff / diff_details", "bulletin.cc")],
 ["Bulletin::diff, Subset::diff, Var::diff, Var::operator=="])

prop("C17", "Variable codes and descriptor lists parse, print and slice correctly",
 "Every F-X-Y code formats to a text that parses back to the same code, in both the letter and the numeric form, and text that is not a code is rejected with an error. A descriptor list view behaves as an immutable sequence: indexing, popping and splitting from the left return exactly the corresponding elements and out-of-range access yields the documented result or an error, never other memory.",
 ["inputs", "histories"], "All 65536 codes, all short strings, all lists and all sequences of pop/slice operations.",
 "Tests check a few codes and one list.",
 ["wreport/varinfo.cc", "wreport/opcodes.h", "wreport/opcodes.cc"], [("varcode_parse/format", "varinfo.cc"), ("Opcodes", "opcodes.h")],
 ["varcode_parse, varcode_format, Opcodes"])

prop("C18", "Options are per thread and scoped overrides always restore them",
 "A scoped override of an option takes effect for the thread that made it only, for its lifetime only, and restores the previous value when left in any way, including by exception and when nested; other threads never observe it. Concurrent threads working on their own variables, tables and messages already loaded get the same results as when run alone. Loading tables for the first time from several threads at once is not included.",
 ["schedules", "histories"], "All nestings of overrides, all exits, and interleavings of several threads.",
 "Tests set one option in one thread.",
 ["wreport/options.h", "wreport/options.cc", "wreport/var.cc"], [("LocalOverride", "options.h"), ("thread_local options", "options.cc")],
 ["options::var_*, LocalOverride"])

prop("C19", "Bitmaps attach each quality or substituted value to the right variable",
 "For every message with data-present bitmaps (quality information and substituted values, freshly defined, reused, cancelled, with any pattern of present/absent bits, compressed or not), each value decoded after the bitmap becomes an attribute of exactly the variable the corresponding present bit points to and of no other, and encoding puts it back in the same place. A bitmap that cannot be applied is rejected with an error.",
 ["inputs", "programs"], "All bitmap sizes, patterns, subsets containing replication counts and other bitmaps, reuse histories.",
 "Tests decode a few sample files with bitmaps and check few attributes.",
 ["wreport/bulletin/bitmaps.cc", "wreport/bulletin/interpreter.cc", "wreport/bufr/decoder.cc", "wreport/subset.cc"], [("Bitmap iteration", "bulletin/bitmaps.cc"), ("append_dpb", "subset.cc")],
 ["BufrBulletin::decode/encode, Subset::append_fixed_dpb, Subset::append_dpb"])

prop("C20", "Encoding never silently writes a message that says something else",
 "For any BUFR or CREX bulletin, however inconsistent (too few or too many variables, wrong codes, wrong replication counts, values or attributes that do not fit their fields), encoding either throws a library error or produces a message that decodes to the same values, with no crash or undefined behaviour. The descriptor validator accepts the bulletins the encoder accepts and rejects those whose variables do not match the descriptors. The same values means equal up to the precision of the field; attributes the template has no place for are not written, and all-ones fields mean missing.",
 ["inputs", "fault_sequences"], "All bulletins obtained from valid ones by arbitrary edits to subsets, descriptors and values.",
 "Tests encode valid bulletins only, and validate only valid ones.",
 ["wreport/bufr_encoder.cc", "wreport/crex_encoder.cc", "wreport/bulletin/internals.cc", "wreport/bulletin/dds-validator.cc", "wreport/buffers/bufr.cc", "wreport/buffers/crex.cc"], [("get_var checks", "bulletin/internals.cc"), ("range checks", "buffers/*.cc")],
 ["Bulletin::encode, bulletin::DDSValidator"])

prop("C21", "Re-encoding a decoded real message preserves its content",
 "For every message of the sample archive, and every variation of it that still decodes, decoding, encoding (when the encoder supports the message) and decoding again yields the same header, descriptors, variables, values and attributes, and a second encoding gives the same bytes as the first. Decoding is a function of the bytes only: it gives the same result whatever was decoded before. Every sample that decodes and uses only operators the encoder supports must encode. Trailing blanks of strings and optional section padding are not content.",
 ["inputs", "histories"], "All sample messages and their bit-level variations in header and data sections, in any decoding order.",
 "Tests re-encode some samples once, unmodified, in a fixed order.",
 ["wreport/bufr_encoder.cc", "wreport/bufr/decoder.cc", "wreport/crex_encoder.cc", "wreport/crex_decoder.cc", "wreport/tables.cc", "wreport/vartable.cc"], [("encoder/decoder pair", "bufr_encoder.cc"), ("table caches", "tables.cc")],
 ["BufrBulletin::decode/encode, CrexBulletin::decode/encode"])

prop("C22", "Python bindings give the same results as the library",
 "For every variable definition and value, creating, reading, formatting, comparing and copying variables, attributes, table lookups and unit conversions from Python give the value or the kind of error the library rules prescribe; integers too large for the variable are never truncated, wrong argument types raise a Python exception, and no call crashes the interpreter or leaks references. Integers that do not fit the variable raise an exception.",
 ["inputs", "histories"], "All table entries, all Python ints/floats/strings/bytes including extremes, all attribute operation sequences.",
 "Python tests check single examples per method.",
 ["python/var.cc", "python/varinfo.cc", "python/vartable.cc", "python/wreport.cc", "python/common.cc"], [("value conversion", "python/var.cc")],
 ["wreport Python module"])

prop("C23", "All ways of reading a message agree with the plain decode",
 "For every message that decodes, header-only decoding gives the same header and descriptors, verbose decoding and decoding with explicit default options give the same bulletin, and the option to keep undefined attributes only adds unset attributes. Printing, structured printing and tracing list every variable of every subset in order and leave the bulletin unchanged. Attributes of associated fields that are undefined must be among those added.",
 ["inputs", "configurations"], "All decodable messages (samples and generated), all decode entry points and options.",
 "Tests use one entry point per sample and do not check printed content.",
 ["wreport/bulletin.cc", "wreport/bufr/decoder.cc", "wreport/crex_decoder.cc", "wreport/bulletin/dds-printer.cc", "wreport/bulletin/dds-scanfeatures.cc"], [("decode entry points", "bulletin.cc"), ("DDSPrinter", "bulletin/dds-printer.cc")],
 ["BufrBulletin::decode, decode_header, decode_verbose, print, print_structured, print_datadesc"])

prop("C24", "Lua access to a variable equals the library's own view",
 "For every variable, the Lua methods return the same code, integer, real, string and formatted text as the library does, nil exactly when the variable is unset, and raise a Lua error where the library raises an error, whatever sequence of calls is made. Strings of binary variables are returned whole, also with zero bytes.",
 ["inputs"], "All variable definitions and values, set or unset, read-only or not.",
 "The Lua test checks one variable.",
 ["wreport/var-lua.cc", "wreport/utils/lua.cc"], [("Lua method table", "var-lua.cc")],
 ["Var::lua_push, lua_check"])

prop("C25", "Building a subset stores exactly the variables and bitmaps requested",
 "For any sequence of store operations on a subset, the subset contains exactly those variables, in order, with the values given; out-of-range values follow the domain-error rules; and appended data-present bitmaps have the requested size, mark as present exactly the variables carrying the attribute, and never depend on memory outside the subset. When there are fewer variables than the bitmap size the remaining bits mark data not present; a failed operation raises the same error as on the variable and leaves the subset unchanged. Copied, moved and assigned subsets hold the same variables and use the same tables; definitions made by the tables last while the tables are moved; a cleared bulletin holds nothing of its former contents and can be used again.",
 ["histories", "inputs"], "All sequences of store/append operations, all bitmap sizes relative to the number of variables.",
 "Tests append a few variables and one bitmap of matching size.",
 ["wreport/subset.cc", "wreport/bulletin.cc"], [("store_variable*, append_*", "subset.cc")],
 ["Subset API, Bulletin::obtain_subset"])

prop("C26", "The wrep tool reports every message in its input files",
 "For any sequence of input files with messages, junk and unreadable messages, the command line tool prints the content of each decodable message in order, reports each undecodable one without losing the ones that follow, copies exactly the undecodable ones when asked for unparsable messages, and prints exactly the requested variables when asked for specific codes. It never crashes. A message cut short by the end of its file, or a file that cannot be opened, is reported and the following files are processed. Invalid codes to print are reported.",
 ["inputs", "configurations"], "All concatenations of valid, corrupted and junk content in one or more files, all actions.",
 "There is no test of the command line tool.",
 ["src/wrep.cc", "src/input.cc", "src/output.cc", "src/iterate.cc", "src/unparsable.cc", "src/options.cc"], [("reader loop", "src/input.cc"), ("handlers", "src/output.cc, src/iterate.cc, src/unparsable.cc")],
 ["wrep stdout/stderr/exit status"])

prop("C27", "Imported WMO tables load with the definitions of their source",
 "For any set of element and sequence definitions in the WMO XML format (loose or zipped), importing them with wrep-importtable writes BUFR and CREX table files that the library loads, with the same codes, descriptions, units, scales, reference values, widths and sequences as the source (descriptions and units up to the width of their column, also with characters outside ASCII). The order of the source does not matter, elements without a CREX definition and titles without content do not shift or lose the others, and an import that fails says so in its exit status instead of looking complete.",
 ["inputs", "configurations"], "All lists of table B and table D definitions, in the order and with the gaps found in WMO files; missing and malformed fields.",
 "There is no test of the import tool; shipped tables with shifted columns were found (see fix commits).",
 ["src/wrep-importtable", "wreport/vartable.cc", "wreport/dtable.cc"], [("column layout", "src/wrep-importtable"), ("column layout as read", "wreport/vartable.cc")],
 ["wrep-importtable output and exit status", "Vartable::load_bufr/load_crex", "DTable::load_bufr/load_crex"])

prop("C28", "String utilities match their definition for every string",
 "For any strings, the installed string functions give what their documentation says: stripping removes exactly the leading and/or trailing white space; prefix and suffix tests, case changes and joining are exact; file names, directory names, joined and normalised paths are the ones of the usual definitions (A//B, A/./B and A/foo/../B become A/B, leading .. are kept in relative paths and dropped at the root); splitting finds every separator once, keeps or skips empty tokens as asked, always ends, and joining the tokens gives the string back; C string, URL and Base64 encodings only produce safe characters and are undone exactly by their decoders, with the number of characters parsed. Malformed encoded text never causes invalid memory accesses.",
 ["inputs"], "All strings, including empty ones, control characters, bytes outside of ASCII, text that looks like an escape; all separators.",
 "There is no test of these functions; several of them were wrong on edge cases (see fix commits).",
 ["wreport/utils/string.h", "wreport/utils/string.cc"], [("functions", "wreport/utils/string.cc")],
 ["wreport::str functions", "str::Split"])

prop("C29", "Exceptions carry their code and their whole message",
 "For any message, format arguments and system error, each exception class reports its own error code, keeps the whole message unaltered whatever its length, appends the description of the system or regular expression error that occurred, prefixes the file name and line of parse errors, and says the same when caught as itself, as wreport::error or as std::exception and after being copied.",
 ["inputs"], "All exception classes and ways to throw them, messages of any length and content, all errno values, any file name and line.",
 "Tests only check which exception is thrown, on a few messages.",
 ["wreport/error.h", "wreport/error.cc"], [("classes", "wreport/error.h"), ("formatting", "wreport/error.cc")],
 ["what()", "code()", "error::strerror"])

prop("C30", "File utilities do what is asked, all of it, and nothing else",
 "For any directory tree and history of operations, the installed file functions make exactly the requested change: writing gives the file the exact contents and the documented permissions; an atomic write leaves the old contents untouched if it fails or the process dies half way, and leaves no temporary file when it fails; reading returns the exact contents, also when data come in pieces; removing a tree removes all of it and never follows links out of it; renaming, creating and removing report whether there was something to do; temporary files and directories never replace existing files and are removed unless asked otherwise; file information, directory listings and locks agree with the operating system; errors are reported as exceptions and leave everything as it was. No file descriptors are leaked, and moving objects around keeps exactly one owner.",
 ["histories", "faults", "crash points", "inputs"], "All trees of files, directories, links and fifos; all sequences of operations; disk full and process killed at any byte of a write.",
 "There is no test of these functions in the repository.",
 ["wreport/utils/sys.h", "wreport/utils/sys.cc"], [("atomic write", "wreport/utils/sys.cc: write_file_atomically"), ("tree removal", "wreport/utils/sys.cc: Path::rmtree"), ("retrying I/O", "wreport/utils/sys.cc: read_all_or_retry, write_all_or_retry")],
 ["wreport::sys functions and classes", "the file system"])
prop("C31", "Child processes get what they were asked to get, and their end is reported",
 "For any configuration of a child process (arguments, executable, environment, working directory, new session, redirection of standard input, output and error to pipes, to /dev/null, to a file descriptor or to one another, descriptors to close or to pass on), the child gets exactly that: its arguments and environment byte for byte, only the descriptors it is meant to have, its streams connected as asked, with all data going through unchanged. Failures to set up the child give a nonzero exit code and never run the program. Waiting in any way (blocking, polling, with a timeout) reports the same exit code or signal once the child has ended, also when asked again, and never before; a timeout is honoured. Operations that need a started child, or one not started yet, are refused otherwise, and signals reach only the child. The parent is left with no descriptor open.",
 ["inputs", "histories", "schedules"], "All argument lists, environments and combinations of redirections and descriptors; all exit codes and signals; all orders of waiting.",
 "There is no test of this module in the repository.",
 ["wreport/utils/subprocess.h", "wreport/utils/subprocess.cc"], [("set up of the child", "wreport/utils/subprocess.cc: Child::post_fork_child"), ("waiting", "wreport/utils/subprocess.cc: Child::poll, Child::wait"), ("environment and exec", "wreport/utils/subprocess.cc: Popen::setenv, Popen::main")],
 ["wreport::subprocess::Child", "wreport::subprocess::Popen"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fd:
    for p in P:
        fd.write(json.dumps(p) + "\n")
print(len(P), "properties")
