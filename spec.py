"""Properties, harness entries and their bounds: the single source for properties.jsonl, MANIFEST.json and run.py."""

NOTES = ("Every check rebuilds the library from /repo/src (crates/toonlib points at it) into one LLVM module together with the harness entries and std, "
         "and explores it with the symbolic executor in engine/ (Z3 back end). See DESIGN.md.")

ASSUME = [
    "rustc/LLVM lower the source to the IR that is executed; IR semantics are as implemented in engine/ (validated by replaying completed paths on the stock build)",
    "std's word-at-a-time memchr/is_ascii/utf-8 loops are replaced by plain byte loops, and hashing by a constant hash, in the IR build only (tools/mkstd.py)",
    "memory allocation does not fail; floating point results of decimal parsing are std's (an opaque finite value per (mantissa, exponent, sign) when the digits are symbolic)",
    "the memchr crate's byte search is replaced by plain loops and the JSON float printer zmij is built on its scalar path, in the IR build only (crates/memchr, crates/irlib/Cargo.toml)",
    "entries marked --conc-num fork on each digit of a symbolic number before it is parsed, so that printing it is concrete",
    "inputs outside the bounds listed per entry are not covered",
]

PROPS = {}


def P(pid, title, statement, over, qtext, why, files, mech, observe=(), state=(), note="", na=None, assumptions=()):
    PROPS[pid] = dict(title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), state=[dict(name=n, meaning=m, where=w) for n, m, w in state]),
                      level_note=note or "Bounded: every input within the bounds stated per entry in the evidence file, decided by the solver on the compiled code; nothing is claimed outside them.",
                      assumptions=list(assumptions))
    if na: PROPS[pid]["na"] = na


ENC, PRIM, FOLD, NORM, REPL = "src/encode/encoders.rs", "src/encode/primitives.rs", "src/encode/folding.rs", "src/encode/normalize.rs", "src/encode/replacer.rs"
DEC, PAR, SCAN, VAL, EVB, EXP = "src/decode/decoders.rs", "src/decode/parser.rs", "src/decode/scanner.rs", "src/decode/validation.rs", "src/decode/event_builder.rs", "src/decode/expand.rs"
STR, LIT, SVAL = "src/shared/string_utils.rs", "src/shared/literal_utils.rs", "src/shared/validation.rs"

P("C01", "Encoding then strict decoding returns the same JSON value",
  "For every JSON value whose objects have pairwise distinct keys and whose numbers are finite, every delimiter (comma, tab, pipe) and every indent of at least one, encoding the value and strictly decoding the text with the same indent succeeds and returns the same value: same nesting, same array element order, same object key order, same types; only the rows of a table take the first row's field order. This holds whatever mixture of empty containers, primitives, uniform and non-uniform objects and nested arrays the value contains.",
  ["inputs", "configurations"], "all JSON values (any shape, keys, strings) x delimiter x indent >= 1",
  "The fixtures fix a few dozen shapes; the array-form choice and the two list-item layouts interact with every nesting of shapes, options and contents.",
  [ENC, PRIM, DEC, PAR, SCAN], [("array form choice and layout", ENC + " encode_array_lines, encode_object_as_list_item_lines"), ("line decoder", DEC + " decode_key_value_sync, decode_list_item_sync")],
  ["encode", "try_decode"])

P("C02", "Every string and every key survives in every position",
  "Any Unicode string used as root value, object value, object key, inline array element, table cell, table field name or list item is returned by strict decoding of the encoded text as the identical string, still a string (never a number, boolean, null, or structure), under every delimiter. Whatever characters it contains, it changes nothing else in the decoded value.",
  ["inputs", "configurations"], "all strings x all positions x all delimiters",
  "Quoting depends on a conjunction of lexical conditions (literals, numbers, delimiters, brackets, whitespace, controls, leading dash) that tests sample with a handful of strings.",
  [PRIM, STR, SVAL, LIT, PAR], [("quoting decision", SVAL + " is_safe_unquoted, is_valid_unquoted_key"), ("escaping", STR + " escape_string, unescape_string"), ("token splitting", PAR + " parse_delimited_values, parse_key_token")],
  ["encode", "try_decode"])

P("C03", "Encoder output is exactly the canonical TOON text",
  "For every JSON value and every option setting without key folding, the encoder emits exactly the text the TOON rules prescribe: declared lengths equal the element counts, arrays of uniform primitive-valued objects become tables with the first row's field order, arrays of primitives are written inline, everything else becomes list items; nesting is indented by whole multiples of the indent, the delimiter is declared in brackets when it is not a comma, strings and keys are quoted only when needed, and no line has trailing spaces and the text has no trailing newline.",
  ["inputs", "configurations"], "all JSON values x delimiter x indent",
  "Golden files compare a few documents; form selection depends on all rows of an array and all options together.",
  [ENC, PRIM, STR, SVAL], [("table detection", ENC + " extract_tabular_header, is_tabular_array"), ("headers", PRIM + " format_header"), ("quoting", SVAL + " is_safe_unquoted")],
  ["encode", "encode_lines"])

P("C04", "Key folding followed by path expansion restores the value",
  "For every JSON value nested at most 100 levels deep whose keys contain no dots, every delimiter, every indent of at least one and every flatten depth, encoding with safe key folding and strictly decoding with safe path expansion returns the original value. Folded text is also always strictly decodable without expansion.",
  ["inputs", "configurations"], "all dot-free values x flatten depth x delimiter x indent",
  "Folding interacts with siblings, arrays, empty objects, list items and quoted keys; tests fold single hand-written chains.",
  [FOLD, ENC, EXP, DEC], [("chain folding", FOLD + " try_fold_key_chain"), ("expansion", EXP + " expand_object, insert_path_entries")],
  ["encode", "try_decode"])

P("C05", "Key folding is exact: depth-bounded and collision-free",
  "With safe key folding, the longest run of single-key objects starting at a key (at most flatten-depth segments) is written as one dotted key exactly when it joins at least two segments, every joined segment is a plain identifier (letters, digits, underscore, no leading digit, no dot), and the dotted key equals no sibling key and its path from the root equals no dotted key written literally at the root (the root rule does not apply inside lists); the first field of a list item is never folded. The rest of the chain is nested normally with the remaining depth. Everything else in the output is as without folding. With folding off, or a flatten depth of zero or one, the output is exactly the unfolded text.",
  ["inputs", "configurations"], "all objects x flatten depth",
  "Collisions and depth limits need particular combinations of sibling keys, literal dotted keys and depths.",
  [FOLD, ENC], [("fold decision", FOLD + " try_fold_key_chain, collect_single_key_chain"), ("remaining depth", ENC + " encode_key_value_pair_lines")],
  ["encode"])

P("C06", "Path expansion builds exactly the nested objects the dotted keys name",
  "Decoding with safe path expansion turns every unquoted key of two or more dot-separated identifier segments into nested objects, deep-merging entries that share prefixes in document order, and leaves quoted keys and all other keys untouched. (An object that spells the same key both quoted and unquoted, and paths nested deeper than 256 levels, which are an error, are outside this claim.) When a path would have to pass through or replace a value that is not an object, strict mode fails and non-strict mode lets the later entry win; without expansion dotted keys stay literal.",
  ["inputs", "configurations"], "all documents with dotted, quoted and plain keys x strict flag",
  "Merging order and conflict detection depend on sequences of keys; tests cover a few pairs.",
  [EXP, EVB], [("merge", EXP + " insert_path_entries, merge_objects, insert_literal_entry"), ("quoted key tracking", EVB + " apply_event")],
  ["try_decode"])

P("C07", "Decoding untrusted text never panics and always terminates",
  "For every input text and every decode option setting (any indent including zero, strict or not, with or without path expansion), decoding returns either a value or an error: it never panics, aborts, overflows or fails to terminate. The same holds for decoding to events.",
  ["inputs", "configurations"], "all texts x all decode options",
  "Slicing at byte offsets, index arithmetic and cursor loops fail only for particular malformed or multi-byte inputs.",
  [DEC, PAR, SCAN, VAL, EVB, EXP], [("offset arithmetic", PAR + " parse_array_header_line, parse_delimited_values"), ("cursor progress", DEC + " decode_list_array_sync"), ("indentation", SCAN + " parse_line_incremental")],
  ["try_decode", "try_decode_stream_sync"])

P("C08", "The decoder reads every document as the TOON grammar says",
  "For every well-formed TOON document, decoding in strict and in non-strict mode yields exactly the value the TOON grammar assigns to it: quoted and unquoted keys, inline arrays, tables under the header's fields and delimiter, list items of every kind, nested objects by indentation, root arrays, root primitives and the empty document, whatever optional layout (spaces around separators, quoting of keys and values, blank lines outside arrays, list form where a shorter form exists) the document uses. In particular the delimiter that splits values is the one declared in that array's own header, and delimiters, colons or brackets inside quotes never count.",
  ["inputs", "configurations"], "all documents x decode options",
  "The fixtures sample the grammar; header parsing and splitting are context dependent.",
  [DEC, PAR, SCAN], [("header parsing", PAR + " parse_array_header_line, parse_bracket_segment"), ("splitting", PAR + " parse_delimited_values"), ("structure", DEC)],
  ["try_decode", "try_decode_stream_sync"])

P("C09", "Strict mode rejects every mismatch with a declared count",
  "In strict mode a document in which an inline array, a table, a table row or a list array has more or fewer values, rows, cells or items than its header declares is rejected, at any nesting level, at the root or inside list items; the same document with the matching count is accepted. In non-strict mode the mismatch alone never causes an error.",
  ["inputs", "configurations"], "all arrays x all declared counts x all positions",
  "Each array form has its own counting loop and its own lookahead for surplus rows; tests try one count off by one per form.",
  [VAL, DEC], [("count checks", VAL + " assert_expected_count, validate_no_extra_list_items, validate_no_extra_tabular_rows")],
  ["try_decode"])

P("C10", "Strict mode enforces indentation, tab and blank-line rules and names the line",
  "In strict mode a document is rejected when a line's indentation contains a tab, is not a multiple of the indent size, or when a blank line lies between the first and last row or item of an array (including the lines nested in them); the error names the number of the offending line. Blank lines elsewhere never matter. In non-strict mode blank lines, and extra spaces of indentation that do not reach the next multiple of the indent size, change nothing.",
  ["inputs", "configurations"], "all placements of blank lines, tabs and spaces x indent size",
  "The rule depends on where the line falls relative to nested arrays; tests use one placement each.",
  [SCAN, VAL, DEC], [("indentation checks", SCAN + " parse_line_incremental"), ("blank lines", VAL + " validate_no_blank_lines_in_range")],
  ["try_decode", "try_decode_stream_sync"])

P("C11", "What strict mode accepts, non-strict mode decodes to the same value",
  "Whenever strict decoding of a text succeeds, non-strict decoding of the same text with the same indent and path expansion setting succeeds and returns the same value and the same events. Non-strict mode only adds tolerance.",
  ["inputs", "configurations"], "all texts x indent x expansion",
  "A relation between two runs over all inputs; no test compares the modes.",
  [SCAN, DEC, VAL, EXP], [("strict-only branches", SCAN + ", " + DEC + ", " + VAL)],
  ["try_decode", "try_decode_stream_sync"])

P("C12", "All decoding entry points agree",
  "For every text and options, decoding the whole string, decoding its lines, and building a value from the decoded event sequence give the same result: the same value, or an error in all of them. The path-expanding and event-only variants agree whenever no key is expandable, no object repeats a key and nesting stays within the expansion's depth limit (at least 100 levels).",
  ["inputs", "configurations"], "all texts x options",
  "The entry points resolve options and assemble values separately; tests exercise them on different documents.",
  ["src/decode/mod.rs", EVB, "src/options.rs", "src/cli/conversion.rs"], [("entry points", "src/decode/mod.rs"), ("value builder", EVB + " build_node_from_events, node_to_json")],
  ["try_decode", "try_decode_from_lines", "try_decode_stream_sync"])

P("C13", "Event streams are well formed and malformed ones are rejected",
  "Every successful event decoding yields a well-formed stream: exactly one root value, starts and ends balanced and matching, a key before every value inside an object and nowhere else, and in strict mode the declared length of every array start equals the number of its elements. Building a value from any event sequence succeeds exactly when it is such a stream, with the value it describes, and otherwise returns an error without panicking.",
  ["inputs", "histories"], "all texts for the decoder; all event sequences for the builder",
  "Event sequences form an unbounded language; tests feed a few sequences.",
  [EVB, DEC], [("builder state machine", EVB + " apply_event, finalize_state"), ("event emission", DEC)],
  ["try_decode_stream_sync", "build_node_from_events"])

P("C14", "Encode-side event streams describe exactly the encoded value",
  "For every value and options, the event stream produced by the encoder is well formed and building a value from it gives the normalised (and, if given, replaced) value, with array lengths equal to element counts. The line list of the line encoder, joined with newlines, is the text of the string encoder, and without key folding decoding that text yields exactly these events (table rows in header order).",
  ["inputs", "configurations"], "all values x options",
  "Three encoders share little code; tests compare them on single documents.",
  ["src/encode/mod.rs", NORM, REPL], [("event emission", "src/encode/mod.rs emit_events"), ("line encoder", "src/encode/mod.rs encode_lines")],
  ["encode_stream_events", "encode_lines", "encode"])

P("C15", "The asynchronous streams give the same results as the synchronous calls",
  "With the async feature, decoding asynchronously (as a stream of events or to a value) yields, for every text and options, exactly the events or value of the synchronous call, or an error where it fails; encoding asynchronously yields exactly the lines, text and events of the synchronous encoder. Polling again after the end yields the end again.",
  ["inputs", "schedules"], "all texts, values, options and polling sequences",
  "The incremental decoder has its own line state machine that switches to batch mode at document-dependent points; its tests use three documents.",
  ["src/decode/async_decode.rs", "src/encode/async_encode.rs"], [("incremental decoder", "src/decode/async_decode.rs process_next, process_key_value_line, batch_decode_remaining"), ("incremental encoder", "src/encode/async_encode.rs next_event")],
  ["try_decode_stream_async", "try_decode_async", "encode_lines_async", "encode_events_async"])

P("C16", "JSON written by the decoder command is valid and equals the decoded value",
  "For every decoded value and event stream and every JSON indent, both JSON writers (the streaming one and the value one) emit syntactically valid JSON that parses back to the same value, with every string escaped correctly and the layout that indent asks for. Event sequences that do not describe one value are rejected.",
  ["inputs", "configurations", "histories"], "all values and event streams x JSON indent",
  "String escaping and comma/newline placement depend on all nesting and content combinations.",
  ["src/cli/json_stream.rs", "src/cli/json_stringify.rs", "src/cli/conversion.rs"], [("streaming writer", "src/cli/json_stream.rs json_stream_from_events"), ("value writer", "src/cli/json_stringify.rs")],
  ["cli::conversion::decode_to_json_chunks", "cli::json_stringify::json_stringify_lines"])

P("C17", "JSON text to TOON and back loses nothing",
  "Converting JSON text to TOON text and back gives JSON text that denotes the same value: same structure, key order, strings, booleans, nulls and numbers (as the double the JSON library reads). Conversions between the library's value type and the JSON library's value type are inverse to each other for values with distinct keys and finite numbers, and invalid JSON is reported as an error.",
  ["inputs"], "all JSON texts and values",
  "The command line and convenience functions are tested on a few documents only.",
  ["src/lib.rs", "src/cli/conversion.rs"], [("conversions", "src/lib.rs From impls"), ("wrappers", "src/lib.rs json_to_toon, toon_to_json")],
  ["json_to_toon", "toon_to_json", "cli::conversion::encode_to_toon_lines"])

P("C18", "A replacer visits every node once, in order, with its exact path",
  "Encoding with a replacer calls it once for the root with an empty path, then for every child that is still present, parents before children and in order, with the key (the index for array elements) and full path of that child; returning nothing drops the child (and leaves the root unchanged) and returning a value substitutes it, normalised, before its own children are visited. The encoded text is that of the resulting value.",
  ["inputs", "programs"], "all values x all replacer behaviours",
  "A replacer is an arbitrary function; tests use an identity, a dropper and a path recorder on small values.",
  [REPL, NORM], [("traversal", REPL + " apply_replacer, transform_children, transform_object, transform_array")],
  ["encode", "encode_lines", "encode_stream_events"])

P("C19", "Number handling: canonical, no NaN, no infinity, no negative zero",
  "Non-finite numbers are encoded as null and negative zero as zero, wherever they occur in a value; every finite number is written in plain decimal notation without exponent, without a leading plus or redundant zeros, and is read back as the identical number. No encoded text decodes to a non-finite number or to negative zero.",
  ["inputs"], "all 2^64 floating-point bit patterns for normalisation; a grid of magnitudes for printing",
  "Bit patterns cannot be sampled to exhaustion, and normalisation has to reach every position in a value.",
  [NORM, PRIM, LIT], [("normalisation", NORM + " normalize_json_value, normalize_primitive"), ("number text", PRIM + " format_number"), ("constructor", "src/lib.rs from_f64")],
  ["encode", "try_decode"])

P("C20", "A token is decoded as number, literal or string exactly by its spelling",
  "An unquoted value token is decoded as a number exactly when it matches the JSON number grammar (optional minus, no superfluous leading zeros, optional fraction and exponent) with a finite value, as boolean or null exactly when spelled true, false or null, and as the verbatim trimmed string otherwise. A quoted token is always a string, with only the escapes for backslash, quote, newline, carriage return and tab allowed; any other escape, an unterminated quote or text after the closing quote is an error.",
  ["inputs"], "all tokens",
  "Spelling rules have many near misses (leading zeros, lone minus, exponents without digits, escapes at the end).",
  [PAR, LIT, STR], [("token classification", PAR + " parse_primitive_token"), ("number grammar", LIT + " is_numeric_literal"), ("unescaping", STR + " unescape_string")],
  ["try_decode"])

P("C21", "Declared array lengths are parsed exactly and bounded",
  "A declared array length is the decimal number written in the brackets; a length above the documented maximum, or one that does not fit a machine word, is rejected in both modes rather than wrapping, and declared lengths never make the decoder allocate or loop in proportion to the declaration. Anything in the brackets that is not digits followed by at most one delimiter character is not an array header.",
  ["inputs"], "all bracket contents",
  "Overflow and boundary lengths need specific long digit strings.",
  [PAR, DEC], [("length parsing", PAR + " parse_bracket_segment"), ("cap", "src/shared/constants.rs, " + PAR)],
  ["try_decode", "try_decode_stream_sync"])

P("C25", "Strict decoding never silently drops a line",
  "Whenever strict decoding of a document succeeds, every non-blank line of the document has contributed to the result: each key, value, row and item written anywhere in the text is present in the decoded events and value. A line that belongs to nothing (unexpected indentation, surplus content after a value, a list item outside a list) makes strict decoding fail.",
  ["inputs", "configurations"], "all texts x indent",
  "Which line is unplaceable depends on the combination of all preceding lines; tests check single mistakes.",
  [DEC, VAL], [("leftover lines", DEC + " decode_stream_sync"), ("surplus rows and items", VAL + " validate_no_extra_list_items, validate_no_extra_tabular_rows")],
  ["try_decode", "try_decode_stream_sync"])

P("C22", "Command-line mode, options and arguments",
  "Explicit encode and decode flags win over the file extension; otherwise a .json extension in any letter case selects encoding, a .toon extension decoding, and everything else encoding; a missing input or a lone dash means standard input. Every option reaches the conversion with its documented meaning: the delimiter (comma, pipe or tab, by name or character), indentation from 0 to 16, key folding off or safe, the flatten depth, path expansion off or safe, and no-strict. Any other option value, contradictory flags and surplus arguments are refused with a non-zero status, and no output is touched.",
  ["inputs", "configurations"], "all flag combinations, option values and file names",
  "Tests check a few names and option values; whether an option reaches the conversion depends on its combination with direction, input and output.",
  ["src/cli/args.rs", "src/cli/mod.rs", "src/main.rs"], [("detection", "src/cli/args.rs detect_mode, is_stdin"), ("options", "src/cli/args.rs Args, src/cli/mod.rs run_encode, run_decode")],
  ["cli::args::Args", "output and exit status of the toon binary"])

P("C23", "File and stream input and output of the command line loses nothing",
  "The command reads its whole input (file or standard input) and writes the complete converted text followed by a newline to its output (file or standard output), whatever sizes the system's reads and writes have and however often they are interrupted. When opening, reading, writing or converting fails it prints a diagnostic and exits with a non-zero status: it never reports success with incomplete output. A failed conversion, and input that is missing or not UTF-8, leaves the output file as it was; the input file is never changed unless it is also the output; with an output file nothing goes to standard output.",
  ["fault_sequences", "inputs"], "all sequences of short, interrupted and failing system calls, all inputs and destinations",
  "Tests run no I/O faults: which call fails or is cut short, and after how much output, is a schedule the operating system chooses.",
  ["src/cli/mod.rs", "src/main.rs", "src/error.rs"], [("I/O", "src/cli/mod.rs read_input, read_stdin, write_output, write_lines, write_chunks"), ("status", "src/main.rs main")], ["standard output, standard error, files and exit status of the toon binary"],
  note="Bounded: the program's main function, with clap and std, runs on a model of the system calls (files, streams, errno); every fault schedule within the bounds stated per entry is decided. Errors of close(2), which std ignores, a standard output closed before the start, and crashes of the machine are outside.")

P("C24", "The WebAssembly bindings give the same results as the library",
  "The exported functions encode, encode_with_options, decode, decode_with_options and decode_pretty return the text the library functions return for the same input and options (as compact or two-space JSON when decoding) and turn every library error, JSON syntax error and options value that is not an object into an exception with a message. undefined, null and absent options mean the defaults; indent, delimiter, keyFolding, flattenDepth, strict and expandPaths reach the conversion, and properties of another type or with an unknown value count as absent.",
  ["inputs", "configurations"], "all inputs and option objects",
  "The bindings have three tests with default options; the options pass through conversions from JavaScript values that no test runs.",
  ["src/wasm.rs"], [("bindings", "src/wasm.rs"), ("options", "src/wasm.rs parse_encode_options, parse_decode_options")], ["wasm exports"],
  assumptions=["JavaScript values are a stand-in (crates/wasm-bindgen, crates/js-sys) with the semantics of the real crates; the glue wasm-bindgen generates, 32-bit usize and the JavaScript engine are outside."])

ENTRIES = {}


P("C26", "Omitted options mean the defaults; panicking calls match the fallible ones",
  "Options left out, one by one in any combination or all together, mean the defaults in every library entry point, synchronous or asynchronous: indentation 2, comma, no key folding, unlimited flatten depth and no replacer when encoding; indentation 2, strict, and no path expansion when decoding. Options that are given keep their meaning whichever others are left out. The calls that return no Result (decode, decode_from_lines, decode_stream_sync, decode_stream and decode_stream_async) return exactly the value or events of their fallible counterparts and panic exactly when those return an error.",
  ["inputs", "configurations"], "all inputs x all subsets of options x all entry points",
  "Each entry point resolves its options itself; tests leave out all of them or none and call the panicking forms on valid input only.",
  ["src/options.rs", "src/lib.rs", "src/decode/mod.rs", "src/encode/mod.rs", "src/decode/async_decode.rs", "src/encode/async_encode.rs"],
  [("defaults", "src/options.rs resolve_encode_options, resolve_decode_options"), ("wrappers", "src/decode/mod.rs decode, decode_from_lines, decode_stream_sync, decode_stream"), ("stream defaults", DEC + " decode_stream_sync; src/decode/async_decode.rs AsyncDecodeStream::new")],
  ["encode", "encode_lines", "encode_stream_events", "decode", "decode_from_lines", "decode_stream_sync", "decode_stream"])

P("C27", "Every call stands alone: results do not depend on earlier or concurrent calls",
  "What a call returns depends on its arguments alone: not on calls made before it in the same thread, whether they succeeded, failed or were given up half-way and with whatever options, and not on other streams that are open and polled in turns with it. Repeating a call gives the same value or the same error.",
  ["histories", "inputs"], "all histories of earlier calls and all interleavings of polling, within the bounds",
  "Tests run each call on its own; state that leaks from one call into the next shows only for particular pairs of calls.",
  ["src/encode/mod.rs", "src/decode/mod.rs", ENC, DEC, SCAN, "src/decode/async_decode.rs", "src/encode/async_encode.rs"],
  [("scan state", SCAN + " StreamingScanState"), ("stream state", "src/decode/async_decode.rs AsyncDecodeStream"), ("encoders", ENC + ", " + PRIM)],
  ["encode", "try_decode", "AsyncDecodeStream", "AsyncEncodeStream"])


P("C28", "Status messages and statistics describe the conversion that was made",
  "A successful run of the command writes to standard error exactly this: with an output file, a line naming the direction, the input (its path, or stdin) and the output path; when encoding with --stats, the estimated token counts of the input and of exactly the text that was written (a quarter of the characters that are not white space, at least the number of words, at least one), and, when the second is smaller, the difference and its percentage of the first with one decimal. Without an output file and --stats it writes nothing there; decoding ignores --stats. A run that fails reports no conversion, no estimates and no saving.",
  ["inputs", "configurations", "fault_sequences"], "all inputs, options, destinations and single faults",
  "The figures depend on the text written under the options given; tests look at one of them and not at what is reported after a failure.",
  ["src/cli/mod.rs"], [("estimates", "src/cli/mod.rs estimate_tokens, run_encode"), ("messages", "src/cli/mod.rs run_encode, run_decode, format_input_label")], ["standard error of the toon binary"])


def E(name, prop, bounds, reach=(1,), **kw):
    ENTRIES[name] = dict(prop=prop, bounds=bounds, reach=list(reach), **kw)


Q, T = ("quick", "thorough"), ("thorough",)
OPTS6 = "six delimiter/indent combinations"


def ES(prefix, prop, reach, items):
    for it in items:
        n, bounds = it[0], it[1]
        kw = dict(it[2]) if len(it) > 2 else {}
        E(prefix + n, prop, bounds, kw.pop("reach", reach), **kw)


for _p, _prop in (("c01_", "C01"), ("c03_", "C03")):
    ES(_p, _prop, (1,), [
        ("root_string", "root string of 3 arbitrary bytes that are valid UTF-8"),
        ("shapes", "every value of depth <= 2 and width <= 2 over five leaf kinds, symbolic letters, " + OPTS6),
        ("shapes3", "every value of depth <= 2 and width <= 3 with letter leaves"),
        ("wrap1", "12 container contexts around every value of depth <= 2, width <= 2; " + OPTS6),
        ("wrap2", "12 x 12 nested container contexts around a value of depth <= 1, width <= 2; " + OPTS6),
        ("wrap3", "12 x 12 x 12 nested container contexts", dict(tiers=T, secs=3600)),
        ("tables", "arrays of up to 3 rows over up to 3 symbolic fields, one row deviating in 7 ways, in several contexts; " + OPTS6),
        ("sizes", "containers of 3..257 elements (18 sizes), one special element, 8 kinds"),
        ("deep", "alternating wrappers nested 1..64 deep"),
    ])
E("c01_keys", "C01", "objects with two symbolic keys in several contexts")
ES("c03_", "C03", (1,), [
    ("strings", "string of 2 symbolic ASCII bytes as key and value in several positions, three delimiters"),
    ("affix", "tokens from the decision lists (literals, numbers, headers) with symbolic bytes before and after, three delimiters"),
])
ES("c02_", "C02", (1,), [
    ("ascii1", "1 symbolic ASCII byte in 26 positions, three delimiters"),
    ("ascii2", "2 symbolic ASCII bytes in 26 positions, three delimiters"),
    ("ascii3", "3 symbolic ASCII bytes in selected positions"),
    ("ascii4", "4 symbolic ASCII bytes in selected positions"),
    ("utf8", "4 symbolic bytes of valid UTF-8 in selected positions"),
    ("affix1", "lexical tokens with one symbolic byte before or after, 26 positions"),
    ("affix2", "lexical tokens with two symbolic bytes around, selected positions"),
    ("pair", "two symbolic strings in neighbouring positions"),
    ("long", "strings of 15..300 bytes with a symbolic byte at the start, middle or end"),
])
for _p, _prop in (("c04_", "C04"), ("c05_", "C05")):
    R, R5 = (1,), (1, 2, 3)
    R3 = (1,) if _prop == "C04" else (1, 3)
    r = R if _prop == "C04" else R5
    ES(_p, _prop, r, [
        ("trees2", "nested objects of depth <= 2, width <= 2, three flatten depths", dict(reach=R3)),
        ("trees", "nested objects and arrays of depth <= 3, width <= 2, three flatten depths", dict(reach=R3)),
        ("chains3", "chains of up to 3 single-key objects with one odd or symbolic segment, a branch, siblings, literal dotted keys; six flatten depths"),
        ("chains", "the same with chains of up to 4", dict(tiers=T, secs=900)),
        ("chains6", "the same with chains of up to 6", dict(tiers=T, secs=3600)),
        ("long", "chains of 5..40 segments, several flatten depths", dict(reach=(1,))),
        ("wraps", "chains inside the 12 container contexts"),
    ])
ES("c05_", "C05", (1,), [
    ("collide", "chains next to sibling and root keys that may equal the folded key, symbolic letters"),
    ("collide5", "the same with longer chains and more positions", dict(tiers=T, secs=900)),
    ("segment", "a chain segment of 2 symbolic bytes"),
    ("segment3", "a chain segment of 3 symbolic bytes"),
])
ES("c06_", "C06", (1,), [
    ("pairs", "two lines over the dotted/quoted/plain key menu with scalar, object or array values, both modes", dict(reach=(1, 2))),
    ("triples", "three lines over conflicting paths, both modes", dict(reach=(1, 2))),
    ("triples_q", "three lines over the full key menu", dict(reach=(1, 2))),
    ("key3", "key of 3 symbolic bytes"), ("key4", "key of 4 symbolic bytes"), ("key5", "key of 5 symbolic bytes", dict(tiers=T, secs=1200)),
    ("nested", "dotted keys inside nested objects and lists"), ("table", "dotted table fields"), ("deep", "paths of 2..100 segments"),
])
IND = "indent 0, 1 or 2"
DOCS = [
    ("lines2", "two lines over 22 kinds of content with symbolic counts and 5 indentations, " + IND),
    ("lines3", "an opening line and two lines over reduced menus, symbolic counts"),
    ("lines4", "header, list item and two lines over reduced menus, symbolic counts"),
    ("window1", "24 document templates with a hole of 1 symbolic ASCII byte, " + IND),
    ("window2", "24 document templates with a hole of 2 symbolic ASCII bytes"),
]
ES("c07_", "C07", (1, 2, 3), DOCS + [
    ("utf8_3", "every text of 3 bytes of valid UTF-8, " + IND), ("utf8_4", "every text of 4 bytes of valid UTF-8"),
    ("ascii4", "every ASCII text of 4 bytes"), ("ascii5", "every ASCII text of 5 bytes", dict(tiers=T, secs=1200)),
    ("ascii6", "every ASCII text of 6 bytes", dict(tiers=T, secs=7200)),
    ("lines3_full", "an opening line and two lines over the full menus"),
    ("window3", "24 templates with a hole of 3 symbolic ASCII bytes"), ("window4", "24 templates with a hole of 4 symbolic ASCII bytes", dict(tiers=T, secs=3600)),
    ("window8", "24 templates with a hole of 2 bytes of valid UTF-8"), ("window8_3", "24 templates with a hole of 3 bytes of valid UTF-8"),
    ("events3", "event decoding of every ASCII text of 3 bytes, " + IND, dict(reach=(1, 2))), ("events_w", "event decoding of templates with a symbolic byte", dict(reach=(1, 2))),
    ("deep", "six kinds of nesting, 1..60 deep"), ("indent", "ten indent sizes up to usize::MAX over templates with a symbolic byte"),
])
ES("c11_", "C11", (1, 2), DOCS + [
    ("ascii4", "every ASCII text of 4 bytes"), ("ascii5", "every ASCII text of 5 bytes", dict(tiers=T, secs=1200)),
    ("lines3_full", "an opening line and two lines over the full menus"), ("window3", "24 templates with a hole of 3 symbolic ASCII bytes"),
])
ES("c12_", "C12", (1, 2), DOCS + [
    ("ascii3", "every ASCII text of 3 bytes"), ("ascii4", "every ASCII text of 4 bytes"),
    ("defaults", "omitted options mean indent 2, strict, no expansion: templates and line menus"),
])
ES("c13_", "C13", (1, 2), DOCS + [
    ("ascii4", "every ASCII text of 4 bytes"), ("ascii5", "every ASCII text of 5 bytes", dict(tiers=T, secs=1200)),
    ("lines3_full", "an opening line and two lines over the full menus"), ("window3", "24 templates with a hole of 3 symbolic ASCII bytes"),
    ("build5", "every event sequence of at most 5 events"), ("build6", "every event sequence of 6 events"), ("build7", "every event sequence of 7 events"),
])
ES("c15_", "C15", (1, 2), DOCS + [
    ("ascii3", "every ASCII text of 3 bytes"), ("ascii4", "every ASCII text of 4 bytes"),
    ("flat", "four lines, the first ones flat, then anything"),
    ("calls", "the async calls over templates with a symbolic byte"), ("calls2", "the async calls over two-line documents"),
])
ES("c25_", "C25", (1, 2), DOCS[:3] + [
    ("lines3_full", "an opening line and two lines over the full menus"),
    ("marked", "one extra line of 8 kinds, 6 indentations, at every place of 9 well-formed documents"),
])

ES("c08_", "C08", (1,), [
    ("bodies1", "every body value of the encoder contexts, one layout deviation per document, several indents"),
    ("bodies", "the same with two deviations", dict(tiers=T, secs=900)), ("bodies3", "the same with three deviations", dict(tiers=T, secs=1200)),
    ("wrap1", "12 container contexts around every body value, one layout deviation"), ("wrap1_2", "the same with two deviations", dict(tiers=T, secs=3600)),
    ("wrap2", "12 x 12 nested contexts, canonical layout, indents 2 and 3", dict(tiers=T, secs=900)), ("wrap2_1", "the same with one deviation", dict(tiers=T, secs=3600)),
    ("shapes", "every value of depth <= 2 and width <= 2, several indents, one deviation"), ("keys", "keys with a symbolic character in four contexts, one deviation"),
    ("inline3", "inline arrays of 3 symbolic body bytes against the reference reading", dict(reach=(1, 2))), ("inline4", "the same with 4 bytes", dict(reach=(1, 2))),
    ("row3", "table rows of 3 symbolic bytes", dict(reach=(1, 2))), ("row4", "table rows of 4 symbolic bytes", dict(reach=(1, 2))),
    ("key3", "key-value lines of 3 symbolic bytes", dict(reach=(1, 2, 3))), ("key4", "key-value lines of 4 symbolic bytes", dict(reach=(1, 2, 3))),
])
ES("c09_", "C09", (1, 2), [
    ("counts", "every array form in every place with 0..3 elements and a declared count of one symbolic digit"), ("counts2", "the same with 1 or 9..12 elements and a two-digit symbolic count"),
    ("large", "64..257 elements, declared count one less, equal, one more"), ("cells", "rows with too few or too many cells"), ("two", "two arrays one after the other"),
])
ES("c10_", "C10", (1,), [
    ("odd", "one line with a symbolic number of leading spaces"), ("odds", "two such lines"), ("tab", "a tab in the indentation"), ("tab_ok", "tabs outside the indentation"),
    ("units", "indent sizes against documents", dict(reach=(1, 2))), ("blank", "blank lines at every place", dict(reach=(1, 2))), ("blank2", "two blank lines", dict(reach=(1, 2))),
])
ES("c20_", "C20", (1, 2, 3, 4), [
    ("ascii2", "every ASCII token of 2 bytes in several positions", dict(reach=(1, 2, 4))), ("ascii3", "every ASCII token of 3 bytes", dict(reach=(1, 2, 4))), ("ascii4", "every ASCII token of 4 bytes"),
    ("ascii5", "every ASCII token of 5 bytes", dict(tiers=T, secs=1200)), ("utf8", "tokens of 3 bytes of valid UTF-8", dict(reach=(1, 2, 4))),
    ("quoted2", "quoted tokens with 2 symbolic bytes", dict(reach=(2, 4))), ("quoted3", "3 symbolic bytes", dict(reach=(2, 4))), ("quoted4", "4 symbolic bytes", dict(reach=(2, 4))),
    ("numeric4", "tokens of 4 number characters", dict(reach=(1, 2))), ("numeric5", "5 number characters", dict(reach=(1, 2), tiers=T, secs=1200)), ("numeric6", "6 number characters", dict(reach=(1, 2), tiers=T, secs=3600)),
    ("around", "lexical tokens with symbolic bytes around them"),
])
ES("c21_", "C21", (1, 2, 3), [
    ("ascii2", "array headers whose length text is 2 symbolic ASCII bytes", dict(reach=(1, 3))), ("ascii3", "3 symbolic bytes", dict(reach=(1, 3))), ("ascii4", "4 symbolic bytes", dict(reach=(1, 3))),
    ("long", "lengths around the cap and around 2^64"), ("digits", "declared lengths of many symbolic digits", dict(reach=(2, 3))), ("cost", "work does not grow with the declared length", dict(reach=(1,))),
])

ENC14 = [
    ("shapes", "every value of depth <= 2, width <= 2 with symbolic letters, six delimiter/indent settings, folding on and off"),
    ("leaves", "every value of depth <= 1, width <= 2 over all leaf kinds"),
    ("wrap1", "12 container contexts around every value of depth <= 2, width <= 2, folding on and off"),
    ("wrap2", "12 x 12 contexts around every value of depth <= 1, folding on and off"),
    ("tables", "arrays of up to 3 rows over up to 3 symbolic fields with one deviating row"),
    ("specials", "NaN, infinities, negative zero in 12 x 12 contexts"),
]
ES("c14_", "C14", (1,), ENC14 + [
    ("strings1", "1 symbolic ASCII byte as key and value"), ("strings2", "2 symbolic ASCII bytes as key and value"), ("large", "containers of 3..257 elements"),
])
ES("c15_enc_", "C15", (1,), ENC14 + [("strings", "1 symbolic ASCII byte as key and value")])
ES("c18_", "C18", (1,), [
    ("shapes", "every value of depth <= 2, width <= 2; the replacer keeps or drops at every call", dict(reach=(1, 2))),
    ("shapes5", "the same; it may also return numbers, strings and containers at the first calls", dict(reach=(1, 2))),
    ("menu", "values of depth <= 1; eight results at the first calls, nested containers included", dict(reach=(1, 2))),
    ("menu2", "the same with values of width <= 2 and more calls", dict(reach=(1, 2), tiers=T, secs=900)),
    ("wraps", "12 contexts, three results", dict(reach=(1, 2))), ("wraps_all", "12 contexts, eight results, folding on and off", dict(reach=(1, 2), tiers=T, secs=3000)),
    ("special", "NaN, infinities and negative zero below the replacer", dict(reach=(1, 2))),
    ("index", "arrays of 9..101 elements, any one call drops or replaces"), ("deep4", "4 alternating contexts, any one call drops or replaces"),
    ("deep", "2, 9 and 33 alternating contexts, any one call drops or replaces", dict(tiers=T, secs=1800)), ("keys", "a symbolic key at two places"),
])
ES("c19_", "C19", (1,), [
    ("bits", "all 2^64 bit patterns: constructors, conversions, event encoders", dict(reach=(1, 2))), ("anywhere", "all 2^64 bit patterns in 12 x 12 container contexts", dict(reach=(1, 2))),
    ("nonfinite", "text of every non-finite and zero bit pattern in 12 x 12 contexts", dict(reach=(1, 2))), ("ints", "integer conversion: every i8 and the extremes"),
    ("print", "printing and reading back: 37 exponents x 7 mantissas x sign"), ("print_all", "every exponent x 7 mantissas x sign"), ("print10", "powers of ten from 1e-23 to 1e23 and their neighbours"),
    ("text3", "every ASCII token of 3 bytes in six positions decodes to a clean number or no number"), ("text4", "every token of 4 number characters"), ("minus", "tokens starting with -0 and two symbolic bytes"),
    ("range", "exponents with two symbolic digits around the ends of the range"), ("digits", "up to 400 digits with a symbolic one"),
])

CN = ["--conc-num"]
ES("c16_", "C16", (1,), [(n, b, dict(args=CN, **o)) for n, b, o in [
    ("shapes", "both writers on every value of depth <= 2, width <= 2, symbolic letters; five JSON indents", {}),
    ("leaves", "every value of depth <= 1 over all leaf kinds", {}), ("wrap2", "12 x 12 contexts around every value of depth <= 1", {}),
    ("large", "containers of up to 257 elements", {}), ("deep", "nesting 3, 9 and 33 deep", {}),
    ("utf8", "strings and keys of 3 bytes of valid UTF-8", {}), ("utf8_4", "4 bytes of valid UTF-8", {}), ("str3", "3 symbolic ASCII bytes, control characters included", {}),
    ("special", "non-finite numbers and negative zero in the events", dict(reach=(1,))),
    ("seq4", "every sequence of up to 4 events: accepted exactly when it describes one value", dict(reach=(1, 2))), ("seq5", "of 5 events", dict(reach=(1, 2))), ("seq6", "of 6 events", dict(reach=(1, 2))),
    ("lines2", "decode command: two lines, the first symbolic", dict(reach=(1, 2))), ("lines3", "three lines", dict(reach=(1, 2))),
    ("window1", "decode command: 1 symbolic byte at every place of the window documents", dict(reach=(1, 2))), ("window2", "2 symbolic bytes", dict(reach=(1, 2))),
    ("ascii2", "decode command: documents of 2 symbolic ASCII bytes", dict(reach=(1, 2))), ("ascii3", "of 3 symbolic ASCII bytes", dict(reach=(1, 2), tiers=T, secs=600)),
]])
ES("c17_", "C17", (1,), [(n, b, dict(args=CN, **o)) for n, b, o in [
    ("shapes", "every value of depth <= 2, width <= 2, symbolic letters, through both value types and the text", {}),
    ("leaves", "every value of depth <= 1 over all leaf kinds", {}), ("wrap", "12 x 12 contexts", {}), ("strings", "strings and keys of 3 bytes of valid UTF-8", {}),
    ("numbers", "a list of finite numbers in the contexts", {}), ("bits", "all 2^64 bit patterns through the value types", {}), ("ints", "integers around the exact range of doubles", {}),
    ("text1", "JSON texts with 1 symbolic byte at every place of the window documents", dict(reach=(1, 2))), ("text2", "2 symbolic bytes", dict(reach=(1, 2), tiers=T, secs=600)),
    ("text3", "3 symbolic ASCII bytes as document, key or element", dict(reach=(1, 2))),
    ("out_lines2", "TOON text to JSON text: two lines, the first symbolic", dict(reach=(1, 2))), ("out_window1", "1 symbolic byte at every place of the window documents", dict(reach=(1, 2))),
    ("out_window2", "2 symbolic bytes", dict(reach=(1, 2))), ("out_ascii2", "documents of 2 symbolic ASCII bytes", dict(reach=(1, 2))), ("out_ascii3", "of 3", dict(reach=(1, 2), tiers=T, secs=600)),
]])
ES("c22_", "C22", (1,), [
    ("short", "file names of up to 3 symbolic ASCII bytes, all flags"), ("ext", "symbolic stem, dot and extension bytes, all flags"),
    ("case", "every letter case of the known extensions", dict(reach=(1, 2))), ("none", "no input and the lone dash"),
    ("enc_opts", "the whole command, encoding a document that every option matters to: all spellings of --delimiter x --indent x --key-folding x --flatten-depth x unrelated options; file, forced direction, and standard input to a file"),
    ("indents", "the whole command, both directions, all of --indent 0..16 x --key-folding or --expand-paths"),
    ("dec_opts", "the whole command, decoding 5 documents that strictness, indentation and expansion matter to: --indent x --expand-paths x --no-strict, unrelated options, all routes", dict(reach=(1, 3))),
    ("refuse", "the whole command: --delimiter and --indent with values of 1..=2 and 1..=2 symbolic bytes, contradictory flags, surplus arguments, bad option values; with and without output file", dict(reach=(1, 3))),
    ("run", "the whole command on a file whose extension has one symbolic byte"),
])
FAULTS = "the whole command, 8 documents, both directions, all inputs and outputs (file, standard stream, dash, existing, longer or same output file), with and without --stats, every schedule of up to %d faults (short, interrupted, failing or zero-length calls)"
ES("c23_", "C23", (1, 2), [
    ("faults1", FAULTS % 1), ("faults2", FAULTS % 2), ("faults3", FAULTS % 3),
    ("faults4", FAULTS % 4, dict(tiers=T, secs=600)),
    ("trickle", "the same with 1 fault while every read and write moves one byte"),
    ("vast", "texts of 70 and 140 thousand bytes (one line, many elements, blank lines), sizes reported or not", dict(reach=(1,), args=["--max-steps", "3000000000"])),
    ("large", "documents larger than every buffer (one line of 9000 bytes, 700 lines), one fault at every call"),
    ("reject", "documents with two symbolic bytes (no digits), many of them not UTF-8 or not convertible", dict(reach=(1, 3))),
    ("docs", "3 symbolic ASCII bytes (2 as a value, field, element, string) as the document, both directions", dict(reach=(1, 3), args=CN)),
    ("missing", "an input file that does not exist", dict(reach=(2, 3))),
])

# ---- elements of mixed arrays, long lines and wide characters ----
MIXED = "an array of 1..=%d elements, each any of 12 kinds (primitive, empty and nested containers, tables), in one of six places"
LONG = "lines of 138 bytes and more made of wide characters at every alignment, one symbolic byte in front of or behind them, as value, key, element, cell, field, item, unterminated string or bare text"
for _p, _prop, _k in (("c01_", "C01", 3), ("c03_", "C03", 3), ("c14_", "C14", 2), ("c15_enc_", "C15", 2), ("c18_", "C18", 1), ("c08_", "C08", 2)):
    ES(_p, _prop, (1,), [("mixed", MIXED % _k)])
ES("c16_", "C16", (1,), [("mixed", MIXED % 2, dict(args=CN)), ("long", "strings of 138 bytes and more made of wide characters and one symbolic byte", dict(args=CN))])
ES("c17_", "C17", (1,), [("mixed", MIXED % 2, dict(args=CN)), ("long", "strings of 138 bytes and more made of wide characters and one symbolic byte", dict(args=CN))])
ES("c07_", "C07", (1, 2, 3), [("long", LONG)])
ES("c11_", "C11", (1, 2), [("long", LONG)])
ES("c12_", "C12", (1, 2), [("long", LONG)])
ES("c15_", "C15", (1, 2), [("long", LONG)])
ES("c02_", "C02", (1,), [("long8", "strings of 138 bytes and more made of wide characters and one symbolic byte, in eight positions")])
for _p, _prop in (("c04_", "C04"), ("c05_", "C05")):
    ES(_p, _prop, (1,) if _prop == "C04" else (1, 2, 3), [("segment8", "a chain segment that holds any valid UTF-8 of 1..=3 bytes at its start, in its middle or at its end; all flatten depths of the list")])
    ES(_p, _prop, (1,) if _prop == "C04" else (1, 3), [("mixed", "a chain above an array of 1..=2 elements of any of 12 kinds, three flatten depths")])
ES("c10_", "C10", (1, 2), [("blank_mixed", "a blank line (empty or spaces) at every place in the text of an array of 1..=2 elements of any of 12 kinds in one of six places"),
                           ("blank_many", "a blank line at every place in arrays of 3, 4, 5, 10 and 11 rows or items of six kinds in three places")])
ES("c20_", "C20", (1, 2), [("long", "numbers of up to 9 symbolic integer digits, 8 fraction digits and 6 exponent digits")])
ES("c20_", "C20", (1, 2, 4), [("long1", "the same with fixed digits and one arbitrary printable byte inserted anywhere")])
ES("c24_", "C24", (1, 2), [
    ("enc_ascii2", "2 symbolic ASCII bytes as JSON text and in 4 places of it, no options", dict(args=CN)),
    ("dec_ascii3", "every TOON text of 3 ASCII bytes, no options, compact and pretty", dict(args=CN)),
    ("dec_window1", "window documents with 1 symbolic byte, no options, compact and pretty", dict(args=CN)),
    ("dec_window2", "window documents with 2 symbolic bytes, no options, compact and pretty", dict(args=CN)),
    ("none", "undefined, null, empty, array and unrelated option objects x 7 documents"),
    ("refuse", "options that are booleans, numbers (symbolic) or strings", dict(reach=(1,))),
    ("enc_opts", "indent x delimiter x keyFolding x flattenDepth: absent, every kind of valid value, wrong types, unknown values, Infinity", dict(reach=(1,))),
    ("dec_opts", "indent x strict x expandPaths: absent, valid, wrong types, unknown values; 6 documents the options matter to"),
    ("indents", "indent 0..=16 and absent, encoding and decoding with every deviation of the second line"),
    ("deep", "the text of two wrappers alternating 40 and 131 deep", dict(reach=(1,))), ("large", "the text of the large containers of C01", dict(reach=(1,))),
    ("mix", "window documents with 1 symbolic byte x strict x expandPaths", dict(args=CN)),
])

# sizes beyond every plausible threshold (p_huge.rs)
_W = "containers of 1030 and 4100 elements (array, table, list, object, wide table, arrays of arrays, list items) with one deviating element at the start, middle or end, a symbolic letter in it"
_L = "strings of 1030, 4100 and 65540 bytes with one arbitrary ASCII byte at the start, second place, middle or end, as root, key, element and cell"
_V = "arrays of 65540 elements: inline, table, list"
_D = "documents of 1030 lines and more (keys, blank lines, items, rows, two-line items, one long inline array, 100 and 270 nested objects, long tokens) with one line anywhere out of order"
VA = ["--max-steps", "3000000000"]
for _p, _prop in (("c01_", "C01"), ("c03_", "C03")):
    ES(_p, _prop, (1,), [("wide", _W), ("lengths", _L), ("vast", _V, dict(args=VA))])
ES("c04_", "C04", (1,), [("wide", "a foldable chain among 1030 siblings, in one of 4100 elements")])
ES("c05_", "C05", (1, 3), [("wide", "a foldable chain among 1030 siblings, in one of 4100 elements")])
ES("c06_", "C06", (1, 2), [("wide", "700 dotted keys, one of them conflicting")])
ES("c07_", "C07", (1, 2, 3), [("huge", _D)])
ES("c08_", "C08", (1,), [("wide", _W), ("lengths", _L), ("depths", "every nesting form alone to depth 40, 130, 255, 256, 257, 300, around a symbolic letter", dict(args=VA))])
ES("c06_", "C06", (1,), [("items2", "arrays of 2 elements of 6 kinds (primitives, arrays, objects with dotted keys)"), ("items3", "the same, 3 elements"), ("items4", "the same, 4 elements", dict(tiers=T, secs=900))])
ES("c09_", "C09", (1, 2), [("empties", "1 to 65 values with empty ones first, last, in between; three delimiters, declared counts -1 to +2, inline and rows")])
ES("c09_", "C09", (1, 2), [("huge", "1030 and 4100 elements, declared counts that differ by one or by multiples of 2^8 and 2^16"), ("vast", "65540 elements declared as 4", dict(args=VA))])
ES("c10_", "C10", (1,), [("far", "an offending line after 300, 1030, 4100 and 70000 lines")])
for _p in ("C11", "C12", "C13", "C15", "C25"):
    ES(_p.lower() + "_", _p, (1, 2), [("huge", _D)])
ES("c14_", "C14", (1,), [("wide", _W), ("lengths", _L)])
ES("c15_", "C15", (1,), [("enc_wide", _W)])
ES("c16_", "C16", (1,), [("wide", _W), ("lengths", _L)])
ES("c17_", "C17", (1,), [("wide", _W), ("lengths", _L)])
ES("c18_", "C18", (1,), [("wide", "1030 and 4100 elements or members, 130 levels; any one of six calls answers differently")])

HIST = "12 kinds of earlier call (encoding with other options or a replacer, decoding that succeeds or fails, streams given up or left open)"
ES("c26_", "C26", (1, 2), [
    ("enc_options", "7 values with a symbolic letter that all options matter to x all subsets of the four options x all encoding entry points", dict(reach=(1,))),
    ("enc_shapes", "every value of depth <= 2 and width <= 1 x the same", dict(reach=(1,))),
    ("dec_options", "12 documents with a symbolic letter that all options matter to x all subsets of the three options x all decoding entry points"),
    ("dec_lines2", "two lines of 22 kinds at 6 indentations x the same", dict(tiers=T, secs=600)),
    ("dec_ascii3", "3 arbitrary ASCII bytes x the same"),
    ("twins_fixed", "12 documents with a symbolic letter x the five calls without a Result x strictness x expansion"),
    ("twins_window1", "one arbitrary ASCII byte in each template document x the same"),
    ("twins_window2", "two arbitrary ASCII bytes in each template document x the same"),
    ("twins_lines2", "two lines of 22 kinds at 6 indentations x the same", dict(tiers=T, secs=600)),
    ("twins_ascii3", "3 arbitrary ASCII bytes x the same"),
])
ES("c27_", "C27", (1,), [
    ("enc1", "one of " + HIST + ", then 6 values with a symbolic letter and 4 lengths of text encoded under other options and then under 3 option sets, against the model"),
    ("enc2", "two of them, then the same"),
    ("dec1", "one of them, then the same values decoded under other options and then every printing of them decoded, against the grammar"),
    ("dec2", "two of them, then the same", dict(tiers=T, secs=600)),
    ("repeat_fixed", "12 documents decoded before and after one of them and after being decoded under other options", dict(reach=(1, 2))),
    ("repeat_window1", "one arbitrary ASCII byte in each template document, decoded before and after", dict(reach=(1, 2))),
    ("repeat_ascii3", "3 arbitrary ASCII bytes decoded before and after", dict(reach=(1, 2))),
    ("many", "130, 1030 or 4100 earlier calls of five kinds in turn, then the same as enc1 and dec1 on one value of each kind", dict(secs=300, args=["--max-steps", "3000000000"])),
    ("turns_dec", "two decoding streams on 6 documents with symbolic letters, the first 4 polls in every order, one stream abandoned or finished", dict(reach=(1, 2))),
    ("turns_enc", "two line streams and an event stream on 6 values each, the first 3 polls in every order"),
])
ES("c17_", "C17", (1,), [("from", "conversions from strings of 2 arbitrary bytes, booleans, 11 integers, 6 doubles, vectors and objects into the value type")])
ES("c28_", "C28", (1,), [
    ("stats", "9 JSON texts with a symbolic letter (one of them invalid) x --stats x folding and delimiter x 3 inputs x 3 outputs", dict(reach=(1, 3))),
    ("text", "2 bytes of arbitrary UTF-8, twice in the input, x the same", dict(args=CN)),
    ("large", "300 and 1100 rows x the same"),
    ("decode", "5 TOON texts with a symbolic letter (two of them invalid) x the same", dict(reach=(1, 3))),
    ("faults", "one failing, short or interrupted system call anywhere x the same", dict(reach=(1, 2))),
])
