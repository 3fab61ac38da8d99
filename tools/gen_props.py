#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the file stays schema-clean)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Decoders never touch memory outside the bytes they were given",
 "For every byte string and every length, decoding card data (BER-TLV and tag encodings, object identifiers, compact-TLV historical bytes, ATR, AID, AFL, CVM list, DOL, issuer application data, AID registered data) reads only inside the supplied buffer, writes only inside the caller's outputs and uses no uninitialised value, whether it accepts or rejects the data. Truncated, oversized or self-contradictory length fields are rejected or ignored, never followed outside the buffer.",
 ["inputs"], "all contents of the input buffers, all lengths up to the explored bound, NULL/zero arguments",
 "The unit tests decode a few dozen well-formed card dumps; the unsafe reads need specific malformed length fields, which no test enumerates.",
 ["src/iso8825_ber.c", "src/emv_tlv.c", "src/emv_dol.c", "src/emv_fields.c", "src/iso7816.c", "src/iso7816_compact_tlv.c"],
 [("BER length validation", "src/iso8825_ber.c:iso8825_ber_decode"), ("ATR parser", "src/iso7816.c:iso7816_atr_parse"), ("iterators", "src/emv_fields.c, src/emv_dol.c, src/iso7816_compact_tlv.c")])
prop("C02", "BER-TLV decoding is faithful and always advances",
 "Whenever the BER decoder accepts an element it reports the tag octets, class/constructed bits, length and value position exactly as encoded, the number of consumed bytes covers header plus value (plus the end-of-contents marker for indefinite lengths), is positive and never exceeds the input, and empty input is reported as end of data. Tags longer than four octets, lengths longer than four octets, values running past the input and indefinite lengths on primitive or unterminated elements are rejected.",
 ["inputs"], "all byte strings up to the explored length; header octets enumerated exhaustively",
 "Tests contain a handful of tags and length forms; the guarantee is about every header octet combination and every truncation point.",
 ["src/iso8825_ber.c", "src/iso8825_ber.h"],
 [("tag decode", "src/iso8825_ber.c:iso8825_ber_tag_decode"), ("element decode", "src/iso8825_ber.c:iso8825_ber_decode"), ("iteration", "src/iso8825_ber.c:iso8825_ber_itr_next")])
prop("C03", "Parsed TLV lists hold exactly the primitive fields, in card order",
 "Parsing TLV data appends one list entry per primitive element, in encoding order and after anything already in the list, descending into constructed elements without listing them, each entry owning a private copy of the value; malformed data yields a positive result and failures of the library itself a negative one. List operations keep every entry exactly once in order: push appends, pop removes the first, find returns the first entry with the tag, append moves all entries and empties the source, duplicate detection is true exactly when two entries share a tag.",
 ["inputs", "histories"], "all byte strings up to the bound and all short operation sequences over lists of up to four entries",
 "Tests parse two or three fixed buffers; order, ownership and duplicate semantics for arbitrary nesting are never exercised.",
 ["src/emv_tlv.c"], [("parser", "src/emv_tlv.c:emv_tlv_parse"), ("list primitives", "src/emv_tlv.c:emv_tlv_list_push/pop/find/append/has_duplicate")])
prop("C04", "Rendered text never overruns its buffer and is always terminated",
 "Every function that renders card, terminal or APDU data as text writes at most the given number of bytes for any buffer size including the smallest, never reads outside the data being rendered, and whenever it reports success the output is a terminated string. Data of the wrong size for its field is refused rather than rendered from bytes that are not there.",
 ["inputs"], "every rendering function x all field contents x field lengths 0..bound x output sizes 0..bound",
 "Tests use one generous output buffer and correctly sized fields; overruns need short outputs or odd lengths.",
 ["src/emv_strings.c", "src/iso7816_strings.c", "src/emv_tlv.c", "src/iso8859_simple.c"],
 [("string list builder", "src/emv_strings.c:emv_str_list_add, src/iso7816_strings.c:iso7816_str_list_add"), ("field renderers", "src/emv_strings.c:emv_*_get_string*"), ("APDU renderers", "src/iso7816_strings.c, src/emv_strings.c:emv_capdu_get_string")])
prop("C05", "The transport never overruns buffers nor leaks bytes to the card",
 "Whatever sequence of responses, procedure bytes and lengths the reader returns, the transport layer writes no more than the caller's response capacity, never reads beyond the command it was given or the response it received, and every byte it transmits is a byte of the command or of a response-retrieval command it built. On success the reported response length includes the two status bytes and never exceeds the capacity.",
 ["inputs", "histories", "configurations"], "both reader modes, all four short command cases, all reader response sequences of bounded length with arbitrary content, all response capacities explored",
 "The emulated-reader tests replay fixed honest exchanges; a hostile or broken reader/card is never simulated.",
 ["src/emv_ttl.c", "src/iso7816_apdu.h"], [("exchange loop", "src/emv_ttl.c:emv_ttl_trx"), ("command classification", "src/iso7816_apdu.h:iso7816_apdu_case")])
prop("C06", "Transport exchanges follow the command/response protocol rules",
 "The first frame is the whole command in APDU mode or its five-byte header in TPDU mode; an acknowledging procedure byte is answered with exactly the not-yet-sent command data (all of it, or one byte for the complemented form), a 61xx status with a response-retrieval command for that many bytes, a 6Cxx status with the same command header and that length, and these only where the command expects response data. The response delivered is the concatenation of the received data followed by the first final status, a case 4 warning without data is followed by response retrieval while keeping the warning status, and anything else out of protocol is reported as an invalid response (except that the treatment of a three-byte TPDU response is not specified here).",
 ["inputs", "histories", "configurations"], "all reader response sequences up to the explored number of exchanges, in both modes, for all command cases",
 "Tests follow the annex examples once each; combinations (several 61xx, 6Cxx after 61xx, byte-wise acknowledgement, wrong instruction byte) are not covered.",
 ["src/emv_ttl.c"], [("exchange loop", "src/emv_ttl.c:emv_ttl_trx")])
prop("C07", "Every command sent to the card is well-formed and validated first",
 "Selecting (first or next) by name, reading a record and getting processing options each transmit exactly the command defined by EMV for their arguments - class, instruction, parameters, data length, data and expected length - and return exactly the card's response data and status. Arguments outside the permitted ranges (name of 5 to 16 bytes, file identifier 1 to 30, processing options data of 2 to 255 bytes starting with the command template, adequate output buffer) are refused before anything is transmitted.",
 ["inputs"], "all argument values within and outside the valid ranges, all response lengths, all status words",
 "Tests check a few literal APDUs; argument ranges and every record/file identifier combination are not enumerated.",
 ["src/emv_ttl.c"], [("command builders", "src/emv_ttl.c:emv_ttl_select_by_df_name, emv_ttl_select_by_df_name_next, emv_ttl_read_record, emv_ttl_get_processing_options")])
prop("C08", "Reader failures are never ignored and never become success",
 "If any exchange with the card fails at reader level during candidate list building, application selection, application initiation or reading application data, the operation stops without further exchanges and reports the transport failure, which the transaction interface reports as a card error. No operation reports success, or data obtained after the failure, when one of its exchanges failed.",
 ["fault_sequences", "inputs"], "a failure injected at every exchange position with every failure code, with arbitrary card data before it",
 "Tests inject no reader failures at arbitrary positions.",
 ["src/emv_tal.c", "src/emv.c", "src/emv_ttl.c"], [("failure checks", "src/emv_tal.c: every emv_ttl_* call"), ("outcome mapping", "src/emv.c: every emv_tal_* call")])
prop("C09", "Card status words lead to the documented result",
 "Only status 9000 lets a selection, processing options or application record response be used; a blocked or unsupported card (6A81), missing (6A82) or blocked (6283) directory or application, unsatisfied conditions of use (6985) and the end of directory records (6A83) give the documented result and every other status the documented generic failure. The transaction interface turns those results into card blocked, card error, not accepted, try again or conditions-not-satisfied outcomes as documented, with negative values reserved for library errors and positive values for outcomes.",
 ["inputs"], "all 65536 status words at every operation; all result values between the two layers",
 "Tests use about ten status words; the mapping is a total function over all of them.",
 ["src/emv_tal.c", "src/emv.c", "src/emv_tal.h", "src/emv.h"], [("status decision", "src/emv_tal.c"), ("outcome mapping", "src/emv.c")])
prop("C10", "The candidate list holds only supported, unblocked applications",
 "Directory-based discovery adds an application only if it is on the terminal's list of supported identifiers - equal, or beginning with one for which partial matching is allowed - and identifier-based discovery adds only applications whose selection returned 9000 and whose name length equals the requested identifier or exceeds it with partial matching allowed. Each supported identifier is tried in order, further partial matches are requested only while the card keeps answering with acceptable partial matches, identifier-based discovery runs only when the directory yielded nothing, and an empty result is reported as not accepted.",
 ["inputs", "histories"], "all directory contents and selection responses up to the bound, all supported-identifier lists of up to two or three entries with any matching flag",
 "Tests walk a few recorded cards; unsupported/blocked/partial combinations across several identifiers are sampled once.",
 ["src/emv_tal.c", "src/emv_app.c", "src/emv.c"], [("support test", "src/emv_app.c:emv_app_is_supported"), ("directory processing", "src/emv_tal.c:emv_tal_read_pse"), ("list of AIDs", "src/emv_tal.c:emv_tal_find_supported_apps"), ("orchestration", "src/emv.c:emv_build_candidate_list")])
prop("C11", "Candidates are ordered by priority and indexed consistently",
 "Sorting leaves exactly the same applications, ordered by priority 1 first, applications without priority last, and applications of equal priority in their original order. Removing by index removes exactly that application and keeps the others in order, out-of-range indexes remove nothing, and cardholder selection is required exactly when more than one application is listed or the only one requires cardholder confirmation.",
 ["inputs", "histories"], "all application lists of up to four entries with all priority values and confirmation flags; all indexes",
 "Tests sort one list; stability, ties and boundary priorities are not exhausted.",
 ["src/emv_app.c"], [("sort", "src/emv_app.c:emv_app_list_sort_priority"), ("index removal", "src/emv_app.c:emv_app_list_remove_index"), ("selection requirement", "src/emv_app.c:emv_app_list_selection_is_required")])
prop("C12", "An application counts as selected only when the card confirms it",
 "Selecting an application removes it from the candidate list, replaces any previously selected one, and succeeds only if the card answers 9000 with valid control information whose name is exactly the requested identifier. On any failure no application is selected, and the result is try again while candidates remain, not accepted when none remain, and card blocked or card error when the session must end.",
 ["inputs", "histories"], "all candidate lists up to three entries, all indexes, all card answers (status, name content and length), with and without a previously selected application",
 "Tests select existing applications on honest cards; name mismatch, failure with remaining candidates and re-selection are rarely or never exercised.",
 ["src/emv.c", "src/emv_tal.c"], [("selection", "src/emv.c:emv_select_application"), ("name confirmation", "src/emv_tal.c:emv_tal_select_app")])
prop("C13", "Application attributes reflect the card data that created them",
 "An application created from a directory entry or from control information exists only if the data parses and contains an application identifier, and its identifier, priority and confirmation flag are exactly those encoded on the card. Its display name is the preferred name when the code table permits, otherwise the label, otherwise the identifier in hexadecimal, restricted to displayable characters and terminated within its buffer.",
 ["inputs"], "all combinations of present/absent label, preferred name, code table index and priority with all contents; identifier lengths up to the bound",
 "Tests create a handful of applications from recorded data.",
 ["src/emv_app.c"], [("creation", "src/emv_app.c:emv_app_create_from_pse, emv_app_create_from_fci"), ("display name", "src/emv_app.c")])
prop("C14", "Initiation sends exactly what the card asked for and keeps only valid results",
 "Initiating an application starts transaction data afresh with the entry mode, the selected application's identifier and zeroed status and verification results, and sends processing options data that is the command template holding exactly the requested fields, looked up first in the transaction parameters, then the configuration, then the terminal data, or the empty template when the card requests nothing. Card data becomes the selected application's data followed by the response fields only when the response carries both interchange profile and file locator (in either response format, unaltered); otherwise no response data is kept and an oversized or malformed request is a card error.",
 ["inputs", "histories"], "all processing-options responses up to the bound in both formats, all request lists, presence/absence of fields in every source, repeated calls",
 "Tests cover one card per format; malformed responses and source precedence are not exhausted.",
 ["src/emv.c", "src/emv_tal.c"], [("initiation", "src/emv.c:emv_initiate_application_processing"), ("response formats", "src/emv_tal.c:emv_tal_get_processing_options")])
prop("C15", "Exactly the records named by a valid file locator are read",
 "A file locator is accepted only if its length is a positive multiple of four and every entry has zero reserved bits, a file identifier from 1 to 30, a nonzero first record, a last record not before the first, and no more authentication records than records; the records first to last of every entry are then each read once, in order, and nothing else. Records of files 1 to 10 must be a single data template, and other files' records that are not templates are skipped while offline authentication is reported as impossible. A locator longer than 252 bytes is refused.",
 ["inputs"], "all file locators of up to two or three entries, all record contents up to the bound",
 "Tests use the locators of two cards.",
 ["src/emv_fields.c", "src/emv_tal.c"], [("locator iteration", "src/emv_fields.c:emv_afl_itr_next"), ("record reading", "src/emv_tal.c:emv_tal_read_afl_records")])
prop("C16", "Application data is accepted only when complete and unambiguous",
 "Reading application data succeeds only if a file locator is known, all its records were read, the expiry date, account number and both card risk management lists are among the record fields, and no field occurs twice in them; the record fields are then appended to the card data. Otherwise the card data is left exactly as it was, the result is a card error for anything the card did wrong, and an authentication-record problem alone does not prevent success.",
 ["inputs", "histories"], "all combinations of present/missing/duplicated fields and all results of record reading",
 "Tests read two complete cards and a few mutations.",
 ["src/emv.c"], [("application data", "src/emv.c:emv_read_application_data")])
prop("C17", "A context never carries data from one transaction into the next",
 "Initialising a context yields an empty one bound to its transport; resetting removes all transaction parameters, card data, terminal data and the selected application while keeping configuration, supported identifiers and the transport; clearing removes everything. Both can be repeated and leave the context usable, and invalid arguments are refused without effect.",
 ["histories"], "all populated/unpopulated combinations of the context members and all short sequences of reset and clear",
 "Tests reset contexts only at the end of a run and never look for residue.",
 ["src/emv.c"], [("lifecycle", "src/emv.c:emv_ctx_init, emv_ctx_reset, emv_ctx_clear")])
prop("C18", "Everything allocated is owned by the result or released",
 "After any operation of the library - successful or not, including when memory runs out at any allocation - every allocated block is reachable from the caller's lists, applications or context, or has been released, and nothing is released twice or used after release. Pointers handed out on failure are null or remain valid.",
 ["inputs", "histories", "fault_sequences"], "all card behaviours up to the bound with an allocation failure possible at every allocation site",
 "Tests run under valgrind only on success paths and never fail an allocation.",
 ["src/emv_tlv.c", "src/emv_app.c", "src/emv_tal.c", "src/emv.c"], [("ownership transfer", "src/emv_tal.c, src/emv.c, src/emv_app.c"), ("list destruction", "src/emv_tlv.c:emv_tlv_list_clear, src/emv_app.c:emv_app_list_clear")])
prop("C19", "Data built from a data object list has exactly the requested layout",
 "Building data for a data object list produces, for each requested entry in order, exactly the requested number of bytes: the field from the first source that has it, otherwise zeros; a longer value keeps its rightmost bytes if its format is numeric and its leftmost bytes otherwise, a shorter value is padded with leading zeros if numeric and with trailing zeros otherwise. The computed total equals the sum of requested lengths, and a malformed list or too small an output is refused without writing beyond it.",
 ["inputs"], "all lists of up to two or three entries, all requested lengths up to the bound, all value lengths and sources",
 "Tests build a couple of lists; the truncation/padding matrix per format is sampled.",
 ["src/emv_dol.c", "src/emv_tlv.c"], [("builder", "src/emv_dol.c:emv_dol_build_data"), ("length", "src/emv_dol.c:emv_dol_compute_data_length"), ("format classes", "src/emv_tlv.c:emv_tlv_is_terminal_format_n")])
prop("C20", "Numeric and text format conversions are exact or refused",
 "Converting binary and packed-decimal fields to integers and back, and packed-decimal or text fields to strings and back, gives the exact value for every representable input. Text or an integer longer than a packed-decimal field keeps exactly the digits that fit (the leading ones for compressed numeric, the trailing ones for numeric); digits or characters outside the format, values too large for an integer result and text outputs too small are refused rather than truncated or wrapped.",
 ["inputs"], "all byte values at every digit position and all lengths up to the bound",
 "Tests convert a few literals.",
 ["src/emv_tlv.c", "src/emv_strings.c"], [("conversions", "src/emv_tlv.c:emv_uint_to_format_n, emv_format_n_to_uint, emv_uint_to_format_b, emv_format_b_to_uint"), ("string forms", "src/emv_strings.c:emv_format_*_get_string, emv_str_to_format_cn, emv_str_to_format_n")])
prop("C21", "An ATR is accepted only if it obeys the ISO 7816-3 and EMV rules",
 "An answer-to-reset is parsed successfully only if its initial character is known, every interface byte and historical byte it announces lies within its length, no interface byte uses a reserved value and, when a protocol other than T=0 is offered, its check character is correct; the reported protocol parameters are those encoded or the standard defaults. The EMV check additionally accepts it only if every interface byte lies in the ranges EMV permits for the indicated protocols.",
 ["inputs"], "all ATR contents with interface bytes enumerated over presence patterns and value classes",
 "Tests parse about a dozen real ATRs.",
 ["src/iso7816.c", "src/emv.c"], [("parser", "src/iso7816.c:iso7816_atr_parse"), ("EMV rules", "src/emv.c:emv_atr_parse")])
prop("C22", "Every operation finishes after a bounded number of card exchanges",
 "No card behaviour can make an operation run forever: directory reading, identifier-based discovery, record reading and a single command each perform a number of exchanges bounded independently of the card's answers, and loops over parsed data always consume input.",
 ["inputs", "histories"], "all card behaviours, including cards that never report the end of records or always answer with more data",
 "Tests always use a card emulator that ends the exchange.",
 ["src/emv_tal.c", "src/emv_ttl.c", "src/emv_fields.c", "src/iso8825_ber.c"], [("record loops", "src/emv_tal.c:emv_tal_read_pse, emv_tal_read_sfi_records"), ("select-next loop", "src/emv_tal.c:emv_tal_find_supported_apps"), ("exchange loop", "src/emv_ttl.c:emv_ttl_trx")])
prop("C23", "Every defined tag, status, outcome and enumerator has a description",
 "Every data object tag the library defines is described with a name, a description and a value format (9F66, 9F6D and 9F6E only for the lengths or values for which a payment system defines them), and every library error, transaction outcome, card scheme and card product identifier the library can produce has a text other than the one for unknown values; unknown values are reported as such and never produce garbage.",
 ["inputs", "programs"], "all tags and enumerators defined in the headers and all other values",
 "Tests describe the tags of a few cards; a new or dropped definition is not noticed.",
 ["src/emv_tags.h", "src/emv_strings.c", "src/emv.c", "src/emv_fields.h", "src/emv_fields.c"], [("tag dictionary", "src/emv_strings.c:emv_tlv_get_info"), ("outcome texts", "src/emv.c:emv_error_get_string, emv_outcome_get_string"), ("AID dictionary", "src/emv_fields.c:emv_aid_get_info, src/emv_strings.c:emv_aid_get_string")])
prop("C24", "The core keeps no hidden state and does not alter its inputs",
 "Apart from the debug configuration and the lookup data loaded by the string initialisation, the transaction, transport, parsing and rendering code keeps no state of its own: every result depends only on arguments, the context and card responses, so separate contexts do not influence each other. Data passed as read-only input is never modified.",
 ["programs", "histories"], "all functions of the C library and everything they call",
 "Tests are single-context; a hidden static buffer or cache passes all of them.",
 ["src/emv.c", "src/emv_tal.c", "src/emv_ttl.c", "src/emv_tlv.c", "src/emv_app.c", "src/emv_dol.c", "src/emv_fields.c", "src/emv_strings.c", "src/iso7816.c", "src/iso7816_strings.c", "src/iso7816_compact_tlv.c", "src/iso8825_ber.c"], [("whole C library", "src/*.c")])
prop("C25", "Debug output is filtered as configured and only observes",
 "A debug event reaches the callback exactly when a callback is configured, its source is enabled and its level does not exceed the configured level, with the formatted text terminated within its buffer and the data passed unchanged. Emitting debug events never changes results or data and never reads data that is not initialised.",
 ["inputs", "configurations"], "all source masks, levels, message lengths and data; debugging compiled in or out",
 "Tests print debug output but never check filtering nor compare behaviour with debugging off.",
 ["src/emv_debug.c", "src/emv_debug.h"], [("filter", "src/emv_debug.c:emv_debug_internal"), ("emitters", "src/emv_debug.h macros")])
prop("C26", "The PC/SC driver releases what it acquires and validates reader data",
 "Every PC/SC context, reader list and temporary card connection obtained by the driver is released exactly once on every path, a failed connection is never used or disconnected, and operations on absent or unconnected readers fail cleanly. Feature lists, properties, ATR and response data returned by readers are only read within the bytes actually returned and never exceed the caller's buffers.",
 ["inputs", "fault_sequences"], "every PC/SC call failing or succeeding with arbitrary returned data",
 "There is no PC/SC daemon or reader in the tests; the driver has no tests at all.",
 ["src/pcsc.c"], [("lifecycle", "src/pcsc.c:pcsc_init, pcsc_release"), ("features", "src/pcsc.c:pcsc_reader_populate_features, pcsc_reader_get_property"), ("transceive", "src/pcsc.c:pcsc_reader_trx")])
prop("C27", "Country, currency, language and merchant lookups match their data files",
 "Looking up a country, currency, language or merchant category code returns the entry of the installed data files for that code, translated where available, or nothing when the code is unknown.",
 ["inputs", "configurations"], "all codes and all data files",
 "Tests look up a few codes in one data file version.",
 ["src/isocodes_lookup.cpp", "src/mcc_lookup.cpp"], [("lookup maps", "src/isocodes_lookup.cpp, src/mcc_lookup.cpp")])
prop("C28", "ISO 8859 text is converted to the equivalent UTF-8 text",
 "The built-in ISO 8859-1 back end and the iconv back end convert text in the code pages they support to the equivalent UTF-8 text for every byte that is displayable: the output is always terminated, holds all of the text when it fits and otherwise either whole leading characters or an error; failed conversions and unsupported code pages are reported as such.",
 ["inputs", "configurations"], "all bytes, output sizes and code page numbers for the two back ends written in C",
 "Tests convert one sample per code page with one back end.",
 ["src/iso8859_iconv.c", "src/iso8859_simple.c"], [("back ends", "src/iso8859_iconv.c, src/iso8859_simple.c")])
prop("C29", "Card data structures decode to exactly what the card encoded",
 "Application identifiers are attributed to the scheme and product registered for them and to no other, whatever follows the registered bytes; the amounts and rules of a cardholder verification method list, the entries of a file locator and the elements of compact historical data are reported completely, in order and unaltered; the format of issuer application data is the one its length and fixed octets define. Data whose length cannot be valid or that is cut short is refused.",
 ["inputs"], "all registered identifiers with every truncation and continuation, and all list lengths",
 "Tests decode one or two sample values of each structure.",
 ["src/emv_fields.c", "src/iso7816_compact_tlv.c"], [("identifiers", "src/emv_fields.c:emv_aid_get_info"), ("lists", "src/emv_fields.c:emv_cvmlist_itr_init, emv_cvmlist_itr_next, emv_afl_itr_next"), ("formats", "src/emv_fields.c:emv_iad_get_format, src/iso7816_compact_tlv.c:iso7816_compact_tlv_itr_next")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
