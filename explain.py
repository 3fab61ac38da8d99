"""What each check analyses; copied into the evidence and the manifest."""
COMMON = ("Frama-C Eva (abstract interpretation, no execution) analyses /repo's current C sources, entered through a "
          "specification harness whose inputs and environment answers are abstract (all values of a declared range). "
          "Trace partitioning keeps the listed input classes apart; every obligation that cannot be discharged is re-tried "
          "with relational domains and, if it persists, reported with its call stack. ")
ASSUME = ["machine model gcc_x86_64; the configuration header is a stand-in matching the build here",
          "libc functions follow Frama-C's contracts; zero-length memcpy/memset access nothing",
          "debug events are evaluated (EMV_DEBUG_ENABLED) but sunk, except in C25"]
E = {}
def e(pid, technique, expl, rule, assume=(), note="", common=True):
    E[pid] = dict(technique=technique, explain=(COMMON if common else "") + expl, rule=rule,
                  assume=(ASSUME if common else ASSUME[:1]) + list(assume), note=note,
                  level_note=("abstract interpretation over declared input classes: " if common else "") + note)

AI = "abstract interpretation (Frama-C Eva) of the C sources"
e("C01", AI + " with exact-fit buffers: memory, initialisation and arithmetic alarms",
  "Each decoder is given a buffer of exactly the stated length (length and content abstract), so every access outside it is outside its object.",
  "no Eva alarm (out of bounds, uninitialised read, overflow, invalid shift, dangling pointer) remains, and every pointer handed out by a decoder is readable for its reported length",
  note="all byte values; buffer lengths up to 6 (recursive BER), 8 (DOL), 16 (compact TLV), 33 (ATR), 252 (AFL/CVM); longer BER inputs only with summarised headers")
e("C02", AI + " against an independent encoder oracle",
  "BER elements are built from abstract tag/length/value classes by the harness, decoded by the code under analysis and compared field by field; iteration is analysed on concatenations of elements.",
  "decoded tag, flags, length, value position and consumed size equal the encoded ones; forbidden encodings are refused",
  note="all tag forms up to 4 octets and beyond, all length forms 0..4+ octets, indefinite lengths nested 1 deep (2 in thorough)")
e("C03", AI + " against a list model",
  "TLV list operations and emv_tlv_parse are analysed on abstract lists and on constructed data of bounded nesting with abstract tags; allocation failures are injected nondeterministically.",
  "resulting list equals the model list entry by entry (tag, length, value copy, flags, order)",
  note="lists of up to 3+2 entries, nesting depth up to 2 (3 in thorough)")
e("C05", AI + " with exact-fit transport buffers",
  "emv_ttl_trx is analysed against a reader that returns, at each step, any class of response (length, procedure byte, status) in APDU and TPDU mode for cases 1 to 4; bytes handed to the reader are read in full.",
  "no out-of-bounds or uninitialised access; every transmitted byte initialised; on success the reported length is between 2 and the capacity",
  note="command data up to 3 bytes (255 in one class), capacities 1,2,3,8,256,257, up to 4-6 exchanges deep")
e("C06", AI + " against a protocol automaton",
  "The reader model is an automaton of EMV Book 1 section 9 written independently; on every abstract path it checks each frame received and finally the delivered response.",
  "each frame equals the frame the automaton expects; the response equals the concatenation the automaton accumulated, out-of-protocol answers give invalid response",
  note="same bounds as C05; three-byte TPDU responses are outside the statement")
e("C08", AI + " of the whole stack with a failing reader",
  "Candidate list building, selection, initiation and reading are analysed from the public entry points down to the transport with a model card that may fail at any exchange.",
  "after a failed exchange no exchange happens, the transaction layer returns card error, the application layer transport failure, and no data is kept",
  note="failure at any of the first exchanges of each operation (directory selection, up to 2 directory records, up to 3 selections, initiation, up to 4 records)")
e("C09", AI + " of the whole stack with enumerated status words",
  "Same paths as C08; the model card answers every documented status word and representatives of all other classes at each step, with and without response data.",
  "the result equals the documented one for that status at that step",
  note="status words: all documented ones plus 2-4 undocumented representatives per step")
e("C10", AI + " against a candidate-list model",
  "emv_build_candidate_list is analysed with a card offering every class of directory answer, directory record and selection answer; emv_app_is_supported on abstract identifiers.",
  "commands sent and candidates listed (identifier, priority, order) equal the model's",
  note="2 supported identifiers (exact and partial), up to 2 directory records with 12 record classes, up to 3 selections (4 in thorough)")
e("C11", AI + " on abstract application lists", "Sorting, removal and cardholder-selection analysis on lists of up to 4 applications with abstract priority indicators.",
  "the resulting list is the specified permutation", note="lists of up to 4 applications, all priority values")
e("C12", AI + " of application selection", "emv_select_application on 1 or 2 candidates and every class of card answer.",
  "selected application, candidate list and outcome equal the specification's", note="13 answer classes, 2 candidates, index in and out of range")
e("C13", AI + " of application creation", "Creation from directory entries and control information with abstract label, preferred name, code table, identifier and priority bytes.",
  "identifier, priority, confirmation flag and display name equal those encoded", note="identifiers 5-16 bytes, names up to 5 abstract bytes plus over-long ones")
e("C14", AI + " of application initiation", "emv_initiate_application_processing with fixed sources and 7 request lists, and 15 card answer classes.",
  "command bytes, terminal data, card data and outcome equal the specification's", note="7 request lists including malformed and oversized ones")
e("C15", AI + " of record reading", "emv_afl_itr_* on abstract entries; emv_tal_read_afl_records and emv_read_application_data over 15 file locators and 13 record classes.",
  "entries accepted exactly when valid; record commands are exactly those of the locator in order", note="entry bytes: all values of each byte for 7 (thorough: all) first records; locators of up to 2 entries")
e("C16", AI + " of application data reading", "Same paths as C15 from emv_read_application_data, tracking which fields the card delivered.",
  "success exactly when complete and unambiguous; otherwise card data unchanged", note="mandatory field omitted in turn; duplicates within and across records")
e("C18", AI + " with an accounting allocator", "All operations of C03, C10, C12-C16 are re-analysed with an allocator whose allocations may fail and which counts live blocks.",
  "no use after free, double free or invalid access; live block count is zero once the caller's objects are cleared; outputs null on failure",
  note="one failing allocation anywhere (two in thorough)")
e("C22", AI + " with exchange counting", "emv_ttl_trx, directory reading, identifier-based discovery and record reading against cards that never stop.",
  "the operation returns (the return statement is reached and the exchange bound is not exceeded on any abstract path)",
  note="bounds stated in the harness: 255 directory records, 255 partial matches per identifier, one transport command a few hundred frames")
e("C20", AI + " of the conversion functions", "Each conversion is analysed with one byte, digit or character taking every value (one path per value) while the others follow several patterns, with output buffers of exactly the needed size and one less.",
  "result equals the independently computed value; invalid digits, values beyond 32 bits and too small outputs give an error",
  note="fields of 1 to 6 bytes (8 in thorough), every value at every position, 3 patterns for the other positions")
e("C19", AI + " against an independent layout oracle", "emv_dol_build_data, emv_dol_compute_data_length and the entry iterator are analysed on request lists, sources and outputs whose lengths are enumerated; malformed lists and missing arguments are enumerated.",
  "output bytes equal the oracle's (truncation and padding by numeric or other format), total equals the sum, malformed lists and short outputs refused",
  note="1-2 entries (20 for totals), requested and actual lengths 0-4, fields in each of three sources, output one byte short, exact and one byte spare")
e("C07", AI + " of the command functions against expected frames", "The four command functions are analysed with argument lengths, identifiers, capacities and card answers enumerated; each transmitted frame is compared byte by byte with the frame EMV defines. Higher layers are analysed against a model card that checks each command.",
  "frame bytes, response data, length and status are exact; out-of-range arguments are refused with no exchange",
  note="name lengths around 0,5,16; 11 file identifiers (all in thorough), processing options data of 0-257 bytes, response data of 0-256 bytes, six status words and reader failure")
e("C17", AI + " with an accounting allocator", "The context life cycle functions are analysed on contexts whose five lists and selected application are each present or absent, in the sequences init-use-reset-reset-use-reset, init-use-clear-clear-reset-init-use-reset and init-use-reset-clear; the live block count is tracked.",
  "after each step exactly the documented members are kept with their fields, the others are empty and their memory is released; invalid arguments leave the context as it was",
  note="every combination of empty or non-empty lists (up to two fields each in thorough); lists longer than that rely on C03's list operations")
e("C21", AI + " against an independent ATR reading", "ATRs of 15 shapes (which interface bytes are announced for which protocols) with one byte taking all its values, 12 forms of historical bytes, every truncation and overlong input are parsed; verdict and every reported parameter are compared with an independent reading of the same bytes, and the EMV acceptance with an independent statement of the EMV rules.",
  "accepted exactly when the oracle accepts; every reported parameter equals the oracle's; EMV acceptance equals the oracle's",
  note="one interface byte varied at a time (all 256 values; protocol nibbles all 16); at most one group of specific bytes per protocol")

e("C04", AI + " with exact-size buffers and an exact model of the formatted-print family", "Every rendering function is analysed on field contents given as value enumerations of each byte, on every field length from zero to beyond the defined one, and with output buffers allocated with exactly the announced size (0, 1, 2, a middle one, generous); strings the library composes piecewise go through the real list builder.",
  "no access outside field or buffer; success implies a NUL within the output; fields shorter than their format are refused",
  note="output sizes 1-5, around the natural length and generous; one field byte at a time takes all values; lists of at most a few dozen bytes")

e("C23", AI + " over every constant extracted from the headers", "The tag, error, outcome and identifier constants are extracted from the current headers when the check runs; each is described by the analysed library functions, values outside the extracted set are analysed as well.",
  "every tag has name, description and format; every error and outcome has a text other than the one for unknown values; every scheme and product is produced for its identifier prefix; all other values give the unknown text or nothing",
  note="all constants in the headers; representatives of the other values")

e("C28", AI + " with a model of the character set converter", "iso8859_to_utf8 and iso8859_is_supported of the built-in and the iconv back end are analysed on texts of 1 to 3 bytes with one byte taking every value, exact-size outputs from one byte to one spare, and all code page numbers; the iconv functions are modelled (they may fail).",
  "output is the longest prefix of the equivalent UTF-8 text, in whole characters, that fits and is terminated; unsupported code pages, failed conversions and missing arguments are reported; the converter is requested for the right code page and released once",
  note="texts up to 3 bytes, four patterns for the other bytes; the Boost.Locale back end is C++ and outside this property")

e("C25", AI + " of the event filter and of the stack in both debug configurations", "emv_debug_init and emv_debug_internal are analysed for source masks, levels, event sources, levels and types with a recording callback and texts up to beyond the internal buffer; the transport, application and record reading layers are analysed with debugging compiled out against the same oracles as with it compiled in, and with a callback that reads all event data and format arguments.",
  "delivered exactly when enabled, unchanged, text terminated; the layers satisfy their oracles in both configurations; no uninitialised or out-of-bounds read by the events",
  note="13 source masks, all levels, all event types; a sample of the protocol classes of C06, C10, C12, C14-C16 (all in thorough)")

e("C24", "static effect analysis: flow-sensitive interprocedural pointer-origin analysis on the normalised syntax tree (Frama-C kernel)",
  "Every function of the C library (PC/SC driver excluded) is analysed in both debug configurations: pointer values carry their origin (parameter, static-storage object, read-only input including everything loaded through it), function summaries (parameters written, origins returned) are computed to a fixpoint, and every write, call and store of a pointer is checked.",
  "no write to or through a pointer originating from a static-storage object (except in the debug configuration) or from read-only input; no such pointer stored where it is writable; no call to a libc function with state of its own",
  note="all functions and paths of src/*.c except pcsc.c; pointers hidden in integers or passed through memory other than variables and read-only members are not followed", common=False)

e("C26", AI + " against a model of the PC/SC service",
  "The driver is analysed from its public functions; every PC/SC call may fail, handles are tracked as live or closed, returned feature lists, properties, ATR and responses are abstract with exact lengths, allocations may fail.",
  "only established contexts and live connections are used and each is released exactly once; no access outside returned data or caller buffers; values and errors reported as specified; nothing stays allocated",
  note="up to 2 readers, one failing PC/SC call anywhere (two for initialisation), one failing allocation, 8 feature lists, property lists up to 264 arbitrary bytes, 5 ATR classes, 6 identifier responses")
e("C29", AI + " against independent encoders and a registry of application identifiers", "Application identifiers are built from a registry table (every prefix, every continuation class, single byte changes), verification method lists, file locators, issuer application data and compact elements from declared values; the decoders' results are compared field by field.",
  "scheme, product, amounts, rules, file locator entries, format and elements equal the encoded ones; invalid lengths are refused",
  note="identifier lengths 1 to 18; lists up to the maximum length; issuer application data of 17 lengths with every value of its second byte")
