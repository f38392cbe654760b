"""The properties: text for properties.jsonl, and the notes for MANIFEST.json (tools/meta.py)."""

PROPS = []


def prop(pid, title, statement, over, quant, why, files, mech, note, observe=None):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why,
                      files=files, mech=mech, note=note, observe=observe or []))


prop("C01", "BER decoding is exact, bounded and total",
     "For every byte string, decoding a BER tag, element, element sequence or object identifier either reports an error or yields "
     "exactly the tag, value bytes and consumed length the BER encoding defines (short, long and indefinite length forms, tags of up to four bytes), "
     "never touching a byte outside the input. Decoding always makes progress, a truncated or over-long encoding is always rejected, and bytes "
     "after an element never change how the element decodes. Object identifiers which are incomplete or have more components than the result can hold are rejected.",
     ["inputs"], "every byte string as input, including truncated, nested, over-long, padded and hostile encodings",
     "Tests decode a dozen hand-written encodings; the guarantee is over all byte strings and about what is not read or written.",
     ["src/iso8825_ber.c", "src/iso8825_ber.h"],
     [("length and tag bounds checks", "src/iso8825_ber.c: iso8825_ber_tag_decode, iso8825_ber_decode"),
      ("iterator", "src/iso8825_ber.c: iso8825_ber_itr_next"), ("OID decoding", "src/iso8825_ber.c: iso8825_ber_oid_decode")],
     "All byte strings over an alphabet of structural bytes up to a length are enumerated by TLC, the laws are checked on the specification, and each string plus seeded "
     "mutated encodings is decoded by the real library (ASan, exact-size buffers) and compared with the specification.",
     ["return value, tag, value bytes and value offset of each decode"])

prop("C02", "TLV field lists keep every field, in order, exactly once",
     "Parsing BER data into a field list yields exactly the primitive fields in document order with their tags and values, or an error if any part is malformed. "
     "For every sequence of push, pop, find, append, duplicate check, emptiness check and clear, a field list behaves as an ordered sequence: first match wins when finding, "
     "appending moves all fields of the other list behind the existing ones and empties it, and every field is released exactly once.",
     ["inputs", "histories"], "every byte string parsed and every history of list operations",
     "Tests exercise one or two fixed call orders; ownership and order must survive every interleaving of operations including empty lists and repeated tags.",
     ["src/emv_tlv.c", "src/emv_tlv.h"],
     [("recursive parse", "src/emv_tlv.c: emv_tlv_parse"), ("list operations", "src/emv_tlv.c: emv_tlv_list_push/pop/find/append/has_duplicate/clear")],
     "TLC enumerates all operation sequences up to a length on the sequence model; each is replayed on the real lists and the whole list content compared after every step; allocation balance is compared with zero.",
     ["list content after each operation", "allocation balance"])

prop("C03", "Data object list data has exactly the requested content and length",
     "For every data object list, the computed length is the sum of the requested lengths, and the data built from it is the concatenation, in order, of each requested object taken from the first source that has it, "
     "padded or truncated to the requested length (numeric objects keep their rightmost bytes and get leading zeroes, others keep their leftmost bytes and get trailing zeroes), with zeroes for objects no source has. "
     "A malformed list is an error, and output that does not fit the given buffer is reported without writing beyond it.",
     ["inputs", "configurations"], "every data object list, every set of source fields and every output capacity",
     "Tests use three or four lists; justification, truncation, source precedence and capacity interact for every tag and length.",
     ["src/emv_dol.c", "src/emv_dol.h"],
     [("entry decoding", "src/emv_dol.c: emv_dol_decode"), ("length", "src/emv_dol.c: emv_dol_compute_data_length"),
      ("building", "src/emv_dol.c: emv_dol_build_data")],
     "Exhaustive small lists from TLC plus seeded lists with up to three sources and boundary capacities, compared byte for byte with the specification.",
     ["return value and built data"])

prop("C04", "An application file locator is followed exactly or rejected",
     "An application file locator is rejected if its length is not a multiple of four, is zero or exceeds the EMV limit, or if an entry has reserved bits set, a file identifier outside 1 to 30, a first record of zero, "
     "a last record before the first, or more authentication records than records. Otherwise its entries are yielded in order, unchanged, and reading through it requests exactly the listed records, "
     "each once, in order, including record 255.",
     ["inputs", "fault_sequences"], "every locator and every card reply to each record read",
     "Tests contain a few valid locators; every boundary value of four interacting fields, and every card reply on the way, is out of their reach.",
     ["src/emv_fields.c", "src/emv_tal.c"],
     [("locator validation", "src/emv_fields.c: emv_afl_itr_init, emv_afl_itr_next"), ("record loop", "src/emv_tal.c: emv_tal_read_afl_records")],
     "All locators over boundary bytes; every path of the record-reading machine for the listed locators and replies; both replayed and compared.",
     ["iterator results", "READ RECORD commands transmitted"])

prop("C05", "T=0 exchanges send each command byte once and only as the card asks",
     "With a TPDU reader, a command is sent as its five byte header, and its data is sent only in answer to the card's procedure byte for the most recent instruction: all remaining bytes for the instruction itself, exactly the next byte for its complement. "
     "Each data byte is sent exactly once and in order, 61XX leads to GET RESPONSE with that length, 6CXX to the same header with that length, and any other single byte or reader failure ends the exchange with an error. "
     "Commands that are not a valid short APDU case are refused before anything is sent.",
     ["histories", "inputs", "fault_sequences"], "every short or malformed command and every sequence of procedure bytes, status words, data and reader failures",
     "Tests script a handful of exchanges with a cooperative card; the guarantee is about every sequence of procedure bytes and status words.",
     ["src/emv_ttl.c", "src/iso7816_apdu.h", "src/iso7816.c"],
     [("TPDU state machine", "src/emv_ttl.c: emv_ttl_trx"), ("APDU case", "src/iso7816.c: iso7816_apdu_case"), ("reader modes", "src/emv_ttl.c")],
     "TLC explores every sequence of reader answers from an alphabet of procedure bytes, status words and data for every command case in both modes; each transition is replayed against the real transport with a scripted reader and every transmission compared.",
     ["bytes passed to the reader on each exchange", "return value"])

prop("C06", "Responses are assembled completely with the right status word",
     "The response handed to the caller is the concatenation of all data received for the command, however the card splits it over 61XX and 6CXX, followed by the status word of the command: a first warning status is retained even if fetching the remaining data ends differently. "
     "Data for a command that cannot return any, data after a wrong instruction byte, or a response exceeding the caller's buffer is an error and never overflows the buffer.",
     ["histories", "inputs", "fault_sequences"], "every command case, buffer capacity and sequence of reader answers",
     "Tests cover single chained responses with ample buffers; chaining, warnings, retries and capacity combine without limit.",
     ["src/emv_ttl.c"],
     [("response assembly", "src/emv_ttl.c: emv_ttl_trx"), ("capacity checks", "src/emv_ttl.c")],
     "As C05 with the emphasis on chained data, warnings and capacities from 0 to beyond the maximum; response bytes and status compared.",
     ["R-APDU, its length and status word"])

prop("C07", "EMV commands are encoded exactly and out-of-range parameters are refused",
     "SELECT, SELECT NEXT, READ RECORD and GET PROCESSING OPTIONS are transmitted with exactly the class, instruction, parameters, data and expected length EMV prescribes for the given name, record or command data. "
     "Names shorter than 5 or longer than 16 bytes, file identifiers outside 1 to 30, and command data that is empty, too long or not a command template are refused without transmitting anything.",
     ["inputs", "configurations"], "every parameter value and both reader modes, with every card answer",
     "Tests issue one or two commands with fixed parameters; boundaries of every parameter and mode are not reached.",
     ["src/emv_ttl.c"],
     [("command construction", "src/emv_ttl.c: emv_ttl_select_by_df_name, emv_ttl_select_by_df_name_next, emv_ttl_read_record, emv_ttl_get_processing_options")],
     "Every record/file combination and boundary lengths for names and command data, in both reader modes, compared with the specified command bytes.",
     ["bytes passed to the reader"])

prop("C08", "The payment system directory yields exactly the supported applications",
     "Reading the payment system directory requests its records from number one until the card reports no more, and yields, in order, exactly the entries the terminal supports, whatever else the records contain. "
     "A missing or blocked directory or an unusable file identifier is reported as such so that the terminal can fall back, a blocked card ends processing, and a transport failure is never taken for an empty directory.",
     ["histories", "inputs", "fault_sequences"], "every directory content, terminal configuration and card or reader failure at every step",
     "Tests play three scripted cards; malformed entries, odd status words and failures can occur at every step and in combination.",
     ["src/emv_tal.c", "src/emv_app.c"],
     [("directory loop", "src/emv_tal.c: emv_tal_read_pse"), ("record parsing", "src/emv_tal.c: emv_tal_parse_aef_record"),
      ("support matching", "src/emv_app.c: emv_app_is_supported")],
     "All behaviours of the directory machine over rich reply sets (TLC) and seeded cards, replayed and compared: commands, result and resulting application list with all fields.",
     ["commands transmitted", "result code", "application list content"])

prop("C09", "Discovery by AID list finds exactly the matching applications",
     "Without a usable directory, each AID of the terminal is tried in order, following partial matches with SELECT NEXT until the card has no more, and an application is a candidate exactly if the card returned it unblocked and it matches that AID exactly, or partially where the terminal allows it. "
     "A malformed or failed answer only ends the search for that AID, a blocked card ends the search, and a transport failure is reported as an error.",
     ["histories", "inputs", "fault_sequences"], "every terminal AID list with every exact or partial flag and every sequence of card answers",
     "Tests contain two scripted searches; every combination of match kind, block status and malformed answer per step is unreachable for them.",
     ["src/emv_tal.c", "src/emv_app.c"],
     [("search loop", "src/emv_tal.c: emv_tal_find_supported_apps"), ("FCI parsing", "src/emv_app.c: emv_app_create_from_fci")],
     "All behaviours of the search machine over rich reply sets (TLC) and seeded cards, replayed and compared.",
     ["commands transmitted", "result code", "application list content"])

prop("C10", "Candidates are ordered by priority and confirmation is never skipped",
     "Building the candidate list offers the discovered applications ordered by priority, those without priority last and equal priorities in discovery order, losing and duplicating none; an empty result is reported as not accepted. "
     "Cardholder selection is required exactly when there is more than one candidate or a candidate demands confirmation, and choosing by index removes exactly that candidate.",
     ["inputs", "histories"], "every set of discovered applications and every history of selections",
     "Tests sort fixed lists; order, stability, removal and confirmation must hold for every list and history.",
     ["src/emv_app.c", "src/emv.c"],
     [("sorting", "src/emv_app.c: emv_app_list_sort_priority"), ("selection required", "src/emv_app.c: emv_app_list_selection_is_required"),
      ("removal", "src/emv_app.c: emv_app_list_remove_index"), ("candidate list", "src/emv.c: emv_build_candidate_list")],
     "All sequences of candidate-list operations up to a length with every kind of priority (TLC, with permutation and stability laws), plus sessions; list contents compared after each step.",
     ["list content after each operation"])

prop("C11", "An application is selected only if the card confirms exactly that AID",
     "Selecting a candidate succeeds only if the card accepts the selection and its answer names exactly the requested AID, and then the selected application carries the data of that answer. "
     "Every other answer removes the candidate and reports whether another candidate can be tried, no candidate remains, the card is blocked or the exchange failed, and leaves no application selected.",
     ["histories", "inputs", "fault_sequences"], "every candidate list, index, card answer and history of earlier attempts",
     "Tests select once from scripted lists; the outcome depends on the answer, the remaining candidates and earlier attempts.",
     ["src/emv.c", "src/emv_tal.c"],
     [("selection", "src/emv.c: emv_select_application"), ("FCI check", "src/emv_tal.c: emv_tal_select_app")],
     "Behaviours of build/select histories (TLC) and the selection exchange over a rich answer set, replayed and compared.",
     ["outcome", "selected application", "remaining candidates"])

prop("C12", "Initiating processing sends the right data and keeps consistent state",
     "Initiating application processing sends exactly the data the selected application's data object list asks for, from transaction parameters first, then configuration, then terminal data, with the terminal's initial status values, entry mode and AID in place. "
     "On success the card data holds the fields of the selected application followed by those of the response; on any refusal or failure no card data is kept, conditions-not-satisfied makes the terminal try another application or end, and terminal settings are never changed.",
     ["histories", "inputs", "fault_sequences"], "every data object list, parameter set, card answer and history of earlier operations",
     "Tests initiate with three fixed cards; the data sent and the state kept depend on all inputs and on what happened before.",
     ["src/emv.c", "src/emv_tal.c", "src/emv_dol.c"],
     [("initiate", "src/emv.c: emv_initiate_application_processing"), ("GPO exchange", "src/emv_tal.c: emv_tal_get_processing_options")],
     "Behaviours of whole sessions (TLC) and seeded cards with arbitrary object lists; transmitted data and the complete context compared after each call.",
     ["GET PROCESSING OPTIONS command", "context content", "outcome"])

prop("C13", "Processing options are accepted in both formats and only if complete",
     "A GET PROCESSING OPTIONS response is accepted exactly if it is a well-formed format 1 response with a two byte profile and at least one complete file locator entry, or a well-formed format 2 response with both the profile and the file locator. "
     "An accepted response yields exactly its fields, a rejected one yields none, and conditions-not-satisfied is told apart from other failures.",
     ["inputs", "fault_sequences"], "every response body, status word and reader failure",
     "Tests contain five responses; every length, order, nesting and truncation matters.",
     ["src/emv_tal.c"],
     [("response parsing", "src/emv_tal.c: emv_tal_get_processing_options")],
     "All response shapes of a systematic set (TLC) plus mutated responses, replayed and compared: result code, AIP/AFL outputs and resulting fields.",
     ["result code", "resulting fields"])

prop("C14", "Reading application data never yields incomplete or ambiguous card data",
     "Reading application data succeeds only if every record the file locator lists was read and well-formed, no field occurs twice, and expiry date, account number and both risk management lists are present; then the card data is extended by exactly the record fields in reading order. "
     "In every other case the card data is left as it was and the failure is reported; a malformed record in a file above 10 only makes offline data authentication impossible.",
     ["histories", "inputs", "fault_sequences"], "every file locator, record content, status word and failure at every record",
     "Tests read three scripted cards; a fault can be at any record and any byte.",
     ["src/emv.c", "src/emv_tal.c", "src/emv_tlv.c"],
     [("read", "src/emv.c: emv_read_application_data"), ("record reading", "src/emv_tal.c: emv_tal_read_afl_records, emv_tal_read_sfi_records"),
      ("mandatory data", "src/emv.c")],
     "Behaviours of whole sessions and of the record machine (TLC) and seeded cards; the complete card data compared after the call.",
     ["result", "card data before and after"])

prop("C15", "Every history of kernel calls keeps the context consistent",
     "For every order of initialising, configuring, building, selecting, initiating, reading, resetting and clearing a context, each call does what the state left by the earlier calls implies or reports an error. "
     "Resetting discards transaction and card data but keeps configuration and supported AIDs, clearing discards everything, and no call uses data of an earlier transaction or leaks memory.",
     ["histories", "fault_sequences"], "every history of calls, including calls out of order, repeated and after failures",
     "Tests follow the happy order once per process; the space of call histories is unbounded.",
     ["src/emv.c", "src/emv.h", "src/emv_app.c"],
     [("context", "src/emv.c: emv_ctx_init, emv_ctx_reset, emv_ctx_clear"), ("operations", "src/emv.c")],
     "TLC explores call histories in any order (including out of order) against card replies; each is replayed and the whole context compared after every call, with ASan and allocation balance.",
     ["context content after each call", "allocation balance"])

prop("C16", "No card or reader can crash, overrun, hang or leak the kernel",
     "Whatever bytes, status words or failures a card or reader answers, in any order and at any length up to the transport maximum, every kernel operation ends with a defined result after a bounded number of exchanges per card answer, "
     "without reading or writing outside its buffers, using uninitialised or freed data, or losing memory. Only the final outcome, never memory safety, depends on the card.",
     ["inputs", "histories", "fault_sequences"], "every sequence of reader answers",
     "Tests use cooperative cards; hostile answers are unbounded in number and shape.",
     ["src/emv_ttl.c", "src/emv_tal.c", "src/emv.c", "src/emv_tlv.c", "src/iso8825_ber.c", "src/emv_app.c"],
     [("length limits", "src/emv_ttl.h"), ("bounds checks", "src/emv_tal.c, src/emv_tlv.c")],
     "Seeded hostile readers and mutated cards, plus the explored models, run under ASan/UBSan with exact-size buffers, pattern-filled uninitialised memory, allocation balance and a hang watchdog; every step must also be the step of the specification.",
     ["sanitizer reports", "hang watchdog", "allocation balance", "every exchange"])

prop("C19", "Display names are the right characters, complete or cut at a boundary",
     "An application's display name is its preferred name converted from the ISO 8859 part its code table index names if that part is supported, otherwise its label, otherwise its AID in hexadecimal, without characters the format does not allow. "
     "Conversion yields exactly the UTF-8 encoding of every character of the supported parts, and text that does not fit is cut at a character boundary, always terminated and never written past the buffer, in every conversion implementation.",
     ["inputs", "configurations"], "every name, code table index, buffer capacity and conversion implementation",
     "Tests convert the printable range of each part once with ample space; capacity, invalid indices and name sources are not combined.",
     ["src/emv_app.c", "src/iso8859_boost.cpp", "src/iso8859_iconv.c", "src/iso8859_simple.c", "src/emv_fields.c"],
     [("display name", "src/emv_app.c"), ("conversion", "src/iso8859_boost.cpp, src/iso8859_iconv.c, src/iso8859_simple.c")],
     "Every byte of every part, and seeded names, labels, indices and capacities, through all three conversion implementations, compared with generated ISO 8859 tables.",
     ["name bytes", "terminator"])

prop("C20", "Numeric and text field conversions are exact and bounded",
     "Converting an unsigned number to a numeric or binary field yields its decimal digits or bytes right-justified in the given length and back yields the same number; fields that are not numeric are rejected. "
     "Converting fields to text keeps exactly the characters the field format allows, in order, within the given buffer and always terminated.",
     ["inputs"], "every number, field length, byte string and buffer capacity",
     "Tests check a few numbers and strings; boundary values and capacities are not covered.",
     ["src/emv_fields.c", "src/emv_strings.c"],
     [("number formats", "src/emv_fields.c"), ("text formats", "src/emv_fields.c, src/emv_strings.c")],
     "All short byte strings over boundary digits (TLC, with round-trip laws) and seeded numbers, lengths and capacities compared with the specification.",
     ["converted bytes and strings"])

prop("C17", "Answers to reset are decoded exactly as announced or rejected",
     "An ATR is accepted exactly if it is complete, every interface byte its format characters announce has an allowed value, its historical bytes are well-formed for their category and, wherever a protocol other than T=0 is indicated, its check character is right. "
     "From an accepted ATR every reported parameter (interface bytes, rates, voltages, guard, waiting and character times, protocol, modes, historical bytes, status indicator) is the one its bytes announce or the ISO 7816-3 default where absent, and the descriptive texts state the same values.",
     ["inputs"], "every byte string offered as ATR and every text buffer size",
     "Tests parse a handful of recorded ATRs; the announced-byte combinations, value ranges, truncations and check characters are not enumerable by hand.",
     ["src/iso7816.c", "src/iso7816.h", "src/iso7816_compact_tlv.c"],
     [("parsing", "src/iso7816.c: iso7816_atr_parse and the helpers it calls"), ("texts", "src/iso7816.c: iso7816_atr_*_get_string"),
      ("historical bytes", "src/iso7816.c, src/iso7816_compact_tlv.c")],
     "TLC builds ATRs byte by byte over every announced-byte combination with ordinary and deviating values (with laws on the specification) and seeded ATRs add the full value range; each is parsed by the library from an exact-size buffer and every reported parameter and text compared.",
     ["result", "every member of the parsed ATR", "texts of TS, T0, TAi..TDi, T1"])

prop("C18", "Only answers to reset that EMV allows are accepted for EMV use",
     "An ATR is accepted for EMV processing exactly if it is a valid ATR and its interface bytes are within the limits EMV sets for TA1, TB1, TC1, TA2, TC2, TD2, TA3, TB3 and TC3 for the indicated protocol. "
     "Every other ATR yields the card error outcome and an absent ATR is reported as an invalid parameter.",
     ["inputs"], "every byte string offered as ATR",
     "Tests try about a dozen ATRs; the acceptance boundary has many independent conditions that interact with the protocol and negotiable/specific mode.",
     ["src/emv.c", "src/iso7816.c"],
     [("EMV limits", "src/emv.c: emv_atr_parse")],
     "The ATRs of the byte-by-byte model and seeded ATRs near the acceptance boundary are offered to the library and the outcome compared with the specification.",
     ["outcome"])

prop("C21", "Every application identifier is attributed to the right scheme and product",
     "An application identifier of 5 to 16 bytes is attributed to the payment scheme of its registered provider and to the product of the registered identifier it equals or extends, to an unknown product of a known scheme if it extends none, and is refused for any other length. "
     "The descriptive text states exactly that scheme, product and country, complete and terminated within the given buffer.",
     ["inputs", "configurations"], "every byte string offered as identifier and every buffer size",
     "Tests look up a few well-known identifiers; prefixes, extensions, near misses and every registered provider with every registered extension are far more.",
     ["src/emv_fields.c", "src/emv_strings.c"],
     [("registration tables and matching", "src/emv_fields.c: emv_aid_get_info"), ("text", "src/emv_strings.c: emv_aid_get_string")],
     "TLC enumerates identifiers over the bytes that occur in registered ones, with prefix laws; every registered provider is combined with every registered extension, exactly, cut short, extended and altered; all compared with the specification.",
     ["result", "scheme", "product", "text"])

prop("C22", "CVM lists and issuer data are decoded by their exact structure",
     "A cardholder verification method list is accepted exactly if it has two amounts and at least one complete rule; its amounts and rules are yielded unchanged, in order and once, and each rule and result is described by the method, condition and outcome its bits state. "
     "Issuer application data is attributed to a format exactly if its length and marker bytes are those of that format, and only then decoded into the texts of that format; issuer authentication data is described by the card status update bits of its form.",
     ["inputs"], "every byte string offered as list, result, issuer application data or issuer authentication data",
     "Tests decode one example per format; the boundaries between formats and every bit of every octet are not covered.",
     ["src/emv_fields.c", "src/emv_strings.c"],
     [("list iterator", "src/emv_fields.c: emv_cvmlist_itr_init, emv_cvmlist_itr_next"), ("format detection", "src/emv_fields.c: emv_iad_get_format"),
      ("texts", "src/emv_strings.c: emv_cvmlist_get_string_list, emv_cvmrule_get_string, emv_iad_get_string_list, emv_iss_auth_data_get_string_list")],
     "TLC enumerates lists and issuer data over structural bytes with laws on the structure; every value of every octet of each format and seeded data are decoded and compared with the specification.",
     ["result", "amounts and rules", "format", "texts"])

prop("C23", "Status words and COMPACT-TLV data are described completely and correctly",
     "Every status word of ISO 7816-4 is described by its defined meaning, including the number its low bits carry, and undefined ones as unknown. "
     "COMPACT-TLV data yields exactly its objects in order with tag, length and value or an error where an object is incomplete, never reading beyond it; "
     "card service data, card capabilities and life cycle status are described by exactly the bits set.",
     ["inputs"], "every status word, octet combination and byte string",
     "Tests check some twenty status words and one historical byte string.",
     ["src/iso7816_strings.c", "src/iso7816_compact_tlv.c"],
     [("status words", "src/iso7816_strings.c: iso7816_sw1sw2_get_string"), ("objects", "src/iso7816_compact_tlv.c: iso7816_compact_tlv_itr_next"),
      ("services and capabilities", "src/iso7816_strings.c: iso7816_card_service_data_get_string_list, iso7816_card_capabilities_get_string_list, iso7816_lcs_get_string")],
     "All status words, all COMPACT-TLV strings over structural bytes up to a length (TLC, with encoding laws) and every value of every service and capability octet are compared with the specification.",
     ["text", "objects", "result"])

prop("C24", "Command texts name the command that was sent",
     "A command is described as the ISO 7816 or EMV command its class and instruction define, with the file, record, data object or name its parameters and data select, and as unknown or proprietary otherwise. "
     "Only the length of the command decides whether it is complete enough to describe, and text that does not fit is cut at the end and terminated.",
     ["inputs"], "every byte string offered as command and every buffer size",
     "Tests describe one command per instruction; parameters, optional data and truncation combine.",
     ["src/iso7816_strings.c", "src/emv_strings.c"],
     [("ISO commands", "src/iso7816_strings.c: iso7816_capdu_get_string"), ("EMV commands", "src/emv_strings.c: emv_capdu_get_string")],
     "Every instruction in every class group and every parameter pair of the parameterised commands, strings over structural bytes (TLC) and seeded commands with tight buffers, compared with the specification.",
     ["result", "text"])

prop("C25", "Bit field texts list exactly the bits that are set",
     "For every terminal, card, transaction and form factor bit field, the text list has one line for every set bit and for every value of every multi-bit or octet code, with the meaning EMV or the scheme assigns to it, in order, and no other line. "
     "A field whose length is wrong is refused or left empty as its format says, never partly described.",
     ["inputs"], "every value of every described field",
     "Tests describe a dozen values; a wrong mask, shifted bit or exchanged text stays unnoticed for every other value.",
     ["src/emv_strings.c"],
     [("bit decoders", "src/emv_strings.c: emv_term_caps_get_string_list, emv_addl_term_caps_get_string_list, emv_aip_get_string_list, emv_tvr_get_string_list, emv_ttq_get_string_list and similar"),
      ("code decoders", "src/emv_strings.c: emv_term_type_get_string_list, emv_pos_entry_mode_get_string, emv_transaction_type_get_string, emv_cid_get_string_list")],
     "Every value of every octet of every field, with the other octets clear and set, and seeded combinations are compared line by line with the tables of the specification.",
     ["result", "text list"])

prop("C26", "Field values are converted to text exactly and packed without loss",
     "Alphabetic, alphanumeric, special, compressed numeric, numeric, amount, date, time, track 2, currency, language, merchant category, response code, locator and product data fields are shown exactly as their format defines, and data that breaks the format is refused, not shown. "
     "Packing a decimal string into a numeric or compressed numeric field yields its digits with the padding of the format and refuses anything that is not a digit, and text and value convert back into each other.",
     ["inputs"], "every byte string, decimal string, field length and buffer size",
     "Tests convert two or three values per format; boundaries between digits, padding, character classes and widths are not covered.",
     ["src/emv_strings.c", "src/emv_fields.c"],
     [("character formats", "src/emv_strings.c: emv_str_list*, emv_tlv_value_get_string and its format helpers"), ("packing", "src/emv_fields.c: emv_str_to_format_cn, emv_str_to_format_n"),
      ("structured values", "src/emv_strings.c: emv_track2_get_string, emv_date_get_string, emv_asrpd_get_string_list and similar")],
     "TLC enumerates values over boundary digits and characters with round-trip and inclusion laws; these and seeded values with tight buffers are converted and compared with the specification.",
     ["result", "text", "packed bytes"])

prop("C27", "Describing a field gives the right name, meaning, format and value",
     "For every tag and value, the description has the name, explanation, source and format the EMV data dictionary gives that tag and the text of the value where its format has one, or none for a tag it does not know. "
     "A field that is empty, absent, malformed or longer than expected is still described by name, and a value is never taken from outside the field.",
     ["inputs"], "every tag with every value and every value buffer size",
     "Tests describe some fifty fields once; a hundred and thirty tags with value formats, codes and lengths are beyond that.",
     ["src/emv_strings.c"],
     [("dictionary", "src/emv_strings.c: emv_tlv_get_info"), ("value text", "src/emv_strings.c: emv_tlv_value_get_string")],
     "Every known tag with well-formed, damaged, empty and absent values, unknown tags, and every country, currency, language and merchant code through the fields that carry it, compared with the specification.",
     ["result", "name", "description", "format", "value text"])

prop("C28", "Text output fits any buffer, is terminated and is never overrun",
     "For every text producing function, value and buffer capacity including zero, nothing is written at or beyond the capacity, the result is terminated whenever there is room for anything, and reported success never hides a text that was cut unless the function defines cutting. "
     "A larger capacity never yields less text, and a list holds only whole lines except where its last line is cut.",
     ["inputs"], "every text function, every value and every capacity from zero to beyond the text",
     "Tests always pass a large buffer, so no capacity boundary is ever reached.",
     ["src/emv_strings.c", "src/iso7816_strings.c"],
     [("list iterator", "src/emv_strings.c: emv_str_list_add"), ("bounded copies", "src/emv_strings.c, src/iso7816_strings.c")],
     "Runs of consecutive capacities over seeded values of every text function, with exact-size heap buffers under ASan, compared with the specification; TLC checks the fitting laws for all lists of texts up to a length.",
     ["text and terminator for each capacity", "sanitizer reports"])

prop("C29", "Code registers answer every look-up from the files last loaded",
     "After loading the country, currency, language and merchant registers, looking up a code by any of its forms yields the name the file gives it and nothing for a code the file does not have. "
     "A missing, unreadable or malformed file is reported by which file and kind of failure, never ends the process or exposes stale or partial memory, and loading again replaces what was loaded.",
     ["inputs", "histories", "configurations"], "every code, every history of loading good, missing and malformed files, and every look-up between them",
     "Tests load the installed files once; malformed entries, repeated loading and failures in between are not covered.",
     ["src/isocodes_lookup.cpp", "src/mcc_lookup.cpp"],
     [("loading", "src/isocodes_lookup.cpp: isocodes_init; src/mcc_lookup.cpp: mcc_init"), ("look-ups", "src/isocodes_lookup.cpp: isocodes_lookup_*; src/mcc_lookup.cpp: mcc_lookup")],
     "Seeded histories of loading and looking up over a set of good, missing, misshapen and malformed files run on the real library under ASan and are compared with the register state machine of the specification; every installed code is looked up.",
     ["load result", "each looked-up name"])

prop("C30", "Reader access reports exactly what the resource manager reports",
     "For every behaviour of the PC/SC resource manager, each reader operation issues exactly the requests its contract defines and reports their outcome: readers and features are those listed, properties are those encoded, state, wait and connection results, the card's ATR, identifiers and contactless detection are those answered, and every failure is passed on with no output taken from it. "
     "Malformed lists, properties or answers are ignored or refused without reading beyond them. Every connection and context obtained is given back exactly once, in every history of operations, and no request is made for a card not connected.",
     ["histories", "fault_sequences"], "every history of reader operations and every answer of the resource manager to each request",
     "No test touches this layer: it needs a resource manager, and its failures and races cannot be produced with a real one.",
     ["src/pcsc.c", "src/pcsc.h"],
     [("context and reader enumeration", "src/pcsc.c: pcsc_init, pcsc_release, pcsc_reader_populate_features"),
      ("properties and features", "src/pcsc.c: pcsc_reader_get_property, pcsc_reader_has_feature"),
      ("waiting and connecting", "src/pcsc.c: pcsc_wait_for_card, pcsc_reader_connect, pcsc_reader_disconnect"),
      ("exchange and identifiers", "src/pcsc.c: pcsc_reader_trx, pcsc_reader_internal_get_uid, pcsc_reader_get_card_uid, pcsc_reader_is_contactless")],
     "The reader layer is compiled against a scripted resource manager; seeded histories of operations and answers (good, failing, malformed) run on it under ASan, and every request, result and output is validated by TLC against the state machine of the specification, whose invariants (handles balanced, no request without a card) are model checked.",
     ["requests to the resource manager", "return value and outputs", "handles left open"])

prop("C31", "The debug log is filtered exactly and shows each exchange as transmitted",
     "A message reaches the debug function exactly if its source is selected and its level is not above the configured one, and never without a debug function; what it is given is the source, level, text and data of the event, unchanged. "
     "With card exchange logging selected, every command and response that is transmitted appears once, in order, with its exact bytes, and no other; the choice of logging never changes what is transmitted, returned or stored.",
     ["histories", "configurations"], "every choice of sources, level and debug function, over every kernel operation and card behaviour",
     "Tests print the log for people to read and never compare it; choices of logging are never varied.",
     ["src/emv_debug.c", "src/emv_debug.h", "src/emv_tal.c", "src/emv_ttl.c"],
     [("filter", "src/emv_debug.c: emv_debug_init, emv_debug_internal"), ("exchange logging", "src/emv_ttl.c: emv_ttl_trx"),
      ("ATR", "src/emv_debug.h: emv_debug_atr_info")],
     "TLC enumerates filter configurations and exchanges; these and seeded kernel sessions with every logging choice run on the library with a recording debug function, and each entry and every other observable is compared with the specification.",
     ["debug function calls", "all other observables of the session"])

prop("C32", "Running out of memory fails the operation and nothing else",
     "Whichever allocation fails inside an operation, the operation does not claim success it did not have: parsing, selecting, initiating and reading report failure, and building a candidate list may only leave out what could not be stored. "
     "What belongs to the terminal and to earlier operations is kept unchanged, no partly built field or application becomes visible, everything obtained on the way is released, and the session can be continued, repeated or cleared as after any other failure.",
     ["inputs", "histories", "fault_sequences"], "every allocation of every operation, over every card behaviour and whatever is done afterwards",
     "Tests never fail an allocation, so none of the cleanup paths has ever run.",
     ["src/emv_tlv.c", "src/emv_app.c", "src/emv_tal.c", "src/emv.c"],
     [("field allocation", "src/emv_tlv.c: emv_tlv_list_push, emv_tlv_parse"), ("application creation", "src/emv_app.c: emv_app_create_from_pse, emv_app_create_from_fci"),
      ("unwinding", "src/emv_tal.c: emv_tal_get_processing_options, emv_tal_read_afl_records; src/emv.c: emv_initiate_application_processing, emv_read_application_data")],
     "TLC explores the kernel with memory running out in any operation and checks that the invariants of the session survive every outcome the specification allows; behaviours of the models and seeded sessions are replayed on the library with chosen allocations failing, and the outcome and everything afterwards are compared with the specification.",
     ["return value and state after the failing operation", "everything observed afterwards", "blocks not released"])
prop("C33", "Print-outs of data show all of it, in order, at its place",
     "Printing BER or EMV data shows every field once, in order and below the template that contains it, with its tag, length, value octets and description, for any octets whatever; where the data stops being valid the print-out says so with the octets concerned and their offset, unless they are padding that was to be ignored. "
     "DOLs, tag lists, answers to reset, commands, responses, applications and debug entries are likewise printed in full and exactly as the interpretation given by the library.",
     ["inputs"], "every byte string given to every printing helper, with and without padding, at every depth and prefix",
     "The helpers have no tests at all, and print data from cards nobody has seen before.",
     ["tools/print_helpers.c", "tools/print_helpers.h", "src/emv_strings.c", "src/iso7816_strings.c"],
     [("BER print-out", "tools/print_helpers.c: print_ber_buf, print_ber_buf_internal"), ("EMV print-out", "tools/print_helpers.c: print_emv_buf, print_emv_tlv, print_emv_dol"),
      ("debug entries", "tools/print_helpers.c: print_emv_debug, print_emv_debug_verbose")],
     "The specification gives the lines of every print-out (Print.tla); TLC checks on every short byte string that nothing is lost, that exactly the invalid data is reported and that both print-outs agree, and these and seeded data are replayed on the helpers with the output compared.",
     ["everything written to standard output"])
prop("C34", "emv-decode decodes what it was asked to decode, or says why not",
     "For any options, arguments and standard input, emv-decode either prints exactly the interpretation of the data in the mode asked for and succeeds, or prints nothing but a complaint on standard error and fails, without reading beyond what it was given. "
     "Contradictory, missing or unknown options, arguments that are not hexadecimal and data of the wrong length are refused, white space between digits is accepted, and codes are looked up in the ISO registers installed.",
     ["inputs", "fault_sequences"], "every command line over every option, argument and standard input, with any set of ISO registers present, absent or damaged",
     "The tests never run the program.",
     ["tools/emv-decode.c", "tools/print_helpers.c", "src/emv_strings.c", "src/isocodes_lookup.cpp"],
     [("options", "tools/emv-decode.c: argp_parser_helper"), ("hexadecimal", "tools/emv-decode.c: parse_hex"), ("modes", "tools/emv-decode.c: main")],
     "The specification computes exit status, output and whether there is a complaint for a command line (Cli.tla); TLC checks laws of it over every short command line, and these, every code of the registers and seeded command lines are run on the program.",
     ["exit status", "standard output", "whether standard error has a complaint"])
prop("C35", "emv-tool carries out the transaction the cardholder chose, and nothing else",
     "Whatever the readers, the card and the person at the terminal do, emv-tool describes the readers as they are, talks only to the card it detected and accepted, runs the transaction on the application that was chosen among those offered, reports every outcome, and releases the card reader before it ends. "
     "Input that names no offered application never selects one, the end of input ends the run, a refused application can be followed by another only as the kernel allows, and nothing is read from the card beyond what the kernel asks for.",
     ["inputs", "fault_sequences", "histories"], "every sequence of answers by the resource manager and the card, and of lines typed, of any length",
     "The program has no tests at all, as they would need card readers and cards which fail on demand.",
     ["tools/emv-tool.c", "tools/pcsc.c", "tools/print_helpers.c", "src/emv.c", "src/emv_ttl.c", "src/emv_tal.c", "src/emv_app.c"],
     [("transaction", "tools/emv-tool.c: main"), ("selection", "tools/emv-tool.c: main (application selection), src/emv.c: emv_select_application"),
      ("readers", "tools/emv-tool.c: print_pcsc_readers, pcsc_get_reader_state_string")],
     "The specification is a state machine of the whole program over the PC/SC layer and the kernel (Tool.tla); TLC checks its invariants for every run with at most one or two unusual answers, and these and seeded runs are executed by the program against a stub of the resource manager, with each request, log entry, line printed and the exit status compared.",
     ["requests to the resource manager, in order, with their arguments", "what is printed before each", "log entries", "exit status", "blocks of memory left"])
prop("C36", "emv-tool makes the transaction its options describe, or refuses to make one",
     "For any options, emv-tool either refuses with a complaint and makes no request to any reader, or makes the transaction with exactly the type, amounts, date and time and the logging that were asked for. "
     "Unknown or malformed options, amounts that do not fit, a purchase without amount and a cashback without other amount are refused.",
     ["inputs"], "every command line, and every time of day",
     "The tests never run the program.",
     ["tools/emv-tool.c", "src/emv_tlv.c", "src/emv_strings.c"],
     [("options", "tools/emv-tool.c: argp_parser_helper"), ("terminal data", "tools/emv-tool.c: emv_txn_load_params, emv_txn_load_config")],
     "The specification computes from the options whether the run is refused, the parameters of the transaction and the filter of the log (Tool.tla); TLC takes every short command line over ordinary and malformed options, and these and seeded ones are run by the program up to the end of the run or the build-up of the transaction, with all requests, output and status compared.",
     ["exit status", "requests to the resource manager", "transaction parameters printed", "log entries"])
