"""The properties, in one place: gen.py writes properties.jsonl and MANIFEST.json from here."""
RAPID = "property-based testing (rapid generators with shrinking): "
NOT_APPLICABLE = {}
PROPS = [
dict(id="C01", title="Every data element value survives the wire",
 statement="Every value that a data element accepts is written in the form the HBCI syntax prescribes and is read back unchanged from those bytes, whatever it holds: syntax and escape characters, umlauts, line breaks, arbitrary binary data, any valid date, time, number, amount or yes/no value. Bytes that are not such a form are refused with an error instead of being read as another value.",
 over=["inputs"], quant="all values of each kind of data element, in every position of a segment, and all short malformed element texts",
 why="The tests round-trip a handful of literals per element kind; escaping, padding, signs, binary lengths and their combinations range over an infinite input space.",
 files=["element/data_element.go", "element/element_extractor.go", "token/lexer.go", "token/token.go", "charset/convert.go"],
 mech=[("escaping of syntax characters", "element/data_element.go"), ("binary length prefix", "element/data_element.go"), ("element lexer", "token/lexer.go")],
 observe=["MarshalHBCI/UnmarshalHBCI of data elements", "Val/String"],
 tech=RAPID + "round trip and differential against a reference encoder",
 note="Random search plus complete enumeration of dates, times and booleans; the reference encoder in harness/ref is trusted."),
dict(id="C02", title="Every composite data element survives the wire",
 statement="Every composite element (account, bank, key name, amount, balance, signature, security data, acknowledgement, parameter group and so on) is written as its members in the order of the standard with trailing empty members dropped, and reading those bytes yields the same members, for any content of any member. A composite that is embedded in a segment neither gains, loses nor shifts members, and the values a caller reads from it are those that were put in; bytes in which a number, date, time, amount, flag or binary member is none are refused.",
 over=["inputs"], quant="all member values of every composite element, including absent optional members and text made of delimiters",
 why="Tests hold one or two literals per composite with plain members; the failing combinations (escaped delimiters at a member boundary, binary members, absent trailing members) are not among them.",
 files=["element/group_data_element_group.go", "element/element_extractor.go", "element/account.go", "element/signature.go", "element/acknowledgement.go", "element/user_parameter_data.go", "element/bank_parameter_data.go", "element/key_management.go", "element/message.go", "element/swift.go"],
 mech=[("group marshalling and trimming", "element/group_data_element_group.go"), ("group splitting", "element/element_extractor.go")],
 observe=["MarshalHBCI/UnmarshalHBCI of composite elements", "Val accessors"],
 tech=RAPID + "round trip and differential against a reference encoder",
 note="Random search over 31 kinds of composites; the member layouts are restated independently in the facet."),
dict(id="C04", title="Bank segments say to the caller what the bank sent",
 statement="Every kind of bank segment the library knows, in each version, with any of its optional elements present or absent and with any content, decodes without error into values equal to the ones the bank sent: balances with their sign, currency, date and time, account information with limits and allowed transactions, user and bank parameters, acknowledgements, TAN parameters, synchronisation results, message headers. No element is lost, shifted or swapped, and a decoded segment that is written again yields the same bytes.",
 over=["inputs"], quant="all values and all absence patterns of the elements of 40 segment versions",
 why="Tests hold one literal per segment, mostly with all elements set; absent elements in the middle, negative balances, several limits and escaped content combine without bound.",
 files=["segment", "segment/account_balance.go", "segment/user_parameter_data.go", "segment/common_bank_parameter_data.go", "segment/segment_index.go", "element"],
 mech=[("generated segment decoders", "segment/account_balance_unmarshaler.go"), ("segment registry", "segment/segment_index.go"), ("domain conversions", "segment/account_balance.go")],
 observe=["segment.KnownSegments.UnmarshalerForSegment", "domain values of decoded segments", "MarshalHBCI of decoded segments"],
 tech=RAPID + "round trip against an independent encoder of every segment layout",
 note="Random search; the layouts of the segments are restated independently in harness/props/c04_segments.go."),
dict(id="C05", title="Splitting a bank message is lossless and exact",
 statement="A bank message is split into exactly the segments, elements and group elements it was composed of, in order and byte for byte: delimiters inside escaped text or binary data never split, neither the ids of segments nor their prefixes are confused, nothing is dropped, merged or duplicated, and the input is left untouched. A message that is not well-formed HBCI (a truncated segment, an overlong binary, a stray escape) is refused with an error, exactly when an independent parser refuses it.",
 over=["inputs"], quant="all sequences of segments of arbitrary elements, and all damaged versions of them",
 why="Whether a delimiter splits depends on everything before it in the message; tests only hold well-behaved messages.",
 files=["token/lexer.go", "message/segment_extractor.go", "segment/element_extractor.go", "element/element_extractor.go"],
 mech=[("lexer", "token/lexer.go"), ("message extractor", "message/segment_extractor.go"), ("element extractors", "element/element_extractor.go")],
 observe=["message.NewSegmentExtractor", "segment.ExtractElements", "element.ExtractElements"],
 tech=RAPID + "differential against an independent HBCI parser, with byte-level damage",
 note="Random search against harness/ref, which is trusted. Text with a NUL byte and the known finding (zero-padded number with a comma) are outside the comparison."),
dict(id="C14", title="Account statements become the bookings the bank sent",
 statement="A valid MT940/MT942 statement, however its optional parts are combined, is read into its balances and bookings with exactly the content the bank sent: every booking once and in order, with its account, amount and sign (debits and reversals of credits negative), currency, booking date and valuta date in the right year, booking text, reference, purpose, counterparty and transaction id. Anything valid in a statement is accepted, and nothing of one booking ends up in another.",
 over=["inputs"], quant="all statements: any number of bookings, any dates including year ends and leap days, any amounts and marks, any presence pattern and wrapping of the purpose fields",
 why="Statements are free-form nested text with optional parts whose boundaries depend on each other; the tests hold a few real statements.",
 files=["swift/mt940.go", "swift/mt940_unmarshaler.go", "swift/message_extractor.go", "swift/tag_extractor.go", "token/swift_lexer.go"],
 mech=[("statement lexer", "token/swift_lexer.go"), ("tag decoding", "swift/mt940.go")],
 observe=["swift.MT940.Unmarshal", "swift.MT940.AccountTransactions", "swift.MT940Messages"],
 tech=RAPID + "model of a statement, rendered to SWIFT text, compared with what is read",
 note="Random search; the renderer in harness/props/mt940.go restates the statement format and is trusted."),
dict(id="C03", title="Requests say to the bank what the caller asked for",
 statement="Every job the client sends (accounts, balances, bookings, status log, in the national and the SEPA variant and in every version the bank may offer) holds, in the position the standard prescribes, exactly the values the caller gave: account, bank, date range, currency, continuation point; in a version the bank has announced; and nothing else. What a caller passes in never changes the structure of the message, and the identification, processing and end segments of the dialog carry the configured bank, user, product, versions and the current system id. Segments of key management name the key, its owner and the reason given.",
 over=["inputs", "histories"], quant="all account and user data, date ranges, continuation points, offered versions and histories of calls",
 why="Tests compare a few literal requests with plain data; the versions the bank offers, the optional members and the content of each member combine freely.",
 files=["client/client.go", "segment/account_balance.go", "segment/account_transaction.go", "segment/status_protocol.go", "segment/identification.go", "segment/tan.go", "segment/key_management.go", "dialog/dialog.go"],
 mech=[("request segments", "segment/account_transaction.go"), ("client calls", "client/client.go"), ("dialog start and end", "dialog/dialog.go")],
 observe=["bytes passed to the transport", "MarshalHBCI of request segments"],
 tech=RAPID + "stateful runs of the client against a model bank that parses every request, and differential encoding of request segments",
 note="Random search; the request layouts are restated in harness/props/bank.go and expect.go and are trusted."),
dict(id="C08", title="Messages are framed as the standard demands",
 statement="Every message the library writes is well-framed: its header states the exact number of bytes of the message, its segments are numbered 1, 2, 3 … without gap (in an encrypted message with the envelope numbers 998 and 999 and the inner segments continuing the count), message number and dialog id of header and trailer agree, and references to other segments name their actual number, whatever the content of the segments.",
 over=["inputs", "histories"], quant="all messages: any number of segments with any content, encrypted or not, in any dialog history",
 why="Tests hold messages of fixed length; lengths, numbers and references depend on the escaped content of all segments together.",
 files=["message/message.go", "message/encryption.go", "segment/message_header.go", "dialog/dialog.go"],
 mech=[("message framing", "message/message.go"), ("envelope", "message/encryption.go")],
 observe=["bytes passed to the transport", "BasicMessage.MarshalHBCI"],
 tech=RAPID + "invariants over every message of stateful client runs and over generated messages, using an independent parser",
 note="Random search; harness/ref is trusted."),
dict(id="C09", title="Signature and encryption envelopes are complete and consistent",
 statement="Every message of a dialog with a PIN is sent inside an encryption envelope and carries one signature whose header and end agree on their control reference; security function, versions, bank, user, key and system id are the same in the signature and the envelope and are the current ones of the dialog; the PIN stands, exactly as configured, only in the signature end and nowhere outside the envelope. What is enclosed comes out of the envelope unchanged. Without a PIN nothing is sent that claims to be signed. A signature made with an RSA key is one of exactly the bytes that are sent, from the signature header to the last job.",
 over=["inputs", "histories"], quant="all user data and PINs, all histories of dialogs with changing system ids and security functions",
 why="The envelope depends on dialog state (system id, chosen security function, version) and on user data with any character; tests use fixed mocks.",
 files=["message/signature.go", "message/encryption.go", "segment/signature_header.go", "segment/encryption_header.go", "element/signature.go"],
 mech=[("PIN/TAN signing and encryption", "message/signature.go"), ("message envelope", "message/encryption.go")],
 observe=["bytes passed to the transport", "message.PinTan crypto and signature providers"],
 tech=RAPID + "invariants over every message of stateful client runs, and sign/encrypt/decrypt round trips",
 note="Random search. Real cryptography is not used in PIN/TAN dialogs (the transport is TLS), so only the envelope is judged there; messages signed with an RSA key are judged by themselves, as no dialog with a card reader exists."),
dict(id="C10", title="Dialogs follow the protocol",
 statement="In every history of client calls each dialog is opened with identification before any job, uses the dialog id the bank assigned in all later messages, numbers its messages 1, 2, 3 …, is ended exactly once and is not used afterwards. The system id the bank assigned, the parameter versions it sent, the user id and the security function it allows are used from then on; data the client already has is not requested again. Dialogs that follow a lost, damaged or refused answer keep to the same rules: they start anew, with the system id the bank assigned, and no job is sent in a dialog the bank did not open.",
 over=["histories"], quant="all sequences of client calls against banks with any parameters, allowed security functions and assigned ids",
 why="Which message is right depends on everything that was exchanged before; the tests follow a few fixed exchanges against mocks.",
 files=["client/client.go", "dialog/dialog.go", "dialog/pin_tan_dialog.go"],
 mech=[("dialog state", "dialog/dialog.go"), ("synchronisation", "dialog/dialog.go"), ("client calls", "client/client.go")],
 observe=["sequence of requests at the transport"],
 tech="stateful property-based testing (rapid): generated histories of calls against a model bank, protocol invariants checked over the recorded history",
 note="Random search with up to eight calls per history."),
dict(id="C12", title="Results that span several responses are complete and in order",
 statement="When the bank splits a result over several responses, the client follows each continuation point exactly once, exactly as the bank gave it and with the query otherwise unchanged, until the bank gives none, and the caller gets the bookings and balances (national and SEPA) of all responses, complete, without duplicates and in the order the bank sent them (statement chunks by their time, equal times in the order sent).",
 over=["inputs", "histories"], quant="all numbers of pages, all continuation points (any text) and all distributions of the data over the pages",
 why="Tests have at most two pages with plain continuation points.",
 files=["client/client.go", "swift/mt940.go", "segment/account_transaction.go"],
 mech=[("continuation loops", "client/client.go"), ("merging of statements", "swift/mt940.go")],
 observe=["requests at the transport", "results of client calls", "swift.MergeMT940Messages"],
 tech="stateful property-based testing (rapid) against a model bank with generated pages, and a reference merge",
 note="Random search with up to six pages."),
dict(id="C13", title="Client calls return what the bank reported",
 statement="Each client call returns exactly the accounts, balances, bookings, SEPA bookings, account information or status entries that the bank holds for the account asked for: every item once, in order, with its values, nothing of other segments, earlier calls or other accounts, in every version of the segments and in both the national and the SEPA variant; an account without data gives an empty result and no error.",
 over=["inputs", "histories"], quant="all bank data, accounts, versions and histories of calls",
 why="Tests check single responses with fixed literals; results are assembled from several segments, types and versions.",
 files=["client/client.go", "segment/account_balance.go", "segment/account_transaction.go", "segment/account_information.go", "segment/status_protocol.go", "domain"],
 mech=[("client calls", "client/client.go"), ("segment values", "segment/account_balance.go")],
 observe=["results of client calls"],
 tech="stateful property-based testing (rapid): results compared with the data of a model bank",
 note="Random search; bank data is rendered by harness/ref."),
dict(id="C11", title="Failures surface as errors, exactly when something failed",
 statement="A call whose request the bank rejects (an error code in a message or segment acknowledgement), whose answer is lost, cut off at any byte, replaced by something that is no HBCI message, or lacks the data asked for returns an error that names the bank's reason, never a partial or empty result as if it were complete; warnings and success codes never turn into errors; a failure while a finished dialog is closed does not take the result away; and after a failure the client works again on the next call.",
 over=["inputs", "histories", "faults"], quant="all error codes and texts, all cut positions, all requests of a history at which the fault happens, up to three faults",
 why="Tests inject a handful of error codes at the first message; where a fault hits decides which of a dozen code paths handles it.",
 files=["client/client.go", "dialog/dialog.go", "message/decryption.go", "transport/transport.go", "transport/middleware", "domain/acknowledgement.go"],
 mech=[("error collection", "dialog/dialog.go"), ("message completeness", "message/segment_extractor.go"), ("transport decoding", "transport/middleware")],
 observe=["errors and results of client calls"],
 tech="stateful property-based testing (rapid) with fault injection at the transport of a model bank",
 note="Random search. A truncation or damage after which the message is still well-formed for an independent parser is not judged (HBCI PIN/TAN has no checksum; transport security is TLS)."),
dict(id="C06", title="Nothing a bank sends crashes the client",
 statement="Whatever bytes arrive in place of a data element, a segment, a message or the content of an encrypted message - missing, repeated, exchanged, overlong or meaningless members, values of another type, text cut off anywhere - reading them, and asking for any value of what was read, returns a value or an error. It never panics and never hangs, in no part of the library and in no phase of a dialog.",
 over=["inputs", "histories", "faults"], quant="all bytes as an element of any kind, all damaged versions of every kind of bank segment and message, all histories of calls with damaged answers",
 why="Tests hold well-formed data and a few literal errors; any member of any of 50 element and 40 segment kinds may be missing or of the wrong type, alone or together.",
 files=["element/data_element.go", "element/bank_parameter_data.go", "segment", "segment/account_balance.go", "message/segment_extractor.go", "message/decryption.go", "dialog/dialog.go", "client/client.go"],
 mech=[("bounds of element lists", "element/group_data_element_group.go"), ("generated segment decoders", "segment/account_balance_unmarshaler.go"), ("access to decoded messages", "message/decryption.go")],
 observe=["UnmarshalHBCI of elements, segments and messages", "value accessors", "client calls"],
 tech=RAPID + "structure-aware mutation of valid messages against a no-panic, no-hang oracle, plus a model bank that damages its answers",
 note="Random search with structural edits (1-4 per case). A hang is a case that takes more than the watchdog's time limit."),
dict(id="C07", title="Damaged account statements are refused, not misread or fatal",
 statement="Whatever text arrives in place of an MT940 statement, reading it returns bookings or an error and never panics or hangs: at the level of a single tag, of a statement, of a set of statements and of a client call. A set of statements that is cut off anywhere is refused, unless what is left consists of statements with all their bookings; an amount that is no amount is refused, and no booking of an accepted set is left out or given another amount.",
 over=["inputs", "faults"], quant="all damaged and all truncated sets of statements, all bytes as any tag",
 why="Tests hold real, intact statements; every field of every tag may be missing, cut or of another form.",
 files=["swift/mt940.go", "swift/mt940_unmarshaler.go", "swift/message_extractor.go", "swift/tag_extractor.go", "swift/element.go", "swift/unmarshal.go", "token/swift_lexer.go"],
 mech=[("statement lexer", "token/swift_lexer.go"), ("tag decoding", "swift/mt940.go"), ("completeness of a statement", "swift/unmarshal.go")],
 observe=["swift.NewMT940MessagesUnmarshaler", "Unmarshal of swift tags", "errors and results of AccountTransactions"],
 tech=RAPID + "structure-aware mutation and truncation of generated statements against a no-panic and prefix oracle",
 note="Random search. That a damaged statement is detected is only claimed for truncation and for amounts; other damage may yield another valid statement."),
dict(id="C16", title="IBANs are built, checked and printed by the standard",
 statement="For every country and every account identifier that fits it, in any case, the IBAN built from them holds both unchanged with the check digits of ISO 13616, counts as valid, is recognised from its text and prints in groups of four; a German IBAN is built from a bank id and an account id of any length up to ten digits and gives both back. A text is accepted exactly if it is an IBAN: one wrong character or two exchanged neighbours, a missing part, a foreign character or too great a length is refused, and no text causes a panic.",
 over=["inputs"], quant="all countries, all BBANs of letters and digits, all single damages, all texts",
 why="The tests hold one IBAN per country; the arithmetic and the checks range over 36^30 texts.",
 files=["iban/iban.go"],
 mech=[("check digits", "iban/iban.go")],
 observe=["iban.New", "iban.NewGerman", "iban.From", "iban.IsValid", "IBAN.Valid", "iban.Print"],
 tech=RAPID + "algebraic laws, an independent digit-by-digit checksum and metamorphic damage",
 note="Random search. The lengths per country are restated from the ISO 13616 registry; as in the library they are upper bounds."),
dict(id="C18", title="Dates and timeframes keep their day in every representation",
 statement="A short date holds the calendar day of the time it was made of, whatever the zone and time of day, and that day survives JSON, text and URL queries, by value, by reference and inside other values; so do the two days of a timeframe. A date that is not set stays not set. A text is read as a date exactly if it is one.",
 over=["inputs"], quant="all days of the years 1 to 9999 at any time in any zone, all pairs of days, all texts",
 why="The tests hold a handful of dates in JSON by reference; zones, calendar edges and the way a value is embedded combine freely.",
 files=["domain/time.go"],
 mech=[("conversion to a day", "domain/time.go"), ("JSON, text and query forms", "domain/time.go")],
 observe=["domain.NewShortDate", "JSON and text of ShortDate", "JSON and query of Timeframe"],
 tech=RAPID + "round trips and an independent calendar",
 note="Random search over days, all five forms per case."),
dict(id="C15", title="The PIN goes to the bank and nowhere else",
 statement="The PIN a client is configured with appears in nothing but the enclosed signature of the messages sent to the bank: not in an error, a result, a log line at any default level, a file or anything else the library or its command line tool prints, in no encoding, however a call fails and wherever it breaks off. Requests and answers are printed only when debugging is switched on for this client. Without a PIN no message is sent.",
 over=["inputs", "histories", "faults"], quant="all PINs, all histories of calls and all faults in them",
 why="The tests do not look at what is logged; each of the error paths of a dialog formats other values, and only a search through all of them finds one that formats a message or key.",
 files=["client/client.go", "dialog/dialog.go", "dialog/pin_tan_dialog.go", "domain/key.go", "element/signature.go", "internal/logger.go", "transport/middleware/logging.go", "message/encryption.go"],
 mech=[("logging", "internal/logger.go"), ("transport logging", "transport/middleware/logging.go"), ("keys", "domain/key.go")],
 observe=["errors and results of client calls", "standard error and output", "bytes passed to the transport"],
 tech="stateful property-based testing (rapid) with a marker in the PIN that is searched for in everything observable",
 note="Random search. With debugging switched on messages are printed with their PIN masked or not; that is not judged."),
dict(id="C17", title="Transport and encodings deliver bodies unchanged or fail",
 statement="The bytes of a request reach the bank, and the bytes of its answer reach the dialog, unchanged through every layer of the transport - ISO 8859-1, base64, logging, HTTP - however the data is cut into pieces on the way, whatever they hold. An answer that breaks off or an inner transport that fails gives an error, never a shorter answer taken for complete.",
 over=["inputs", "faults"], quant="all bodies, all ways they are cut into reads, all places where they break off",
 why="The tests pass short strings in one read; the state of a decoder between two reads and the treatment of errors at the end of a body depend on where the pieces end.",
 files=["transport/transport.go", "transport/https", "transport/middleware/encoding.go", "transport/middleware/logging.go", "charset/convert.go"],
 mech=[("base64 and character encoding", "transport/middleware/encoding.go"), ("logging", "transport/middleware/logging.go"), ("HTTP", "transport/https")],
 observe=["bodies and errors before and after each middleware", "an HTTP server on the loopback network"],
 tech=RAPID + "round trip and differential against direct transfer, with chunking and truncation",
 note="Random search. HTTP status codes are not judged: HBCI banks answer errors in HBCI."),
dict(id="C19", title="The bank directory says what the tables say",
 statement="Every bank of a CSV table is read with exactly its values, whatever the order of the columns, quoting, padding and line ends; a bank is found by its own bank id and by no other, in the built-in directory as well; its HBCI version is the higher one of the two the table names; and a client that is given only a bank id uses the address and version of this bank or is refused.",
 over=["inputs"], quant="all tables of up to eight banks, all bank ids of the built-in directory and their neighbours, all pairs of version names",
 why="The tests read two or three literal lines and look up one bank.",
 files=["bankinfo/parser.go", "bankinfo/bank_data.go", "bankinfo/bank_info.go", "bankinfo/bic_info.go", "bankinfo/data.go", "client/client.go"],
 mech=[("CSV parser", "bankinfo/parser.go"), ("lookup", "bankinfo/bank_data.go"), ("versions", "bankinfo/bank_info.go")],
 observe=["bankinfo.ParseBankInfos", "bankinfo.ParseBicData", "bankinfo.FindByBankID", "client.New"],
 tech=RAPID + "rendered tables compared with what is read, and complete enumeration of the built-in directory",
 note="Random search for tables, complete for the directory and the versions."),
dict(id="C20", title="A request is written in the highest version both sides know",
 statement="For every job the version of the request is the highest one that the bank offers and the library can write, whatever else the bank offers, in whatever order and how often; the request really has the layout of that version; asking does not change the list of offers. If there is no common version the caller gets an error and nothing is sent.",
 over=["inputs", "histories"], quant="all lists of offered versions, complete up to four entries out of ten versions, all jobs, all histories of calls",
 why="The tests offer one or two versions in ascending order.",
 files=["segment/hbci_version.go", "segment/account_balance.go", "segment/account_transaction.go", "segment/status_protocol.go", "client/client.go", "dialog/dialog.go"],
 mech=[("choice of a version", "segment/hbci_version.go"), ("requests per version", "segment/account_balance.go")],
 observe=["segment request builders", "requests at the transport"],
 tech="exhaustive enumeration of small lists plus property-based testing (rapid) of builders and client histories, against a maximum of the intersection",
 note="Complete for lists of up to four versions (five in the thorough run); random beyond."),
dict(id="C21", title="Acknowledgements are reported as the bank gave them",
 statement="Every acknowledgement in an answer - of the message and of each segment - is reported exactly once, in order, with its code, element, text, parameters, the message it refers to and, for a segment, its number; it is a success, a warning or an error exactly by its code (below 1000, 3xxx, 9xxx); and its printed form names all of it.",
 over=["inputs"], quant="all codes, all texts and parameters, all arrangements of acknowledgement segments in an answer",
 why="The tests hold a few codes and one acknowledgement per answer.",
 files=["domain/acknowledgement.go", "element/acknowledgement.go", "segment/acknowledgement.go", "message/decryption.go"],
 mech=[("classes of codes", "domain/acknowledgement.go"), ("collection from an answer", "message/decryption.go")],
 observe=["BankMessage.Acknowledgements", "Acknowledgement.IsError/IsWarning/IsSuccess/String"],
 tech="exhaustive enumeration of codes and property-based testing (rapid) of answers rendered by an independent encoder",
 note="Complete for codes, random for answers. Only the first message acknowledgement of an answer is judged, as the standard allows one."),
dict(id="C23", title="Validity tells whether an element may be sent",
 statement="Asked whether it is valid, every data element answers yes exactly if its value meets the rules of its kind - length, number of digits, membership of a code in its set, presence - for any value including umlauts, binary data and fractions, and an element made of elements, such as an account, a segment header or an acknowledgement, exactly if each of them does and none it needs is missing; asking changes neither the element nor the data the caller passed in.",
 over=["inputs"], quant="all values and all maximum lengths of each kind of data element",
 why="The tests ask for a few literals per kind, none with umlauts, fractions or unsorted code sets.",
 files=["element/data_element.go", "element/group_data_element_group.go", "element/segment_header.go", "element/message.go", "element/acknowledgement.go", "element/signature.go", "element/user_parameter_data.go", "element/pin.go"],
 mech=[("length and validity", "element/data_element.go"), ("groups", "element/group_data_element_group.go"), ("required members", "element/segment_header.go")],
 observe=["IsValid and Length of data elements", "MarshalHBCI before and after"],
 tech=RAPID + "independent restatement of the rules of each kind",
 note="Random search. Where the standard leaves open whether escape characters count, neither answer is judged."),
dict(id="C22", title="Generated code says what its source says",
 statement="The decoder the generator writes for a segment definition compiles, is registered for every version of the segment and reads each element the bank sends into the field that the definition names at that place, whatever the names, number, kinds and order of the fields, absent elements staying unset. A definition or version list the generator does not understand is refused and nothing is written. The bank directory written from bank tables is valid source that holds every bank of all tables with exactly its values, sorted by bank id.",
 over=["inputs"], quant="all segment definitions of up to 20 elements in up to four versions and layouts, all values of them, damaged definitions, and all bank tables",
 why="The tests compare the generated text for a handful of two-element definitions and never compile or run it; the directory generator has no tests.",
 files=["generator/segment_unmarshaler.go", "generator/segment_field_visitor.go", "cmd/unmarshaler/unmarshaler_generator.go", "cmd/bankdata_parser/bankdata_parser.go"],
 mech=[("decoder templates", "generator/segment_unmarshaler.go"), ("field extraction", "generator/segment_field_visitor.go"), ("directory template", "cmd/bankdata_parser/bankdata_parser.go")],
 observe=["generated source, compiled into the library through an overlay and run", "exit status and files of the generators"],
 tech=RAPID + "generated definitions, whose decoders are compiled and compared with a reference encoder",
 note="Random search. A definition with an elements method of one return statement listing fields is what the generator supports; only lists of single elements at the end of a segment are not part of the made-up definitions."),
dict(id="C24", title="Clients are independent of each other",
 statement="A client sends, returns, reports and prints exactly what it would if it were the only one in the process, whatever other clients there are, for the same bank or user or not, in whatever order their calls and requests follow each other or fall together, and whatever goes wrong in the others. Clients used by different goroutines, one each, share no data without synchronisation.",
 over=["histories", "schedules", "faults"], quant="all sets of clients with a history each, all interleavings of their requests, all faults in them",
 why="Every test uses one client at a time; a variable of a package that one client leaves behind for the next shows only with two clients whose requests alternate, or under the race detector.",
 files=["client/client.go", "dialog/dialog.go", "dialog/pin_tan_dialog.go", "internal/logger.go", "segment/hbci_version.go", "bankinfo/bank_data.go", "message/encryption.go"],
 mech=[("clients", "client/client.go"), ("state of a dialog", "dialog/dialog.go"), ("switches of the process", "internal/logger.go")],
 observe=["requests at the transport of each client", "results and errors of client calls", "reports of the race detector"],
 tech="stateful property-based testing (rapid): generated interleavings of client histories at the level of requests, each compared with the model of a lone client, and parallel histories under the race detector",
 note="Random search. The race detector sees the accesses of the runs made; a single client shared by goroutines is not promised to work and not judged."),
dict(id="C25", title="The command line tool and the printed lists show what the bank reported",
 statement="A list of accounts, balances or bookings is printed as one line for each, in order, with every value it shows complete and set apart from its neighbours, whatever the values. The command line tool takes each setting from the option, else the environment, else the configuration file, asks the bank of that configuration for exactly what it was called for, prints exactly the list the bank answered and ends with 0; if it cannot, it prints why and ends with 1. It prints and stores no PIN, never alters a configuration file that is there, and remembers the settings of its first call.",
 over=["inputs", "faults"], quant="all lists of up to six rows with any values, all combinations of command, options, environment and configuration file, all answers and faults",
 why="The tool and the lists have no tests at all.",
 files=["cmd/banking/root.go", "cmd/banking/accounts.go", "cmd/banking/balances.go", "cmd/banking/transactions.go", "domain/account_balance.go", "domain/account_information.go", "domain/account_transaction.go"],
 mech=[("settings", "cmd/banking/root.go"), ("lists", "domain/account_balance.go"), ("bookings", "domain/account_transaction.go")],
 observe=["String of the list types", "output, exit status and files of the tool", "requests of the tool at an HTTP server on the loopback network"],
 tech=RAPID + "lists compared word by word with an independent rendering, and the built tool run against the model bank behind a loopback HTTP server",
 note="Random search. Column widths and the text of error messages (beyond what the bank said) are not judged."),
dict(id="C26", title="The cost of an answer stays in proportion to its size",
 statement="Reading a bank message or account statements, and a client call as a whole, takes memory and processor time in proportion to the size of what the bank sent, whatever is in it and whichever part of it makes up the size, well-formed or not: eight times the data never costs much more than eight times as much.",
 over=["inputs"], quant="all messages and statements in which any run of bytes, field, segment or line is repeated up to 192 KB",
 why="No test reads more than a few hundred bytes; code that copies or scans what is left at every step passes them all and stops a program on a year's statements.",
 files=["token/lexer.go", "token/swift_lexer.go", "message/segment_extractor.go", "message/unmarshaler.go", "element/element_extractor.go", "swift/message_extractor.go", "swift/mt940_unmarshaler.go", "charset/convert.go"],
 mech=[("lexers", "token/lexer.go"), ("segments", "message/segment_extractor.go"), ("statements", "swift/mt940_unmarshaler.go")],
 observe=["bytes allocated and processor time while reading"],
 tech=RAPID + "metamorphic relation between the cost of an input and of one eight times as large",
 note="Random search. The relation allows a factor of twenty and half a second, so that only growth beyond proportion is reported; the processor time of the thread is taken, not the time of day."),
dict(id="C27", title="RSA blocks, keys and ISO 9796 signatures are exact",
 statement="A block encrypted under an RSA key is the one the RSA formula gives, as long as the key, and decrypting it gives the block back, with plain and with Chinese remainder parameters, wherever the block stands in a buffer. The number signed for a message is the one ISO 9796-1 prescribes, and a signature, or its complement, gives the message and its pad bits back; anything that is no signature under this key is refused with an error. An encryption key keeps its modulus and exponent and encrypts for their owner; a PIN key signs with the PIN and hands on what it encrypts unchanged, in a copy of its own.",
 over=["inputs"], quant="all blocks, offsets and RSA keys of the sizes the scheme is defined for, all messages that fit, all pad bits, all damage to a signature",
 why="The tests hold one key, one message and no damage; a block with leading zeros, a message of another length or a signature of another key is never tried.",
 files=["crypto/rsa.go", "crypto/iso9796_encoding.go", "domain/key.go"],
 mech=[("RSA blocks", "crypto/rsa.go"), ("redundancy of ISO 9796-1", "crypto/iso9796_encoding.go"), ("keys", "domain/key.go")],
 observe=["RSA.ProcessBlock and the block sizes", "ISO9796d1Encoding.ProcessBlock", "Key.Sign, Key.Encrypt, modulus and exponent"],
 tech=RAPID + "arithmetic on big integers and an independent implementation of ISO 9796-1, round trips and damaged signatures",
 note="Random search over keys made for the harness. Key sizes are those the scheme divides evenly and the encoding supports; messages too long for the key are refused by panic by design and not generated."),
dict(id="C28", title="What a dialog knows about bank, user and accounts is what the bank last said",
 statement="After every step of a dialog, with or without signature, its bank parameters (version, bank, limits, timeouts, which job needs a TAN), the jobs the bank offers with the parameters of each, its user parameters, its accounts and its client system id are exactly what the bank last said about each of them at the beginning of a dialog, even under the same version number; what the bank did not repeat stays as it was, and nothing of what it said before shines through. It tells the bank the versions it knows, signs with the PIN set last and names the security function the bank last wanted, and identifies itself with the user id the bank last gave, if it gave one. After a refused or lost beginning each part is what it was or what the bank said since, never a mixture.",
 over=["histories", "inputs", "faults"], quant="all sequences of dialog steps, everything a bank can say at the beginning of each dialog, and refused and lost beginnings",
 why="The tests send the parameters once; what happens when a bank tells less, the same version with other contents or different accounts the next time only shows over several dialogs.",
 files=["dialog/dialog.go", "dialog/bank_parameter_data.go", "segment/common_bank_parameter_data.go", "segment/pin_bpd.go", "segment/user_parameter_data.go", "message/decryption.go", "domain/bank_parameter_data.go"],
 mech=[("what the bank says", "dialog/dialog.go"), ("bank parameters", "segment/common_bank_parameter_data.go"), ("offers", "message/decryption.go")],
 observe=["exported fields and SupportedSegments of a dialog", "versions and user id in requests at the transport"],
 tech="stateful property-based testing (rapid): generated histories of dialog steps against a bank written on an independent encoder, the state of the dialog compared with a model after every step",
 note="Random search over histories of up to six steps. A user parameter message without accounts leaves the accounts as they were, as the library does and the standard leaves open."),
]
