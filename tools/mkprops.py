#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": [{"input":"inputs","history":"histories","configuration":"configurations","fault":"fault_sequences","schedule":"schedules"}[o] for o in over], "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("P01", "Bank error acknowledgements always surface as errors",
 "If any acknowledgement the bank returns for a dialog opening, a synchronisation, an order or an anonymous request carries an error code (9000 or above), at whatever position and whether it refers to the message or to a segment, the operation returns a non-nil error to the caller. Acknowledgements with codes below 9000 alone never make an operation fail. Every acknowledgement segment of a decoded response is considered.",
 ["input", "history"], "every bank response: any number of acknowledgement segments, any codes, error code at any index, for every kind of dialog step",
 "tests feed a few canned responses with one acknowledgement; the guarantee is about every position and code",
 ["dialog/dialog.go", "message/unmarshaler.go", "message/dialog.go", "domain/acknowledgement.go"],
 [("error-class test on codes", "domain/acknowledgement.go IsError"), ("per-response acknowledgement loops", "dialog/dialog.go init, SendMessage, SyncClientSystemID, anonymousInit"), ("collecting all acknowledgements", "message: Acknowledgements")])
prop("P02", "Every dialog is numbered and identified correctly",
 "Each dialog starts with the initial dialog id 0 and message number 1, whatever happened in earlier dialogs of the same connection object. After the opening response every later message of that dialog carries the dialog id the bank assigned, and message numbers of consecutive messages grow by exactly one. Header and trailer of a message carry the same number.",
 ["history"], "every sequence of operations on one dialog object, including repeated and failed ones",
 "tests exercise one dialog per object; the guarantee spans histories of dialogs on the same object",
 ["dialog/dialog.go", "message/message.go", "segment/message_header.go", "segment/message_end.go"],
 [("dialog id and message counter", "dialog/dialog.go dialog.dialogID, messageCount, newBasicMessage")])
prop("P03", "A successfully opened dialog is ended exactly once",
 "Once the bank has accepted a dialog opening for an order, a user-parameter synchronisation or an anonymous request, exactly one dialog end message for that dialog is sent before the operation returns, on success and on every failure after the opening. After a successful client synchronisation the dialog is ended as well. No end message is sent for a dialog that was never opened.",
 ["history", "input"], "every path through the dialog operations, for any response or transport failure",
 "the failing-step/ending-step combinations are many and tests cover only the happy ones",
 ["dialog/dialog.go"], [("deferred end", "dialog/dialog.go SendMessage, SyncUserParameterData, SendAnonymousMessage, SyncClientSystemID")])
prop("P04", "Authenticated messages leave signed first, then encrypted",
 "Every message a PIN/TAN dialog hands to the transport is an encrypted envelope whose encrypted payload is the signed message: signature header, all order segments in the given order, and signature trailer, in that order. The signature is made over the message before encryption and both use the dialog's configured signature and encryption providers; if signing or encrypting fails nothing is sent. Anonymous messages are sent with neither signature nor encryption segments.",
 ["history", "input"], "every message of every authenticated dialog, any list of order segments",
 "tests look at a few marshalled messages; the rule is about every send path",
 ["dialog/dialog.go", "message/message.go", "message/signature.go", "message/encryption.go"],
 [("sign/encrypt/request chain", "dialog/dialog.go"), ("payload assembly", "message/message.go Sign, Encrypt")])
prop("P05", "Outgoing messages have the prescribed layout, numbering and size",
 "In every outgoing message the message header comes first and the message trailer last, segments appear in the order signature header, orders, signature trailer, and they are numbered consecutively from 1 without gaps or duplicates (only the two segments of the encryption envelope carry the fixed numbers 998 and 999). Absent (nil) segments take no number and no bytes. The size field of the header equals the byte length of the complete message actually sent.",
 ["input"], "any number and kind of order segments, with or without signature parts",
 "tests use one or two fixed messages",
 ["message/message.go", "segment/segment.go", "segment/message_header.go"],
 [("numbering", "message/message.go SetSegmentPositions"), ("size", "message/message.go SetSize"), ("assembly", "message/message.go MarshalHBCI")])
prop("P06", "Text fields cannot break out of their position on the wire",
 "Every text value a caller supplies is written with each of the syntax characters + : ' ? @ preceded by the release character ?, and reading the field back removes exactly those release characters. Binary values are written as @length@ followed by the raw bytes, where length is the number of those bytes, and are read back by that length.",
 ["input"], "every text and binary value",
 "only a handful of special characters in a handful of positions are sampled by tests",
 ["element/data_element.go", "token/token.go", "token/lexer.go"],
 [("escape on write", "element/data_element.go AlphaNumeric String/MarshalHBCI"), ("unescape on read", "element/data_element.go AlphaNumeric UnmarshalHBCI"), ("binary framing", "element/data_element.go BinaryDataElement")])
prop("P07", "Primitive field encodings read back what they write",
 "For each primitive field kind (number, fixed-width digits, decimal amount, date, time, yes/no flag, code, text, country and currency code) the format used for writing and the format used for reading are the same: same date and time layouts, same decimal mark, same flag letters, zero padding to the declared width. Reading stores the decoded value in the field, so that what the accessor returns is the value that was on the wire.",
 ["input"], "every value of every primitive field kind",
 "round trips over all values cannot be sampled exhaustively; the layouts are per kind constants",
 ["element/data_element.go", "element/data_element_type.go"], [("String / UnmarshalHBCI pairs", "element/data_element.go")])
prop("P08", "Writer and reader agree on the position of every field",
 "For every segment and every composite field, the position at which a component is written is the position from which it is read back, for every component and every supported version, and an absent optional component neither shifts nor loses the others. The declared number of components of a composite equals the number it actually writes.",
 ["input", "configuration"], "all segment and composite types, all versions, all subsets of present components",
 "tests cover only some segments with particular presence patterns",
 ["segment/*.go", "element/*.go"], [("write order", "elements() / GroupDataElements()"), ("read order", "UnmarshalHBCI index mapping"), ("declared count", "NewGroupDataElementGroup count argument")])
prop("P09", "Every received segment is decoded as exactly its id and version",
 "Each registered segment decoder is reachable under its own identifier and version and yields a segment that reports that same identifier and version; no two decoders claim the same identifier and version. Version-dependent decoders select the layout belonging to the version in the received header and reject or pass over versions they do not know instead of decoding them with another layout. Asked for an identifier, a decoded message hands out all its segments of that identifier in the order of the message, or the first of them.",
 ["input", "configuration"], "all segment identifiers and versions",
 "tests decode a sample of segments",
 ["segment/segment_index.go", "segment/*_unmarshaler.go", "message/unmarshaler.go"],
 [("registry", "segment/segment_index.go KnownSegments"), ("version switch", "versioned UnmarshalHBCI")])
prop("P10", "Requests are built in the highest version both sides support",
 "A request for account balances, account transactions or the status protocol is built in the highest version that the bank advertised among the versions this library can build, independent of the order in which the bank listed them. The advertised versions consulted are those of that same order kind's parameter segment, the segment produced carries exactly the chosen version and the order's own identifier, and if the bank advertised none of the buildable versions the caller gets an error and nothing is sent.",
 ["input", "configuration"], "every list of advertised versions in any order, for every such order kind",
 "lists of supported versions are bank data, tests try single-element lists",
 ["segment/account_transaction.go", "segment/account_balance.go", "segment/status_protocol.go", "segment/segment.go", "client/client.go", "dialog/dialog.go"],
 [("builders", "segment *RequestBuilder"), ("supported versions", "dialog SupportedSegments, segment parameters lookup in client")])
prop("P11", "Malformed bank data yields errors, never a crash",
 "Decoding any byte sequence received from the bank, as message, segment, composite field, primitive field or account statement, ends with a value or an error: no index or slice bound is exceeded, no type assertion fails and no absent component is dereferenced. This includes truncated data, missing components and unexpected segment types.",
 ["input"], "all byte sequences",
 "the space of malformed inputs cannot be sampled",
 ["segment/*_unmarshaler.go", "element/*.go", "message/*.go", "swift/*.go", "dialog/dialog.go"],
 [("decoders", "UnmarshalHBCI of segments and elements, message decoding, MT940 decoding")])
prop("P12", "Decoding failures are reported, not swallowed",
 "When reading any component of a segment, composite field or account statement fails, the enclosing decode operation returns a non-nil error, and a decode operation that returns no error has not skipped a present component. Errors of the transport, of decryption, of signing and of encryption likewise reach the caller of the operation, except failures while ending a dialog whose order was already answered, which are only logged.",
 ["input", "fault"], "every component failing in every decoder; every fallible step of every operation",
 "tests contain few failing components",
 ["segment/*_unmarshaler.go", "element/*.go", "swift/*.go", "message/*.go", "dialog/dialog.go", "client/client.go", "transport/**"],
 [("error propagation", "all functions returning an error")])
prop("P13", "The transport delivers exactly the message bytes, over verified HTTPS",
 "The HTTP body posted for a PIN/TAN message is exactly the base64 encoding of the complete message (flushed before sending), sent by POST to the configured address, and the response handed back is the base64 decoding of the HTTP response body with the same alphabet. A failed HTTP exchange or undecodable body is reported as an error, TLS certificate verification is never disabled, and no bank address known to the library is plain http.",
 ["input", "configuration"], "every message length and content, every response",
 "tests use a mock transport with short bodies",
 ["transport/https/https.go", "transport/middleware/encoding.go", "transport/transport.go", "client/client.go", "bankinfo/data.go"],
 [("base64 middleware", "transport/middleware/encoding.go"), ("HTTP client", "transport/https/https.go")])
prop("P14", "Account statements and balances are fetched completely, page by page",
 "As long as the bank answers a transactions or balance request with a continuation notice (code 3040), the client asks again with exactly the continuation reference the bank supplied and the same account and time frame, and stops when no such notice is present. The result contains the entries of every page exactly once, in the order the bank delivered the pages.",
 ["history", "input"], "any number of pages",
 "tests have at most two pages",
 ["client/client.go", "swift/*.go"], [("recursion on 3040", "client/client.go accountTransactions, SepaAccountBalances")])
prop("P15", "MT940 statements are decoded into the right fields",
 "Each tag of an account statement is decoded into its own field: transaction reference, account, statement number, opening and closing balance, future and current valued balance and each booking with the purpose text that follows it. The sign of amounts follows the debit/credit marks (debit and reversed credit negative, credit and reversed debit positive), and amounts, currencies, dates and purpose sub-fields end up in the corresponding attributes of the resulting transactions.",
 ["input"], "all statements",
 "tests decode one or two statements",
 ["swift/mt940.go", "swift/element.go", "swift/unmarshal.go", "swift/mt940_unmarshaler.go"],
 [("tag dispatch", "swift MT940 Unmarshal"), ("mapping", "swift AccountTransactions")])
prop("P16", "IBANs are accepted and produced only with a correct check number",
 "An IBAN is produced with the check number 98 minus (rearranged number modulo 97), rendered in two digits, and is reported valid only when the rearranged number modulo 97 equals 1. Text that is too short, has the wrong length for its country or contains characters that do not belong into an IBAN is rejected with an error and never crashes, and letters are handled identically in both cases.",
 ["input"], "all strings",
 "tests check about a dozen IBANs",
 ["iban/iban.go"], [("check number", "iban/iban.go New, From, IsValid")])
prop("P17", "The PIN never leaves except inside the signature trailer",
 "The PIN reaches the wire only as the secret in the signature trailer of a message, which itself is sent only inside an encrypted payload. It never flows into URLs, error values, console output, files, user-visible text or any log above debug level, and the same holds for keys derived from it.",
 ["input", "history"], "every path on which credentials are handled",
 "absence of a flow cannot be tested by sampling",
 ["dialog/*.go", "message/*.go", "client/client.go", "cmd/banking/*.go", "domain/key.go"],
 [("PIN holder", "domain/key.go PinKey"), ("use in signature", "message/signature.go")])
prop("P18", "Decoding never modifies or retains the caller's bytes",
 "Decoding a message, segment, composite or primitive field never writes to the byte slice it is given, including the storage behind the slice's end.",
 ["input"], "every decode call on every slice",
 "aliasing writes show only when the caller reuses the buffer",
 ["element/*.go", "segment/*.go", "message/*.go", "token/*.go", "swift/*.go"], [("extractors", "element_extractor, segment_extractor")])
prop("P19", "Results do not depend on map order or on the time of the call",
 "What a decode or mapping operation returns is a function of the bytes it is given: it depends neither on map iteration order nor on the current time or randomness. What a PIN/TAN dialog sends depends on the clock and on randomness only in the time stamp and the control reference of the security header, and in the date range of a statement request where the caller left it open.",
 ["schedule", "input"], "all calls at all times",
 "a test sees one map order and one instant",
 ["**/*.go"], [("map ranges", "range over maps"), ("clock and randomness", "time.Now, time.Since, math/rand, crypto/rand")])
prop("P20", "Text crosses the wire in ISO 8859-1 in both directions",
 "All text that is written into a message is converted to ISO 8859-1 and all text read from a message is converted back from it, once each; sizes and lengths are computed on the converted bytes. Account statements are converted as well.",
 ["input"], "all text values",
 "tests contain few non-ASCII characters",
 ["charset/convert.go", "element/data_element.go", "message/message.go"], [("conversion calls", "charset.ToISO8859_1, ToUTF8")])
prop("P21", "Orders carry exactly what the caller asked for",
 "Every order sent for a client call addresses the account the caller passed and carries the caller's time frame (start as start date, end as end date), all-accounts flag, maximum-entries and continuation reference in the fields meant for them, in every supported version of the order. User id, bank id, client system id and product data of the client configuration appear in the identification of every dialog.",
 ["input", "configuration"], "every parameter value and every order version",
 "tests check single versions",
 ["client/client.go", "segment/account_transaction.go", "segment/account_balance.go", "segment/account_information.go", "segment/status_protocol.go", "dialog/*.go"],
 [("request constructors", "segment New…Request…")])
prop("P22", "Credentials and security function stay consistent across changes",
 "After setting the PIN, the client system id or the security function of a PIN/TAN dialog, both the signing and the encrypting side use the new value in every later message, and a previously selected security function remains in force when the PIN is set again. The security function a message announces in its signature header is the one selected for the dialog, and the control reference in the signature trailer equals that of the signature header.",
 ["history"], "every order of setter calls and messages",
 "tests call setters once in one order",
 ["dialog/pin_tan_dialog.go", "dialog/dialog.go", "message/signature.go", "message/encryption.go"],
 [("setters", "dialog SetPin, SetClientSystemID, SetSecurityFunction")])
prop("P23", "Bank answers are mapped attribute by attribute",
 "Account, balance, account information, acknowledgement, status and parameter data handed to the caller take each attribute from the component of the bank's answer that carries it: amounts from amounts with the sign given by the debit/credit mark, dates from dates, currency, account and owner data from theirs. No attribute is exchanged with, or filled from, another, and optional parts that are absent stay empty.",
 ["input"], "all answers in all supported versions",
 "tests compare a few full answers",
 ["segment/account_balance.go", "segment/account_information.go", "segment/status_protocol.go", "element/*.go", "client/client.go", "domain/*.go"],
 [("Val()/accessor mapping", "element group Val(), segment accessors")])
prop("P24", "The command line tool reports failure in its exit status",
 "Whenever a command of the command line tool cannot complete because the client, the configuration or the bank reports an error, it ends with a non-zero exit status and does not print results as if it had succeeded. On success it prints the data obtained and ends with status zero.",
 ["fault", "input"], "every failing step of every command",
 "the commands have no tests",
 ["cmd/banking/*.go"], [("cobra commands", "cmd/banking")])
prop("P25", "Bank directory lookups return the bank asked for",
 "Looking up a bank by its id returns exactly the directory entry with that id, or an empty result if there is none, for every id in the directory. Every version text appearing in the directory is understood by the version mapping it is passed to, each mapped to its own protocol version, and the directory importer puts each column of the source file into its own attribute and the generated directory holds it unchanged.",
 ["input"], "all bank ids, all directory entries",
 "tests look up one bank",
 ["bankinfo/bank_info.go", "bankinfo/parser.go", "bankinfo/data.go", "segment/hbci_version.go"],
 [("lookup", "bankinfo FindByBankID"), ("directory", "bankinfo/data.go"), ("importer", "bankinfo/parser.go")])
prop("P26", "Key objects carry the key material they were created with",
 "A public key object created from a modulus and an exponent returns exactly those bytes, independent copies of the caller's slices, and a key name object carries the given bank, user, type, number and version. Signing and encryption keys are never exchanged.",
 ["input"], "all key material",
 "tests check construction with one value",
 ["domain/key.go", "element/key_management.go", "crypto/rsa.go"], [("key constructors", "domain/key.go")])
prop("P27", "Parameter data announced by the bank is adopted completely",
 "Bank and user parameter data contained in an accepted dialog response replaces the stored data: the version sent in later dialogs is the one received, every order the bank listed with its version is known afterwards, and every account the bank listed is known afterwards, and later dialogs are opened with the user id received. Nothing is adopted from a response that contains an error.",
 ["history", "input"], "all responses with parameter data",
 "tests use one response",
 ["dialog/dialog.go", "segment/common_bank_parameter_data.go", "segment/user_parameter_data.go"], [("parsers", "dialog parseBankParameterData, parseUserParameterData")])
prop("P28", "The tokenizers neither lose, duplicate nor invent bytes",
 "The tokenizers consume their input strictly from left to right: each token covers exactly the bytes between the end of the previous token and its own end, and every step either consumes at least one byte, ends the stream or reports an error. Binary data is taken by its announced length only, whatever bytes it contains. A text ends at the first delimiter that is not released, and no released syntax character makes a text unreadable.",
 ["input"], "all inputs",
 "tests tokenise small samples",
 ["token/lexer.go", "token/swift_lexer.go"], [("state functions", "token/*.go")])
prop("P29", "Independent clients do not influence each other",
 "No operation on one client, dialog or message changes package-wide state that another one reads: after program start package-level data is only changed by the documented set-up calls for loggers and debug mode. Two clients in one process therefore behave as if each were alone.",
 ["schedule", "history"], "all interleavings of operations on several clients",
 "tests use one client at a time",
 ["**/*.go"], [("package-level variables", "all packages")])
prop("P30", "Printed listings show every value in its column",
 "The printed forms of account balances, SEPA balances, account information and account transactions consist of a line of headings and one row per entry, in the order of the list. Below each heading stands exactly the entry's attribute of that name, amounts with two decimal places and their own currency, and an absent limit is not shown as a number. The lines around a transaction listing show the account and the balance before of the first and the balance after of the last transaction, and the text of an acknowledgement shows its own code, text, position, segment and parameters.",
 ["input"], "all lists and all combinations of present and absent attributes",
 "tests print at most one sample",
 ["domain/balance.go", "domain/account_balance.go", "domain/account_information.go", "domain/account_transaction.go", "domain/acknowledgement.go"], [("printers", "String methods of domain")])
prop("P31", "The command line tool asks for what the user named",
 "The commands accounts, balances and transactions of the command line tool give one order of their kind to a client that is made from the URL and PIN flags and from user id and bank id, each taken from its flag, the environment or the configuration file, which are consulted before the settings are used. Every order is about the account given by --accountID, or the account of the user id if none is given, at the configured bank, with the IBAN and BIC of that account and bank. Transactions are asked from --daysToFetch days ago (ten unless given) until now, and national orders are used with --disableSepa, SEPA orders without it.",
 ["input", "configuration"], "all combinations of flags and settings",
 "the commands have no tests",
 ["cmd/banking/*.go"], [("commands", "cmd/banking"), ("flags", "init functions of cmd/banking")])
prop("P32", "Dates and timeframes read back what they write",
 "Every representation a date or a timeframe is written in (JSON, text, URL query) is read back as the same date or timeframe, whether the value is held directly or by pointer, and an unset date is read back as unset. Text that is no date is reported as an error, as is a query lacking one of its ends. A ShortDate made from a time denotes midnight, in one fixed zone, of the very day the time shows, and a timeframe made from a date starts at that date and ends today.",
 ["input"], "all dates and all texts",
 "tests marshal one date",
 ["domain/time.go"], [("marshallers", "domain ShortDate, Timeframe")])
prop("P33", "Texts are taken apart at their delimiters and nowhere else",
 "Taking a message, a segment, a data element group, a SWIFT transfer or a SWIFT statement apart yields exactly the pieces between its delimiters, complete and in order, for every sequence of tokens, and pieces already found are not changed by reading on. A text the tokenizer cannot read, or whose last piece lacks its delimiter, is reported as an error instead of being returned in part. Segments looked up by id are exactly those carrying that id, the first or all of them in their order.",
 ["input"], "all sequences of tokens up to the bound, with arbitrary texts between the delimiters",
 "tests split a few well-formed texts",
 ["element/element_extractor.go", "segment/element_extractor.go", "message/segment_extractor.go", "swift/message_extractor.go", "swift/tag_extractor.go"], [("extractors", "element, segment, message, swift Extract, FindSegment, FindSegments")])
prop("P34", "Two-step procedures are used as the bank prescribes",
 "Once an opening response has listed the security functions allowed to the user (code 3920) and described its two-step procedures, every later message announces the first allowed function that is described, in whatever order the PIN, the client system id and a function were set before; without such a list or description the function in use stays, and if none of the allowed functions is described the operation fails. Function 999 is announced with version 1 of the PIN profile and every other function with version 2, in signature and encryption header alike. Every authenticated opening and every authenticated order carries exactly one TAN request, of process 4 and naming the identification segment, ahead of the order.",
 ["input", "history"], "all lists and descriptions of security functions up to the bound, all authenticated operations of dialog and client",
 "tests select a function from one sample response",
 ["dialog/dialog.go", "dialog/pin_tan_dialog.go", "message/signature.go", "message/crypto.go", "segment/signature_header.go", "segment/encryption_header.go", "client/client.go"], [("selection", "dialog operations that open a dialog"), ("requests", "client orders and dialog openings")])
prop("P35", "A client prepares itself before it orders",
 "As long as a client knows no bank parameter data, each of its operations synchronises with the bank exactly once before it sends anything else; once the data is known no operation synchronises again, and if the synchronisation fails the operation returns the failure and sends nothing. Accounts are fetched anew on each call, and those returned are those the bank listed last. A client is created exactly if the protocol version, the configured one if it is positive and the bank directory's otherwise, is one the library speaks (220 or 300), and an error is returned in all other cases.",
 ["history", "configuration"], "all client operations, with and without known parameter data, first and repeated calls, failing synchronisations; all configured and listed versions",
 "tests run one operation on a fresh client",
 ["client/client.go", "client/config.go", "dialog/dialog.go"], [("operations", "client Client methods"), ("construction", "client New")])
prop("P36", "Every answer to an order is handed out, and nothing else",
 "What a client operation returns is made of the response segments that answer its order (the status, balance and transaction segments of the order's own kind), one entry per segment and in the order in which the bank sent them; other segments of the response contribute nothing, and an answering segment of unexpected form makes the operation fail instead of being left out. A response without any answering segment makes a balance or account information request fail, and gives an empty result for transactions and status. Account information that was received is printed.",
 ["input", "history"], "all client operations, responses with none to three answering segments of expected and unexpected form",
 "tests use responses with exactly one answering segment, and none for the status",
 ["client/client.go", "segment/status_protocol.go", "segment/account_balance.go", "segment/account_transaction.go"], [("operations", "client Client methods")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
