#!/usr/bin/env python3
"""Writes MANIFEST.json. CHECKS: id -> (technique, level_note); everything else in properties.jsonl is not_applicable."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INTERP = "path-sensitive abstract interpretation of the type-checked SSA (Herbrand terms, intervals, nilness)"
CHECKS = {
 "P09": (INTERP + " of the segment registry as its initialisers leave it, of every version-dependent decoder over every header version, and of the message decoder over messages mixing known and unknown identifiers and versions", "segment contents are abstracted; versions 0 to 10, 99 and 999 stand for all others"),
 "P05": (INTERP + " of every dialog operation down to the bytes handed to the transport: the parts of the body, the numbers the segments carry when they are encoded, and the sum stored in the size field", "one to three orders, one of them absent, stand for any list"),
 "P06": (INTERP + " of every writer of text and binary values and of every reader storing one, over an algebra of texts in which substitutions, cuts and conversions are terms", "text substitutions are judged by the pair list and the order in which they are applied; forms not recognised are left undecided"),
 "P07": (INTERP + " of the constructor, writer and reader of every primitive field over an algebra of number, date and text formats; each reader's result normalised over the written text", "standard library formatting and parsing functions behave as documented"),
 "P08": (INTERP + "; writer layout of every composite compared with its reader, position by position",
         "component decoders abstracted one level at a time; lists analysed with three entries"),
 "P01": (INTERP + " of every dialog operation with abstract bank responses; acknowledgement codes as intervals", "up to three acknowledgements per response, error code at each place"),
 "P02": (INTERP + " of every dialog operation; header terms of every message handed to the transport", "one environment failure per operation"),
 "P03": (INTERP + " of every dialog operation with fault injection on abstract providers and transport; typestate opened/ended per path", "one environment failure per operation"),
 "P04": (INTERP + " of every dialog operation; payload term of every message handed to the transport decomposed into segment encodings", "orders: two and an absent one"),
 "P22": (INTERP + " of the dialog constructor, every sequence of up to three set-up calls and the following operations; segment contents at encoding time", "up to three set-up calls before and one between two operations"),
 "P23": (INTERP + " of every method handing out domain values, on answers built component by component: everything present, nothing present, each component missing, each component alone; each attribute compared with the component a table assigns to it, dates evaluated on three sample instants", "lists of two entries stand for all lists; which component carries which attribute is a hand-written table where the names differ"),
 "P24": (INTERP + " of every function the command line tool hands to cobra: each step that can report an error is made to fail in turn, and exit status and output of every path are examined", "cobra's own behaviour (an error of RunE is returned by Execute) is assumed; flag and configuration registration is exempt"),
 "P26": (INTERP + " of every key and key name constructor, key operation, key name writer, provider and dialog constructor with unknown key material; backward trace of the stored byte slices to the caller's arguments", "arithmetic of math/big and crypto/rsa is assumed; sharing of memory is decided for the assignment of modulus and exponent"),
 "P27": (INTERP + " of every dialog operation with abstract parameter data segments; provenance of every stored value", "two accounts, orders and PIN/TAN orders stand for longer lists"),
 "P10": (INTERP + " of every request builder over all lists of up to three advertised versions, and of the client operations when nothing can be built", "lists of up to three advertised versions stand for longer ones"),
 "P13": (INTERP + " of the transport chain of a new dialog over a symbolic model of readers, writers and base64 coders (content, consumption, closing, failures); source queries for TLS settings and addresses", "the standard library behaves as documented; a non-200 answer is not counted as a failed exchange (documented behaviour)"),
 "P25": (INTERP + " of the lookup over symbolic directories, of the version mapping over every text of the directory and any text, and of the importer over symbolic records; source queries over directory and template", "directories of up to three entries stand for longer ones; an index or binary search is followed over a given directory; the CSV reader is assumed to work"),
 "P14": (INTERP + " of the client operations over abstract bank answers with continuation notices; provenance of every part of the result and of every request", "answers over up to three pages stand for longer ones"),
 "P11": (INTERP + " of every decoder, tokenizer, splitter, accessor and consumer of received data: every index, slice bound, dereference, type assertion, division and announced size is an obligation", "integer overflow is modelled for announced lengths only; memory and time are unbounded; bounds that follow from a value's construction elsewhere are decided with the callers"),
 "P12": (INTERP + " of every library function that reports an error: each of its fallible calls is made to fail in turn, and every path on which it failed must return a non-nil error", "loops over repeated components are followed for up to two or three rounds; failures while writing text to a given writer and explicit panics are not counted"),
 "P17": ("taint analysis over the SSA of the whole module (field-based, through calls and closures) for the PIN and for the bytes of requests, and " + INTERP[0].lower() + INTERP[1:] + " of every dialog operation with a symbolic PIN, failing at every step", "library functions are classified by name as text functions or sinks"),
 "P15": (INTERP + " of the MT940 readers over an algebra of field texts (fields of known width and character class, cuts, conversions, numbers, dates) and of whole statements in tag order; date formulas are compared with the calendar for every two-digit year and month", "field contents are symbolic; statements of up to three bookings and data of up to three statements stand for longer ones"),
 "P16": (INTERP + " of the IBAN package with a symbolic text (math/big modelled exactly); value numbering shows which characters and which residue decide acceptance and what the produced text consists of",
   "texts are symbolic; the loops over characters are followed for texts of bounded length and the rules about one character are decided for every character class"),
 "P19": ("dataflow of every loop over a map (what leaves the loop must not depend on the order of its rounds), call-graph reachability from every decoding and mapping function to clock, randomness and environment, and " + INTERP[0].lower() + INTERP[1:] + " of what every dialog and client operation sends", "sorting functions are assumed to define the order of what they sort"),
 "P20": (INTERP + " of every writer and reader of text, with the character set conversions as terms that are counted per text; call-graph query for conversions outside the codec", "conversion functions are those of package charset and golang.org/x/text"),
 "P21": (INTERP + " of the client operations in every buildable version and of every dialog operation; wire encoding of each segment split into fields, each field's provenance compared with the protocol's layout", "versions 1 to 12"),
 "P18": ("inclusion-based, field-based alias analysis over the SSA of the whole module: no writing instruction reaches memory that may be the caller's bytes", "flow-insensitive; library calls modelled by a list of aliasing and mutating functions"),
 "P28": (INTERP + " of each tokenizer's step function over an input of unknown bytes and length, from the constructed state and from every state it can leave behind, with sets of byte values as the abstraction of each byte and the positions as relations", "a token's own loops are followed for up to three rounds per block, which reaches every path through a loop body but not counters running across many rounds; the input is below 2^40 bytes"),
 "P29": ("inclusion-based alias analysis from every package-level variable over the SSA of the whole module; writes outside initialisation and logging set-up reported", "flow-insensitive; library calls modelled by a list of mutating functions"),
 "P30": (INTERP + " of every printing method of the domain package over a model of tab-separated writers: the cells of each row are compared with the heading and with the attributes", "lists of zero to two entries stand for longer ones; which attribute belongs under which heading is a hand-written table"),
 "P31": (INTERP + " of the tool's initialisers (flags, bindings, commands), then of the start-up functions and each command in sequence, with a symbol for every flag and setting; the orders given to the client are compared with these symbols", "cobra, pflag and viper behave as documented"),
 "P32": (INTERP + " of each writer followed by its reader over an algebra of formatted dates and quoted texts, and of the constructors; method sets of all self-describing types", "standard library formatting and parsing functions behave as documented"),
 "P33": (INTERP + " of each extractor over every sequence of up to five tokens, with values of unknown content, against a specification of its delimiters; alias analysis of the buffers the pieces are collected in", "the tokenizers lose, duplicate and invent nothing (P28)"),
 "P34": (INTERP + " of each dialog operation over responses that list and describe security functions in every order, followed by a second operation after a new PIN; of each client order in every version", "lists of up to three functions stand for longer ones; the segment marshaller writes what the headers hold (P02)"),
 "P35": (INTERP + " of each client operation, twice in a row, with the synchronisations of the dialog standing for themselves and failing one after another; of the client's construction for each configured and listed version", "versions from a sample around the supported ones; what a synchronisation adopts from the response is P27"),
 "P36": (INTERP + " of each client operation on responses with none to three answering segments; the terms of the result are compared with the segments the response was searched for", "up to three segments stand for more; what a segment is decoded into is P23, paging is P14"),
}
NA = {
}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "cd checker && HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off go build -o /dev/null .",
     "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        t, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                            "technique": t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
