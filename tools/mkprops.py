#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that long statements stay reviewable)."""
import json, os
P = []
S = "email-parser/src/"
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
            state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
            mechanism=[dict(name=n, where=S + w) for n, w in mech],
            observe_at=list(observe) or ["Email::parse", "parse_message"], hook_needed=None)))

prop("C01", "Every parse call returns",
 "For every byte string and in every feature configuration, Email::parse, parse_message and RawEntity::parse on every entity reachable from the result return Ok or Err: they never panic, abort, exhaust the stack or run forever, however deeply nested, truncated, repeated or malformed the input is. Every string they hand out is well-formed UTF-8.",
 ["inputs", "configurations"], "all byte strings, including adversarial nesting, truncation at every offset, and counts up to and beyond 256; all feature sets",
 "The suite parses a few dozen well-formed literals; no test feeds arbitrary or adversarial bytes, and the unchecked indexing and unchecked UTF-8 conversions are justified only by comments.",
 ["parsing/combinators.rs", "parsing/whitespaces.rs", "parsing/mime/base64.rs", "parsing/mime/percent_encoding.rs", "parsing/mime/encoded_headers.rs", "string.rs"],
 [("unchecked slicing guarded by length tests", "parsing/combinators.rs"), ("in-place base64 decoding with unchecked writes", "parsing/mime/base64.rs"), ("comment parser", "parsing/whitespaces.rs"), ("charset dispatch", "parsing/mime/entity.rs")],
 observe=["Email::parse", "parse_message", "RawEntity::parse"])
prop("C02", "Header section and body are split exactly; the body is intact",
 "parse_message accepts a message exactly when it is a run of well-formed header fields followed by the end of the input or by an empty line (CRLF); the body it reports is absent in the first case and otherwise byte for byte everything after that CRLF. Without the mime feature the body must also consist of CRLF-separated lines of at most 998 characters of non-NUL 7-bit text, without bare CR or LF, or the message is rejected; with it the body may be any bytes.",
 ["inputs", "configurations"], "all messages, all body contents and line lengths (997/998/999), with and without the mime feature",
 "Two short literal bodies are tested; nothing tests the 998 limit, bare CR/LF, NUL, an empty or missing body, or a header section that stops early.",
 ["parsing/message.rs", "parsing/fields.rs"], [("body / check_line / parse_message", "parsing/message.rs"), ("fields loop", "parsing/fields.rs")],
 observe=["parse_message().1", "Email.body", "Email.mime_entity.value"])
prop("C03", "No header field is lost, invented, merged or reordered",
 "Every header field of an accepted message is reported exactly once and in its original position: parse_message lists it as a typed field, inside a trace block or as an unknown field, and Email::parse keeps all unknown fields, comments, keywords and trace blocks in message order and nothing else. Changing, adding or removing one header field changes only what is reported for that field.",
 ["inputs", "histories"], "all sequences of header fields of any length, valid and invalid, folded or not",
 "Tests look at single fields in isolation or at the count of fields in one two-field literal.",
 ["parsing/fields.rs", "email.rs", "parsing/combinators.rs"], [("fields: ordered choice over field parsers, falling back to unknown", "parsing/fields.rs"), ("assembly loop", "email.rs")],
 state=[("fields", "fields recognised so far, in order", "parsing/fields.rs"), ("unknown_fields", "unrecognised fields in order", "email.rs")])
prop("C04", "Header names match completely and case-insensitively; bad values fall back",
 "A field is recognised by its complete name, compared without regard to ASCII letter case; a name that extends, abbreviates or merely resembles a known name is unknown. A field whose value does not satisfy the grammar of its header, as well as one with an unknown name, is reported as an unknown field carrying the name exactly as written and its unfolded text; a message with a line that is not even a well-formed unknown field is rejected.",
 ["inputs"], "all header names in all 2^n case mixtures, near-miss names, all malformed values",
 "Tests use one or two spellings per header and never a malformed value or near-miss name.",
 ["parsing/fields.rs", "parsing/combinators.rs", "parsing/mime/mime_fields.rs"], [("tag_no_case", "parsing/combinators.rs"), ("unknown", "parsing/fields.rs")])
prop("C05", "Required and unique headers are enforced in every order",
 "Email::parse succeeds on a syntactically acceptable message only if it has exactly one valid From and exactly one valid Date, and at most one valid field each of Sender, Reply-To, To, Cc, Bcc, Message-ID, In-Reply-To, References and Subject (with mime also MIME-Version, Content-Type, Content-Transfer-Encoding, Content-ID, Content-Description, Content-Disposition), wherever they stand; Comments, Keywords, trace and unknown fields may repeat. Otherwise it fails with DuplicateHeader or MissingHeader naming a header that really is duplicated or missing.",
 ["histories", "inputs", "configurations"], "all multisets and orders of header fields, all enabled-header configurations",
 "Four literals cover a missing and a doubled From and Date; no other header, order or distance between duplicates is tested.",
 ["email.rs", "error.rs"], [("duplicate checks in the assembly loop", "email.rs"), ("ok_or(MissingHeader)", "email.rs")],
 state=[("from, sender, subject, ...", "whether the header has been seen", "email.rs")], observe=["Email::parse"])
prop("C06", "The sender is explicit or inferred from a single author",
 "In a successfully parsed email the sender is the mailbox of the Sender field if there is one, wherever it stands, and otherwise the sole mailbox of From, equal in name and address. A message without a Sender field whose From lists several mailboxes is rejected as missing Sender.",
 ["inputs", "histories"], "all From lists and Sender fields in all orders",
 "Only the single-author inference is tested, on one literal.",
 ["email.rs"], [("sender inference", "email.rs")], observe=["Email.sender", "Email.from"])
prop("C07", "Unfolding unstructured text only removes the line folds",
 "The text reported for an unstructured field (Subject, Comments, Content-Description, unknown fields) is the characters after the colon in order, with the CRLF of every fold removed, every other character including leading and inner spaces and tabs kept, and trailing spaces and tabs dropped. A fold is a CRLF followed by at least one space or tab and then by text; control characters and bytes above 126 are not accepted in it.",
 ["inputs"], "all texts and fold positions, any number of folds, mixtures of spaces and tabs, all byte values",
 "Two fixed strings with one fold each are tested.",
 ["parsing/common.rs", "parsing/whitespaces.rs", "string.rs"], [("unstructured / mime_unstructured", "parsing/common.rs"), ("fws", "parsing/whitespaces.rs"), ("add_string / add_str joining of adjacent slices", "string.rs")],
 observe=["Email.subject", "Email.comments", "Email.unknown_fields", "RawEntity.description"])
prop("C08", "Comments and folding whitespace never change structured values",
 "In the structured fields (addresses, message identifiers, dates, keywords, Return-Path, Received, MIME fields), comments nested to any depth and containing quoted pairs or folds, and folding whitespace, may be added or removed wherever the grammar allows them without changing any reported value or the acceptance of the field, including before the final CRLF. Text with an unbalanced or ill-formed comment is not accepted as such a field.",
 ["inputs"], "all structured values, all slots, all comment contents and nesting depths",
 "A handful of literals with one comment each; no nesting beyond two, no comment inside a real field except two MIME ones.",
 ["parsing/whitespaces.rs", "parsing/common.rs", "parsing/address.rs", "parsing/time.rs", "parsing/mime/mime_fields.rs"], [("fws / comment / cfws", "parsing/whitespaces.rs"), ("optional(cfws) around tokens", "parsing/address.rs")])
prop("C09", "Address lists are reported with their exact structure",
 "From, Sender, Reply-To, To, Cc and Bcc (and their Resent- forms) report exactly the mailboxes and groups of the RFC 5322 value, in order: each group with its name words and members, each mailbox with its display-name words (or none) and its address. Values outside the grammar (missing parts, stray separators, trailing text) are not accepted as these fields; Bcc may be empty.",
 ["inputs"], "all address lists: any number of mailboxes and groups, names of any number of words, all separators",
 "Lists of at most three addresses and one group literal; rejection is not tested at all.",
 ["parsing/address.rs", "parsing/fields.rs", "parsing/common.rs"], [("mailbox / group / address_list", "parsing/address.rs"), ("phrase", "parsing/common.rs")])
prop("C10", "Quoted strings, dot-atoms and domain literals yield their meaning",
 "A quoted string is reported as its content with the quotes, quoted-pair backslashes and fold CRLFs removed and every other character kept, including spaces, empty strings and escaped quotes and backslashes; it may stand for any word or local part. A dot-atom is reported verbatim and needs a nonempty atom on both sides of each dot (unless compatibility-fixes is enabled), and a domain literal is its text between the brackets without whitespace.",
 ["inputs", "configurations"], "all quoted strings, dot-atoms and domain literals, all 256 byte values at each position; with and without compatibility-fixes",
 "Three literals; the compatibility-fixes behaviour and the character classes are untested.",
 ["parsing/quoted_string.rs", "parsing/common.rs", "parsing/address.rs", "parsing/character_sets.rs"], [("quoted_string / quoted_pair", "parsing/quoted_string.rs"), ("dot_atom_text", "parsing/common.rs"), ("domain_literal", "parsing/address.rs")])
prop("C11", "Message identifiers are split exactly and lists keep all of them",
 "Message-ID, In-Reply-To, References, Resent-Message-ID and Content-ID report each identifier <left@right> as its exact left and right parts, in order and none dropped, where right may be a dot-atom or a bracketed literal (reported without brackets). Anything else in the field (missing brackets, spaces inside, extra text, no identifier, more than one where one is allowed) is not accepted as that field.",
 ["inputs"], "all identifier lists of any length", "Three literals with at most three identifiers; rejection untested.",
 ["parsing/address.rs", "parsing/fields.rs", "parsing/mime/mime_fields.rs"], [("message_id", "parsing/address.rs"), ("many1(message_id)", "parsing/fields.rs")])
prop("C12", "Dates are read exactly and stay within range",
 "A date-time is accepted exactly when it follows the RFC 5322 date-time grammar (day name optional, seconds optional, names in any case, year of at least four digits and not before 1900, hour at most 23, minutes at most 59, seconds at most 60, day at most 31, zone minutes at most 59), and the reported day name, day, month, year, time and signed zone offset are the ones written. This holds for Date, Resent-Date, Received and the dates of Content-Disposition.",
 ["inputs"], "all date-time strings: all day names and months, all numeric boundary values, all whitespace layouts",
 "About fifteen literals; only one month in three and no out-of-range value is tested.",
 ["parsing/time.rs", "time.rs", "parsing/character_sets.rs"], [("date_time and its parts", "parsing/time.rs"), ("two_digits", "parsing/character_sets.rs")],
 observe=["Email.date", "Email.trace", "Disposition dates"])
prop("C13", "Trace blocks group Return-Path, Received and Resent fields faithfully",
 "At the top of the header each trace block reports its Return-Path (absent, empty <> or an address), then all of its consecutive Received fields, and then the Resent fields that follow them, in order and with their values; the next Received or Return-Path starts a new block. A Received field reports its words, domains and addresses in order and its date, and a trace field that is malformed or stands after the first ordinary field is kept as an unknown field.",
 ["inputs", "histories"], "all sequences of trace, resent and ordinary fields; all token sequences in Received",
 "One Received and two Return-Path literals; no grouping of several blocks is tested.",
 ["parsing/fields.rs", "email.rs"], [("fields: trace loop", "parsing/fields.rs"), ("received / return_path / trace", "parsing/fields.rs")], observe=["Email.trace", "Field::Trace"])
prop("C14", "Base64 content decodes to exactly the encoded bytes",
 "A base64 body or part yields exactly the bytes that were encoded, for every byte sequence and length, with line breaks or any other characters outside the alphabet inserted anywhere. Data that stops inside a group of four or continues inside a padded group is rejected, never decoded to something else.",
 ["inputs"], "all byte sequences of all lengths, all positions of line breaks and foreign characters, all truncations",
 "Six literals; padding, truncation and skipping are tested in single positions only.",
 ["parsing/mime/base64.rs", "parsing/mime/entity.rs"], [("decode_base64", "parsing/mime/base64.rs"), ("decode_value", "parsing/mime/entity.rs")],
 state=[("i, offset", "read position and number of bytes dropped so far", "parsing/mime/base64.rs")], observe=["RawEntity.value"])
prop("C15", "Quoted-printable content decodes to exactly the encoded bytes",
 "A quoted-printable body or part yields exactly the bytes that were encoded: =XX with two hex digits of either case is that byte, a soft line break (= CRLF) disappears, hard line breaks and all other printable characters, spaces and tabs stay. An escape with invalid digits, and each control or 8-bit byte, becomes one U+FFFD in UTF-8; an incomplete = at the very end is kept.",
 ["inputs"], "all byte sequences, all escape positions, all truncations", "Two literals.",
 ["parsing/mime/quoted_printables.rs", "parsing/mime/entity.rs"], [("decode_qp", "parsing/mime/quoted_printables.rs"), ("decode_value", "parsing/mime/entity.rs")], observe=["RawEntity.value"])
prop("C16", "Encoded words are decoded in place and everything else is left alone",
 "With mime enabled each well-formed RFC 2047 encoded word (B or Q in any case, supported charset, optional language) in Subject, Comments, Content-Description and display names is replaced by its decoded text; whitespace between two adjacent encoded words is dropped and all other whitespace is kept. A word that is malformed, has an unknown charset or encoding, or does not decode is left as literal text, and unknown fields are decoded only with unrecognized-headers.",
 ["inputs", "configurations"], "all sequences of encoded words and plain text with all separators, all charsets and encodings",
 "About ten literals with at most two encoded words; failures and mixed sequences are untested.",
 ["parsing/mime/encoded_headers.rs", "parsing/common.rs", "parsing/mime/quoted_printables.rs"], [("encoded_word", "parsing/mime/encoded_headers.rs"), ("mime_unstructured / phrase", "parsing/common.rs"), ("decode_header_qp", "parsing/mime/quoted_printables.rs")],
 state=[("previous_was_encoded", "whether the preceding token was an encoded word", "parsing/common.rs")], observe=["Email.subject", "Email.comments", "Mailbox.name", "RawEntity.description"])
prop("C17", "MIME parameters are reassembled and decoded per RFC 2231",
 "Parameters of Content-Type and Content-Disposition are reported once each under their lowercased name with their token or unquoted value. Sections name*0, name*1, ... are joined in numeric order wherever they stand, up to the first missing number (without a section 0 nothing is reported), and sections marked with a trailing * (including a lone name*=) have their charset and language removed and each %XX decoded exactly once, section by section, in that charset, while unmarked sections stay verbatim.",
 ["inputs"], "all parameter lists: any number and order of sections (beyond 10 and up to 256), all marks and charsets",
 "Four literals with at most three sections in order.",
 ["parsing/mime/mime_fields.rs", "parsing/mime/percent_encoding.rs"], [("parameter", "parsing/mime/mime_fields.rs"), ("collect_parameters / decode_parameter", "parsing/mime/percent_encoding.rs")],
 observe=["RawEntity.parameters", "Disposition.unstructured", "Field::ContentType"])
prop("C18", "MIME headers are classified exactly, with the RFC defaults",
 "Content types, transfer encodings and dispositions are matched as whole tokens in any letter case; any other token is reported as Unknown in lowercase, subtypes are lowercased, and a message or part without a valid Content-Type is text/plain with charset us-ascii and without a transfer encoding is left undecoded. The body is decoded according to the declared encoding (7bit, 8bit and binary untouched), an unknown encoding is an error, and version numbers, ids, descriptions, file names and disposition dates are the ones written.",
 ["inputs"], "all type, subtype, encoding and disposition tokens in all cases, all header combinations",
 "A few literals per header; defaults and unknown tokens are hardly tested.",
 ["parsing/mime/mime_fields.rs", "parsing/mime/entity.rs", "email.rs", "mime.rs"], [("content_type / content_transfer_encoding / content_disposition / mime_version", "parsing/mime/mime_fields.rs"), ("defaults", "email.rs"), ("header_part / decode_value", "parsing/mime/entity.rs")],
 observe=["Email.mime_entity", "parse_message"])
prop("C19", "Multipart bodies split exactly at their boundary lines",
 "Parsing a multipart entity yields one part per boundary line, in order, each with exactly its own headers and the bytes between its boundary lines without the CRLF before the next one; preamble and epilogue are ignored whatever they contain. Only complete lines --boundary (and --boundary-- for the end, also at the very end of the data) separate parts: longer, shorter or mid-line lookalikes and other boundaries are content; a multipart without a boundary parameter or closing line, or with a malformed part, is an error.",
 ["inputs"], "all part contents, numbers of parts, nested multiparts, boundary strings and lookalike lines",
 "One two-part literal (only that it parses) and a few boundary literals.",
 ["parsing/mime/multipart.rs", "parsing/mime/entity.rs", "mime.rs"], [("before_boundary / before_closing_boundary / parse_multipart", "parsing/mime/multipart.rs"), ("raw_entity / header_part", "parsing/mime/entity.rs")], observe=["RawEntity::parse"])
prop("C20", "Text is decoded with the charset that was declared",
 "Text entities, encoded words and extended parameters are decoded with exactly the declared charset, named in any letter case: UTF-8 and US-ASCII both checked as UTF-8, the ISO-8859 parts, ISO-6937 and GB2312 through their own tables (U+FFFD for unassigned codes; bytes 80-9F, which the ISO-8859 parts do not define, are dropped). A text entity with an unknown charset or none is reported as Unknown and one that is invalid in UTF-8 as an error; the bytes of the raw entity stay available unchanged.",
 ["inputs"], "all supported charsets, all byte values, all byte sequences around UTF-8 validity limits",
 "UTF-8, ISO-8859-1 and ISO-8859-2 on a few literals, mostly ASCII text.",
 ["parsing/mime/entity.rs", "parsing/mime/encoded_headers.rs", "parsing/mime/percent_encoding.rs"], [("charset dispatch tables", "parsing/mime/entity.rs"), ("charset dispatch", "parsing/mime/encoded_headers.rs")], observe=["RawEntity::parse", "Email.subject", "RawEntity.parameters"])
prop("C21", "Enabling or disabling features only affects the headers concerned",
 "The library builds with every combination of its header features, and switching a header feature off changes nothing except that this header is reported as an unknown field with its unstructured text (and is no longer required or limited in number; without From the sender must be explicit). All other fields, their order, the body and the remaining errors are the same in every configuration.",
 ["configurations", "inputs"], "all subsets of the features, all messages",
 "CI and the suite build two feature sets only and never compare results across configurations.",
 ["email.rs", "parsing/fields.rs", "parsing/mime/entity.rs"], [("cfg(feature = ...) on fields and match arms", "email.rs"), ("cfg on the parser list", "parsing/fields.rs")])
prop("C22", "Unmodified text is borrowed from the input, not copied",
 "The body of a non-MIME message, undecoded MIME bodies, unknown-field names and every reported value that appears contiguously in the input (unfolded unstructured text without encoded words, atoms, dot-atoms, quoted strings without escapes or folds, message identifiers) are borrowed slices located exactly where they stand in the input. Only values that had to be changed are owned.",
 ["inputs"], "all messages", "Two assertions on one quoted string and the joining helper.",
 ["string.rs", "parsing/combinators.rs", "parsing/common.rs", "parsing/message.rs"], [("add_string / add_str adjacency merging", "string.rs"), ("take_while returning slices", "parsing/combinators.rs")], observe=["Cow variants and addresses in the results"])
prop("C23", "Repeatable headers accumulate in order",
 "All Comments fields are reported, one entry each in message order, and the keywords of all Keywords fields are concatenated in message order, each keyword as its own list of words. Neither affects nor is affected by the other fields, and their absence gives empty lists.",
 ["inputs", "histories"], "all sequences of repeated Comments and Keywords fields among other fields, any number of keywords and words",
 "One Keywords and two Comments literals, each a single field.",
 ["email.rs", "parsing/fields.rs"], [("comments.push / keywords.append", "email.rs"), ("keywords", "parsing/fields.rs")], observe=["Email.comments", "Email.keywords"])
prop("C24", "Parsing is a pure function and its entry points agree",
 "Parsing the same bytes gives the same result every time, whatever was parsed before and on however many threads, and wherever the bytes lie in memory; Email::parse and Email::try_from agree. Whenever Email::parse succeeds parse_message succeeds on the same bytes, and every value in the email is the one parse_message reports for the corresponding field.",
 ["histories", "schedules", "inputs"], "all histories and interleavings of calls, all inputs, adjacent and separate buffers",
 "Each test makes one call on a fresh literal.",
 ["email.rs", "string.rs", "parsing/message.rs", "parsing/mime/percent_encoding.rs"], [("no global state", "email.rs"), ("TryFrom", "email.rs"), ("pointer-adjacency test in add_string", "string.rs")], observe=["Email::parse", "Email::try_from", "parse_message"])
prop("C25", "Copies, owned values, comparisons and error texts are faithful",
 "A clone or into_owned copy of a reported value (content types, dispositions, encodings, entities, dates, addresses, errors) has exactly the contents of the original, and an owned copy keeps them when the memory of the message is reused. Values that can be compared are equal if and only if all their contents are equal, whether these are borrowed or owned. Only the types message and multipart are composite, and the text of an error names the header or states the message it carries.",
 ["inputs", "histories"], "all values that any message can give, all pairs of them, all orders of copying, comparing and overwriting",
 "No test copies a value with into_owned, compares two unequal values, asks for composite types or displays an error.",
 ["mime.rs", "time.rs", "address.rs", "error.rs"], [("into_owned / is_composite_type / PartialEq", "mime.rs"), ("PartialEq of DateTime and its parts", "time.rs"), ("Display", "error.rs")],
 observe=["clone", "into_owned", "==", "ContentType::is_composite_type", "Error::to_string"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
