#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is reviewable)."""
import json, os
P = []
MAC = "src/pdu_macro.rs"
PDUS = ["src/distributed_emissions.rs", "src/entity_information.rs", "src/entity_management.rs",
        "src/information_operations.rs", "src/logistics.rs", "src/minefield.rs",
        "src/radio_communications.rs", "src/simulation_management.rs",
        "src/simulation_management_with_reliability.rs", "src/synthetic_environment.rs",
        "src/warfare.rs"]
REC = ["src/common/data_types"]
HDR = ["src/common/pdu_header.rs", "src/common/live_entity_pdu_header.rs"]
ENU = ["src/common/enums.rs"]

def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

p("C01", "Declared length equals the bytes emitted",
  "Whenever a PDU is encoded successfully, the number of bytes appended to the buffer equals both the length returned by calculate_length and the length field written in the header. Likewise every record, enumeration and header type that reports a serialized length (field_len or a LENGTH constant) reports exactly the number of bytes its encoder writes, for every value it can hold.",
  ["inputs"], "every PDU type and every value of its fields, including any number and any contents of variable-length lists",
  "the tests check calculate_length and encoding only for the default value of each PDU (empty lists, zero records); a length function that is wrong for a populated list, one enum or one record is not exercised",
  [MAC] + PDUS + REC + ENU,
  [("define_pdu! calculate_length", "src/pdu_macro.rs: define_pdu"), ("FieldLen impls", "src/common/data_types/*.rs, src/common/enums.rs"),
   ("SerializedLength::LENGTH", "src/common/serialized_length.rs")],
  ["Pdu::calculate_length", "Pdu::serialize", "FieldLen::field_len"])

p("C02", "Every record decoder inverts its encoder",
  "For every record type (and both PDU header types) decoding the bytes produced by that type's encoder consumes exactly those bytes and restores every field to the encoded value, for every value whose own count and length fields agree with its contents (flag sets carry defined bits only; fixed-size texts fit their field and hold no NUL).",
  ["inputs"], "every record/header type that has both an encoder and a decoder; every value of every field",
  "tests round-trip only default (all-zero) PDUs, where swapped fields, swapped byte order, wrong widths or dropped fields are invisible; most records are never encoded by any test",
  REC + HDR, [("serialize/deserialize pairs", "src/common/data_types/*.rs"), ("FieldSerialize/FieldDeserialize impls", "src/common/data_types/*.rs")],
  ["FieldSerialize::serialize_field", "FieldDeserialize::deserialize_field"])

p("C03", "PDU decoding restores every body field",
  "Decoding the bytes emitted by a successful encode of a PDU restores every body field of that PDU (scalars, enumerations, records and lists) to the value it had when it was encoded, through both the with-header and the header-supplied decode entry points, and consumes exactly the bytes emitted. Counts and lengths are assumed to agree with the contents; an optional part whose encoding has no bytes counts as absent, and a fixed-size text fits its field without NUL.",
  ["inputs"], "every PDU type; every value of every body field",
  "the round-trip test of each PDU compares only the header of a default PDU; no test sets a body field and reads it back",
  [MAC] + PDUS, [("define_pdu! serialize / deserialize_body", "src/pdu_macro.rs"), ("field declarations", "src/*.rs")],
  ["Pdu::serialize", "Pdu::deserialize", "Pdu::deserialize_without_header"])

p("C04", "An emitted header always describes the PDU it precedes",
  "Every successful encode writes, at the fixed header offsets, the PDU type and protocol family of the encoded PDU type and the length of this encoding, whatever values the header held before (stale, foreign or user-modified) and however often the PDU was encoded already; all other header fields are written exactly as the caller set them.",
  ["inputs", "histories"], "every PDU type, every prior header state, every sequence of mutations and encodes",
  "tests encode a freshly constructed PDU once, whose header already holds the right values; stale headers and repeated encodes are never exercised",
  [MAC] + HDR, [("define_pdu! serialize header fix-up", "src/pdu_macro.rs"), ("PduHeader::serialize", "src/common/pdu_header.rs")],
  ["Pdu::serialize"])

p("C05", "PDU type codes are unique and match the standard's families",
  "Each PDU type identifies itself on the wire by the IEEE 1278.1 / SISO-REF-010 type code and protocol family of its name; no two PDU types share a type code, and a freshly constructed PDU already carries its own type, family and length.",
  ["configurations"], "all PDU types the crate defines, pairwise",
  "each test compares a PDU against its own constant, so two PDUs swapping codes, a wrong family, or a wrong discriminant behind the constant pass unnoticed",
  PDUS + ENU + [MAC], [("pdu_type / protocol_family in define_pdu!", "src/*.rs"), ("PduType, ProtocolFamily", "src/common/enums.rs")],
  ["Pdu::new", "Pdu::serialize"])

p("C06", "A decoder accepts only its own PDU type and keeps the header",
  "Decoding, with or without a supplied header, returns the invalid-header error for every header whose PDU type differs from the type being decoded; on success the returned PDU carries every field of the received (or supplied) header unchanged.",
  ["inputs"], "every PDU type crossed with every possible header",
  "tests only ever hand a decoder its own PDU; no test feeds a foreign type or looks at the other header fields afterwards",
  [MAC] + HDR, [("type check in deserialize / deserialize_without_header", "src/pdu_macro.rs")],
  ["Pdu::deserialize", "Pdu::deserialize_without_header"])

p("C07", "Oversized PDUs are rejected with an accurate error",
  "Computing the length of, or encoding, a PDU whose encoding would exceed the maximum PDU size (8192 octets) fails with the PDU-size-exceeded error, which reports the true size and that maximum, and every PDU up to that size is accepted; no length is ever silently truncated or wrapped.",
  ["inputs"], "every PDU type and every total size, on both sides of the limit",
  "no test builds a PDU anywhere near the limit",
  [MAC, "src/common/constants.rs", "src/common/dis_error.rs"], [("calculate_length", "src/pdu_macro.rs"), ("MAX_PDU_SIZE_OCTETS", "src/common/constants.rs")],
  ["Pdu::calculate_length", "Pdu::serialize"])

p("C08", "Encoding only appends, and a failed encode writes nothing",
  "Encoding a PDU or a record only appends to the caller's buffer: bytes already present are never changed, removed or reordered. If encoding fails, not a single byte has been added to the buffer.",
  ["inputs", "fault_sequences"], "every PDU and record type; every prior buffer content; every failing encode",
  "tests encode into empty buffers and never provoke an encode error",
  [MAC] + REC + HDR, [("serialize computes the length before writing", "src/pdu_macro.rs")], ["Pdu::serialize"])

p("C09", "The wire layout of every PDU and record follows the standard table",
  "Every PDU, header and record emits its named fields in a fixed order, each with the fixed width, encoding and byte order laid down for it, and multi-byte values are always in network byte order; a peer built against an earlier release or another DIS implementation finds every field at the offset it expects.",
  ["inputs"], "every field of every PDU, header and record type",
  "round-trip tests cannot see a change made consistently to encoder and decoder; no test compares emitted bytes with the standard's layout",
  PDUS + REC + HDR + ENU, [("field order in define_pdu!", "src/*.rs"), ("serialize fns", "src/common/data_types/*.rs")], ["Pdu::serialize"])

p("C10", "Enumerations survive the wire",
  "For every enumeration with a wire form, decoding the number written for a variant yields that same variant, every variant's number fits the field it is written to, and any number that denotes no variant decodes to the enumeration's default instead of failing. No value is narrowed or reinterpreted on the way.",
  ["inputs"], "every variant of every wire enumeration and every bit pattern of the field",
  "tests touch a handful of variants; a variant too large for its wire field or a decoder reading a narrower type only fails for specific codes",
  ENU + REC, [("deserialize: from_uN(get_uN)", "src/common/enums.rs"), ("FieldSerialize: put_uN(*self as uN)", "src/common/enums.rs")], ["enum deserialize / FieldSerialize"])

p("C11", "Published enumeration code points never change",
  "The numeric value of every published enumeration variant (SISO-REF-010 code points, PDU types, protocol families, bit-flag constants, two-bit specifiers and exported protocol constants) stays the one published, no published variant disappears, and each enumeration's default variant stays the same; new variants may only take unused numbers.",
  ["configurations"], "every variant of every public enumeration and flag set",
  "no test compares the numeric values of the more than 400 enumerations with the published tables",
  ENU, [("enum discriminants", "src/common/enums.rs"), ("bitflags constants", "src/common/enums.rs")], ["as-casts, FromPrimitive, FieldSerialize"])

p("C12", "Encoding never panics",
  "Computing the length of or encoding any PDU or record value never panics: no arithmetic overflow, out-of-range index, failed unwrap, or unimplemented path is reachable, whatever values the public fields hold.",
  ["inputs"], "every PDU and record value that can be built through the public API, including inconsistent counts",
  "tests encode only default values",
  [MAC] + REC + HDR + ENU, [("serialize / field_len", "src/common/data_types/*.rs")], ["Pdu::serialize", "FieldSerialize::serialize_field", "FieldLen::field_len"])

p("C13", "Decoding arbitrary bytes never panics",
  "Decoding any byte sequence as any PDU returns a value or an error and never panics: a truncated input gives the buffer-underflow error, an unknown code gives the default, and the PDU-type peek returns nothing for input shorter than a header. Truncation anywhere before the end of a PDU's fixed part is an error, never a partially filled PDU.",
  ["inputs"], "every PDU type and every byte sequence of every length",
  "tests decode only complete, self-produced input; the panic paths depend on input length and on wire-supplied codes and counts",
  [MAC] + REC + HDR + ENU, [("remaining-length check before the body is read", "src/pdu_macro.rs"), ("get_pdu_type", "src/common/pdu_header.rs")],
  ["Pdu::deserialize", "Pdu::deserialize_without_header", "PduHeader::get_pdu_type"])

p("C14", "Decoding never allocates from an unchecked wire-supplied size",
  "No count or length taken from a received message makes the decoder reserve or fill more memory up front than the bytes actually present could justify (beyond a small constant); list storage grows only as elements are really read.",
  ["inputs"], "every decoder and every value of every count and length field in the input",
  "tests decode only well-formed tiny messages; a hostile 32-bit count needs a specific message",
  REC + [MAC], [("count-driven loops", "src/common/data_types/*.rs")], ["FieldDeserialize::deserialize_field"])

p("C15", "A record decoder consumes only its own bytes",
  "How many bytes a record decoder consumes, and what it returns, depends only on the bytes belonging to that record (its fixed fields and its own count and length fields), never on how many or which bytes follow it in the buffer; records therefore decode identically alone, inside lists, and inside PDUs.",
  ["inputs"], "every record decoder and every continuation of the buffer",
  "tests decode buffers that end exactly where the record ends",
  REC + HDR + [MAC], [("deserialize fns", "src/common/data_types/*.rs")], ["FieldDeserialize::deserialize_field"])

p("C16", "The codec is a pure function of its arguments",
  "Encoding, length computation, decoding, default values and constructors depend only on their arguments: never on the clock, environment, randomness, addresses, I/O or mutable global state, so equal inputs give equal results at any time in any thread. The clock is read only to compute a timestamp, and enters nothing but the timestamp field of a header constructed with one.",
  ["inputs", "histories", "schedules"], "every call of the public codec API at any time, in any thread, after any history",
  "a dependence on time or hidden state shows only on particular dates, histories or interleavings",
  ["src"], [("no statics, no unsafe, no I/O", "src/**"), ("calculate_dis_timestamp is the only clock reader", "src/common/pdu_header.rs")], ["all public functions"])

p("C17", "Encoding changes nothing in the PDU but derived fields",
  "Encoding a PDU leaves every field of it untouched except the header's type, family and length and the body length fields that are derived from other fields; computing a length or encoding a record changes nothing. Encoding the same PDU twice in a row therefore appends the same bytes twice.",
  ["inputs", "histories"], "every PDU type, every field value, every number of encodes",
  "tests encode once and do not compare body fields before and after",
  [MAC], [("serialize(&mut self)", "src/pdu_macro.rs")], ["Pdu::serialize", "Pdu::finalize"])

p("C18", "Status-record bit fields are independent and faithful",
  "In the PDU status record every named bit field can be set to any of its values, is read back unchanged, occupies the bits the standard assigns to it, and setting it changes no bit that belongs to another field; the record's byte form and its fields determine each other exactly. Fields that overlay the same bits for different PDU types use exactly the documented shared bits.",
  ["inputs", "histories"], "all 256 status bytes, every setter with every argument, in any order",
  "no test touches the status record at all",
  ["src/common/pdu_header.rs", "src/common/enums.rs"], [("PduStatusRecord accessors", "src/common/pdu_header.rs")], ["PduStatusRecord"])

p("C19", "Timestamps are one consistent clock reading, in range",
  "A computed DIS timestamp is derived from a single instant, counts time units since the start of that instant's UTC hour (minutes, seconds and sub-second part each weighted, to within half a percent, by their share of 2^31 units per hour), and always lies in the range [0, 2^31) with no overflow or panic, leap seconds included.",
  ["schedules", "inputs"], "every instant at which the function may be called or preempted",
  "a torn reading shows only when a minute or second boundary falls between two clock reads; tests run at one instant",
  HDR, [("calculate_dis_timestamp", "src/common/pdu_header.rs, src/common/live_entity_pdu_header.rs")], ["PduHeader::calculate_dis_timestamp"])

p("C20", "Constructors and accessors are faithful",
  "Every constructor of a record, header or error stores each argument unchanged in the field it is named for, every getter returns and every setter stores exactly the field it names, and no such operation alters any other field. Header accessors of the two header kinds agree with each other, finalizing a PDU sets the header length to the computed length and nothing else, and flag sets convert to and from their number without losing a defined bit.",
  ["inputs"], "every public constructor, getter and setter with every argument",
  "tests construct few records and mostly with equal (zero) arguments, where swapped arguments are invisible",
  REC + HDR + ["src/common/generic_header.rs"], [("fn new", "src/common/data_types/*.rs"), ("GenericHeader", "src/common/generic_header.rs")], ["new, set_*, accessors"])

p("C21", "PDUs and records can be shared and sent between threads",
  "Every public PDU, record, header, enumeration and error type owns its data and is Send, Sync and 'static, and the crate contains no unsafe code and no interior mutability, so a PDU can be handed to another task or thread and downcast there.",
  ["programs", "schedules"], "every public type, in every program using the crate",
  "no test moves most types across threads; a field type that loses Send breaks only user programs",
  ["src"], [("auto traits of all public types", "src/**")], ["type system"])

p("C22", "Length fields maintained by the encoder tell the truth",
  "The body length fields that the encoder maintains itself (modulation-parameter length and antenna-pattern length of the transmitter PDU) hold on the wire exactly the number of bytes of the part they describe, for every such part and regardless of what the caller left in them, and the decoder uses them to recover that part.",
  ["inputs", "histories"], "every transmitter PDU, every prior value of the length fields",
  "tests encode only a default transmitter PDU with no modulation parameters and no antenna pattern",
  [MAC, "src/radio_communications.rs", "src/common/data_types/modulation_parameters.rs"], [("#[len = ...] annotations", "src/radio_communications.rs")], ["TransmitterPdu"])

p("C23", "Vector arithmetic follows its mathematical definition",
  "Addition, subtraction, scaling, division, negation, dot and cross product, magnitude and normalization of the vector records compute, component by component, the value of their textbook definition (up to floating-point rounding), for all components. Normalization yields nothing exactly for the zero vector and a vector of the same direction otherwise.",
  ["inputs"], "every vector operation and all component values",
  "tests evaluate each operation at one sample; a wrong component or sign gives wrong results only for suitable operands",
  ["src/common/data_types/vector3_float.rs"], [("operators and methods", "src/common/data_types/vector3_float.rs")], ["Vector3Float operators and methods"])

p("C24", "A fresh PDU is neutral and self-consistent",
  "A newly constructed PDU has the body of the type's default value: every list is empty, every optional part absent, and every count or length that describes them is zero. Its header carries protocol version IEEE 1278.1-2012, exercise 1, cleared status and padding, and the PDU's own type, family and length.",
  ["configurations"], "every PDU type the crate defines, every field",
  "tests look at the header type, family and length of a new PDU; no test looks at its version, exercise, status or body fields",
  [MAC] + HDR + PDUS, [("new() / Default in define_pdu!", "src/pdu_macro.rs"), ("PduHeader::default", "src/common/pdu_header.rs")], ["Pdu::new", "Default::default"])

p("C25", "Equality and cloning are structural",
  "Two values of a PDU, record, header or enumeration type compare equal exactly when all their fields are equal, and a clone equals its original in every field.",
  ["inputs"], "every type with equality or cloning and all pairs of values",
  "tests compare headers and default values only; an equality that ignores one field, or a clone that resets one, passes them",
  ["src"], [("PartialEq, Clone of all types", "src/**")], ["==, clone"])

p("C26", "Peeking at a PDU type agrees with decoding it",
  "Looking at the PDU type of a raw byte buffer yields nothing when fewer than a header's 12 bytes are there, and otherwise exactly the type that decoding a header from the same bytes yields, whatever the other bytes are; it never panics.",
  ["inputs"], "every byte buffer, all 256 type numbers",
  "tests peek at two types and one short buffer; the other numbers, header contents and lengths are never tried",
  HDR, [("get_pdu_type", "src/common/pdu_header.rs")], ["PduHeader::get_pdu_type"])

p("C27", "Default records are neutral",
  "The default value of every record is neutral: every number is zero, every flag clear, every list and text empty, every optional part absent, every enumeration and nested record at its own default. The exceptions are fixed: a simulation address defaults to site 1, application 1, and a header to exercise 1 and protocol version IEEE 1278.1-2012. Constructors without arguments give the default.",
  ["configurations"], "every record and header type with a default, every field",
  "tests compare a handful of defaults; a default that is not neutral silently changes every fresh PDU that contains the record",
  REC + HDR, [("impl Default", "src/common/data_types/*.rs")], ["Default::default of records and headers"])

p("C28", "The published size limits agree with the codec",
  "The size constants and helpers agree with each other and with the codec for every size: the limit in bits is eight times the limit in octets, the header size is what headers declare and occupy, a size is valid exactly when it does not exceed the limit the encoder enforces, the total size is payload plus header, and a marking length is valid exactly up to its limit.",
  ["inputs"], "every size argument, every PDU type's limit",
  "tests evaluate each helper at two or three sizes",
  ["src/common/constants.rs", MAC], [("constants and helpers", "src/common/constants.rs"), ("MAX_PDU_SIZE_OCTETS in define_pdu!", MAC)], ["validate_pdu_size", "total_pdu_size", "validate_marking_length", "limits"])

p("C29", "Both decoding entry points agree",
  "Decoding a whole PDU, and decoding its header first and then its body with the entry point that takes the header, accept the same inputs and give the same PDU, for arbitrary bytes - truncated, malformed or followed by other bytes - and not only for well-formed PDUs.",
  ["inputs"], "every PDU type and every byte sequence",
  "tests use the header-first entry point for very few PDU types, always with well-formed input",
  [MAC], [("deserialize / deserialize_without_header in define_pdu!", MAC)], ["Pdu::deserialize", "Pdu::deserialize_without_header"])

p("C30", "Decoding does not depend on how the input is divided into pieces",
  "The result of a decoder depends on the bytes of its input and their number only: a buffer made of several non-contiguous pieces (a chain of received fragments) decodes exactly as the same bytes in one piece.",
  ["inputs", "schedules"], "every decoder, every byte sequence and every division of it into pieces",
  "tests decode from one contiguous buffer only",
  REC + HDR + [MAC], [("deserialize<B: Buf>", "src/**")], ["all deserialize entry points, generic over Buf"])

p("C31", "Errors tell the truth",
  "Every buffer-underflow error of a PDU decoder carries the number of bytes that were really left and a larger number that was wanted, and is not raised when that number is there; every invalid-header error names the received type. The text of an error contains every value the error carries, in order, its source is the stored source, and an I/O error is wrapped unchanged.",
  ["inputs"], "every PDU decoder on every byte sequence; every error value",
  "tests assert that an error occurs, hardly ever what it says",
  [MAC, "src/common/dis_error.rs"], [("buffer_underflow(...), invalid_header(...)", MAC), ("DISError", "src/common/dis_error.rs")], ["DISError", "decode errors"])

p("C32", "Every codec operation finishes, in work its data justifies",
  "Encoding, length computation and decoding end for every value and every byte sequence: no loop can go round without progress and no call comes back to itself. A decoder runs no more rounds than the octets present justify (beyond what an empty item per step of a 16-bit count costs), so a short message that states a huge count cannot keep a receiver busy.",
  ["inputs"], "every loop and call of every encoder, length function and decoder; every value and byte sequence",
  "an endless or four-billion-round loop needs a particular count, length or truncation; a test that meets it hangs instead of failing, so none has it",
  REC + HDR + [MAC], [("serialize / field_len / deserialize", "src/**")], ["return of every encode, length and decode call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
