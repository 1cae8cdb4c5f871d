#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script so that the long texts stay readable and diffable).
import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)

CARD="internal/card/"; DD="internal/dd/"; VU="internal/vu/"; SEC="internal/security/"
p("C01","Parsing any byte string ends in a file or an error, never a crash",
 "For every byte string, parsing it as a tachograph file returns, after finitely many steps, either a parsed file or an error, and exactly one of the two. It never panics (index, slice, nil, conversion or allocation-size faults), whatever lengths, counts, offsets or pointers the bytes claim.",
 ["inputs"],"all byte strings, of any length; in particular every value of each embedded length, count, offset and pointer field",
 "Tests parse a few dozen hand-made or genuine records; crashes sit at particular combinations of claimed size and remaining length (e.g. a record array that claims more bytes than are left) that no sample hits.",
 ["unmarshal.go",CARD+"rawcardfile.go",CARD+"activity.go",VU+"raw_vehicle_unit_file.go",VU+"vehicle_unit_file.go",VU+"overview.go",VU+"events_faults.go",VU+"activities.go",VU+"technical_data.go",VU+"detailed_speed.go",VU+"card_download.go"],
 [("length checks before each slice of the input","every Unmarshal*/sizeOf* function"),("TLV scanner split function",CARD+"rawcardfile.go"),("record array header sizing",VU+"raw_vehicle_unit_file.go")],
 ["UnmarshalFile","each elementary-file and transfer decoder"])
p("C02","Raw card image: decode then encode reproduces the file byte for byte",
 "Decoding a card file image into its raw records and encoding those records again gives back exactly the original bytes, for every image that decodes. The records are the TLV blocks of the image in order: each record's tag, length and value are those in the bytes, and its elementary-file identity, content type (data or signature) and generation are the ones its tag denotes; an image that is not a whole sequence of TLV blocks is rejected.",
 ["inputs"],"all byte strings; all tags, all 16-bit lengths including 0 and 65535, and every truncation point",
 "Existing tests round-trip three fixed images; length-field extremes, truncation at each byte and each appendix value are not reached.",
 [CARD+"rawcardfile.go"],[("scanCardFile split function, record conversion, appendRawCardFile",CARD+"rawcardfile.go")],["raw card decode and encode"])
p("C03","Card elementary files: decode then encode reproduces the original bytes",
 "For every elementary file of a driver card that the library both decodes and encodes (application identification, ICC, IC, identification, driving licence, events, faults, driver activity, vehicles used, places, current usage, control activity, specific conditions, card download, vehicle units used, GNSS places, both generations), encoding the decoded content gives back the original bytes, whenever the file has a size its record structure allows and every field holds a value the data dictionary defines. This includes reserved and padding bytes that no decoded field represents.",
 ["inputs"],"all file contents with defined field values, all record counts, all structure sizes announced by the card",
 "Tests round-trip one or a few samples per file; a byte lost only for particular values (flags, signs, reserved bits, pointer positions, record counts) is invisible to them.",
 [CARD+f for f in ["activity.go","application_identification.go","application_identification_g2.go","application_identification_v2.go","card_download.go","control_activity.go","current_usage.go","driving_licence.go","events.go","faults.go","gnss_places.go","ic.go","icc.go","identification.go","places.go","places_g2.go","specific_conditions.go","specific_conditions_g2.go","vehicle_units_used.go","vehicles_used.go","vehicles_used_g2.go"]],
 [("raw-data painting: stored original bytes used as canvas, decoded values written over them","append* functions of internal/card")],["unmarshal and append function of each elementary file"])
p("C04","Data dictionary items: decode then encode reproduces the original bytes",
 "For every data dictionary item the library both decodes and encodes (times, dates, month/year, BCD, odometer, strings, activity changes, card numbers, serial numbers, vehicle registrations, vehicle records, place, GNSS and specific-condition records, control types, structure versions, insertion/withdrawal records, both generations), encoding the decoded item gives back the original bytes whenever its fields hold values the data dictionary defines. Decoding accepts exactly the item's size and rejects every other.",
 ["inputs"],"all byte strings of every length around the item's size, with defined field values",
 "The unit tests use a handful of literals per item; BCD digits, sign bits, reserved bits and boundary values are sampled at a few points only, and several items have no test at all.",
 ["internal/dd"],[("Unmarshal*/Append* pairs with raw-data painting","internal/dd")],["decode and encode function of each item"])
p("C05","Decoded values are the ones the tachograph encoding defines",
 "Every value decoded from a card or vehicle-unit record is the one the regulation's encoding assigns to the bytes at that field's position: big-endian counters and odometers, seconds since 1970 UTC, BCD dates and numbers, signed geo-coordinates, bit-packed activity changes and control types, and enumerated codes. No field reads bytes belonging to another field.",
 ["inputs"],"all byte contents of all fixed-layout records and data dictionary items",
 "Tests compare a few literals; a wrong offset, sign, byte order or bit position shows only when neighbouring fields hold different values in the affected bits.",
 ["internal/dd","internal/card",VU+"activities_gen1.go",VU+"overview_gen1.go"],[("field offsets (idx*/len* constants) and primitive decoders","internal/dd, internal/card, internal/vu")],["decoders of each record, against an independent reference decoder in the harness"])
p("C06","Changing a decoded field and encoding changes exactly that field's bytes",
 "After a decoded record's field is set to another valid value, encoding the record writes the new value at that field's position and leaves all other bytes as they were; decoding the result gives back the new value. Texts are replaced as whole items without their stored bytes. Daily activities and vehicle-unit transfers other than the first-generation overview encode from their stored bytes and are outside this property.",
 ["inputs","histories"],"all original contents, all fields with a semantic setter, all valid replacement values",
 "Tests mutate almost nothing before encoding; the interplay of the stored original bytes with changed values is exercised by anonymisation samples only.",
 ["internal/dd","internal/card"],[("painting semantic values over the stored original bytes","Append*/append* functions")],["encode after edit, for each record type"])
p("C07","Enumerated codes map one-to-one and unrecognised codes survive",
 "For every enumeration with protocol codes, decoding a code gives the enumeration value annotated with that code and encoding that value gives the same code; two different codes never decode to the same recognised value. A code that no value is annotated with decodes as unrecognised with the original code kept, and encoding gives that code back; a record without room for an unrecognised code (nation codes) refuses to encode.",
 ["inputs"],"all 256 codes, all enumerations used by the decoders",
 "Tests touch a few members of a few enumerations; a duplicate or wrong annotation, or a lost unrecognised code, shows only for the particular code.",
 [DD+"enum.go","proto/wayplatform/connect/tachograph"],[("UnmarshalEnum/MarshalEnum over protocol_enum_value annotations",DD+"enum.go")],["enum decode and encode"])
p("C08","Vehicle-unit download: the transfers tile the file exactly",
 "A vehicle-unit file that decodes is split into transfers whose tags and values, concatenated in order, are exactly the input bytes; each transfer's type and generation are those of its tag. The extent of a transfer is the one its own counts and record-array headers announce, a card download's is its whole run of TLV blocks; a file with an unknown tag or whose transfers announce more bytes than it has is rejected.",
 ["inputs"],"all byte strings of any length, all tags, all record sizes and counts",
 "No vehicle-unit test runs in this repository (they need proprietary samples); sizes are products of 16-bit fields at data-dependent offsets.",
 [VU+"raw_vehicle_unit_file.go",VU+"overview.go",VU+"activities.go",VU+"events_faults.go",VU+"technical_data.go",VU+"detailed_speed.go",VU+"card_download.go",VU+"download_interface_version.go"],
 [("sizeOf* functions and sizeOfRecordArray","internal/vu"),("tag lookup and slicing loop",VU+"raw_vehicle_unit_file.go")],["raw vehicle unit decode"])
p("C09","Every well-formed vehicle-unit transfer decodes and keeps its bytes",
 "A transfer whose value consists of exactly the sections its type prescribes is accepted by that type's decoder and by the file decoder, for every content of the sections with defined codes, with one decoded entry per counted record and one entry per transfer in file order (of several overviews the last is kept); a value with missing or extra bytes is refused. Encoding the decoded transfer gives back the original value, and a first-generation transfer's signature is its trailing 128 bytes. A file that mixes transfers of different generations or versions is refused, as is encoding a whole vehicle-unit file, which the library does not implement.",
 ["inputs"],"all thirteen transfer types with separate decoders, all record sizes and counts, all section contents with defined codes",
 "No vehicle-unit test runs in this repository; whether the splitter and the decoder agree on the list of sections is never exercised.",
 [VU+f for f in ["overview_gen1.go","overview_gen2_v1.go","overview_gen2_v2.go","activities_gen1.go","activities_gen2_v1.go","activities_gen2_v2.go","events_faults_gen1.go","events_faults_gen2_v1.go","events_faults_gen2_v2.go","detailed_speed_gen1.go","detailed_speed_gen2.go","technical_data_gen1.go","technical_data_gen2_v1.go","technical_data_gen2_v2.go","vehicle_unit_file.go"]],
 [("section walk and final length check in each transfer decoder","internal/vu/*_gen*.go"),("splitter sizing","internal/vu/sizeOf*")],["transfer decode and encode functions"])
p("C10","Cyclic daily-activity buffer is walked completely and in order",
 "For every activity buffer, pointers and record lengths, decoding yields the chain of daily records from oldest to newest as linked by their lengths, each with exactly the bytes at its (possibly wrapping) position, stops within the buffer, and never invents, repeats or reorders a record; an inconsistent chain is refused or cut to the records that fit. Encoding the decoded activity reproduces the buffer, its pointers and every byte not covered by a record.",
 ["inputs","histories"],"all buffer contents, all oldest/newest pointers and record length fields, including wrap-around at every position and inconsistent chains",
 "Tests walk one genuine-looking buffer; wrap-around inside a header, self-loops and length inconsistencies are not covered.",
 [CARD+"activity.go"],[("cyclic record iterator, record decode, buffer rebuild",CARD+"activity.go")],["driver activity decode and encode"])
p("C11","Anonymised records carry no identifying data and still encode",
 "Anonymising a decoded identification, vehicles-used or places record (both generations), or one of the dictionary records they consist of, replaces names, authorities, card numbers, registration numbers, regions, place countries and positions, and in the whole-file anonymisers dates and times, by values that do not depend on the original ones, and rounds odometers down (vehicles to 1000 km, places to 100 km). Two records that differ only in such data anonymise to the same record and the same bytes. Record number, order and pointer, entry kinds, activity kinds, vehicle nation, counters, accuracy and language are kept, a signature is dropped, the original record is left alone, and the result encodes to the original's size.",
 ["inputs"],"all original record contents",
 "Golden-file tests that would exercise it need proprietary samples; leakage through stored original bytes is value-dependent and not asserted anywhere.",
 [CARD+"identification.go",CARD+"places.go",CARD+"places_g2.go",CARD+"vehicles_used.go",DD+"activity_change_info.go",DD+"card_vehicle_record.go",DD+"driver_identification.go",DD+"gnss_place_record.go",DD+"place_record.go",DD+"place_record_g2.go"],
 [("Anonymize* functions","internal/card, internal/dd")],["anonymise followed by encode"])
p("C12","RSA card certificates: accepted only if the signature recovery checks hold",
 "A generation 1 certificate is accepted exactly when the issuer reference it carries is the verifying key's reference, and the recovered signature has the required length, header and trailer and a content hash equal to the hash of recovered and plain content; acceptance marks the certificate valid and fills holder reference, validity and key from the authenticated content only. Otherwise it is refused with an error, is not marked valid (whatever an earlier verification said), and none of its fields is filled in or changed.",
 ["inputs","histories"],"all certificate bytes, all issuer keys and references, all results of the modular exponentiation and hash, and any earlier verification state of the certificate",
 "Tests verify the one embedded certificate and a few corruptions; header, trailer, hash and reference checks are each observable only for inputs that pass all others.",
 [SEC+"rsa_verify.go",SEC+"rsa_certificate.go",SEC+"root_certificate.go"],[("signature recovery and checks",SEC+"rsa_verify.go"),("field extraction",SEC+"rsa_certificate.go, root_certificate.go")],["certificate verification against CA and against root"])
p("C13","ECC card certificates: fields and acceptance come from the signed body",
 "A generation 2 certificate of 204 to 341 bytes decodes into the fields of its DER structure and is accepted exactly when the signature over its complete body, as hashed with the hash of the issuer's curve, verifies under the issuer's public key; otherwise it is refused with an error and not marked valid, whatever an earlier verification said. Malformed structures, missing signature components, unknown curves and keys that are not on their curve are refused without a crash.",
 ["inputs","histories"],"all DER encodings up to the maximal certificate size, all issuer keys and curves, all outcomes of the signature primitive, any earlier verification state",
 "Tests verify one embedded certificate; the body range that is hashed, the hash/curve pairing and refusal paths are value-dependent.",
 [SEC+"ecc_verify.go",SEC+"ecc_certificate.go"],[("DER walk",SEC+"ecc_certificate.go"),("hash, curve selection and verification",SEC+"ecc_verify.go")],["certificate decode and verification"])
p("C14","Verifying a file succeeds only if every card certificate it has verifies",
 "Verifying a driver card file succeeds exactly if, for every generation present, the card's certificate verified under the certification-authority certificate resolved for the authority reference it names (itself verified under the root where its key is not yet known); any missing certificate, failed lookup or failed verification makes it fail. Other file types verify without touching certificates, and a missing file is an error.",
 ["inputs","fault_sequences"],"all combinations of present generations, certificates, resolver results (including failures and missing certificates) and verification outcomes",
 "Tests cover a few success cases; failures of single steps of the chain in combination with the other generation are not enumerated.",
 ["verify.go","cert.go",CARD+"driver_card_file.go"],[("verifyGen1Certificates/verifyGen2Certificates",CARD+"driver_card_file.go"),("type dispatch","verify.go")],["VerifyFile"])
p("C15","A resolver chain returns the first resolver's success",
 "Asking a chain of certificate resolvers for a certificate asks the resolvers in order with the same reference, returns the certificate of the first one that succeeds and asks none after it, and fails only if every resolver failed. The offline resolver serves exactly the certificates embedded for that reference, without network; the remote one asks the address its index lists for the reference, and serves only a complete certificate from a successful reply.",
 ["fault_sequences","inputs"],"all chains up to a bounded length and every pattern of successes and failures, all three certificate kinds",
 "No test covers the chain at all; fallback order matters only under particular failure patterns.",
 ["internal/cert/chain.go","internal/cert/embedded.go","internal/cert/client.go","internal/cert/certcache/embed.go","cert.go"],[("fallback loops","internal/cert/chain.go"),("embedded files by reference","internal/cert/certcache/embed.go"),("index lookup and download","internal/cert/client.go")],["resolver calls observed by a recording stub"])
p("C16","Each card block reaches the right application, file and signature",
 "Assembling a driver card file from raw records puts each elementary file's content in the application (common, first or second generation) that its tag denotes, decoded with the structure sizes and generation of that application, and attaches to it the signature block that follows with the same tag. This holds for the elementary files the library decodes; others are skipped. No block's content or signature ends up in another file or generation, whatever order and combination of blocks the card has.",
 ["inputs","histories"],"all sequences of blocks up to a bounded length, all tag appendices, present or missing signatures",
 "Tests use a few fixed orders; mix-ups between generations or signatures show only for particular sequences.",
 [CARD+"driver_card_file.go",CARD+"rawcardfile.go"],[("record dispatch switch and signature look-ahead",CARD+"driver_card_file.go")],["driver card decode"])
p("C17","File kind is recognised from its leading bytes and its blocks",
 "A byte string is treated as a vehicle-unit file, a card file or refused solely by its leading tag, and a card file is decoded as a driver card exactly when all its data blocks are elementary files a driver card has; every other card is returned as raw records, losing nothing; too short a file or an unknown leading tag is refused. The parsed file announces the kind it carries and carries only that kind, and encoding dispatches on the same kind.",
 ["inputs"],"all leading bytes, all sets of elementary files",
 "Tests check a few leading byte pairs and a few sets of files.",
 ["unmarshal.go","marshal.go",CARD+"infer.go"],[("leading-byte switch","unmarshal.go"),("InferFileType set comparison",CARD+"infer.go")],["UnmarshalFile, MarshalFile"])
p("C18","Encoding a decoded driver card yields a file that decodes to the same card",
 "Encoding a decoded driver card gives a file in which every elementary file and signature the decoded card holds appears once under its own tag, appendix and length with its own bytes, and decoding that file gives an equal card.",
 ["inputs"],"all driver cards built from bounded sequences of blocks with defined contents",
 "The only whole-card round-trip tests need proprietary samples and are skipped here.",
 [CARD+"driver_card_file.go"],[("appendDriverCard and appendTlv*",CARD+"driver_card_file.go")],["MarshalFile then UnmarshalFile"])
p("C19","Decoding and encoding leave their inputs alone",
 "Decoding never modifies the input bytes, and encoding never modifies the message it encodes nor the bytes already in the buffer it appends to: the result is the old buffer followed by an encoding that does not depend on the buffer. Encoding twice gives the same bytes.",
 ["inputs","histories"],"all inputs, all prefixes and spare capacities of the destination buffer",
 "Tests always append to an empty buffer and never compare the input afterwards.",
 ["internal/dd","internal/card","internal/vu"],[("append(dst, ...) of a freshly painted canvas","Append*/append* functions")],["decode/encode functions"])
p("C20","A record's content does not depend on how many records surround it",
 "Every record decoded from a card file of many records keeps its own bytes: stored original bytes and text of each record equal the input bytes at that record's position, after decoding has finished, for files of any size up to the format's maximum.",
 ["inputs"],"all record counts up to the maximum sizes cards announce, all contents",
 "Tests use small files; retention of buffers that a reader reuses shows only beyond the reader's buffer size.",
 [CARD+"events.go",CARD+"faults.go",CARD+"vehicle_units_used.go",CARD+"gnss_places.go",CARD+"vehicles_used.go",CARD+"places.go",CARD+"rawcardfile.go"],
 [("record scanning with bufio.Scanner and retained slices","internal/card")],["record decoders on large files"])
p("C21","Text fields decode to valid, correctly mapped Unicode and back",
 "Every decoded text value is valid UTF-8: the characters that the field's bytes have in the code page they name (ISO 8859-1 for code page 0 and unknown ones), without the blanks and zero bytes at its ends; unused fields and code page 255 give empty text. IA5 texts keep their 7-bit characters. Encoding a text without stored bytes gives its code page and bytes, padded with spaces to the field's size, that decode to the same text; text that is too long or has characters its code page lacks is refused, never silently cut or replaced.",
 ["inputs"],"all code pages, all byte contents of fields up to a bounded length, all representable texts",
 "Tests use a few literals in a few code pages.",
 [DD+"string_value.go",DD+"ia5_string_value.go",DD+"holder_name.go"],[("code page tables and padding",DD+"string_value.go")],["text decode and encode"])
p("C22","Encoding follows the message when stored bytes are missing or records change",
 "Encoding a decoded item whose stored original bytes were all dropped (as in a message built by hand or read from JSON) succeeds, gives an encoding of the item's size, and decoding that gives the same fields; only bits no field represents may differ. This holds for the items of the data dictionary, the elementary files of driver cards (files of records marked valid) and the first-generation overview. A list of records from which records were removed, repeated or exchanged after decoding is encoded with exactly the records it then holds, in their order; so is a day whose list of activity changes was shortened or extended, once the stored buffer is dropped. Certificates, which cannot be signed anew, and the vehicle-unit transfers that encode from their stored bytes only are outside this property.",
 ["inputs","histories"],"all values the data dictionary defines, texts of the shapes short, full, empty and never written; record lists before and after a change",
 "Tests encode what they have just decoded, with the stored bytes still there, so the code that encodes from the fields alone hardly runs.",
 [DD[:-1],CARD[:-1],"internal/vu/overview_gen1.go"],[("the branch taken when raw_data is missing or of another size","Append*/append* functions"),("buildCyclicBufferFromRecords",CARD+"activity.go")],["encode functions on messages without raw_data"])
p("C23","Encoding a message that lacks a field keeps everything else in place",
 "Encoding an item, an elementary file or a first-generation overview in which one field is missing (a text, number, date, card number, registration or other part, also within its records) either fails or gives an encoding of the item's full size that decodes, with every other field unchanged. It never gives a shorter encoding, in which the following fields would stand in each other's place. The same holds for an item of the data dictionary that is missing altogether. A driver card that lacks one of its elementary files or applications encodes to a card with all the others, unchanged. Fields that decide what the other fields mean (which kind of card or card number it is, the time that marks an event or control record as used, the 'valid' mark) are outside this property.",
 ["inputs"],"all values the data dictionary defines, texts of the shapes short, full, empty and never written; every single field missing, with and without stored bytes",
 "Tests encode complete messages; that a part is missing changes the layout of what follows only for particular parts, and only the decoded whole shows it.",
 [DD[:-1],CARD[:-1],"internal/vu/overview_gen1.go"],[("what an encoder writes for a nil part","Append*/append* functions"),("AppendFixedStringValue, AppendFixedIa5StringValue",DD+"string_value.go, ia5_string_value.go"),("elementary files are left out when absent",CARD+"driver_card_file.go")],["encode functions on messages with a field cleared"])
p("C24","Results depend on the arguments, not on earlier calls",
 "The result of decoding, encoding, anonymising or verifying, and of asking the embedded or remote certificate source, depends only on the arguments (for the remote source, also on what the server replies): the same call on the same data gives the same result whatever other data was decoded, encoded, anonymised, verified or downloaded before, successfully or not. A certificate is verified by its own bytes and the given issuer, whatever was verified before. A result already returned is not altered by later calls, and what a caller does with a certificate it was given does not alter what the embedded source gives later.",
 ["histories","inputs"],"sequences of two or three calls with any two values the data dictionary defines; certificates accepted first and presented again with other bytes, issuers or keys",
 "Tests make one call per case on fresh values; a cache keyed too coarsely, a buffer used twice or a flag that stays set shows only from the second call on.",
 [DD[:-1],CARD[:-1],"internal/vu","internal/security","internal/cert","verify.go"],[("package-level tables and embedded data","internal/cert/certcache/embed.go, internal/dd"),("CertificateResolver passed to each verification","verify.go")],["decode, encode, anonymise, verify and resolve functions called in sequence"])
with open("properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
