#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below (a property is claimed when checks/<id>.py exists)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "asn1crt/"
P = []
def prop(id, title, statement, over, quant, why, files, mech, technique, note, state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=[dict(name=a, where=b) for a, b in mech], technique=technique, note=note, state=state, na=na))

EXH = "bounded-exhaustive execution of the real code against an independent bit-list model"
NOTE = "Every case in the stated bounds is executed on the code compiled from the working tree and compared with an independently written model; exact-size buffers under AddressSanitizer turn any out-of-bounds access into a violation. Trusted: the reference model, gcc/clang and ASAN."

prop("C01", "uPER whole numbers are encoded exactly as X.691 says and read back",
 "Encoding a constrained, semi-constrained or unconstrained whole number writes exactly the bits X.691 prescribes, at whatever bit position the stream is, and nothing else. Decoding those bits gives back the same number, for every C integer width offered, and consumes exactly them. A code that stands for no number of the declared range, or an input that ends too early, is refused.",
 ["inputs", "configurations"], "every (minimum, maximum, value) with small ranges, boundary values of all larger ranges, every bit offset 0-7, every truncation, WORD_SIZE 8 and 4",
 "The committed C tests encode a few dozen numbers, mostly byte-aligned, always with WORD_SIZE 8 and never with a truncated input or an out-of-range code.",
 [C+"asn1crt_encoding.c", C+"asn1crt_encoding.h", C+"asn1crt_encoding_uper.c", C+"asn1crt.c"],
 [("constrained whole numbers", C+"asn1crt_encoding.c: BitStream_EncodeConstraintWholeNumber / DecodeConstraintWholeNumber and the typed variants"), ("semi-constrained and unconstrained", C+"asn1crt_encoding.c: BitStream_EncodeSemiConstraint*, BitStream_EncodeUnConstraintWholeNumber")], EXH, NOTE)
prop("C02", "The bit stream behaves as a list of bits under every sequence of operations",
 "Whatever sequence of append and read operations is applied, the buffer holds exactly the appended bits in order, the write position equals their number, bits outside the written area keep their value, and reading them back in any chunking returns the same bits. A read that would go past the end of the attached buffer fails and touches no memory outside it.",
 ["histories", "inputs"], "all operation sequences up to the depth bound over the operation alphabet (bits, partial bytes, bytes, bit runs, bit arrays, masks, patterns, null-terminated strings), from every bit offset and every previous buffer content of the alphabet, every truncation",
 "Unit tests apply single operations to zeroed buffers; corruption appears only for particular sequences at particular bit offsets.",
 [C+"asn1crt_encoding.c", C+"asn1crt_encoding.h"],
 [("append", C+"asn1crt_encoding.c: BitStream_AppendBit/AppendByte/AppendBits/AppendPartialByte"), ("read", C+"asn1crt_encoding.c: BitStream_ReadBit/ReadByte/ReadBits/ReadPartialByte/PeekBit, ReadBits_nullterminated")], "explicit-state exploration of all operation sequences on the real bit stream, against a bit-list model", NOTE,
 state=[dict(name="stream position", meaning="current byte and bit inside the attached buffer", where=C+"asn1crt.h: struct BitStream_t")])
prop("C03", "REAL values survive uPER encoding exactly and malformed REALs are refused",
 "Encoding any finite double or float, either zero or infinity produces a binary REAL encoding with the value's exact mantissa and exponent as X.690 8.5 prescribes, and decoding it gives the identical value. The decoder reads every well-formed binary encoding (all bases, scale factors, exponent lengths) to the value it denotes and never accepts an input whose contents are cut off or whose length is inconsistent.",
 ["inputs", "configurations"], "all exponents x mantissa classes (thorough: all 2^32 floats), all header bytes x exponent/mantissa alphabets, all truncations, WORD_SIZE 8/4 x FP_WORD_SIZE 8/4",
 "The committed tests encode a handful of reals; denormals, minus zero, other bases and 32-bit words are never reached.",
 [C+"asn1crt_encoding.c", C+"asn1crt.c", C+"asn1crt_encoding_uper.c"],
 [("mantissa/exponent split", C+"asn1crt_encoding.c: CalculateMantissaAndExponent, GetDoubleByMantissaAndExp"), ("REAL codec", C+"asn1crt_encoding.c: BitStream_EncodeReal / BitStream_DecodeReal")], EXH, NOTE)
prop("C04", "uPER octet and bit strings of every length round trip, fragmented above 64K",
 "An octet or bit string whose size is inside its bounds is encoded with the length form X.691 10.9 prescribes (none, constrained, or fragmented in 16K blocks) followed by its contents, at any bit position. Decoding returns the same contents and count, and an input that is cut off, announces more than the declared maximum or carries an impossible fragment header is refused without writing past the declared maximum.",
 ["inputs", "configurations"], "all sizes and bounds up to the small bound, every length around each power-of-two and fragment boundary up to 200000, every bit offset, every truncation for short contents",
 "Fragmentation boundaries, non-byte-aligned strings and truncated contents are not among the committed test vectors.",
 [C+"asn1crt_encoding_uper.c", C+"asn1crt_encoding.c"],
 [("octet strings", C+"asn1crt_encoding_uper.c: BitStream_EncodeOctetString / DecodeOctetString and the fragmentation helpers"), ("bit strings", C+"asn1crt_encoding_uper.c: BitStream_EncodeBitString / DecodeBitString")], EXH, NOTE)
prop("C05", "No input bytes make a C runtime decoder crash, hang or touch foreign memory",
 "Every decoding function of the C runtime, given any bytes, any truncation and any start position, either succeeds with a result inside the bounds it was given or reports failure. It never reads or writes outside the attached buffer and the result object, never aborts and always terminates.",
 ["inputs"], "all byte strings up to the bound over full or reduced alphabets, for every public decoding function of the bit-stream, uPER, ACN, BER and XER layers, at several bit offsets",
 "Committed tests feed decoders only what the encoders produced.",
 [C+"asn1crt_encoding.c", C+"asn1crt_encoding_uper.c", C+"asn1crt_encoding_acn.c", C+"asn1crt_encoding_ber.c", C+"asn1crt_encoding_xer.c"],
 [("bound checks", C+"asn1crt_encoding.h: CHECK_BIT_STREAM, BitStream_bytePosExceed..."), ("decoders", C+"asn1crt_encoding*.c: BitStream_Decode*, Acn_Dec_*, Ber*Decode*, Xer_Decode*")], "bounded-exhaustive enumeration of decoder inputs on the real code under AddressSanitizer", NOTE)
prop("C06", "ACN integer encodings are exact, reversible and reject what does not fit",
 "For every ACN integer encoding (fixed size of any bit width, both endiannesses, two's complement, length-embedded, BCD and decimal text in fixed, length-prefixed and terminated form) the encoder writes exactly the documented bits at any bit position. The matching decoder of every C width returns the same value and consumes exactly those bits. A decoder refuses malformed digits or signs, cut-off input, and any number that does not fit the requested type; it never returns a different number.",
 ["inputs", "configurations"], "all small values and all boundary values x every size parameter x every bit offset x every truncation; all inputs of up to 2 bytes and all symbol strings up to the bound; WORD_SIZE 8 and 4",
 "The committed tests use a few values per encoding at byte boundaries and never a malformed or overlong number.",
 [C+"asn1crt_encoding_acn.c", C+"asn1crt_encoding_acn.h"],
 [("integer codecs", C+"asn1crt_encoding_acn.c: Acn_Enc_Int_* / Acn_Dec_Int_*"), ("text and BCD", C+"asn1crt_encoding_acn.c: Acn_*_ASCII_*, Acn_*_BCD_*")], EXH, NOTE)
prop("C07", "ACN strings, booleans, nulls, IEEE reals and alignment are exact and reversible",
 "ACN strings (fixed, terminated, external or internal length, raw or character-index), boolean and null bit patterns and IEEE 754 reals are written exactly as the ACN manual describes at any bit position and read back to the same value. Alignment moves to the next 8, 16 or 32 bit boundary of the message, padding with zero bits. A string longer than its declared maximum, a bit pattern that is neither the true nor the false pattern, or a cut-off input is refused, and a string decoder always leaves a terminated value inside its buffer.",
 ["inputs", "configurations"], "all words over the alphabet up to the length bound, all character-set sizes, all bit patterns up to 9 bits (12 thorough), all exponents x mantissa classes, all positions 0-80 for alignment, every offset and truncation",
 "Committed tests cover single strings and whole-byte patterns; terminators at the exact maximum, unterminated strings and truncations are not tested.",
 [C+"asn1crt_encoding_acn.c", C+"asn1crt_encoding_acn.h"],
 [("strings", C+"asn1crt_encoding_acn.c: Acn_Enc_String_* / Acn_Dec_String_*"), ("patterns", C+"asn1crt_encoding_acn.c: BitStream_ReadBitPattern, BitStream_DecodeTrueFalseBoolean"), ("alignment", C+"asn1crt_encoding_acn.c: Acn_AlignToNext*")], EXH, NOTE)
prop("C08", "Deferred ACN determinants patch exactly their own bits, consistently",
 "A determinant that is reserved and patched later ends up holding the patched value in its reserved bits, while every other bit of the message and the write position stay as they were, in whatever order reservations, data and patches follow each other. Patching the same determinant again succeeds only with the same value; another value is reported as inconsistent and changes nothing.",
 ["histories", "inputs"], "all sequences of reserve/append/patch operations up to the depth bound over pairs of determinant encodings; every encoding x boundary value x bit offset x following bits",
 "Committed tests patch one determinant at a time, mostly byte-aligned; damage to neighbouring bits needs particular offsets and orders.",
 [C+"asn1crt_encoding_acn.h", C+"asn1crt_encoding_acn.c"],
 [("reserve and patch", C+"asn1crt_encoding_acn.h: DEFINE_ACN_DET_ENCODERS*, Acn_InitDet_*/Acn_PatchDet_*")], "explicit-state exploration of all reserve/append/patch histories on the real code", NOTE,
 state=[dict(name="determinant reference", meaning="reserved position, whether it was patched and with what", where=C+"asn1crt_encoding_acn.h: AcnInsertedFieldRef")])
exec(open(os.path.join(V, "tools", "more_props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = dict(files=p["files"], mechanism=p["mech"])
        if p["state"]: a["state"] = p["state"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"], anchors=a)) + "\n")
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(V, "checks", p["id"] + ".py")) and not p["na"]:
        checks.append(dict(property=p["id"], quick_cmd="python3 checks/%s.py" % p["id"], thorough_cmd="VERIF_TIER=thorough python3 checks/%s.py" % p["id"], technique=p["technique"], level="model_checking", level_note=p["note"]))
    else: na.append(dict(property=p["id"], reason=p["na"] or "no check built yet"))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print("claimed", [c["property"] for c in checks], "not", [n["property"] for n in na])
