prop("C09", "Streaming through any buffer size equals encoding in one buffer",
 "When the C runtime is built for streaming, encoding through a small buffer that is repeatedly handed to the user's push function delivers exactly the bytes that encoding into one large buffer produces, for every buffer size. Decoding through a small buffer that is repeatedly refilled by the user's fetch function gives the same values as decoding from one buffer.",
 ["histories", "configurations", "inputs"], "every sequence of encoding operations up to the depth bound x every buffer size in range x every start offset",
 "The streaming build has no committed test; errors appear only when an item straddles a particular buffer end.",
 [C+"asn1crt_encoding.c", C+"asn1crt_encoding.h", C+"asn1crt_encoding_uper.c", C+"asn1crt_encoding_acn.c"],
 [("push/fetch", C+"asn1crt_encoding.c: bitstream_push_data_if_required, bitstream_fetch_data_if_required"), ("octet copying", C+"asn1crt_encoding.c: BitStream_EncodeOctetString_no_length / DecodeOctetString_no_length")], "explicit-state exploration of operation sequences x buffer sizes, streaming build against the one-buffer build", NOTE)
prop("C10", "XER encodings of every value are well formed and read back to the same value",
 "For every value of the primitive types, and for elements with attributes, the XER encoder writes one well-formed XML element that denotes the value (markup characters in strings escaped, REALs with enough digits, infinities and NaN as XER spells them), whatever the buffer held before, and either fits the buffer or fails without touching memory outside it; the decoder reads the text back to the same value, ignores white space around and between elements and attributes it was not asked for, and refuses truncated or mismatched elements, text that is no value of the type, and values that exceed the range or the declared maximum length. Loading a file drops the XML declaration, comments and white space between elements and keeps everything else. Limits of the runtime: element names and attribute values up to 99 characters, attribute names up to 49, 20 attributes, 4095 characters of text in a loaded file.",
 ["inputs"], "all boundary values per primitive, all strings up to the bound over an alphabet that includes XML markup characters, all token sequences up to the bound, all placements of white space and comments, every truncation, buffer sizes around the need",
 "The committed XER tests use a few benign values.",
 [C+"asn1crt_encoding_xer.c"], [("tokeniser and primitives", C+"asn1crt_encoding_xer.c: NT, Xer_EncodePrimitiveElement, Xer_DecodePrimitiveElement"), ("file loading", C+"asn1crt_encoding_xer.c: LoadXmlFile")], EXH, NOTE)
prop("C11", "BER primitives are encoded minimally and read back, malformed ones refused",
 "Every BER primitive (tag, length, BOOLEAN, INTEGER, REAL, ENUMERATED, strings, NULL) is encoded as X.690 prescribes and decodes to the same value. A wrong tag, a length that exceeds the input or the declared maximum, and a value that does not fit are refused.",
 ["inputs"], "all boundary values, all strings up to the bound, all tag/length octet combinations of the alphabet, all truncations",
 "The committed BER tests sample a few values.",
 [C+"asn1crt_encoding_ber.c"], [("tag and length", C+"asn1crt_encoding_ber.c: BerEncodeTag, BerEncodeLength"), ("primitives", C+"asn1crt_encoding_ber.c: BerEncode*/BerDecode*")], EXH, NOTE)
prop("C12", "OBJECT IDENTIFIER and RELATIVE-OID values round trip in uPER",
 "Every valid object identifier or relative object identifier within the runtime's arc limit is encoded as X.690 8.19/8.20 contents with a uPER length and decodes to the same arcs. Invalid first arcs are refused by the validity test, and an encoding with too many arcs, an arc that does not fit or cut-off contents is refused.",
 ["inputs"], "all identifiers of up to 4 arcs over the boundary alphabet, all contents of up to 4 octets over the alphabet, all truncations",
 "Committed tests encode a few identifiers that start with small arcs.",
 [C+"asn1crt.c", C+"asn1crt_encoding_uper.c"], [("OID codec", C+"asn1crt_encoding_uper.c: ObjectIdentifier_uper_encode/decode"), ("validity", C+"asn1crt.c: ObjectIdentifier_isValid")], EXH, NOTE)
prop("P01", "Packet checksums and lengths of the C wrappers follow the ECSS definitions",
 "The CRC and ISO checksum appended to a packet are those of the ECSS definitions for every packet content and length, a packet that carries them verifies, and every single- and double-bit error is detected. Packet length fields round trip for every legal length and illegal lengths are refused.",
 ["inputs"], "all packets of up to 2 bytes, all lengths up to the bound with structured contents, all one- and two-bit errors of packets up to the bound, all length values",
 "The committed wrapper tests use two to four packets each.",
 ["PUSCScalaTest/asn1-pusc-lib-asn1CompilerTestInput/wrappers/c"], [("CRC", "wrappers/c: Crc"), ("ISO checksum", "wrappers/c: IsoChecksum"), ("packet length", "wrappers/c: PacketLength")], EXH, NOTE)
prop("T01", "Range and set algebra of the compiler equals the set operations it stands for",
 "Union, intersection, difference, complement, simplification and membership on the compiler's integer, real and value sets agree with the mathematical sets for every combination of constraints, so the effective range computed for a constraint is exactly the smallest one containing the permitted values.",
 ["inputs"], "all expressions up to the depth bound over all ranges and value sets of a small universe, including unbounded ends",
 "Only indirect tests; a wrong corner case appears for particular adjacent or nested ranges.",
 ["CommonTypes/RangeSets.fs", "CommonTypes/ValueSets.fs"], [("range sets", "CommonTypes/RangeSets.fs"), ("value sets", "CommonTypes/ValueSets.fs")], "exhaustive enumeration of set expressions over a small universe, real F# code against bit-mask sets", NOTE, na="CommonTypes/RangeSets.fs, ValueSets.fs and SizeableSet.fs are called only from DAstInitialize.anyConstraint2GenericSet, which nothing calls: nothing a user observes depends on them. The effective ranges the compiler does compute (FrontEndAst/uPER.fs) are decided by G01 and G05.")
prop("A01", "The Ada runtime encodes and decodes exactly as the rules prescribe",
 "Every uPER and ACN primitive of the Ada runtime writes the same bits as the rules prescribe, at any bit position and whatever the buffer held before, and decodes them to the same value, for every call within the contract the package states. Buffer contents that no encoder produces (reserved forms, values that do not fit, unterminated text, wrong lengths) are reported as a failure: a decoder never raises an exception and never delivers a value the bits do not denote.",
 ["inputs"], "every operation of the runtime x sizes x boundary values x bit offsets 0-7 x the bits before and after, all small malformed buffers, compiled with and without the contracts being checked",
 "The committed tests only compile the Ada runtime.",
 ["ADA_RTL2/src"], [("bit stream", "ADA_RTL2/src/adaasn1rtl-encoding.adb"), ("uPER", "ADA_RTL2/src/adaasn1rtl-encoding-uper.adb"), ("ACN", "ADA_RTL2/src/adaasn1rtl-encoding-acn.adb")], "exhaustive enumeration of model vectors replayed on the compiled Ada runtime", NOTE)
prop("S01", "The Scala runtime encodes and decodes exactly as the rules prescribe",
 "Every uPER and ACN primitive of the Scala runtime writes the same bits as the rules prescribe, at any bit position and whatever the buffer held before, and decodes every encoding that an encoder may write back to the same value, consuming exactly its bits and leaving the input unchanged. (What the Scala runtime does with malformed input is not part of this property: its run-time checks are removed on purpose when it is not being verified.)",
 ["inputs"], "every operation of the runtime x sizes x boundary values x bit offsets 0-7 x the bits before and after",
 "No committed test executes the Scala runtime.",
 ["asn1scala/src/main/scala/asn1scala"], [("bit stream", "asn1scala/src/main/scala/asn1scala/asn1jvm_Bitstream.scala"), ("codecs", "asn1scala/src/main/scala/asn1scala/asn1jvm_Codec*.scala")], "exhaustive enumeration of model vectors replayed on the compiled Scala runtime", NOTE)
G = "model checking of generated code: all types of a bounded grammar x all values of a bounded domain, real compiler and generated code against an independent reference encoder"
GN = "The compiler is rebuilt from the working tree, run on every specification of the bounded grammar, and the code it generates is compiled and executed on every value of the bounded domain and compared with an independent reference. Trusted: the reference encoder, gcc/gnat/scalac and the .NET SDK."
prop("G01", "Generated uPER encoders and decoders conform to X.691 for every type and value",
 "For every ASN.1 type the compiler accepts, the uPER encoder it generates writes exactly the bits X.691 (unaligned) prescribes for every valid value, and the generated decoder reads them back to an equal value. Constraints, optional and default components, extension of the range, nested and referenced types, enumerations and choices all take part.",
 ["programs", "inputs"], "all types of a bounded grammar (primitives with every constraint form, sequences, choices, sequences-of, enumerations, references, nested to the depth bound) x all or boundary values",
 "The repository's tests check that auto-generated values round trip through the same generated code; nothing compares the bits with the standard.",
 ["FrontEndAst", "BackendAst", "StgC", C+"asn1crt_encoding_uper.c"], [("uPER analysis", "FrontEndAst/uPER.fs"), ("code generation", "BackendAst/DAstUPer.fs"), ("templates", "StgC/uper_c.stg")], G, GN)
prop("G02", "Generated ACN encoders and decoders follow the ACN specification for every type",
 "For every ACN specification the compiler accepts, the generated ACN encoder writes exactly the bits the ACN attributes prescribe for every valid value (sizes, encodings, endianness, alignment, present-when, determinants, terminators, save positions) and the generated decoder reads them back to an equal value.",
 ["programs", "inputs"], "all type x attribute combinations of a bounded ACN grammar x all or boundary values",
 "Existing tests round trip auto-generated values; wrong but symmetric encodings pass.",
 ["FrontEndAst", "BackendAst", "StgC", C+"asn1crt_encoding_acn.c"], [("ACN analysis", "FrontEndAst/AcnCreateFromAntlr.fs, AcnEncodingClasses.fs"), ("code generation", "BackendAst/DAstACN.fs"), ("templates", "StgC/acn_c.stg")], G, GN)
prop("G03", "Code generated in C and in Ada is interoperable",
 "For every specification and value the encoders generated for C and for Ada produce identical bytes for uPER and ACN, and the decoder of each language reads what the other wrote to the same value and rejects what the other rejects. The code generated in either language compiles.",
 ["programs", "inputs"], "all types of a bounded grammar x boundary values x both encodings, and the truncations and alterations of those encodings that the model calls malformed",
 "Each language is only tested against itself.",
 ["BackendAst", "StgC", "StgAda", "ADA_RTL2", "asn1crt"], [("language back ends", "StgC/LangGeneric_c.fs, StgAda/LangGeneric_a.fs"), ("templates", "StgAda/uper_a.stg, acn_a.stg, StgC/uper_c.stg, acn_c.stg")], G, GN)
prop("G04", "Generated decoders are total and encodings never exceed the announced size",
 "Given any bytes of any length a generated decoder either succeeds with a value that satisfies its constraints or reports an error, without reading outside the input, writing outside the value, aborting or looping. An encoding of a valid value never needs more bytes than the announced maximum size, and a buffer of that size always suffices.",
 ["programs", "inputs"], "all types of the bounded grammar x all byte strings up to the bound and all single-byte corruptions and truncations of valid encodings",
 "Tests decode only valid encodings.",
 ["BackendAst", "StgC", "asn1crt"], [("size announcement", "StgC/header_c.stg: *_REQUIRED_BYTES_FOR_*"), ("decoders", "BackendAst/DAstUPer.fs, DAstACN.fs")], G, GN)
prop("G05", "Generated constraint checks accept exactly the permitted values",
 "For every type the generated validity function accepts a value if and only if the ASN.1 constraints permit it, including nested size, value, alphabet and combined (union, intersection, exception, extension) constraints, and encoding with checks enabled refuses exactly the values it refuses.",
 ["programs", "inputs"], "all constraint expressions of the bounded grammar x all values of the bounded domain",
 "Tests validate only values the compiler itself generated as valid.",
 ["FrontEndAst", "BackendAst", "CommonTypes"], [("constraint code", "BackendAst/DastValidate2.fs"), ("effective ranges", "FrontEndAst/uPER.fs, CommonTypes/RangeSets.fs")], G, GN)
prop("G06", "Code generation options never change encodings",
 "The generated C code compiles and produces and accepts the same uPER and ACN encodings whatever code generation options are used: slim integers (-slim), 32-bit integers (-wordSize 4) and floats (-fpWordSize 4), efficient enumerations (-eee), renaming (-renamePolicy, -typePrefix, -fp), streaming (-sm), global initial values (-ig), empty sequences (-es), deferred determinants (-acnDeferred); and the copy of the runtime that the compiler writes beside the generated code holds every function that code calls.",
 ["configurations", "programs", "inputs"], "all listed options x the bounded grammar x all or boundary values, all bit strings of small types, truncations",
 "Tests use one option set at a time on round trips.",
 ["asn1scc/Program.fs", "asn1scc/GenerateRTL.fs", "StgC"], [("options", "asn1scc/Program.fs"), ("runtime pruning", "asn1scc/GenerateRTL.fs")], G, GN)
prop("G07", "Generated XER encoders write well-formed XML that reads back to the value",
 "For every type the XER encoder generated in C writes well-formed XML with one element per component (the names of list items are not prescribed), in which any conforming XML parser finds the value, and the generated decoder reads it back to an equal value (the two zeros being one), also when white space is put between the elements. Whatever the text, the decoder stays inside it and inside the value, and what it accepts as a valid value can be encoded again. Strings hold printable ASCII.",
 ["programs", "inputs"], "all types of the bounded grammar x all or boundary values x layouts; all truncations, bit flips and replaced octets of the text",
 "XER tests round trip auto-generated values with the same code.",
 ["BackendAst", "StgC", C+"asn1crt_encoding_xer.c"], [("XER generation", "BackendAst/DAstXer.fs"), ("templates", "StgC/xer_c.stg")], G, GN)
prop("G08", "The front end accepts valid specifications and reports every broken rule",
 "A specification that breaks one of the rules the compiler enforces is refused wherever the offence stands (at the top, in a component, alternative, item or deeply nested; whatever the order of the files): the exit code is not zero, the message names the offending file and a line of the offence, no code is generated, and the compiler neither ends with an internal exception nor hangs. The specification that differs from it only in keeping the rule is accepted. The rules concern ASN.1 and ACN syntax, names, references, imports, values, constraints and ACN properties, determinants and arguments.",
 ["programs"], "about 190 rules of ASN.1, of value assignments, of modules and of ACN, each broken once at every place of the grammar where it can be broken, and the specification that keeps it",
 "Only a fixed set of error cases exists in the test suite.",
 ["FrontEndAst", "asn1scc", "Antlr"], [("checks", "FrontEndAst/CheckAsn1.fs, AcnCreateFromAntlr.fs, CheckLongReferences.fs, AcnEncodingClasses.fs"), ("parsing", "FrontEndAst/AntlrParse.fs, Antlr/asn1.g, Antlr/acn.g"), ("types without parameters", "FrontEndAst/RemoveParameterizedTypes.fs, MapParamAstToNonParamAst.fs")], "bounded-exhaustive enumeration of specifications: every rule x every place of the violation is given to the real compiler and its answer judged", "The compiler is rebuilt from the working tree and run on every specification; the catalogue of rules and of the lines to be named is written independently of the compiler.")
prop("G09", "Code generation is deterministic and independent of input order and location",
 "Running the compiler twice on the same specification gives byte-identical output, wherever the input lies, the output goes and the compiler is started. The code generated for a module does not depend on the order in which files and modules are given, nor on unrelated modules, beyond the numbers of the error codes, which are always pairwise different; the order of assignments changes only the order of declarations, and an unrelated assignment changes nothing but adds its own code. (When modules define types of the same name, the names in C follow the order of the modules, by design.)",
 ["programs", "configurations"], "a fixed set of specifications whose modules bear on each other (imports, diamonds, shared enumerants, ACN parameters) x all orders of the files, rotations and reversals of modules and assignments, placements, unrelated additions x languages and renaming options",
 "No test compares two runs.",
 ["asn1scc/Program.fs", "FrontEndAst", "BackendAst"], [("driver", "asn1scc/Program.fs"), ("renaming", "FrontEndAst/FE_TypeDefinition.fs, EnsureUniqueEnumNames.fs"), ("error codes", "BackendAst/DAstConstruction.fs")], "exhaustive enumeration of input orders, placements and additions: every run of the real compiler is compared with a base run", "The compiler is rebuilt from the working tree and run on every variant of the bounded set; the outputs are compared byte by byte (error-code numbers masked where the order changes). Trusted: the comparison. Schedules inside the .NET runtime are repeated, not controlled.")
prop("G10", "Generated equality, initialisation and auto test values agree with the type",
 "The generated equality function is true for two values exactly when they denote the same abstract value (presence of a DEFAULT component counts as part of the C value; REAL values within the runtime's documented relative tolerance of 1e-5, and the two zeros, may compare equal), the initialisation function yields a valid value, default values are applied, and named values are emitted as written.",
 ["programs", "inputs"], "all types of the bounded grammar x all pairs of values of the bounded domain",
 "Tests compare a value only with its own decoded copy.",
 ["BackendAst"], [("equality", "BackendAst/EqualityFunctions? DAstEqual.fs"), ("initialisation", "BackendAst/DAstInitialize.fs")], G, GN)
