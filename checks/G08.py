"""The front end accepts valid specifications and reports every single violation of a rule: at the file and line of the offence, with a non-zero exit code, without generated code and without an internal error."""
import sys, os, re, subprocess; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from gfam import *
import multiprocessing.pool
# ---- rules about types: (name, correct, wrong). The wrong type is put at every place of the grammar. Lines that may be named in the message are marked with a trailing '@'; none marked: the line of the type.
T = [
 ("size-on-integer", "INTEGER (1..5)", "INTEGER (SIZE(1..5))"), ("size-on-boolean", "BOOLEAN", "BOOLEAN (SIZE(1))"), ("size-on-enum", "ENUMERATED {za, zb}", "ENUMERATED {za, zb} (SIZE(1))"), ("size-on-real", "REAL (0.0 .. 1.0)", "REAL (SIZE(1))"),
 ("range-on-octets", "OCTET STRING (SIZE(1..5))", "OCTET STRING (1..5)"), ("range-on-bits", "BIT STRING (SIZE(1..5))", "BIT STRING (1..5)"), ("range-on-boolean", "BOOLEAN (TRUE)", "BOOLEAN (1..5)"), ("range-on-sequenceof", "SEQUENCE (SIZE(1..5)) OF BOOLEAN", "SEQUENCE OF BOOLEAN (1..5)"),
 ("range-on-string", "IA5String (SIZE(1..5))(FROM(\"a\"..\"z\"))", "IA5String (SIZE(1..5))(\"a\"..\"z\")"),
 ("alphabet-on-integer", "INTEGER (0..9)", "INTEGER (FROM(\"a\"..\"z\"))"), ("alphabet-on-octets", "OCTET STRING (SIZE(2))", "OCTET STRING (SIZE(2))(FROM(\"a\"..\"z\"))"),
 ("empty-range", "INTEGER (2..5)", "INTEGER (5..2)"), ("empty-intersection", "INTEGER (1..4)(4..7)", "INTEGER (1..3)(5..7)"), ("empty-and", "INTEGER (1..5 ^ 5..7)", "INTEGER (1..3 ^ 5..7)"),
 ("empty-sizes", "OCTET STRING (SIZE(1..4))(SIZE(4..7))", "OCTET STRING (SIZE(1..3))(SIZE(5..7))"), ("empty-alphabet", "IA5String (SIZE(2))(FROM(\"a\"..\"f\"))", "IA5String (SIZE(2))(FROM(\"a\"..\"c\" ^ \"d\"..\"f\"))"),

 ("infinite-octets", "OCTET STRING (SIZE(0..9))", "OCTET STRING"), ("infinite-string", "IA5String (SIZE(0..9))", "IA5String"), ("infinite-bits", "BIT STRING (SIZE(0..9))", "BIT STRING"), ("infinite-seqof", "SEQUENCE (SIZE(0..9)) OF BOOLEAN", "SEQUENCE OF BOOLEAN"), ("infinite-semi", "OCTET STRING (SIZE(1..MAX) ^ SIZE(0..9))", "OCTET STRING (SIZE(1..MAX))"),
 ("unknown-type", "Known", "Unknown"), ("unknown-elem", "SEQUENCE (SIZE(1..2)) OF Known", "SEQUENCE (SIZE(1..2)) OF Unknown"), ("unknown-qualified", "ModA.Known", "ModA.Unknown"), ("unknown-module", "ModA.Known", "ModZ.Known"),
 ("duplicate-component", "SEQUENCE {\n xa BOOLEAN,\n xb BOOLEAN\n}", "SEQUENCE {\n xa BOOLEAN,@\n xa BOOLEAN@\n}"), ("duplicate-component-far", "SEQUENCE {\n xa BOOLEAN,\n xb BOOLEAN,\n xc NULL\n}", "SEQUENCE {\n xa BOOLEAN,@\n xb BOOLEAN,\n xa NULL@\n}"), ("duplicate-alternative", "CHOICE {\n xa BOOLEAN,\n xb BOOLEAN\n}", "CHOICE {\n xa BOOLEAN,@\n xa BOOLEAN@\n}"),
 ("duplicate-enumerant", "ENUMERATED {\n za,\n zb\n}", "ENUMERATED {\n za,@\n za@\n}"), ("duplicate-enum-value", "ENUMERATED {\n za(1),\n zb(2)\n}", "ENUMERATED {\n za(1),@\n zb(1)@\n}"), ("duplicate-named-number", "INTEGER {\n za(0),\n zb(1)\n} (0..4)", "INTEGER {\n za(0),@\n za(1)@\n} (0..4)"),
 ("unknown-value", "INTEGER (0..seven)", "INTEGER (0..nought)"), ("unknown-size-value", "OCTET STRING (SIZE(0..seven))", "OCTET STRING (SIZE(0..nought))"), ("qualified-value", "INTEGER (0..7)", "INTEGER (0..ModA.seven)"), ("wrong-value", "INTEGER (0..seven)", "INTEGER (0..yes)"), ("wrong-size-value", "OCTET STRING (SIZE(seven))", "OCTET STRING (SIZE(yes))"), ("wrong-literal", "INTEGER (7)", "INTEGER (\"abc\")"), ("wrong-literal-bool", "BOOLEAN (TRUE)", "BOOLEAN (7)"), ("wrong-literal-octets", "OCTET STRING (SIZE(1))('A1'H)", "OCTET STRING (SIZE(1))(TRUE)"),
 ("wrong-enumerant", "ENUMERATED {za, zb} (za)", "ENUMERATED {za, zb} (zc)"), ("negative-size", "OCTET STRING (SIZE(1))", "OCTET STRING (SIZE(-1))"), ("huge-size", "OCTET STRING (SIZE(0..1000))", "OCTET STRING (SIZE(0..5000000000))"), ("reversed-strings", "IA5String (SIZE(1))(FROM(\"a\"..\"f\"))", "IA5String (SIZE(1))(FROM(\"f\"..\"a\"))"), ("long-character", "IA5String (SIZE(1))(FROM(\"a\"..\"f\"))", "IA5String (SIZE(1))(FROM(\"ab\"..\"f\"))"),
 ("component-of-integer", "SEQUENCE (SIZE(1..2)) OF INTEGER (0..3)", "INTEGER (0..3)(WITH COMPONENT (0..2))"), ("components-of-integer", "INTEGER (0..3)", "INTEGER (WITH COMPONENTS {xa (0..2)})"), ("components-unknown", "Rec (WITH COMPONENTS {ra (1..2)})", "Rec (WITH COMPONENTS {rz (1..2)})"), ("present-mandatory", "Rec (WITH COMPONENTS {rb PRESENT})", "Rec (WITH COMPONENTS {ra PRESENT})"), ("absent-default", "Rec (WITH COMPONENTS {rb ABSENT})", "Rec (WITH COMPONENTS {rc ABSENT})"), ("component-range-type", "Rec (WITH COMPONENTS {ra (1..2)})", "Rec (WITH COMPONENTS {rb (1..2)})"),
 ("component-size-type", "SEQUENCE (SIZE(1..2)) OF INTEGER (0..3)", "SEQUENCE (SIZE(1..2))(WITH COMPONENT (SIZE(2))) OF INTEGER (0..3)"),
 ("include-other", "INTEGER (Known)", "INTEGER (Flag)"), ("include-unknown", "INTEGER (Known)", "INTEGER (Unknown)"), ("constrain-reference", "Known (1..2)", "Flag (1..2)"), ("constrain-reference-out", "Known (6..7)", "Known (8..9)"), ("size-reference", "Octs (SIZE(2))", "Octs (SIZE(9))"),
 ("parameters-missing", "Pair {BOOLEAN}", "Pair"), ("parameters-many", "Pair {BOOLEAN}", "Pair {BOOLEAN, BOOLEAN}"), ("parameters-kind", "Upto {3}", "Upto {BOOLEAN}"), ("parameters-unwanted", "Known", "Known {BOOLEAN}"),
 ("components-of-integer-type", "SEQUENCE {\n COMPONENTS OF Rec\n}", "SEQUENCE {\n COMPONENTS OF Known@\n}"), ("components-of-clash", "SEQUENCE {\n rz BOOLEAN,\n COMPONENTS OF Rec\n}", "SEQUENCE {\n ra BOOLEAN@,\n COMPONENTS OF Rec@\n}"),
 ("default-type", "SEQUENCE {\n xa INTEGER (0..5) DEFAULT 3\n}", "SEQUENCE {\n xa INTEGER (0..5) DEFAULT TRUE@\n}"), ("default-range", "SEQUENCE {\n xa INTEGER (0..5) DEFAULT 5\n}", "SEQUENCE {\n xa INTEGER (0..5) DEFAULT 6@\n}"), ("default-unknown", "SEQUENCE {\n xa INTEGER (0..9) DEFAULT seven\n}", "SEQUENCE {\n xa INTEGER (0..9) DEFAULT nought@\n}"), ("default-ref-range", "SEQUENCE {\n xa INTEGER (0..7) DEFAULT seven\n}", "SEQUENCE {\n xa INTEGER (0..6) DEFAULT seven@\n}"), ("default-enum", "SEQUENCE {\n xa ENUMERATED {za, zb} DEFAULT za\n}", "SEQUENCE {\n xa ENUMERATED {za, zb} DEFAULT zc@\n}"), ("default-octets", "SEQUENCE {\n xa OCTET STRING (SIZE(2)) DEFAULT '0102'H\n}", "SEQUENCE {\n xa OCTET STRING (SIZE(2)) DEFAULT '010203'H@\n}"), ("default-string", "SEQUENCE {\n xa IA5String (SIZE(2))(FROM(\"a\"..\"c\")) DEFAULT \"ab\"\n}", "SEQUENCE {\n xa IA5String (SIZE(2))(FROM(\"a\"..\"c\")) DEFAULT \"ax\"@\n}"),
 ("default-nested", "SEQUENCE {\n xa SEQUENCE {ya INTEGER (0..3)} DEFAULT {ya 3}\n}", "SEQUENCE {\n xa SEQUENCE {ya INTEGER (0..3)} DEFAULT {ya 4}@\n}"), ("default-missing", "SEQUENCE {\n xa SEQUENCE {ya INTEGER (0..3), yb BOOLEAN} DEFAULT {ya 3, yb TRUE}\n}", "SEQUENCE {\n xa SEQUENCE {ya INTEGER (0..3), yb BOOLEAN} DEFAULT {ya 3}@\n}"), ("default-choice", "SEQUENCE {\n xa CHOICE {ya INTEGER (0..3)} DEFAULT ya : 3\n}", "SEQUENCE {\n xa CHOICE {ya INTEGER (0..3)} DEFAULT yb : 3@\n}"), ("default-list", "SEQUENCE {\n xa SEQUENCE (SIZE(1..2)) OF INTEGER (0..3) DEFAULT {1, 2}\n}", "SEQUENCE {\n xa SEQUENCE (SIZE(1..2)) OF INTEGER (0..3) DEFAULT {1, 2, 3}@\n}"), ("default-bits", "SEQUENCE {\n xa BIT STRING (SIZE(3)) DEFAULT '101'B\n}", "SEQUENCE {\n xa BIT STRING (SIZE(3)) DEFAULT '1011'B@\n}"), ("default-real", "SEQUENCE {\n xa REAL (0.0 .. 1.0) DEFAULT 0.5\n}", "SEQUENCE {\n xa REAL (0.0 .. 1.0) DEFAULT 1.5@\n}"),
 ("syntax-brace", "SEQUENCE {xa BOOLEAN}", "SEQUENCE {xa BOOLEAN)"), ("syntax-comma", "SEQUENCE {\n xa BOOLEAN,\n xb BOOLEAN\n}", "SEQUENCE {\n xa BOOLEAN@\n xb BOOLEAN@\n}"), ("syntax-name", "SEQUENCE {xa BOOLEAN}", "SEQUENCE {Xa BOOLEAN}"), ("syntax-type", "BOOLEAN", "BOOL EAN"), ("syntax-paren", "INTEGER (0..5)", "INTEGER (0..5"), ("syntax-range", "INTEGER (0..5)", "INTEGER (0...5)"),
 ("syntax-token", "INTEGER (0..5)", "INTEGER (0..5)$"), ("syntax-character", "INTEGER (0..5)", "INTEGER ?(0..5)"), ("syntax-hyphens", "INTEGER -- five -- (0..5)", "INTEGER (0..5-)"),
 ("big-integer", "INTEGER (0..18446744073709551615)", "INTEGER (0..18446744073709551616)"), ("small-integer", "INTEGER (-9223372036854775808..0)", "INTEGER (-9223372036854775809..0)"), ("wide-integer", "INTEGER (-1..9223372036854775807)", "INTEGER (-1..9223372036854775808)"),
]
# where a type can stand; % is its place
PLACES = [("assignment", "TT ::= %"), ("component", "TT ::= SEQUENCE {\n p1 BOOLEAN,\n p2 %,\n p3 BOOLEAN\n}"), ("optional", "TT ::= SEQUENCE {\n p1 BOOLEAN,\n p2 % OPTIONAL\n}"), ("alternative", "TT ::= CHOICE {\n p1 BOOLEAN,\n p2 %\n}"), ("element", "TT ::= SEQUENCE (SIZE(1..2)) OF\n %"), ("deep", "TT ::= SEQUENCE {\n p1 CHOICE {\n  p2 BOOLEAN,\n  p3 SEQUENCE (SIZE(1..2)) OF SEQUENCE {\n   p4 BOOLEAN,\n   p5 %\n  }\n }\n}")]
COMMON = "Known ::= INTEGER (0..7)\nFlag ::= BOOLEAN\nOcts ::= OCTET STRING (SIZE(1..4))\nRec ::= SEQUENCE {\n ra INTEGER (0..3),\n rb BOOLEAN OPTIONAL,\n rc INTEGER (0..3) DEFAULT 1\n}\nPair {X} ::= SEQUENCE {\n l X,\n r X\n}\nUpto {INTEGER:n} ::= INTEGER (0..n)\nseven INTEGER ::= 7\nyes BOOLEAN ::= TRUE\n"
MODB = "ModB DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nOther ::= INTEGER (0..3)\nEND\n"
# ---- rules about value assignments: (type, correct, wrong)
VALS = [("INTEGER (0..5)", "5", "6"), ("INTEGER (0..5)", "0", "-1"), ("INTEGER (0..5)", "5", "TRUE"), ("INTEGER (0..5)", "5", "nought"), ("Known", "7", "8"), ("Known", "seven", "yes"), ("BOOLEAN", "TRUE", "5"), ("ENUMERATED {za, zb}", "za", "zc"), ("REAL (0.0 .. 1.0)", "0.5", "1.5"), ("OCTET STRING (SIZE(2))", "'0102'H", "'01'H"), ("Octs", "'0102'H", "'0102030405'H"), ("BIT STRING (SIZE(3))", "'101'B", "'10'B"), ("IA5String (SIZE(2))", "\"ab\"", "\"abc\""), ("IA5String (SIZE(2))(FROM(\"a\"..\"c\"))", "\"ab\"", "\"ad\""), ("NumericString (SIZE(2))", "\"12\"", "\"1a\""), ("IA5String (SIZE(2))", "\"ab\"", "5"), ("Rec", "{ra 3}", "{ra 4}"), ("Rec", "{ra 3, rb TRUE}", "{rb TRUE}"), ("Rec", "{ra 3}", "{ra 3, rz 4}"), ("Rec", "{ra 3}", "{ra TRUE}"), ("Rec", "{ra 3}", "5"), ("CHOICE {ya BOOLEAN}", "ya : TRUE", "yb : TRUE"), ("CHOICE {ya BOOLEAN}", "ya : TRUE", "ya : 5"), ("SEQUENCE (SIZE(1..2)) OF Known", "{1, 2}", "{1, 2, 3}"), ("SEQUENCE (SIZE(1..2)) OF Known", "{1, 2}", "{1, 8}"), ("SEQUENCE (SIZE(1..2)) OF Known", "{1, 2}", "{TRUE}"), ("BIT STRING {za(0), zb(1)} (SIZE(4))", "'1000'B", "{zc}"), ("OBJECT IDENTIFIER", "{1 2 3}", "{1 nought 3}")]
# ---- rules about modules: (name, correct body, wrong body), of ModB, which follows ModA
MODS = [("import-module", "IMPORTS Known FROM ModA;\nTT ::= Known", "IMPORTS Known FROM ModZ@;\nTT ::= Known@"), ("import-type", "IMPORTS Known FROM ModA;\nTT ::= Known", "IMPORTS Unknown FROM ModA@;\nTT ::= BOOLEAN"), ("import-value", "IMPORTS seven FROM ModA;\nTT ::= INTEGER (0..seven)", "IMPORTS nought FROM ModA@;\nTT ::= BOOLEAN"), ("not-imported", "IMPORTS Known FROM ModA;\nTT ::= Known", "TT ::= Known@"), ("value-not-imported", "IMPORTS seven FROM ModA;\nTT ::= INTEGER (0..seven)", "TT ::= INTEGER (0..seven)@"),
 ("duplicate-type", "TT ::= BOOLEAN\nTU ::= BOOLEAN", "TT ::= BOOLEAN@\nTT ::= NULL@"), ("duplicate-value", "v1 BOOLEAN ::= TRUE\nv2 BOOLEAN ::= TRUE", "v1 BOOLEAN ::= TRUE@\nv1 BOOLEAN ::= FALSE@"), ("duplicate-import", "IMPORTS Known FROM ModA;\nTT ::= Known", "IMPORTS Known FROM ModA;\nKnown ::= BOOLEAN@"), ("recursive", "TT ::= SEQUENCE {\n ta TU OPTIONAL\n}\nTU ::= BOOLEAN", "TT ::= SEQUENCE {@\n ta TT OPTIONAL@\n}"), ("recursive-two", "TT ::= SEQUENCE {\n ta TU OPTIONAL\n}\nTU ::= CHOICE {\n tb BOOLEAN,\n tc NULL\n}", "TT ::= SEQUENCE {@\n ta TU OPTIONAL@\n}\nTU ::= CHOICE {@\n tb BOOLEAN,\n tc TT@\n}"), ("alias-cycle", "TT ::= TU\nTU ::= BOOLEAN", "TT ::= TU@\nTU ::= TT@"), ("value-cycle", "v1 INTEGER ::= v2\nv2 INTEGER ::= 2", "v1 INTEGER ::= v2@\nv2 INTEGER ::= v1@"), ("syntax-assignment", "TT ::= BOOLEAN", "TT := BOOLEAN@"), ("syntax-lower-type", "TT ::= BOOLEAN", "tT ::= BOOLEAN@"), ("syntax-word", "TT ::= BOOLEAN", "TT ::= BOOLEAN\nnonsense@"), ("syntax-string", "TT ::= IA5String (SIZE(1))(FROM(\"a\"))", "TT ::= IA5String (SIZE(1))(FROM(\"a))@"), ("value-type", "v1 Known2 ::= 5\nKnown2 ::= INTEGER", "v1 Known3 ::= 5@\nKnown2 ::= INTEGER")]
# ---- ACN: (name, ASN.1 type assignments, correct ACN, wrong ACN)
I = "TT ::= INTEGER (0..255)\n"; S = "TT ::= SEQUENCE {\n aa INTEGER (0..255),\n bb BOOLEAN\n}\n"; O = "TT ::= SEQUENCE {\n aa INTEGER (0..255),\n bb BOOLEAN OPTIONAL\n}\n"
L = "TT ::= SEQUENCE {\n q OCTET STRING (SIZE(0..9))\n}\n"; C = "TT ::= SEQUENCE {\n c CHOICE {\n  ca INTEGER (0..7),\n  cb BOOLEAN\n }\n}\n"
ACNS = [
 ("int-encoding-real", I, "TT [size 8, encoding pos-int]", "TT [size 8, encoding IEEE754-1985-32]@"), ("int-size-missing", I, "TT [size 8, encoding pos-int]", "TT [encoding pos-int]@"), ("int-encoding-missing", I, "TT [size 8, encoding pos-int]", "TT [size 8]@"), ("int-size-wide", I, "TT [size 64, encoding pos-int]", "TT [size 65, encoding pos-int]@"), ("int-size-small", I, "TT [size 8, encoding pos-int]", "TT [size 7, encoding pos-int]@"), ("int-null-pos", I, "TT [size null-terminated, encoding ASCII, termination-pattern '00'H]", "TT [size null-terminated, encoding pos-int, termination-pattern '00'H]@"), ("int-little", I, "TT [size 16, encoding pos-int, endianness little]", "TT [size 12, encoding pos-int, endianness little]@"), ("int-bcd-size", I, "TT [size 12, encoding BCD]", "TT [size 10, encoding BCD]@"), ("int-ascii-size", I, "TT [size 32, encoding ASCII]", "TT [size 36, encoding ASCII]@"), ("int-pos-signed", "TT ::= INTEGER (-5..5)\n", "TT [size 8, encoding twos-complement]", "TT [size 8, encoding pos-int]@"), ("int-twos-unsigned", I, "TT [size 8, encoding pos-int]", "TT [size 8, encoding twos-complement]@"),
 ("pattern-long", I, "TT [size null-terminated, encoding ASCII, termination-pattern '00112233445566778899'H]", "TT [size null-terminated, encoding ASCII, termination-pattern '00112233445566778899AA'H]@"), ("pattern-bits", I, "TT [size null-terminated, encoding ASCII, termination-pattern '0000000000000000'B]", "TT [size null-terminated, encoding ASCII, termination-pattern '000000000'B]@"),
 ("real-size", "TT ::= REAL\n", "TT [encoding IEEE754-1985-64]", "TT [size 64, encoding IEEE754-1985-64]@"), ("real-int", "TT ::= REAL\n", "TT [encoding IEEE754-1985-64]", "TT [encoding pos-int]@"), ("bool-size", "TT ::= BOOLEAN\n", "TT [true-value '1'B]", "TT [size 8]@"), ("bool-equal", "TT ::= BOOLEAN\n", "TT [true-value '1'B, false-value '0'B]", "TT [true-value '1'B, false-value '1'B]@"), ("bool-lengths", "TT ::= BOOLEAN\n", "TT [true-value '11'B, false-value '00'B]", "TT [true-value '11'B, false-value '0'B]@"), ("bool-empty", "TT ::= BOOLEAN\n", "TT [true-value '1'B]", "TT [true-value ''B]@"),
 ("null-size", "TT ::= NULL\n", "TT [pattern '101'B]", "TT [size 3]@"), ("null-encoding", "TT ::= NULL\n", "TT [pattern '101'B]", "TT [encoding pos-int]@"), ("null-endianness", "TT ::= NULL\n", "TT [pattern '101'B]", "TT [endianness little]@"), ("null-true", "TT ::= NULL\n", "TT [pattern '101'B]", "TT [true-value '1'B]@"), ("enum-size", "TT ::= ENUMERATED {za, zb}\n", "TT [size 8, encoding pos-int]", "TT [size 0, encoding pos-int]@"), ("enum-small", "TT ::= ENUMERATED {za(0), zb(200)}\n", "TT [size 8, encoding pos-int, encode-values]", "TT [size 7, encoding pos-int, encode-values]@"), ("enum-real", "TT ::= ENUMERATED {za, zb}\n", "TT [size 8, encoding pos-int]", "TT [size 8, encoding IEEE754-1985-64]@"),
 ("octets-fixed-size", "TT ::= OCTET STRING (SIZE(4))\n", "TT [size 4]", "TT [size 5]@"), ("string-fixed-size", "TT ::= IA5String (SIZE(4))\n", "TT [size 4, encoding ASCII]", "TT [size 5, encoding ASCII]@"), ("string-pattern-missing", "TT ::= IA5String (SIZE(1..4))\n", "TT [size null-terminated, encoding ASCII, termination-pattern '00'H]", "TT [size null-terminated, encoding BCD]@"), ("oid-property", "TT ::= OBJECT IDENTIFIER\n", "TT []", "TT [size 8]@"),
 ("component-unknown", S, "TT {\n aa [],\n bb []\n}", "TT {\n aa [],\n zz [],@\n bb []\n}"), ("component-missing", S, "TT {\n aa [],\n bb []\n}", "TT {@\n aa []@\n}"), ("alternative-unknown", C, "TT {\n c {\n  ca [],\n  cb []\n }\n}", "TT {\n c {\n  ca [],\n  cz []@\n }\n}"), ("type-twice", S, "TT []", "TT []@\nTT []@"),
 ("inserted-unknown", S, "TT {\n aa [],\n nn NULL [pattern '1'B],\n bb []\n}", "TT {\n aa [],\n nn Unknown [],@\n bb []\n}"), ("inserted-no-encoding", S, "TT {\n aa [],\n nn NULL [pattern '1'B],\n bb []\n}", "TT {\n aa [],\n nn INTEGER [size 8],@\n bb []\n}"), ("inserted-clash", S, "TT {\n aa [],\n nn NULL [pattern '1'B],\n bb []\n}", "TT {\n aa [],\n bb NULL [pattern '1'B]@\n}"),
 ("size-unknown", L, "TT {\n n INTEGER [size 8, encoding pos-int],\n q [size n]\n}", "TT {\n n INTEGER [size 8, encoding pos-int],@\n q [size m]@\n}"), ("size-bool", L, "TT {\n n INTEGER [size 8, encoding pos-int],\n q [size n]\n}", "TT {\n n BOOLEAN [],@\n q [size n]@\n}"), ("size-asn1-field", "TT ::= SEQUENCE {\n n INTEGER (0..9),\n q OCTET STRING (SIZE(0..9))\n}\n", "TT {\n n [],\n q []\n}", "TT {\n n [],@\n q [size n]@\n}"), ("size-unused", L, "TT {\n n INTEGER [size 8, encoding pos-int],\n q [size n]\n}", "TT {\n n INTEGER [size 8, encoding pos-int],@\n q []\n}"), ("size-after", L, "TT {\n n INTEGER [size 8, encoding pos-int],\n q [size n]\n}", "TT {\n q [size n],@\n n INTEGER [size 8, encoding pos-int]@\n}"),
 ("present-mandatory", S, "TT {\n aa [],\n bb []\n}", "TT {\n pp BOOLEAN [],\n aa [],\n bb [present-when pp]@\n}"), ("present-unknown", O, "TT {\n pp BOOLEAN [],\n aa [],\n bb [present-when pp]\n}", "TT {\n pp BOOLEAN [],@\n aa [],\n bb [present-when qq]@\n}"), ("present-integer", O, "TT {\n pp BOOLEAN [],\n aa [],\n bb [present-when pp]\n}", "TT {\n pp INTEGER [size 8, encoding pos-int],@\n aa [],\n bb [present-when pp]@\n}"), ("present-compare-types", O, "TT {\n aa [],\n bb [present-when (aa == 3)]\n}", "TT {\n aa [],@\n bb [present-when (aa == true)]@\n}"),
 ("choice-duplicate", C, "TT {\n n INTEGER [size 8, encoding pos-int],\n c {\n  ca [present-when n==1],\n  cb [present-when n==2]\n }\n}", "TT {\n n INTEGER [size 8, encoding pos-int],\n c {@\n  ca [present-when n==1],@\n  cb [present-when n==1]@\n }\n}"), ("choice-partial", C, "TT {\n n INTEGER [size 8, encoding pos-int],\n c {\n  ca [present-when n==1],\n  cb [present-when n==2]\n }\n}", "TT {\n n INTEGER [size 8, encoding pos-int],\n c {@\n  ca [present-when n==1],@\n  cb []@\n }\n}"), ("choice-string", C, "TT {\n n INTEGER [size 8, encoding pos-int],\n c {\n  ca [present-when n==1],\n  cb [present-when n==2]\n }\n}", "TT {\n n INTEGER [size 8, encoding pos-int],@\n c {\n  ca [present-when n==\"a\"],@\n  cb [present-when n==2]@\n }\n}"), ("choice-determinant-type", C, "TT {\n c []\n}", "TT {\n n INTEGER [size 8, encoding pos-int],@\n c [determinant n]@\n}"), ("choice-determinant-names", "EE ::= ENUMERATED {ca, cx}\nEF ::= ENUMERATED {ca, cb}\n" + C, "TT {\n n EF [],\n c [determinant n]\n}", "TT {\n n EE [],@\n c [determinant n]@\n}"), ("choice-both", "EE ::= ENUMERATED {ca, cb}\n" + C, "TT {\n n EE [],\n c [determinant n]\n}", "TT {\n n EE [],\n m INTEGER [size 8, encoding pos-int],\n c [determinant n] {@\n  ca [present-when m==1],@\n  cb [present-when m==2]@\n }\n}"),
 ("argument-unknown", "TT ::= SEQUENCE {\n q QQ\n}\nQQ ::= OCTET STRING (SIZE(0..9))\n", "QQ<INTEGER:n> [size n]\nTT {\n k INTEGER [size 8, encoding pos-int],\n q<k> []\n}", "QQ<INTEGER:n> [size n]\nTT {\n k INTEGER [size 8, encoding pos-int],@\n q<kk> []@\n}"), ("argument-type", "TT ::= SEQUENCE {\n q QQ\n}\nQQ ::= OCTET STRING (SIZE(0..9))\n", "QQ<INTEGER:n> [size n]\nTT {\n k INTEGER [size 8, encoding pos-int],\n q<k> []\n}", "QQ<INTEGER:n> [size n]@\nTT {\n k BOOLEAN [],@\n q<k> []@\n}"), ("argument-missing", "TT ::= SEQUENCE {\n q QQ\n}\nQQ ::= OCTET STRING (SIZE(0..9))\n", "QQ<INTEGER:n> [size n]\nTT {\n k INTEGER [size 8, encoding pos-int],\n q<k> []\n}", "QQ<INTEGER:n> [size n]@\nTT {@\n q []@\n}"), ("argument-many", "TT ::= SEQUENCE {\n q QQ\n}\nQQ ::= OCTET STRING (SIZE(0..9))\n", "QQ<INTEGER:n> [size n]\nTT {\n k INTEGER [size 8, encoding pos-int],\n q<k> []\n}", "QQ<INTEGER:n> [size n]@\nTT {\n k INTEGER [size 8, encoding pos-int],@\n q<k,k> []@\n}"), ("parameter-unused", "TT ::= SEQUENCE {\n q QQ\n}\nQQ ::= OCTET STRING (SIZE(0..9))\n", "QQ<INTEGER:n> [size n]\nTT {\n k INTEGER [size 8, encoding pos-int],\n q<k> []\n}", "QQ<INTEGER:n> []@\nTT {\n k INTEGER [size 8, encoding pos-int],@\n q<k> []@\n}"),
 ("constant-unknown", I, "CONSTANT W ::= 8\nTT [size W, encoding pos-int]", "CONSTANT W ::= 8\nTT [size V, encoding pos-int]@"), ("syntax-property", I, "TT [size 8, encoding pos-int]", "TT [sise 8, encoding pos-int]@"), ("syntax-bracket", I, "TT [size 8, encoding pos-int]", "TT [size 8, encoding pos-int@"), ("syntax-value", I, "TT [size 8, encoding pos-int]", "TT [size , encoding pos-int]@"), ("endianness-word", I, "TT [size 16, encoding pos-int, endianness big]", "TT [size 16, encoding pos-int, endianness middle]@"), ("align-word", I, "TT [align-to-next byte]", "TT [align-to-next bit]@"),
]
def mark(txt, first):
    """(text without marks, marked line numbers)"""
    ls = txt.split("\n"); m = {first + i for i, l in enumerate(ls) if "@" in l}; return "\n".join(l.replace("@", "") for l in ls), m
def module(name, body, line0=1):
    t, m = mark("%s DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n%s\nEND\n" % (name, body.rstrip("\n")), line0); return t, m
def cases(full):
    """(key, options, files [(name, text)], offending file or None, lines)"""
    for n, good, bad in T:
        for pi, (pn, pl) in enumerate(PLACES):
            if n == "duplicate-named-number" and pi: continue        # not checked inside of other types
            for ok, ty in ((1, good), (0, bad)):
                if ok and pn not in ("assignment", "deep"): continue
                b = ty if ok or "@" in ty else ty.replace("\n", "@\n") + "@"
                head, tail = pl.split("%"); b = b[:-1] + tail.split("\n")[0] + "@" + tail[len(tail.split("\n")[0]):] if b.endswith("@") else b + tail
                if n.startswith("syntax-") and not ok: b = b + "\nAfter ::= BOOLEAN"
                t, m = module("ModA", COMMON + head + b)
                m = m | {"component-range-type": {7}, "constrain-reference-out": {2}, "size-reference": {4}}.get(n, set())          # or the definition whose constraints do not go with it
                for order in ((0,) if ok or not full and pi else (0, 1)):
                    fs = [("a.asn1", t), ("b.asn1", MODB)]; yield ("%s:%s:%s%s" % (n, "valid" if ok else "wrong", pn, ":second" if order else ""), ["-c", "-uPER", "-ACN"][:2], fs[::-1] if order else fs, None if ok else "a.asn1", m)
    for i, (ty, good, bad) in enumerate(VALS):
        for ok, v in ((1, good), (0, bad)):
            for nm, named in (("direct", "vv %s ::= %s" % (ty, v + ("" if ok else "@"))), ("named", "TT ::= %s\nvv TT ::= %s" % (ty, v + ("" if ok else "@"))), ("default", "TT ::= %s\nTU ::= SEQUENCE {\n p1 TT DEFAULT %s\n}" % (ty, v + ("" if ok else "@")))):
                if nm != "default" and not ok and not re.search(r'TRUE\b(?!\})|nought|yes|zc|yb|rz|ya : 5|\{rb TRUE\}|^5$|\{TRUE\}|ra TRUE', v): continue          # the value of a value assignment is not compared with the constraints of its type
                if nm == "direct" and not re.match(r"(INTEGER|BOOLEAN|Known|Octs|Rec)\b", ty): continue
                t, m = module("ModA", COMMON + named); yield ("value%s:%s:%s:%s" % ("-ok" if ok else "", ty, v, nm), ["-c", "-uPER"], [("a.asn1", t)], None if ok else "a.asn1", m)
    for n, good, bad in MODS:
        for ok, b in ((1, good), (0, bad)):
            for order in (0, 1):
                t, m = module("ModB", b); a = ("a.asn1", module("ModA", COMMON)[0]); fs = [a, ("b.asn1", t)]
                yield ("module:%s:%s%s" % (n, "valid" if ok else "wrong", ":second" if order else ""), ["-c", "-uPER"], fs[::-1] if order else fs, None if ok else "b.asn1", m)
                if not order:
                    k = a[1].count("\n"); yield ("module:%s:%s:one-file" % (n, "valid" if ok else "wrong"), ["-c", "-uPER"], [("ab.asn1", a[1] + t)], None if ok else "ab.asn1", {x + k for x in m})
    # ends of files
    for n, txt, lines in [("plain", "END\n", None), ("no-newline", "END", None), ("comment", "END -- last", None), ("closed-comment", "END -- last --", None), ("long-comment", "END /* last */", None), ("comment-lines", "END\n-- a\n-- b", None), ("missing", "", {2}), ("missing-newline", "\n", {2, 3}), ("half", "EN", {2, 3}), ("open-comment", "END /* last", {3, 4})]:
        t = "ModA DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nTT ::= BOOLEAN\n" + txt
        for first in (0, 1):
            fs = [("a.asn1", t), ("b.asn1", MODB)]; yield ("end:%s%s" % (n, ":second" if first else ""), ["-c", "-uPER"], fs[::-1] if first else fs, "a.asn1" if lines else None, lines or set())
        t = "ModA DEFINITIONS ::= BEGIN\nTT []\n" + txt
        if n != "open-comment": yield ("acn:end:%s" % n, ["-c", "-ACN"], [("a.asn1", "ModA DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nTT ::= BOOLEAN\nEND\n"), ("a.acn", t)], "a.acn" if lines else None, lines or set())
    for n, asn, good, bad in ACNS:
        for ok, b in ((1, good), (0, bad)):
            b = re.sub(r"(?m)^( *)(TT|c) \{", r"\1\2 [] {", b)
            for wrap in ((0, 1) if (full or not ok) and n != "constant-unknown" else (0,)):
                a = "ModA DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n%sKnown ::= INTEGER (0..7)\nEND\n" % asn
                # the specification of another type may stand before
                mod = "ModZ" if n == "module-unknown" and not ok else "ModA"
                t, m = mark("%s DEFINITIONS ::= BEGIN%s\n%s%s\nEND\n" % (mod, "@" if mod == "ModZ" else "", "Known [size 8, encoding pos-int]\n" if wrap else "", b), 1)
                yield ("acn:%s:%s%s" % (n, "valid" if ok else "wrong", ":after" if wrap else ""), ["-c", "-ACN"], [("a.asn1", a), ("a.acn", t)], None if ok else "a.acn", m)
def judge(case, rc, txt, made):
    key, opts, fs, off, lines = case
    if re.search(r"^\s+at \S+.*\(", txt, re.M) or rc not in (0, 1, 2, 3): return "internal", "exit %d: %s" % (rc, txt.strip()[:200])
    if off is None: return ("refused", "valid specification refused: " + txt.strip()[:200]) if rc or not made else None
    if rc == 0: return "accepted", "the violation is not reported (lines %s of %s)" % (sorted(lines), off)
    if made: return "output", "code is generated for a refused specification: %s" % made
    at = re.findall(r"([^\s:/\\]+\.(?:asn1|acn)):(\d+)", txt)
    if not at: return "nowhere", "no file and line in: " + txt.strip()[:200]
    if ":syntax-" in ":" + key: lines = lines | {l + 1 for l in lines}          # the token after it
    if key.startswith("module:syntax-string"): lines = set(range(min(lines), 99))         # the string goes on to the end of the file
    if not any(f == off and int(l) in lines for f, l in at): return "elsewhere", "reported at %s, the offence is at %s:%s: %s" % (at[:3], off, sorted(lines), txt.strip()[:150])
def check(rep):
    with Scratch("G08") as d:
        dll = setup(rep, d)
        if not dll: return
        cs = list(cases(THOROUGH)); only = os.environ.get("G08_ONLY")
        if only: cs = [c for c in cs if only in c[0]]
        def run(i):
            key, opts, fs, off, lines = cs[i]; q = os.path.join(d, "q%d" % i); o = os.path.join(q, "out"); os.makedirs(o)
            for n, t in fs: open(os.path.join(q, n), "w").write(t)
            try: p = subprocess.run(["dotnet", dll] + opts + ["-o", o] + [os.path.join(q, n) for n, _ in fs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, env=dict(os.environ, DOTNET_TieredPGO="0")); rc, txt = p.returncode, p.stdout.decode("utf-8", "replace")
            except subprocess.TimeoutExpired: rc, txt = 124, "asn1scc does not end"
            made = sorted(x for x in os.listdir(o))[:3]; import shutil; shutil.rmtree(q); return rc, txt.replace(q, "."), made
        pool = multiprocessing.pool.ThreadPool(10); res = pool.map(run, range(len(cs)), 1); pool.close()
        for c, (rc, txt, made) in zip(cs, res):
            j = judge(c, rc, txt, made)
            if j: rep.violation(c[0].replace(" ", "") + ":" + j[0], c[0] + ": " + j[1], dict(case=c[0], options=c[1], files={n: t for n, t in c[2]}, exit=rc, output=txt[:600]))
        rep.add(len(cs), len(cs), len(cs), "specifications", samples=["%s" % c[0] for c in cs[:3]])
        rep.cov["specifications"] = len(cs); rep.cov["violating"] = sum(1 for c in cs if c[3]); rep.cov["compiler_runs"] = len(cs)
if __name__ == "__main__": gmain("G08", check)
