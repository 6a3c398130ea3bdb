"""Ada back end of c/vec: generates the package that calls the Ada runtime, builds it with the live runtime sources."""
import os, re, glob, shutil
from vlib import *
VEC = os.path.join(VERIF, "c", "vec")
def ops(): return re.findall(r"OP\((\w+)\)", open(os.path.join(VEC, "ops.inc")).read())

SPEC = """with Interfaces; use Interfaces;
package Vec_Call is
   type Prm is array (0 .. 5) of Integer_64;
   type Bytes is array (Integer range <>) of Unsigned_8;
   type Req is record
      P : Prm; V : Integer_64; Op, W, Off, N1, N2, NB, St, Pos, NS, Pad : Integer_32;
      S1 : Bytes (1 .. 70000); S2 : Bytes (1 .. 256); Buf : Bytes (1 .. 140000); S : Bytes (1 .. 70000);
   end record with Convention => C;
   procedure Call (R : in out Req) with Export, Convention => C, External_Name => "ada_call";
end Vec_Call;
"""
HEAD = """with Ada.Unchecked_Conversion; with Ada.Exceptions;
with adaasn1rtl; use adaasn1rtl; with adaasn1rtl.encoding; use adaasn1rtl.encoding;
with adaasn1rtl.encoding.uper; use adaasn1rtl.encoding.uper; with adaasn1rtl.encoding.acn; use adaasn1rtl.encoding.acn;
package body Vec_Call is
   function U is new Ada.Unchecked_Conversion (Integer_64, Unsigned_64);
   function I is new Ada.Unchecked_Conversion (Unsigned_64, Integer_64);
   function D is new Ada.Unchecked_Conversion (Integer_64, Long_Float);
   function DB is new Ada.Unchecked_Conversion (Long_Float, Integer_64);
   function Str (B : Bytes; N : Integer; Size : Integer) return String is
      S : String (1 .. Size) := (others => NUL);
   begin for K in 1 .. N loop S (K) := Character'Val (B (K)); end loop; return S; end Str;
   function Oct (B : Bytes; N : Integer) return OctetBuffer is
      O : OctetBuffer (1 .. N);
   begin for K in 1 .. N loop O (K) := B (K); end loop; return O; end Oct;
   function Bits (B : Bytes; N : Integer) return BitArray is
      O : BitArray (1 .. N);
   begin for K in 1 .. N loop O (K) := BIT (B (K)); end loop; return O; end Bits;
   procedure Run (R : in out Req; bs : in out Bitstream) is
      P : Prm renames R.P; ok : Boolean := True; res : ASN1_RESULT := (True, 0); bv : Boolean; bt : BIT; by : Asn1Byte; x : Asn1Int; y : Asn1UInt;
      n8 : Asn1NullType := 0; d8 : Asn1Real; f4 : Standard.Float; len : Integer; iv : Integer; det : AcnInsertedFieldRef; oid : Asn1ObjectIdentifier;
      i8 : Integer_8; i16 : Integer_16; i32 : Integer_32; u8 : Unsigned_8; u16 : Unsigned_16; u32 : Unsigned_32;
      procedure Ret (O : OctetBuffer; N : Integer) is begin R.NS := Integer_32 (N); for K in 1 .. N loop R.S (K) := O (O'First + K - 1); end loop; end Ret;
      procedure RetBits (O : OctetBuffer; N : Integer) is begin -- N bits; the rest of the last octet is not part of the value
         Ret (O, (N + 7) / 8); if N mod 8 /= 0 then R.S ((N + 7) / 8) := R.S ((N + 7) / 8) and Shift_Left (Unsigned_8 (255), 8 - N mod 8); end if; end RetBits;
      procedure RetArr (O : BitArray; N : Integer) is begin R.NS := Integer_32 (N); for K in 1 .. N loop R.S (K) := Unsigned_8 (O (O'First + K - 1)); end loop; end RetArr;
      procedure RetStr (O : String) is N : constant Integer := getStringSize (O); begin R.V := Integer_64 (N); R.NS := Integer_32 (N); for K in 1 .. N loop R.S (K) := Character'Pos (O (O'First + K - 1)); end loop; end RetStr;
      function GetOid return Asn1ObjectIdentifier is O : Asn1ObjectIdentifier; v : Unsigned_64; begin ObjectIdentifier_Init (O); O.Length := Integer (R.V); for K in 1 .. O.Length loop v := 0; for J in reverse 1 .. 8 loop v := v * 256 + Unsigned_64 (R.S1 (8 * (K - 1) + J)); end loop; O.values (K) := v; end loop; return O; end GetOid;
      procedure PutOid (O : Asn1ObjectIdentifier) is v : Unsigned_64; begin R.V := Integer_64 (O.Length); R.NS := Integer_32 (8 * O.Length); for K in 1 .. O.Length loop v := O.values (K); for J in 1 .. 8 loop R.S (8 * (K - 1) + J) := Unsigned_8 (v mod 256); v := v / 256; end loop; end loop; end PutOid;
      function CB return Boolean is (R.V /= 0);
   begin
      case R.Op is
"""
TAIL = """         when others => R.St := -1; return;
      end case;
      if R.St < 0 then R.St := (if ok and res.Success then 1 else 0); end if;
   end Run;
   procedure Call (R : in out Req) is
      bs : Bitstream := BitStream_init (Integer (R.NB));
   begin
      for K in 1 .. Integer (R.NB) loop bs.Buffer (K) := R.Buf (K); end loop;
      bs.Current_Bit_Pos := Integer (R.Off);
      R.St := -1; R.NS := 0; R.V := R.V;
      Run (R, bs);
      R.Pos := Integer_32 (bs.Current_Bit_Pos);
      for K in 1 .. Integer (R.NB) loop R.Buf (K) := bs.Buffer (K); end loop;
   exception
      when E : others => declare M : constant String := Ada.Exceptions.Exception_Information (E); begin R.St := 2; R.NS := Integer_32 (Integer'Min (M'Length, 300)); for K in 1 .. Integer (R.NS) loop R.S (K) := Character'Pos (M (M'First + K - 1)); end loop; end;
   end Call;
end Vec_Call;
"""
def body():
    sup = []; A = {}                                    # A[op] = {w: statements}
    def a(op, w, s): A.setdefault(op, {})[w] = s; sup.append((op, w))
    def e(op, s, w=64): a(op, w, s)
    P = lambda k: "Integer (P (%d))" % k
    e("APPBIT", "BitStream_AppendBit (bs, BIT (R.V));"); e("READBIT", "BitStream_ReadBit (bs, bt, ok); R.V := Integer_64 (bt);")
    e("BOOL_E", "UPER_Enc_Boolean (bs, CB);"); e("BOOL_D", "UPER_Dec_boolean (bs, bv, ok); R.V := (if bv then 1 else 0);")
    e("APPBYTE", "BitStream_AppendByte (bs, Unsigned_8 (R.V), P (0) /= 0);"); e("DECBYTE", "BitStream_DecodeByte (bs, by, ok); R.V := Integer_64 (by);")
    e("PEEKBYTE", "R.V := Integer_64 (BitStream_PeekByte (bs, %s));" % P(0))
    e("APPBITS", "BitStream_AppendBits (bs, Oct (R.S1, Integer (R.N1)), %s);" % P(0))
    e("READBITS", "declare O : OctetBuffer (1 .. (%s + 7) / 8) := (others => 16#A5#); begin BitStream_ReadBits (bs, O, %s, ok); RetBits (O, %s); end;" % (P(0), P(0), P(0)))
    e("APPARR", "BitStream_AppendBitArray (bs, Bits (R.S1, Integer (R.N1)), %s);" % P(0))
    e("READARR", "declare O : BitArray (1 .. %s + 2) := (others => 1); begin BitStream_ReadBitArray (bs, O, %s, ok); RetArr (O, %s); end;" % (P(0), P(0), P(0)))
    e("SKIP", "BitStream_SkipBits (bs, %s);" % P(0)); e("NIBBLE", "BitStream_ReadNibble (bs, by, ok); R.V := Integer_64 (by);")
    e("APPPART", "BitStream_AppendPartialByte (bs, Unsigned_8 (R.V), %s, P (1) /= 0);" % P(0)); e("READPART", "BitStream_ReadPartialByte (bs, by, %s); R.V := Integer_64 (by);" % P(0))
    e("PEEKPART", "R.V := Integer_64 (BitStream_PeekPartialByte (bs, %s, %s));" % (P(0), P(1)))
    e("ENCNN", "BitStream_Encode_Non_Negative_Integer (bs, U (R.V), %s);" % P(0)); e("DECNN", "BitStream_Decode_Non_Negative_Integer (bs, y, %s, ok); R.V := I (y);" % P(0))
    e("ENCUINT", "Enc_UInt (bs, U (R.V), %s);" % P(0)); e("DECUINT", "Dec_UInt (bs, %s, y, ok); R.V := I (y);" % P(0)); e("DECINT", "Dec_Int (bs, %s, x, ok); R.V := x;" % P(0))
    e("MATCH", "R.V := (if BitStream_bitPatternMatches (bs, Oct (R.S1, Integer (R.N1)), %s) then 1 else 0);" % P(0))
    e("READNT", "declare O : BitArray (1 .. %s) := (others => 1); begin BitStream_ReadBits_nullterminated (bs, O, len, Oct (R.S2, Integer (R.N2)), %s, ok); if ok then R.V := Integer_64 (len); RetArr (O, len); end if; end;" % (P(0), P(1)))
    RU, RS = "R.V := I (y);", "R.V := x;"
    def typed(op, call, signed):                        # call(suffix, variable, conversion)
        for w in (8, 16, 32):
            v, t, sfx = ("i%d" % w, "Integer_%d" % w, "Int%d" % w) if signed else ("u%d" % w, "Unsigned_%d" % w, "UInt%d" % w)
            cv = (lambda k: "%s (P (%d))" % (t, k)); a(op, w, call(sfx, v, cv) + " R.V := Integer_64 (%s);" % v)
    UP = lambda k: "U (P (%d))" % k
    SP = lambda k: "P (%d)" % k
    A_ = "Acn_%s_Int_%s"
    for op, nm, sg in (("UC", "PositiveInteger", 0), ("TC", "TwosComplement", 1)):
        V, cv, var, ret = ("R.V", SP, "x", RS) if sg else ("U (R.V)", UP, "y", RU)
        e(op + "_E", "Acn_Enc_Int_%s_ConstSize (bs, %s, %s);" % (nm, V, P(0)))
        e(op + "_D", "Acn_Dec_Int_%s_ConstSize (bs, %s, %s, %s, %s, res); %s" % (nm, var, cv(0), cv(1), P(2), ret))
        typed(op + "_D", lambda s, v, c: "Acn_Dec_Int_%s_ConstSize%s (bs, %s, %s, %s, %s, res);" % (nm, s, v, c(0), c(1), P(2)), sg)
        forms = [(1, 0, "_8"), (2, 0, "_big_endian_16"), (4, 0, "_big_endian_32"), (8, 0, "_big_endian_64"), (2, 1, "_little_endian_16"), (4, 1, "_little_endian_32"), (8, 1, "_little_endian_64")]
        def pick(f, ok=lambda b: True): return "".join("%s P (0) = %d and P (1) = %d then %s " % ("if" if i == 0 else "elsif", b, l, f(s)) for i, (b, l, s) in enumerate(x for x in forms if ok(x[0]))) + "else R.St := 0; end if;"
        o2 = op[0] + "B"; e(o2 + "_E", pick(lambda s: "Acn_Enc_Int_%s_ConstSize%s (bs, %s);" % (nm, s, V)))
        e(o2 + "_D", pick(lambda s: "Acn_Dec_Int_%s_ConstSize%s (bs, %s, %s, %s, res); %s" % (nm, s, var, cv(2), cv(3), ret)))
        typed(o2 + "_D", lambda s, v, c: pick(lambda f: "Acn_Dec_Int_%s_ConstSize%s%s (bs, %s, %s, %s, res);" % (nm, f, s, v, c(2), c(3)), lambda b: b * 8 >= int(re.sub(r"\D", "", s))), sg)
    e("UV_E", "Acn_Enc_Int_PositiveInteger_VarSize_LengthEmbedded (bs, U (R.V));"); e("UV_D", "Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded (bs, y, U (P (0)), res); " + RU)
    e("TV_E", "Acn_Enc_Int_TwosComplement_VarSize_LengthEmbedded (bs, R.V);"); e("TV_D", "Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded (bs, x, res); " + RS)
    e("BC_E", "Acn_Enc_Int_BCD_ConstSize (bs, U (R.V), %s);" % P(0)); e("BC_D", "Acn_Dec_Int_BCD_ConstSize (bs, y, U (P (0)), U (P (1)), %s, res); " % P(2) + RU)
    typed("BC_D", lambda s, v, c: "Acn_Dec_Int_BCD_ConstSize%s (bs, %s, %s, %s, %s, res);" % (s, v, c(0), c(1), P(2)), 0)
    e("BN_E", "Acn_Enc_Int_BCD_VarSize_NullTerminated (bs, U (R.V));"); e("BN_D", "Acn_Dec_Int_BCD_VarSize_NullTerminated (bs, y, U (P (0)), U (P (1)), res); " + RU)
    typed("BN_D", lambda s, v, c: "Acn_Dec_Int_BCD_VarSize_NullTerminated%s (bs, %s, %s, %s, res);" % (s, v, c(0), c(1)), 0)
    for op, nm, sg in (("AI", "Int", 1), ("AU", "UInt", 0)):
        V, cv, var, ret = ("R.V", SP, "x", RS) if sg else ("U (R.V)", UP, "y", RU)
        e(op + "C_E", "Acn_Enc_%s_ASCII_ConstSize (bs, %s, %s);" % (nm, V, P(0))); e(op + "C_D", "Acn_Dec_%s_ASCII_ConstSize (bs, %s, %s, %s, %s, res); %s" % (nm, var, cv(0), cv(1), P(2), ret))
        typed(op + "C_D", lambda s, v, c: "Acn_Dec_%s_ASCII_ConstSize%s (bs, %s, %s, %s, %s, res);" % (nm, s, v, c(0), c(1), P(2)), sg)
        e(op + "L_E", "Acn_Enc_%s_ASCII_VarSize_LengthEmbedded (bs, %s);" % (nm, V)); T = "Oct (R.S2, Integer (R.N2))"
        e(op + "N_E", "Acn_Enc_%s_ASCII_VarSize_NullTerminated (bs, %s, %s);" % (nm, V, T)); e(op + "N_D", "Acn_Dec_%s_ASCII_VarSize_NullTerminated (bs, %s, %s, res); %s" % (nm, var, T, ret))
        typed(op + "N_D", lambda s, v, c: "Acn_Dec_%s_ASCII_VarSize_NullTerminated%s (bs, %s, %s, res);" % (nm, s, v, T), sg)
    for op, nm, sg in (("CI", "ConstraintWholeNumber", 1), ("CU", "ConstraintPosWholeNumber", 0)):
        V, cv, var, ret = ("R.V", SP, "x", RS) if sg else ("U (R.V)", UP, "y", RU)
        e(op + "_E", "UPER_Enc_%s (bs, %s, %s, %s);" % (nm, V, cv(0), P(1))); e(op + "_D", "UPER_Dec_%s (bs, %s, %s, %s, %s, ok); %s" % (nm, var, cv(0), cv(1), P(2), ret))
        typed(op + "_D", lambda s, v, c: "UPER_Dec_%s%s (bs, %s, %s, %s, %s, ok);" % (nm, s, v, c(0), c(1), P(2)), sg)
    e("CII_D", "UPER_Dec_ConstraintWholeNumberInt (bs, iv, %s, %s, %s, ok); R.V := Integer_64 (iv);" % (P(0), P(1), P(2)))
    e("SI_E", "UPER_Enc_SemiConstraintWholeNumber (bs, R.V, P (0));"); e("SI_D", "UPER_Dec_SemiConstraintWholeNumber (bs, x, P (0), ok); " + RS)
    e("SU_E", "UPER_Enc_SemiConstraintPosWholeNumber (bs, U (R.V), U (P (0)));"); e("SU_D", "UPER_Dec_SemiConstraintPosWholeNumber (bs, y, U (P (0)), ok); " + RU)
    e("UI_E", "UPER_Enc_UnConstraintWholeNumber (bs, R.V);"); e("UI_D", "UPER_Dec_UnConstraintWholeNumber (bs, x, ok); " + RS); e("UIM_D", "UPER_Dec_UnConstraintWholeNumberMax (bs, x, P (0), ok); " + RS)
    e("REAL_E", "UPER_Enc_Real (bs, D (R.V));"); e("REAL_D", "UPER_Dec_Real (bs, d8, res); R.V := DB (d8);"); e("REAL_D", "UPER_Dec_Real_fp32 (bs, f4, res); R.V := DB (Long_Float (f4));", 32)
    for w in (32, 64):
        e("IEEE_E", "if P (0) = 0 then Acn_Enc_Real_IEEE754_%d_big_endian (bs, D (R.V)); else Acn_Enc_Real_IEEE754_%d_little_endian (bs, D (R.V)); end if;" % (w, w), w)
        e("IEEE_D", "if P (0) = 0 then Acn_Dec_Real_IEEE754_%d_big_endian (bs, d8, res); else Acn_Dec_Real_IEEE754_%d_little_endian (bs, d8, res); end if; R.V := DB (d8);" % (w, w), w)
    e("IEEE_D", "if P (0) = 0 then Acn_Dec_Real_IEEE754_32_big_endian_fp32 (bs, f4, res); else Acn_Dec_Real_IEEE754_32_little_endian_fp32 (bs, f4, res); end if; R.V := DB (Long_Float (f4));", 33)
    O1 = "Oct (R.S1, Integer'Max (1, Integer (R.N1)))"
    e("OCTN_E", "BitStream_EncodeOctetString_no_length (bs, %s, %s);" % (O1, P(0)))
    e("OCTN_D", "declare O : OctetBuffer (1 .. Integer'Max (1, %s)) := (others => 16#A5#); begin BitStream_DecodeOctetString_no_length (bs, O, %s, ok); R.V := P (0); Ret (O, %s); end;" % (P(0), P(0), P(0)))
    for op, nm, by in (("OCT", "OctetString", ""), ("BST", "BitString", " + 7) / 8")):
        e(op + "_E", "BitStream_Encode%s (bs, %s, Integer (R.V), %s, %s, %s);" % (nm, O1, P(0), P(1), P(2)))
        size = P(2) if not by else "(" + P(2) + by
        e(op + "_D", "declare O : OctetBuffer (1 .. Integer'Max (1, %s)) := (others => 16#A5#); begin BitStream_Decode%s (bs, O, len, %s, %s, %s, ok); if ok then R.V := Integer_64 (len); %s (O, len); end if; end;" % (size, nm, P(0), P(1), P(2), "Ret" if not by else "RetBits"))
    for op, nm in (("OID", "ObjectIdentifier"), ("ROID", "RelativeOID")):
        e(op + "_E", "%s_uper_encode (bs, GetOid);" % nm); e(op + "_D", "%s_uper_decode (bs, oid, res); if res.Success then PutOid (oid); end if;" % nm)
    B1, B2 = "Bits (R.S1, Integer (R.N1))", "Bits (R.S2, Integer (R.N2))"
    for op, nm, b in (("BT", "true_pattern", B1), ("BF", "false_pattern", B1), ("BTF", "true_false_pattern", B1 + ", " + B2)):
        e(op + "_E", "Acn_Enc_Boolean_%s (bs, CB, %s);" % (nm, b)); e(op + "_D", "Acn_Dec_Boolean_%s (bs, bv, %s, res); R.V := (if bv then 1 else 0);" % (nm, b))
    e("NP_E", "Acn_Enc_NullType_pattern (bs, n8, %s);" % B1); e("NP_D", "Acn_Dec_NullType_pattern (bs, n8, %s, res); R.V := 0;" % B1)
    e("NP2_E", "Acn_Enc_NullType_pattern2 (bs, %s);" % B1); e("NP2_D", "Acn_Dec_NullType_pattern2 (bs, %s, res); R.V := 0;" % B1)
    S = "Str (R.S1, Integer (R.N1), %s + 1)" % P(1); DS = "declare Z : String (1 .. %s + 1) := (others => NUL); begin %%s if res.Success then RetStr (Z); end if; end;" % P(1); CS = "Str (R.S2, Integer (R.N2), Integer (R.N2))"
    e("SF_E", "Acn_Enc_String_Ascii_FixSize (bs, %s);" % S); e("SF_D", DS % "Acn_Dec_String_Ascii_FixSize (bs, Z, res);")
    e("SN_E", "Acn_Enc_String_Ascii_Null_Terminated (bs, Oct (R.S2, Integer (R.N2)), %s);" % S); e("SN_D", DS % "Acn_Dec_String_Ascii_Null_Terminated (bs, Oct (R.S2, Integer (R.N2)), Z, res);")
    e("SI2_E", "Acn_Enc_String_Ascii_Internal_Field_Determinant (bs, P (0), %s, %s);" % (P(2), S)); e("SI2_D", DS % ("Acn_Dec_String_Ascii_Internal_Field_Determinant (bs, P (0), P (1), %s, Z, res);" % P(2)))
    e("SX_E", "Acn_Enc_String_Ascii_External_Field_Determinant (bs, %s);" % S); e("SX_D", DS % "Acn_Dec_String_Ascii_External_Field_Determinant (bs, P (2), Z, res);")
    e("CX_E", "Acn_Enc_String_CharIndex_External_Field_Determinant (bs, %s, %s, %s);" % (CS, P(2), S)); e("CX_D", DS % ("Acn_Dec_String_CharIndex_External_Field_Determinant (bs, %s, %s, P (3), Z, res);" % (CS, P(2))))
    e("CN_E", "Acn_Enc_String_CharIndex_Internal_Field_Determinant (bs, %s, %s, P (0), %s, %s);" % (CS, P(2), P(3), S)); e("CN_D", DS % ("Acn_Dec_String_CharIndex_Internal_Field_Determinant (bs, %s, %s, P (0), P (1), %s, Z, res);" % (CS, P(2), P(3))))
    kinds = ["U8", "U16_BE", "U32_BE", "U64_BE", "U16_LE", "U32_LE", "U64_LE", "I8", "I16_BE", "I32_BE", "I64_BE", "BOOL1"]
    def det(init, patch): return "%s BitStream_Encode_Non_Negative_Integer (bs, (if P (2) = 0 then 0 else 16#5A5A5A5A5A5A5A5A# mod 2 ** %s), %s); %s if res.Success then %s end if;" % (init, P(2), P(2), patch("U (R.V)"), patch("U (P (1))"))
    e("DET_U", "case P (0) is " + " ".join("when %d => %s" % (i, det("Acn_InitDet_%s (bs, det);" % k, lambda v: "Acn_PatchDet_%s (%s, bs, det, res);" % (k, v))) for i, k in enumerate(kinds)) + " when others => R.St := 0; end case;")
    e("DET_CONST", det("Acn_InitDet_ConstSize (bs, det, %s);" % P(3), lambda v: "Acn_PatchDet_ConstSize (%s, bs, det, %s, res);" % (v, P(3))))
    e("DET_TC", det("Acn_InitDet_TwosComplement_ConstSize (bs, det, %s);" % P(3), lambda v: "Acn_PatchDet_TwosComplement_ConstSize (%s, bs, det, %s, res);" % (v, P(3))))
    names = ops(); out = []
    for op, m in A.items():
        out.append("         when %d => -- %s\n" % (names.index(op), op))
        if list(m) == [64]: out.append("            " + m[64] + "\n")
        else: out.append("            case R.W is\n" + "".join("               when %d => %s\n" % (w, s) for w, s in m.items()) + "               when others => R.St := 0;\n            end case;\n")
    def wrap(l):                                        # gnat limits line lengths
        r = ""
        while len(l) > 240: k = l.rfind(" ", 0, 240); r += l[:k] + "\n"; l = l[k:]
        return r + l
    text = HEAD + "".join(out) + TAIL
    return "\n".join(wrap(l) for l in text.split("\n")), sup

def build(out, contracts):
    src = os.path.join(out, "src"); os.makedirs(src)
    for f in glob.glob(os.path.join(REPO, "ADA_RTL2", "src", "*.ad[sb]")): shutil.copy(f, src)
    shutil.copy(os.path.join(REPO, "ADA_RTL2", "boards", "x86_board_config.ads"), os.path.join(src, "board_config.ads"))
    open(os.path.join(src, "vec_call.ads"), "w").write(SPEC); b, sup = body(); open(os.path.join(src, "vec_call.adb"), "w").write(b)
    names = ops()
    open(os.path.join(out, "back.cpp"), "w").write('#include "vec/vec.hpp"\nextern "C" { void ada_call(VecReq*); void adainit(void); }\nextern const bool g_contracts = %s; extern const char* g_backend; const char* g_backend = "Ada";\nstatic bool H[NOPS][65]; static struct Init { Init() { adainit(); %s } } init;\nbool has(int op, int w) { return w >= 0 && w <= 64 && H[op][w]; }\nvoid call() { ada_call(&R); }\n' % ("true" if contracts else "false", " ".join("H[%d][%d] = true;" % (names.index(o), w) for o, w in sup)))
    flags = "-g -O1 -gnat2012 -gnato -gnatws -gnatx" + (" -gnata" if contracts else "")
    jobs = ["cd %s && gnatmake -q -j4 -c %s vec_call.adb && gnatbind -n vec_call.ali && gcc -c %s b~vec_call.adb" % (src, flags, flags)]
    for f in ("mc.cpp", "vec/vec.cpp"): jobs.append("g++ -std=c++17 -O1 -g -w -I%s/c -c %s/c/%s -o %s/%s.o" % (VERIF, VERIF, f, out, os.path.basename(f)))
    jobs.append("g++ -std=c++17 -O1 -g -w -I%s/c -c %s/back.cpp -o %s/back.o" % (VERIF, out, out))
    with ThreadPoolExecutor(NCPU) as ex:
        for p in list(ex.map(lambda j: sh(j, check=False), jobs)):
            if p.returncode: raise CheckError((p.stdout + p.stderr)[-4000:])
    exe = os.path.join(out, "explore"); lib = os.path.dirname(sh("gcc -print-libgcc-file-name").stdout.strip()) + "/adalib"
    sh("g++ %s/*.o %s/*.o -L%s -Wl,-rpath,%s -l:libgnat.a -ldl -lm -lpthread -o %s" % (out, src, lib, lib, exe))
    return exe
