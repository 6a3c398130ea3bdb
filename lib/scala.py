"""Scala back end of c/vec: generates the object that calls the Scala runtime, compiles it with the live runtime sources
and runs it in a Java virtual machine inside every worker of the explorer (JNI, the request record shared as a direct buffer)."""
import os, glob
from vlib import *
from ada import ops, VEC
DIST = "/opt/veriftools/tlapm/lib/tlapm/backends/Isabelle/contrib/scala-3.3.4"
HEAD = """package asn1scala
import java.nio.{ByteBuffer, ByteOrder}
import stainless.lang.{Option as SOption, Some as SSome, None as SNone}
final class VecCall(b: ByteBuffer) {
  b.order(ByteOrder.nativeOrder())
  def p(k: Int): Long = b.getLong(8 * k)
  def pi(k: Int): Int = p(k).toInt
  def v: Long = b.getLong(48)
  def setV(x: Long): Unit = b.putLong(48, x)
  def i(at: Int): Int = b.getInt(at)
  def n1: Int = i(68); def n2: Int = i(72)
  def st(x: Int): Unit = b.putInt(80, x)
  def bytes(at: Int, n: Int): Array[Byte] = { val a = new Array[Byte](n); b.get(at, a); a }
  def s1: Array[Byte] = bytes(96, n1); def s2: Array[Byte] = bytes(70096, n2)
  def u1: Array[UByte] = UByte.fromArrayRaws(s1); def u2: Array[UByte] = UByte.fromArrayRaws(s2)
  def pack(a: Array[Byte]): Array[UByte] = { val r = new Array[Byte]((a.length + 7) / 8); for k <- a.indices do if a(k) != 0 then r(k / 8) = (r(k / 8) | (0x80 >> (k % 8))).toByte; UByte.fromArrayRaws(r) }
  def ret(a: Array[Byte], n: Int): Unit = { b.putInt(88, n); b.put(210352, a, 0, n) }
  def ret(a: Array[UByte]): Unit = { val r = a.toArrayRaws; ret(r, r.length) }
  def retBits(a: Array[UByte], n: Int): Unit = { val r = a.toArrayRaws.clone; val m = (n + 7) / 8; if n % 8 != 0 then r(m - 1) = (r(m - 1) & (0xFF << (8 - n % 8))).toByte; ret(r, m) }
  def loose(): Unit = b.putInt(92, 1)               // the length of the answer is not returned
  def str: Array[UByte] = { val a = new Array[Byte](pi(1) + 1); b.get(96, a, 0, n1); UByte.fromArrayRaws(a) }
  def strx: Array[UByte] = u1                       // no filling: the length is that of the array
  def retStr(a: Array[UByte]): Unit = { val r = a.toArrayRaws; var n = 0; while n < r.length && r(n) != 0 do n += 1; setV(n); ret(r, n) }
  def d: Double = java.lang.Double.longBitsToDouble(v)
  def setD(x: Double): Unit = setV(java.lang.Double.doubleToRawLongBits(x))
  def U(x: Long): ULong = ULong.fromRaw(x)
  def oid: Asn1ObjectIdentifier = { val o = ObjectIdentifier_Init(); o.nCount = v.toInt; for k <- 0 until o.nCount do o.values(k) = b.getLong(96 + 8 * k); o }
  def retOid(o: Asn1ObjectIdentifier): Unit = { setV(o.nCount); b.putInt(88, 8 * o.nCount); for k <- 0 until o.nCount do b.putLong(210352 + 8 * k, o.values(k)) }
  def bool(x: SOption[Boolean]): Unit = x match { case SSome(y) => setV(if y then 1 else 0); case SNone() => st(0) }
  def call(): Unit = {
    st(-1); b.putInt(88, 0); b.putInt(92, 0)
    val nb = i(76); val off = i(64); val buf = bytes(70352, nb)
    val bs = BitStream(buf, off / 8, off % 8)
    try { run(ACN(Codec(bs)), UPER(Codec(bs)), Codec(bs), bs, i(56), i(60)); if i(80) == -1 then st(1) }
    catch { case e: Throwable => { st(2); val m = e.toString.getBytes.take(300); ret(m, m.length) } }
    b.putInt(84, bs.currentByte * 8 + bs.currentBit); b.put(70352, bs.buf, 0, nb)
  }
  def run(a: ACN, u: UPER, c: Codec, bs: BitStream, op: Int, w: Int): Unit = op match {
"""
TAIL = """    case _ => st(3)
  }
}
"""
def body():
    A = {}
    def a(op, w, s): A.setdefault(op, {})[w] = s
    def e(op, s): a(op, 64, s)
    P = lambda k: "pi(%d)" % k
    def typed(op, f, signed):                          # the variants for narrower numbers
        for w, t, ut in ((8, "Int8", "UInt8"), (16, "Int16", "UInt16"), (32, "Int32", "UInt32")): a(op, w, "setV(%s%s)" % (f(t if signed else ut), "" if signed else ".unsignedToLong"))
    e("APPBIT", "bs.appendBit(v != 0)"); e("READBIT", "setV(if bs.readBit() then 1 else 0)"); e("BOOL_E", "if v != 0 then bs.appendBitOne() else bs.appendBitZero()")
    e("APPBYTE", "if p(0) != 0 then st(3) else bs.appendByte(UByte.fromRaw(v.toByte))"); e("DECBYTE", "setV(bs.readByte().unsignedToLong)")
    e("APPBITS", "bs.appendBitsMSBFirst(u1, p(0))"); e("READBITS", "retBits(bs.readBits(p(0)), pi(0))"); e("SKIP", "bs.moveBitIndex(p(0))")
    e("APPPART", "if p(1) != 0 then st(3) else bs.appendPartialByte(UByte.fromRaw(v.toByte), pi(0))"); e("READPART", "setV(bs.readPartialByte(pi(0)).unsignedToLong)")
    e("ENCNN", "bs.appendLSBBitsMSBFirst(v, pi(0))"); e("DECNN", "setV(bs.readNLSBBitsMSBFirst(pi(0)))"); e("ENCUINT", "a.encode_UnsignedInteger(U(v), pi(0).toByte)"); e("DECUINT", "setV(c.decodeUnsignedInteger(8 * pi(0)).toRaw)")
    e("LSB_E", "bs.appendBitsLSBFirst(v, pi(0))"); e("LSB_D", "setV(bs.readNBitsLSBFirst(pi(0)))"); e("NBITS", "bs.appendNBits(p(0), v != 0)"); e("PEEKBIT", "setV(if bs.peekBit() then 1 else 0)")
    e("ALIGN", "pi(0) match { case 8 => bs.alignToByte(); case 16 => bs.alignToShort(); case 32 => bs.alignToInt() }")
    e("MATCH", "setV(if bs.checkBitPatternPresent(u1, p(0)) then 1 else 0)")
    for op, nm, sg in (("UC", "PositiveInteger", 0), ("TC", "TwosComplement", 1)):
        V, raw = ("v", "") if sg else ("U(v)", ".toRaw")
        e(op + "_E", "a.enc_Int_%s_ConstSize(%s, pi(0))" % (nm, V)); e(op + "_D", "setV(a.dec_Int_%s_ConstSize(pi(2))%s)" % (nm, raw)); typed(op + "_D", lambda t: "a.dec_Int_%s_ConstSize%s(pi(2))" % (nm, t), sg)
        forms = [(1, 0, "_8"), (2, 0, "_big_endian_16"), (4, 0, "_big_endian_32"), (8, 0, "_big_endian_64"), (2, 1, "_little_endian_16"), (4, 1, "_little_endian_32"), (8, 1, "_little_endian_64")]
        o2 = op[0] + "B"
        e(o2 + "_E", "(pi(0), pi(1)) match { %s case _ => st(3) }" % " ".join("case (%d, %d) => a.enc_Int_%s_ConstSize%s(%s);" % (b, l, nm, f, V) for b, l, f in forms))
        e(o2 + "_D", "(pi(0), pi(1)) match { %s case _ => st(3) }" % " ".join("case (%d, %d) => setV(a.dec_Int_%s_ConstSize%s()%s);" % (b, l, nm, f, raw) for b, l, f in forms))
        for w in (8, 16, 32):
            t = ("Int" if sg else "UInt") + str(w)
            a(o2 + "_D", w, "(pi(0), pi(1)) match { %s case _ => st(3) }" % " ".join("case (%d, %d) => setV(a.dec_Int_%s_ConstSize%s%s()%s);" % (b, l, nm, f, t, "" if sg else ".unsignedToLong") for b, l, f in forms if b * 8 >= w and not (b == 1 and w > 8)))
    e("UV_E", "a.enc_Int_PositiveInteger_VarSize_LengthEmbedded(U(v))"); e("UV_D", "setV(a.dec_Int_PositiveInteger_VarSize_LengthEmbedded().toRaw)"); typed("UV_D", lambda t: "a.dec_Int_PositiveInteger_VarSize_LengthEmbedded%s()" % t, 0)
    e("TV_E", "a.enc_Int_TwosComplement_VarSize_LengthEmbedded(v)"); e("TV_D", "setV(a.dec_Int_TwosComplement_VarSize_LengthEmbedded())"); typed("TV_D", lambda t: "a.dec_Int_TwosComplement_VarSize_LengthEmbedded%s()" % t, 1)
    e("BC_E", "a.enc_Int_BCD_ConstSize(U(v), pi(0))"); e("BC_D", "setV(a.dec_Int_BCD_ConstSize(pi(2)).toRaw)"); typed("BC_D", lambda t: "a.dec_Int_BCD_ConstSize%s(pi(2))" % t, 0)
    e("BN_E", "a.enc_Int_BCD_VarSize_NullTerminated(U(v))"); e("BN_D", "setV(a.dec_Int_BCD_VarSize_NullTerminated().toRaw)"); typed("BN_D", lambda t: "a.dec_Int_BCD_VarSize_NullTerminated%s()" % t, 0)
    e("BL_E", "a.enc_Int_BCD_VarSize_LengthEmbedded(U(v))"); e("BL_D", "setV(a.dec_Int_BCD_VarSize_LengthEmbedded().toRaw)"); typed("BL_D", lambda t: "a.dec_Int_BCD_VarSize_LengthEmbedded%s()" % t, 0)
    for op, nm, sg in (("AI", "SInt", 1), ("AU", "UInt", 0)):
        V, raw = ("v", "") if sg else ("U(v)", ".toRaw"); T = "s2, n2"
        e(op + "C_E", "a.enc_%s_ASCII_ConstSize(%s, pi(0))" % (nm, V)); e(op + "C_D", "setV(a.dec_%s_ASCII_ConstSize(pi(2))%s)" % (nm, raw)); typed(op + "C_D", lambda t: "a.dec_%s_ASCII_ConstSize%s(pi(2))" % (nm, t), sg)
        e(op + "L_E", "a.enc_%s_ASCII_VarSize_LengthEmbedded(%s)" % (nm, V)); e(op + "L_D", "setV(a.dec_%s_ASCII_VarSize_LengthEmbedded()%s)" % (nm, raw)); typed(op + "L_D", lambda t: "a.dec_%s_ASCII_VarSize_LengthEmbedded%s()" % (nm, t), sg)
        e(op + "N_E", "a.enc_%s_ASCII_VarSize_NullTerminated(%s, %s)" % (nm, V, T)); e(op + "N_D", "setV(a.dec_%s_ASCII_VarSize_NullTerminated(%s)%s)" % (nm, T, raw)); typed(op + "N_D", lambda t: "a.dec_%s_ASCII_VarSize_NullTerminated%s(%s)" % (nm, t, T), sg)
    e("CI_E", "c.encodeConstrainedWholeNumber(v, p(0), p(2))"); e("CI_D", "setV(c.decodeConstrainedWholeNumber(p(0), p(1)))")
    for w, t in ((8, "Byte"), (16, "Short"), (32, "Int")): a("CI_D", w, "setV(c.decodeConstrainedWholeNumber%s(p(0).to%s, p(1).to%s))" % (t, t, t))
    e("CU_E", "c.encodeConstrainedPosWholeNumber(U(v), U(p(0)), U(p(2)))"); e("CU_D", "setV(c.decodeConstrainedPosWholeNumber(U(p(0)), U(p(1))).toRaw)")
    e("SI_E", "c.encodeSemiConstrainedWholeNumber(v, p(0))"); e("SI_D", "setV(c.decodeSemiConstrainedWholeNumber(p(0)))"); e("SU_E", "c.encodeSemiConstrainedPosWholeNumber(U(v), U(p(0)))"); e("SU_D", "setV(c.decodeSemiConstrainedPosWholeNumber(U(p(0))).toRaw)")
    e("UI_E", "c.encodeUnconstrainedWholeNumber(v)"); e("UI_D", "c.decodeUnconstrainedWholeNumber() match { case SSome(x) => setV(x); case SNone() => st(0) }")
    e("REAL_E", "c.encodeReal(d)"); e("REAL_D", "setD(c.decodeReal())")
    for w in (32, 64):
        f = ".toFloat" if w == 32 else ""
        a("IEEE_E", w, "if p(0) == 0 then a.enc_Real_IEEE754_%d_big_endian(d%s) else a.enc_Real_IEEE754_%d_little_endian(d%s)" % (w, f, w, f)); a("IEEE_D", w, "setD((if p(0) == 0 then a.dec_Real_IEEE754_%d_big_endian() else a.dec_Real_IEEE754_%d_little_endian()).toDouble)" % (w, w))
    e("OCTN_E", "c.encodeOctetString_no_length(u1, pi(0))"); e("OCTN_D", "{ setV(p(0)); ret(c.decodeOctetString_no_length(pi(0))) }")
    e("OCT_E", "c.encodeOctetString(u1, v.toInt, p(1), p(2))"); e("OCT_D", "{ val o = c.decodeOctetString(p(1), p(2)); setV(o.length); ret(o) }")
    e("BST_E", "c.encodeBitString(u1, v.toInt, p(1), p(2))"); e("BST_D", "{ val o = c.decodeBitString(p(1), p(2)); loose(); ret(o) }")
    e("OID_E", "u.ObjectIdentifier_encode(oid)"); e("OID_D", "retOid(u.objectIdentifier_decode())"); e("ROID_E", "u.relativeOID_encode(oid)"); e("ROID_D", "retOid(u.relativeOID_decode())")
    e("BT_D", "setV(if a.BitStream_ReadBitPattern(pack(s1), n1) then 1 else 0)"); e("BTF_D", "bool(a.BitStream_DecodeTrueFalseBoolean(pack(s1), pack(s2), n1))")
    e("SF_E", "a.enc_String_Ascii_FixSize(p(1), str)"); e("SF_D", "retStr(a.dec_String_Ascii_FixSize(p(1)))")
    e("SN_E", "if n2 == 1 then a.enc_String_Ascii_Null_Terminated(p(1), s2(0), str) else a.enc_String_Ascii_Null_Terminated_mult(p(1), s2, n2, str)")
    e("SN_D", "if n2 == 1 then retStr(a.dec_String_Ascii_Null_Terminated(p(1), u2(0))) else retStr(a.dec_String_Ascii_Null_Terminated_mult(p(1), u2, n2))")
    a("SN_E", 32, "a.enc_String_Ascii_Null_Terminated_mult(p(1), s2, n2, str)"); a("SN_D", 32, "retStr(a.dec_String_Ascii_Null_Terminated_mult(p(1), u2, n2))")
    I = "p(1), p(0)"
    e("SI2_E", "a.enc_String_Ascii_Internal_Field_Determinant(%s, str)" % I); e("SI2_D", "retStr(a.dec_String_Ascii_Internal_Field_Determinant(%s))" % I)
    e("SX_E", "a.enc_String_Ascii_External_Field_Determinant(p(1), str)"); e("SX_D", "retStr(a.dec_String_Ascii_External_Field_Determinant(p(1), p(2)))")
    e("CX_E", "a.enc_String_CharIndex_External_Field_Determinant(p(1), u2, str)"); e("CX_D", "retStr(a.dec_String_CharIndex_External_Field_Determinant(p(1), u2, p(3)))")
    e("CN_E", "a.enc_String_CharIndex_Internal_Field_Determinant(p(1), u2, p(0), str)"); e("CN_D", "retStr(a.dec_String_CharIndex_Internal_Field_Determinant(p(1), u2, p(0)))")
    e("CF_E", "a.enc_String_CharIndex_FixSize(p(1), u2, str)"); e("CF_D", "retStr(a.dec_String_CharIndex_FixSize(p(1), u2))")
    e("IX_E", "a.enc_IA5String_CharIndex_External_Field_Determinant(p(1), str)"); e("IX_D", "retStr(a.dec_IA5String_CharIndex_External_Field_Determinant(p(1), p(2)))")
    e("IN_E", "a.enc_IA5String_CharIndex_Internal_Field_Determinant(p(1), p(0), str)"); e("IN_D", "retStr(a.dec_IA5String_CharIndex_Internal_Field_Determinant(p(1), p(0)))")
    e("MB_E", "setV(a.milbus_encode(v))"); e("MB_D", "setV(a.milbus_decode(v))")
    # a second function for the same operation (on vectors, or under another name) is called as "width" 63 after the first
    V1, VS = "Vector.fromScala(u1.toVector)", "Vector.fromScala(str.toVector)"
    for op, s in (("IX_E", "a.enc_IA5String_CharIndex_External_Field_DeterminantVec(p(1), %s)" % VS), ("IX_D", "retStr(a.dec_IA5String_CharIndex_External_Field_DeterminantVec(p(1), p(2)).toScala.toArray)"),
                  ("IN_E", "a.enc_IA5String_CharIndex_Internal_Field_DeterminantVec(p(1), p(0), %s)" % VS), ("IN_D", "retStr(a.dec_IA5String_CharIndex_Internal_Field_DeterminantVec(p(1), p(0)).toScala.toArray)"),
                  ("SN_E", "a.enc_String_Ascii_Null_Terminated_multVec(p(1), s2, n2, %s)" % VS), ("SN_D", "retStr(a.dec_String_Ascii_Null_Terminated_multVec(p(1), u2, n2).toScala.toArray)"),
                  ("OCTN_E", "c.encodeOctetString_no_length_vec(%s, pi(0))" % V1), ("OCTN_D", "{ setV(p(0)); ret(c.decodeOctetString_no_length_vec(pi(0)).toScala.toArray) }"),
                  ("APPBITS", "bs.appendBitsMSBFirstVec(%s, p(0))" % V1), ("READBITS", "retBits(bs.readBitsVec(p(0)).toScala.toArray, pi(0))"), ("ENCNN", "a.enc_Length(U(v), pi(0))"), ("DECNN", "setV(a.dec_Length(pi(0)).toRaw)"),
                  ("NBITS", "if v != 0 then bs.appendNOneBits(p(0)) else bs.appendNZeroBits(p(0))"), ("SKIP", "a.BitStream_ReadBitPattern_ignore_value(pi(0))")): a(op, 63, s)
    names = ops(); out = []; sup = []
    for op, m in A.items():
        for w in m: sup.append((op, w))
        k = names.index(op)
        if list(m) == [64]: out.append("    case %d => %s // %s\n" % (k, m[64], op))
        else: out.append("    case %d => w match { %s case _ => st(3) }\n" % (k, " ".join("case %d => %s;" % (w, s) for w, s in m.items())))
    return HEAD + "".join(out) + TAIL, sup

BACK = r'''#include "vec/vec.hpp"
#include <jni.h>
#include <sys/resource.h>
#include <unistd.h>
// the runtime works through strings by recursion: give the Java main thread a stack that holds the longest one
__attribute__((constructor)) static void stack(int, char** argv) { rlimit l; getrlimit(RLIMIT_STACK, &l); rlim_t want = 1u << 30; if (l.rlim_cur >= want || (l.rlim_max != RLIM_INFINITY && l.rlim_max < want)) return; l.rlim_cur = want; if (!setrlimit(RLIMIT_STACK, &l)) execv("/proc/self/exe", argv); }
extern const bool g_contracts = false; extern const char* g_backend; const char* g_backend = "Scala";
static bool H[NOPS][65]; static struct Init { Init() { %s } } init_;
bool has(int op, int w) { return w >= 0 && w <= 64 && H[op][w]; }
static JNIEnv* E; static jobject O; static jmethodID M;
static void boot() {
    JavaVM* vm; JavaVMOption o[6] = {{(char*)"-Djava.class.path=%s"}, {(char*)"-XX:-StackTraceInThrowable"}, {(char*)"-XX:+UseSerialGC"}, {(char*)"-Xmx1g"}, {(char*)"-Xss900m"}, {(char*)"-Xshare:auto"}};
    JavaVMInitArgs a; a.version = JNI_VERSION_10; a.nOptions = 6; a.options = o; a.ignoreUnrecognized = JNI_FALSE;
    if (JNI_CreateJavaVM(&vm, (void**)&E, &a) != JNI_OK) { fprintf(stderr, "no Java virtual machine\n"); _exit(90); }
    jclass c = E->FindClass("asn1scala/VecCall"); if (!c) { E->ExceptionDescribe(); _exit(91); }
    jmethodID k = E->GetMethodID(c, "<init>", "(Ljava/nio/ByteBuffer;)V"); M = E->GetMethodID(c, "call", "()V"); O = E->NewGlobalRef(E->NewObject(c, k, E->NewDirectByteBuffer(&R, sizeof R)));
}
void call() { if (!E) boot(); E->CallVoidMethod(O, M); if (E->ExceptionCheck()) { E->ExceptionDescribe(); _exit(92); } }
'''
def build(out):
    src = os.path.join(REPO, "asn1scala"); cls = os.path.join(out, "cls"); os.makedirs(cls); lib = glob.glob(os.path.join(src, "lib", "*.jar"))[0]
    text, sup = body(); open(os.path.join(out, "VecCall.scala"), "w").write(text)
    rt = sorted(glob.glob(os.path.join(src, "src/main/scala/asn1scala/asn1jvm*.scala"))); jars = ":".join(glob.glob(DIST + "/lib/*.jar"))
    java = os.path.dirname(os.path.dirname(os.path.realpath(shutil.which("java"))))
    cp = ":".join([cls, lib] + glob.glob(DIST + "/lib/scala*library*.jar"))
    names = ops(); open(os.path.join(out, "back.cpp"), "w").write(BACK % (" ".join("H[%d][%d] = true;" % (names.index(o), w) for o, w in sup), cp))
    jobs = ["java -Xss8m -Xmx3g -cp %s dotty.tools.dotc.Main -nowarn -cp %s:%s -d %s %s/VecCall.scala %s" % (jars, lib, jars, cls, out, " ".join(rt))]
    for f in ("mc.cpp", "vec/vec.cpp"): jobs.append("g++ -std=c++17 -O1 -g -w -I%s/c -c %s/c/%s -o %s/%s.o" % (VERIF, VERIF, f, out, os.path.basename(f)))
    jobs.append("g++ -std=c++17 -O1 -g -w -I%s/include -I%s/include/linux -I%s/c -c %s/back.cpp -o %s/back.o" % (java, java, VERIF, out, out))
    with ThreadPoolExecutor(NCPU) as ex:
        for p in list(ex.map(lambda j: sh(j, check=False), jobs)):
            if p.returncode: raise CheckError((p.stdout + p.stderr)[-4000:])
    exe = os.path.join(out, "explore")
    sh("g++ %s/*.o -L%s/lib/server -Wl,-rpath,%s/lib/server -ljvm -lpthread -o %s" % (out, java, java, exe))
    return exe
