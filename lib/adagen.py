"""Drives the Ada code that asn1scc generates with the same commands and answers as lib/cdriver.inc (E, D)."""
import os, re, resource
from comp import *

PRE = """with Ada.Text_IO; with Ada.Exceptions; with Ada.Unchecked_Conversion; with Interfaces;
with adaasn1rtl; with adaasn1rtl.encoding; with %(mod)s; use %(mod)s;
procedure Drv is
   use type Interfaces.Integer_64; use type Interfaces.Unsigned_64; use type Interfaces.Unsigned_8; use type adaasn1rtl.BIT; use type adaasn1rtl.OctetBuffer;
   pragma Warnings (Off);
   subtype Zi64 is Interfaces.Integer_64; subtype Zu64 is Interfaces.Unsigned_64; subtype Zu8 is Interfaces.Unsigned_8;
   function Zdb is new Ada.Unchecked_Conversion (Long_Float, Zu64); function Zbd is new Ada.Unchecked_Conversion (Zu64, Long_Float);
   type Zstr is access String;
   Zo : Zstr := new String (1 .. 4_000_000); Zn : Natural := 0;
   Zl : Zstr := new String (1 .. 4_000_000); Zk : Natural := 0; Zp : Positive := 1;      -- the command line and the place in it
   procedure Zput (S : String) is begin Zo (Zn + 1 .. Zn + S'Length) := S; Zn := Zn + S'Length; end Zput;
   function Ztrim (S : String) return String is (if S (S'First) = ' ' then S (S'First + 1 .. S'Last) else S);
   procedure Znum (V : Zi64) is begin Zput (Ztrim (Zi64'Image (V)) & " "); end Znum;
   procedure Zuns (V : Zu64) is begin Zput (Ztrim (Zu64'Image (V)) & " "); end Zuns;
   Hex : constant String := "0123456789abcdef";
   procedure Zhex (V : Zu8) is begin Zput ((1 => Hex (Integer (V / 16) + 1), 2 => Hex (Integer (V mod 16) + 1))); end Zhex;
   procedure Zreal (D : Long_Float) is U : Zu64 := Zdb (D); begin for I in reverse 0 .. 7 loop Zhex (Zu8 (Interfaces.Shift_Right (U, 8 * I) and 255)); end loop; Zput (" "); end Zreal;
   function Ztok return String is A : Positive; begin
      while Zp <= Zk and then Zl (Zp) = ' ' loop Zp := Zp + 1; end loop; A := Zp;
      while Zp <= Zk and then Zl (Zp) /= ' ' loop Zp := Zp + 1; end loop; return Zl (A .. Zp - 1); end Ztok;
   function Zint return Zi64 is (Zi64'Value (Ztok)); function Zun return Zu64 is (Zu64'Value (Ztok));
   function Zany return Zi64 renames Zint; function Zany return Zu64 renames Zun; procedure Znum (V : Zu64) renames Zuns;
   function Znib (C : Character) return Zu8 is (if C <= '9' then Character'Pos (C) - 48 else Character'Pos (C) - 87);
   function Zrl return Long_Float is S : String := Ztok; U : Zu64 := 0; begin for C of S loop U := U * 16 + Zu64 (Znib (C)); end loop; return Zbd (U); end Zrl;
   Zerr : adaasn1rtl.ASN1_RESULT;
"""
POST = """
   function Zval (S : String) return Boolean is (True);
begin
   while not Ada.Text_IO.End_Of_File loop
      Ada.Text_IO.Get_Line (Zl.all, Zk); Zp := 1; Zn := 0;
      begin
         declare Cmd : String := Ztok; Ty : String := Ztok; Enc : String := Ztok; begin
            %s
            else Zput ("UNKNOWN"); end if;
         end;
      exception when E : others => Zn := 0; Zput ("CRASH " & Ada.Exceptions.Exception_Name (E) & " " & Ada.Exceptions.Exception_Message (E));
      end;
      Ada.Text_IO.Put_Line (Zo (1 .. Zn)); Ada.Text_IO.Flush;
   end loop;
end Drv;
"""
_n = [0]
def fresh(): _n[0] += 1; return "Zi%d" % _n[0]
def an(x): return x.replace("-", "_")
def a_dump(t, e):
    if isinstance(t, Int): return "Znum (%s);" % e      # signed or not, as it is declared
    if isinstance(t, Real): return "Zreal (Long_Float (%s));" % e
    if isinstance(t, Bool): return 'Zput (if Boolean (%s) then "1 " else "0 ");' % e
    if isinstance(t, Null): return 'Zput ("n ");'
    if isinstance(t, Enum): return "case %s is %s end case;" % (e, " ".join("when %s => Znum (Zi64'(%d));" % (an(n), v) for n, v in t.numbered()))
    n = lambda: str(t.srng()[1]) if fixed(t) else "%s.Length" % e
    if isinstance(t, Octet): i = fresh(); return 'Zput ("x"); for %s in 1 .. %s loop Zhex (%s.Data (%s)); end loop; Zput (" ");' % (i, n(), e, i)
    if isinstance(t, BitS): i = fresh(); return 'Zput ("b"); for %s in 1 .. %s loop Zput (if %s.Data (%s) = 1 then "1" else "0"); end loop; Zput (" ");' % (i, n(), e, i)
    if isinstance(t, Str): i = fresh(); return 'Zput ("x"); for %s in %s\'Range loop exit when %s (%s) = Character\'Val (0); Zhex (Character\'Pos (%s (%s))); end loop; Zput (" ");' % (i, e, e, i, e, i)
    if isinstance(t, Oid): i = fresh(); return "Znum (Zi64 (%s.Length)); for %s in 1 .. %s.Length loop Zuns (Zu64 (%s.values (%s))); end loop;" % (e, i, e, e, i)
    if isinstance(t, SeqOf): i = fresh(); return "Znum (Zi64 (%s)); for %s in 1 .. %s loop %s end loop;" % (n(), i, n(), a_dump(t.elem, "%s.Data (%s)" % (e, i)))
    if isinstance(t, Seq):
        r = []
        for f in t.f:
            if f.acnonly: continue
            x = "%s.%s" % (e, an(f.name)); d = a_dump(f.ty, x)
            r.append('if %s.Exist.%s = 1 then Zput ("+ "); %s else Zput ("- "); %s end if;' % (e, an(f.name), d, 'if Zdef then Zput ("= "); %s end if;' % a_dump(f.ty, x) if f.opt == "d" else "") if f.opt else d)
        return " ".join(r) or "null;"
    if isinstance(t, Cho): return "case %s.kind is %s end case;" % (e, " ".join("when %s_PRESENT => Znum (Zi64'(%d)); %s" % (an(a.name), i, a_dump(a.ty, "%s.%s" % (e, an(a.name)))) for i, a in enumerate(t.f)))
    raise ValueError(t)
def a_load(t, e):
    if isinstance(t, Int): return "%s := Zany;" % e
    if isinstance(t, Real): return "%s := Zrl;" % e
    if isinstance(t, Bool): return '%s := Ztok = "1";' % e
    if isinstance(t, Null): return '%s := 0; if Ztok = "" then null; end if;' % e
    if isinstance(t, Enum): return "case Zint is %s when others => raise Program_Error; end case;" % " ".join("when %d => %s := %s;" % (v, e, an(n)) for n, v in t.numbered())
    ln = lambda x: "" if fixed(t) else "%s.Length := %s;" % (e, x)
    if isinstance(t, Octet): i = fresh(); return "declare Zs : String := Ztok; begin %s for %s in 1 .. Zs'Length / 2 loop %s.Data (%s) := Znib (Zs (Zs'First + 2 * %s - 1)) * 16 + Znib (Zs (Zs'First + 2 * %s)); end loop; end;" % (ln("Zs'Length / 2"), i, e, i, i, i)
    if isinstance(t, BitS): i = fresh(); return "declare Zs : String := Ztok; begin %s for %s in 1 .. Zs'Length - 1 loop %s.Data (%s) := (if Zs (Zs'First + %s) = '1' then 1 else 0); end loop; end;" % (ln("Zs'Length - 1"), i, e, i, i)
    if isinstance(t, Str): i = fresh(); return "declare Zs : String := Ztok; begin %s := (others => Character'Val (0)); for %s in 1 .. Zs'Length / 2 loop %s (%s) := Character'Val (Znib (Zs (Zs'First + 2 * %s - 1)) * 16 + Znib (Zs (Zs'First + 2 * %s))); end loop; end;" % (e, i, e, i, i, i)
    if isinstance(t, Oid): i = fresh(); return "%s.values := (others => 0); %s.Length := Integer (Zint); for %s in 1 .. %s.Length loop %s.values (%s) := Zun; end loop;" % (e, e, i, e, e, i)
    if isinstance(t, SeqOf):
        i = fresh(); return "declare Zc : Integer := Integer (Zint); begin %s for %s in 1 .. Zc loop %s end loop; end;" % (ln("Zc"), i, a_load(t.elem, "%s.Data (%s)" % (e, i)))
    if isinstance(t, Seq):
        r = []
        for f in t.f:
            if f.acnonly: continue
            x = "%s.%s" % (e, an(f.name)); d = a_load(f.ty, x)
            r.append('if Ztok = "+" then %s.Exist.%s := 1; %s else %s.Exist.%s := 0; end if;' % (e, an(f.name), d, e, an(f.name)) if f.opt else d)
        return " ".join(r) or "null;"
    if isinstance(t, Cho): return "case Zint is %s when others => raise Program_Error; end case;" % " ".join("when %d => %s := (kind => %s_PRESENT, %s => <>); %s" % (i, e, an(a.name), an(a.name), a_load(a.ty, "%s.%s" % (e, an(a.name)))) for i, a in enumerate(t.f))
    raise ValueError(t)

def a_driver(mod, types, encs=("U",)):
    types = [(n, t) for n, t in types if not getattr(t, "params", None)]
    o = [PRE % dict(mod=mod), "   Zdef : Boolean := False;\n"]; disp = []
    for n, t in types:
        body = []
        for x, pre, st in (("U", "", "uPER"), ("A", "ACN_", "ACN")):
            if x not in encs: continue
            body.append("""%s Enc = "%s" then
         declare S : %s_%s_Stream; Zlast : Integer; begin
            if Cmd = "E" then
               Zld (V); %s_%sEncode (V, S, Zerr);
               if not Zerr.Success then Zput ("ERR" & Zerr.ErrorCode'Image);
               else
                  Zlast := (S.Current_Bit_Pos + 7) / 8; Zput ("OK" & S.Current_Bit_Pos'Image & " ");
                  for I in 1 .. Zlast loop Zhex (S.Buffer (I)); end loop;
               end if;
            else
               S.Buffer := (others => 0); S.Current_Bit_Pos := 0;
               declare Zs : String := Ztok; begin
                  if Zs'Length / 2 > S.Buffer'Length then Zput ("LONG"); return; end if;
                  for I in 1 .. Zs'Length / 2 loop S.Buffer (I) := Znib (Zs (Zs'First + 2 * I - 2)) * 16 + Znib (Zs (Zs'First + 2 * I - 1)); end loop;
               end;
               %s_%sDecode (V, S, Zerr);
               if not Zerr.Success then Zput ("ERR" & Zerr.ErrorCode'Image);
               else Zput ("OK" & S.Current_Bit_Pos'Image & " "); Zdef := True; Zdp (V); Zdef := False; end if;
            end if;
         end;""" % ("if" if not body else "elsif", x, n, st, n, pre, n, pre))
        o.append("   procedure Z%s (Cmd, Enc : String) is V : %s;\n      procedure Zld (V : in out %s) is begin %s end Zld;\n      procedure Zdp (V : %s) is begin %s end Zdp;\n   begin\n      %s end if;\n   end Z%s;\n" % (n, n, n, a_load(t, "V"), n, a_dump(t, "V"), "\n      ".join(body), n))
        disp.append('%s Ty = "%s" then Z%s (Cmd, Enc);' % ("elsif" if disp else "if", n, n))
    o.append(POST % "\n            ".join(disp)); return "".join(o)

def build_ada(out, mod, types, encs=("U",), flags="-gnata"):
    """compile generated Ada in out (package mod) with a driver; returns exe or raises CheckError"""
    open(out + "/drv.adb", "w").write(a_driver(mod, types, encs))
    p = sh("gnatmake -q -gnat2012 -gnatW8 -gnatws -O0 %s drv.adb -o drv" % flags, cwd=out, check=False, timeout=600)
    if p.returncode: raise CheckError(" / ".join(l for l in (p.stderr + p.stdout).split("\n") if "error" in l)[:360] or p.stderr[:360])
    return out + "/drv"
def drive_ada(exe, lines, timeout=600):
    out = []; i = 0
    def lim(): resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    while i < len(lines):
        p = subprocess.run([exe], input="\n".join(lines[i:]) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, preexec_fn=lim)
        res = p.stdout.split("\n")[:-1]; out += res; i += len(res)
        if i < len(lines): out.append("CRASH rc=%d %s" % (p.returncode, p.stderr[-200:].replace("\n", " "))); i += 1
        if len([x for x in out if x.startswith("CRASH rc")]) > 30: out += ["SKIPPED"] * (len(lines) - i); break
    return out
