with Interfaces; use Interfaces; with adaasn1rtl; use adaasn1rtl; with adaasn1rtl.encoding; use adaasn1rtl.encoding; with adaasn1rtl.encoding.uper; use adaasn1rtl.encoding.uper;
with Ada.Command_Line; use Ada.Command_Line;
procedure demo is
   bs : Bitstream := BitStream_init (400);
   a, b : Asn1ObjectIdentifier; r : ASN1_RESULT;
begin
   ObjectIdentifier_Init (a);
   a.Length := 3; a.values (1) := 2; a.values (2) := 5; a.values (3) := 2**60 + 77;
   ObjectIdentifier_uper_encode (bs, a);
   bs.Current_Bit_Pos := 0;
   ObjectIdentifier_uper_decode (bs, b, r);
   if not r.Success or else b.Length /= 3 or else b.values (3) /= a.values (3) then Set_Exit_Status (1); end if;
end demo;
