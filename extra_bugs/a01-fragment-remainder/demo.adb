with Interfaces; use Interfaces; with adaasn1rtl; use adaasn1rtl; with adaasn1rtl.encoding; use adaasn1rtl.encoding; with adaasn1rtl.encoding.uper; use adaasn1rtl.encoding.uper;
with Ada.Command_Line; use Ada.Command_Line;
procedure demo is
   n : constant := 16384 + 127;
   bs : Bitstream := BitStream_init (70_000);
   a : OctetBuffer (1 .. 70_000) := (others => 16#A5#);
begin
   BitStream_EncodeOctetString (bs, a, n, 17, 0, 70_000);
   --  one block header, 16K octets, one octet for the length of the rest, 127 octets
   if bs.Current_Bit_Pos /= 8 * (1 + 16384 + 1 + 127) or bs.Buffer (16386) /= 127 then Set_Exit_Status (1); end if;
end demo;
