--------------------------------- MODULE Bits ---------------------------------
(***************************************************************************)
(* Bytes, bit strings, little-endian integers and the two EGTS checksums.  *)
(*                                                                         *)
(* A byte string is a sequence of 0..255.  TLC integers have 32 bits, so a *)
(* 24- or 32-bit quantity is the pair <<low 16 bits, high bits>>.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

Byte == 0..255

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>

(* bits [lo, lo+w) of the number n *)
Bits(n, lo, w) == (n \div Pow2[lo + 1]) % Pow2[w + 1]

Str1 == <<"0", "1">>
Str2 == <<"00", "01", "10", "11">>
BitStr(n, w) == IF w = 1 THEN Str1[n + 1] ELSE Str2[n + 1]
(* flags are strings of bits; one that was never set is zero *)
IsBitStr(s, w) == s = "" \/ IF w = 1 THEN s \in {"0", "1"} ELSE s \in {"00", "01", "10", "11"}
StrBits(s) == CASE s \in {"", "0", "00"} -> 0 [] s \in {"1", "01"} -> 1 [] s = "10" -> 2 [] s = "11" -> 3

U16(b, p) == b[p] + 256 * b[p + 1]
U24(b, p) == <<b[p] + 256 * b[p + 1], b[p + 2]>>
U32(b, p) == <<b[p] + 256 * b[p + 1], b[p + 2] + 256 * b[p + 3]>>

E16(n) == <<n % 256, n \div 256>>
E24(v) == <<v[1] % 256, v[1] \div 256, v[2] % 256>>
E32(v) == <<v[1] % 256, v[1] \div 256, v[2] % 256, v[2] \div 256>>

(* v - 1 on pairs *)
Dec32(v) == IF v[1] > 0 THEN <<v[1] - 1, v[2]>> ELSE <<65535, v[2] - 1>>

-------------------------------------------------------------------------------
(* CRC-8: polynomial 0x31, initial value 0xFF, most significant bit first. *)
Crc8Step(c) == IF c >= 128 THEN ((2 * c) % 256) ^^ 49 ELSE 2 * c
Crc8Byte(c) == Crc8Step(Crc8Step(Crc8Step(Crc8Step(Crc8Step(Crc8Step(Crc8Step(Crc8Step(c))))))))
Crc8Table == [i \in 0..255 |-> Crc8Byte(i)]
Crc8(b) == FoldLeft(LAMBDA c, x : Crc8Table[c ^^ x], 255, b)

(* CRC-16-CCITT: polynomial 0x1021, initial value 0xFFFF, MSB first. *)
Crc16Step(c) == IF c >= 32768 THEN ((2 * c) % 65536) ^^ 4129 ELSE 2 * c
Crc16Byte(c) == Crc16Step(Crc16Step(Crc16Step(Crc16Step(Crc16Step(Crc16Step(Crc16Step(Crc16Step(c))))))))
Crc16Table == [i \in 0..255 |-> Crc16Byte(i * 256)]
Crc16(b) == FoldLeft(LAMBDA c, x : ((c % 256) * 256) ^^ Crc16Table[(c \div 256) ^^ x], 65535, b)

ASSUME /\ Crc8(<<1, 0, 0, 11, 0, 177, 0, 232, 4, 1>>) = 78        \* a packet of the repository's test
       /\ Crc8(<<49, 50, 51, 52, 53, 54, 55, 56, 57>>) = 247      \* check value of CRC-8/NRSC-5
       /\ Crc16(<<49, 50, 51, 52, 53, 54, 55, 56, 57>>) = 10673   \* 0x29B1, CRC-16/CCITT-FALSE
=============================================================================
