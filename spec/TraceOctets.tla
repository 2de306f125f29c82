---------------------------- MODULE TraceOctets ----------------------------
EXTENDS Octets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
Ok(r) == r.res = "ok"
Bad(r) ==
  CASE r.kind = "mpi" ->
         IF ~Ok(r) THEN {"integer could not be encoded and read back"}
         ELSE If(r.enc # Mpi(r.v), "wrong multiprecision encoding")
              \cup If(r.back # r.v, "integer read back differently")
              \cup If(r.used # Len(Mpi(r.v)), "wrong number of octets consumed")
              \cup If(r.v # <<>> /\ r.plain # r.v, "wrong octets of an integer")
              \cup If(r.plainback # r.v, "octets converted to a different integer")
    [] r.kind = "mpirefuse" -> If(r.res # "err", "unrepresentable integer not refused")
    [] r.kind = "mpiread" ->
         IF MpiReadable(r.d)
         THEN If(~Ok(r), "readable integer refused")
              \cup If(Ok(r) /\ r.back # MpiVal(r.d), "integer read wrongly")
              \cup If(Ok(r) /\ r.used # 2 + MpiLen(r.d), "wrong number of octets consumed")
         ELSE If(r.res # "err", "truncated integer accepted")
    [] r.kind = "count" ->
         IF ~Ok(r) THEN {"count could not be converted"}
         ELSE If(r.v # CountOf(r.c), "wrong iteration count")
              \cup If(r.back # <<r.c>>, "iteration count coded differently")
    [] r.kind = "badcount" ->
         IF Codable(r.v) = {} THEN If(r.res # "err", "unrepresentable count not refused")
         ELSE If(~Ok(r), "count could not be converted")
              \cup If(Ok(r) /\ r.back # <<CHOOSE c \in Codable(r.v) : TRUE>>, "iteration count coded differently")
    [] r.kind = "fixed" ->
         IF ~Ok(r) THEN {"fixed-width integer could not be converted"}
         ELSE If(r.w # 1 /\ r.enc # PadTo(r.v, r.w), "wrong fixed-width encoding")
              \cup If(r.back # r.v, "fixed-width integer read back differently")
    [] r.kind = "hex" ->
         IF ~Ok(r) THEN {"hexadecimal conversion failed"}
         ELSE If(r.min # HexMin(r.v), "wrong hexadecimal digits")
              \cup If(r.padded # LastN(Hex(PadTo(r.v, r.size \div 2)), r.size), "wrong hexadecimal digits at a fixed width")
    [] r.kind = "hexb" ->
         IF ~Ok(r) THEN {"hexadecimal conversion failed"}
         ELSE If(r.all # Hex(r.v), "wrong hexadecimal of octets")
              \cup If(r.part # Hex(r.v), "wrong hexadecimal of octets at an offset")
              \cup If(r.back # r.v, "hexadecimal converted back differently")
              \cup If(r.backpad # PadTo(r.v, Len(r.v) + 3), "hexadecimal padded wrongly")
    [] r.kind = "crc" ->
         IF ~Ok(r) THEN {"checksum failed"} ELSE If(r.crc # Crc24(r.v), "wrong checksum")
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
