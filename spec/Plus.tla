--------------------------------- MODULE Plus ---------------------------------
(***************************************************************************)
(* EGTS-plus: the protobuf (proto2) message carried by subrecord type 15.  *)
(* A decoded message is a record of the fields that are present, by name;  *)
(* repeated fields are sequences; "k" is the message name.                 *)
(*   u32  varint, low 32 bits        s32  zigzag varint                    *)
(*   enum varint, low 32 bits        bool varint # 0                       *)
(*   fix32 four bytes                bytes                                 *)
(* 32-bit values are pairs <<low 16 bits, high 16 bits>>.                  *)
(***************************************************************************)
EXTENDS Bits, FiniteSets

MsgFields(m) ==
  CASE m = "StorageRecord" -> <<
       <<1, "record_number", "u32", "req">>,
       <<2, "time_stamp", "fix32", "req">>,
       <<3, "record_reason", "enum", "rep">>,
       <<4, "status_flags", "fix32", "req">>,
       <<7, "sens_nd_nav_data", "SensNdNavData", "rep">>,
       <<8, "sens_fuel_level", "SensFuelLevel", "rep">>,
       <<9, "sens_ain_ain_value", "SensAinAinValue", "rep">>,
       <<10, "sens_dins_flags", "SensDinsFlags", "rep">>,
       <<11, "sens_counter_count", "SensCounterCount", "rep">>,
       <<12, "sens_fmeter_frequency", "SensFmeterFrequency", "rep">>,
       <<13, "sens_gsm_cell_monotoring_cell_monitoring", "SensGsmCellMonotoringCellMonitoring", "rep">>,
       <<14, "sens_button_press_counter", "SensButtonPressCounter", "rep">>,
       <<15, "sens_termo_data", "SensTermoData", "rep">>,
       <<16, "sens_can_log_data", "SensCanLogData", "rep">>,
       <<17, "sens_can_log_tmp_data_ext", "SensCanLogTmpDataExt", "rep">>,
       <<18, "sens_accelerometer_data", "SensAccelerometerData", "rep">>,
       <<19, "sens_douts_flags", "SensDoutsFlags", "rep">>,
       <<20, "sens_buffer_data", "SensBufferData", "rep">>,
       <<21, "sens_stor_info", "SensStorInfo", "rep">>,
       <<22, "sens_tracker_info", "SensTrackerInfo", "rep">>,
       <<23, "sens_test_era_tests", "SensTestEraTests", "rep">>,
       <<24, "sens_crash_data", "SensCrashData", "rep">> >>
  [] m = "SensAccelerometerData" -> <<
       <<1, "sens_num", "u32", "opt">>,
       <<2, "buf", "bytes", "opt">>,
       <<3, "atm", "u32", "opt">>,
       <<4, "frequency", "u32", "opt">>,
       <<5, "range", "u32", "opt">>,
       <<6, "format", "u32", "opt">>,
       <<7, "zlib", "u32", "opt">> >>
  [] m = "SensAinAinValue" -> <<
       <<1, "sens_num", "u32", "opt">>,
       <<2, "mv", "u32", "opt">> >>
  [] m = "SensBufferData" -> <<
       <<1, "sens_num", "u32", "opt">>,
       <<2, "data", "bytes", "opt">>,
       <<3, "is_packed", "bool", "opt">> >>
  [] m = "SensButtonPressCounter" -> <<
       <<1, "sens_num", "u32", "opt">>,
       <<2, "state", "bool", "opt">> >>
  [] m = "SensCanLogData" -> <<
       <<1, "sens_num", "u32", "opt">>,
       <<2, "flag_security_state", "u32", "opt">>,
       <<3, "flag_alarm", "u32", "opt">>,
       <<4, "engine_time_all", "u32", "opt">>,
       <<5, "engine_turn_speed", "u32", "opt">>,
       <<6, "engine_temperature", "s32", "opt">>,
       <<7, "fuel_consumption_all", "u32", "opt">>,
       <<8, "fuel_level", "u32", "opt">>,
       <<9, "track_all", "u32", "opt">>,
       <<10, "speed", "u32", "opt">>,
       <<11, "pressure_axis_1", "u32", "opt">>,
       <<12, "pressure_axis_2", "u32", "opt">>,
       <<13, "pressure_axis_3", "u32", "opt">>,
       <<14, "pressure_axis_4", "u32", "opt">>,
       <<15, "pressure_axis_5", "u32", "opt">> >>
  [] m = "SensCanLogTmpDataExt" -> <<
       <<1, "sens_num", "u32", "opt">>,
       <<2, "flags_high", "u32", "opt">>,
       <<3, "flags_low", "u32", "opt">> >>
  [] m = "SensCounterCount" -> <<
       <<1, "sens_num", "u32", "opt">>,
       <<2, "value", "u32", "opt">> >>
  [] m = "SensCrashData" -> <<
       <<1, "sens_num", "u32", "opt">>,
       <<2, "energy", "u32", "opt">>,
       <<3, "is_overturned", "bool", "opt">> >>
  [] m = "SensDinsFlags" -> <<
       <<1, "sens_num", "u32", "opt">>,
       <<2, "device", "u32", "opt">>,
       <<3, "external", "u32", "opt">> >>
  [] m = "SensDoutsFlags" -> <<
       <<1, "sens_num", "u32", "opt">>,
       <<2, "device", "u32", "opt">>,
       <<3, "external", "u32", "opt">> >>
  [] m = "SensFmeterFrequency" -> <<
       <<1, "sens_num", "u32", "opt">>,
       <<2, "value", "u32", "opt">> >>
  [] m = "SensFuelLevel" -> <<
       <<1, "sens_num", "u32", "opt">>,
       <<2, "value", "fix32", "opt">>,
       <<3, "parrots", "u32", "opt">>,
       <<4, "unit", "u32", "opt">>,
       <<5, "t", "u32", "opt">>,
       <<6, "status", "u32", "opt">> >>
  [] m = "SensGsmCellMonotoringCellMonitoring" -> <<
       <<1, "sens_num", "u32", "opt">>,
       <<2, "mcc", "u32", "opt">>,
       <<3, "mnc", "u32", "opt">>,
       <<4, "lac", "bytes", "opt">>,
       <<5, "cid", "bytes", "opt">>,
       <<6, "rssi", "bytes", "opt">>,
       <<7, "time_adv", "bytes", "opt">> >>
  [] m = "SensNdNavData" -> <<
       <<1, "sens_num", "u32", "opt">>,
       <<2, "longitude", "fix32", "opt">>,
       <<3, "latitude", "fix32", "opt">>,
       <<4, "altitude", "u32", "opt">>,
       <<5, "speed", "u32", "opt">>,
       <<6, "course", "u32", "opt">>,
       <<7, "sat_count", "u32", "opt">>,
       <<8, "pdop", "u32", "opt">>,
       <<9, "track", "u32", "opt">>,
       <<10, "odometer", "u32", "opt">> >>
  [] m = "SensStorInfo" -> <<
       <<1, "sens_num", "u32", "opt">>,
       <<2, "id_max", "u32", "opt">>,
       <<3, "id_min", "u32", "opt">>,
       <<4, "tm_oldest", "u32", "opt">>,
       <<5, "tm_oldest_unack", "u32", "opt">>,
       <<6, "cnt_unack", "u32", "opt">>,
       <<7, "cnt_unack_losted", "u32", "opt">> >>
  [] m = "SensTermoData" -> <<
       <<1, "sens_num", "u32", "opt">>,
       <<2, "status", "u32", "opt">>,
       <<3, "temperature", "s32", "opt">> >>
  [] m = "SensTestEraTests" -> <<
       <<1, "sens_num", "u32", "opt">>,
       <<2, "mic_con_failure", "bool", "opt">>,
       <<3, "mic_failure", "bool", "opt">>,
       <<4, "ignition_failure", "bool", "opt">>,
       <<5, "uim_failure", "bool", "opt">>,
       <<6, "bat_failure", "bool", "opt">>,
       <<7, "bat_volt_low", "bool", "opt">>,
       <<8, "crash_sens_failure", "bool", "opt">>,
       <<9, "raim_problem", "bool", "opt">>,
       <<10, "gnss_antenna_failure", "bool", "opt">>,
       <<11, "events_memory_overflow", "bool", "opt">> >>
  [] m = "SensTrackerInfo" -> <<
       <<1, "sens_num", "u32", "opt">>,
       <<2, "cnt_ack", "u32", "opt">>,
       <<3, "cnt_ack_realtime", "u32", "opt">>,
       <<4, "cnt_noack", "u32", "opt">>,
       <<5, "cnt_connect", "u32", "opt">> >>

Scalar == {"u32", "s32", "enum", "bool", "fix32", "bytes"}
WireType(t) == IF t \in {"u32", "s32", "enum", "bool"} THEN 0 ELSE IF t = "fix32" THEN 5 ELSE 2

NoVar == [ok |-> FALSE, lo |-> <<0, 0>>, big |-> FALSE, p |-> 0]

(* the varint at b[p..e]: its low 32 bits, whether anything lies above them *)
Varint(b, p, e) ==
  LET RECURSIVE End(_)
      End(q) == IF q > e \/ q - p > 9 THEN 0 ELSE IF b[q] < 128 THEN q ELSE End(q + 1)
      q == End(p)
      S(i) == IF p + i <= q THEN b[p + i] % 128 ELSE 0
  IN IF q = 0 \/ (q - p = 9 /\ b[q] > 1) THEN NoVar
     ELSE [ok |-> TRUE, p |-> q + 1,
           lo |-> << S(0) + 128 * S(1) + 16384 * (S(2) % 4), S(2) \div 4 + 32 * S(3) + 4096 * (S(4) % 16) >>,
           big |-> S(4) >= 16 \/ \E i \in 5..9 : S(i) > 0]

(* tag: field number (0 if it is out of range) and wire type *)
Tag(b, p, e) ==
  LET v == Varint(b, p, e)
      n == (v.lo[1] \div 8) + 8192 * v.lo[2]
  IN IF ~v.ok THEN [ok |-> FALSE]
     ELSE IF v.big \/ n = 0 THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, n |-> n, wt |-> v.lo[1] % 8, p |-> v.p]

(* a length that fits into b[p..e], or -1 *)
Fits(v, e) == v.ok /\ ~v.big /\ v.lo[2] < 256 /\ v.p + v.lo[1] + 65536 * v.lo[2] - 1 <= e
Length(v) == v.lo[1] + 65536 * v.lo[2]

(* position after the field with tag t, 0 if it is malformed *)
RECURSIVE SkipField(_, _, _), SkipGroup(_, _, _, _)
SkipField(t, b, e) ==
  CASE t.wt = 0 -> Varint(b, t.p, e).p
    [] t.wt = 1 -> IF t.p + 7 <= e THEN t.p + 8 ELSE 0
    [] t.wt = 2 -> LET v == Varint(b, t.p, e) IN IF Fits(v, e) THEN v.p + Length(v) ELSE 0
    [] t.wt = 5 -> IF t.p + 3 <= e THEN t.p + 4 ELSE 0
    [] t.wt = 3 -> SkipGroup(t.n, b, t.p, e)
    [] OTHER -> 0
SkipGroup(n, b, p, e) ==
  LET t == Tag(b, p, e) IN
  IF ~t.ok THEN 0
  ELSE IF t.wt = 4 THEN IF t.n = n THEN t.p ELSE 0
  ELSE LET q == SkipField(t, b, e) IN IF q = 0 THEN 0 ELSE SkipGroup(n, b, q, e)

VarValue(ty, v) ==
  CASE ty \in {"u32", "enum"} -> v.lo
    [] ty = "bool" -> v.big \/ v.lo # <<0, 0>>
    [] ty = "s32" -> LET h == << v.lo[1] \div 2 + 32768 * (v.lo[2] % 2), v.lo[2] \div 2 >>
                     IN IF v.lo[1] % 2 = 0 THEN h ELSE << 65535 - h[1], 65535 - h[2] >>

(* packed varints in b[p..e]: [ok, v] *)
Packed(ty, b, p, e) ==
  LET RECURSIVE Loop(_, _)
      Loop(q, acc) == IF q > e THEN [ok |-> TRUE, v |-> acc]
                      ELSE LET x == Varint(b, q, e)
                           IN IF ~x.ok THEN [ok |-> FALSE, v |-> acc] ELSE Loop(x.p, Append(acc, VarValue(ty, x)))
  IN Loop(p, <<>>)

Rows(m, n) == SelectSeq(MsgFields(m), LAMBDA r : r[1] = n)

RECURSIVE DecMsg(_, _, _, _)
(* acc = [ok, p, v] *)
MsgStep(m, acc, b, e) ==
  LET t == Tag(b, acc.p, e)
      bad == [acc EXCEPT !.ok = FALSE]
      unknown == [acc EXCEPT !.p = SkipField(t, b, e), !.ok = SkipField(t, b, e) # 0, !.unk = TRUE]
      AddOne(r, x, q) == IF r[4] = "rep"
                         THEN [acc EXCEPT !.p = q, !.v = (r[2] :> IF r[2] \in DOMAIN acc.v THEN Append(acc.v[r[2]], x) ELSE <<x>>) @@ @]
                         ELSE [acc EXCEPT !.p = q, !.v = (r[2] :> x) @@ @]
      AddAll(r, xs, q) == [acc EXCEPT !.p = q, !.v = (r[2] :> (IF r[2] \in DOMAIN acc.v THEN acc.v[r[2]] ELSE <<>>) \o xs) @@ @]
  IN
  IF ~t.ok THEN bad
  ELSE LET rs == Rows(m, t.n) IN
  IF rs = <<>> THEN unknown
  ELSE LET r == rs[1]  ty == r[3] IN
    IF ty \in Scalar /\ WireType(ty) = 0 /\ t.wt = 0 THEN
         LET v == Varint(b, t.p, e) IN IF v.ok THEN AddOne(r, VarValue(ty, v), v.p) ELSE bad
    ELSE IF ty = "fix32" /\ t.wt = 5 THEN
         IF t.p + 3 <= e THEN AddOne(r, U32(b, t.p), t.p + 4) ELSE bad
    ELSE IF t.wt = 2 /\ (ty = "bytes" \/ ty \notin Scalar \/ (WireType(ty) = 0 /\ r[4] = "rep")) THEN
         LET v == Varint(b, t.p, e) IN
         IF ~Fits(v, e) THEN bad
         ELSE LET q == v.p + Length(v) IN
              IF ty = "bytes" THEN AddOne(r, SubSeq(b, v.p, q - 1), q)
              ELSE IF ty \in Scalar THEN LET x == Packed(ty, b, v.p, q - 1) IN IF x.ok THEN AddAll(r, x.v, q) ELSE bad
              ELSE LET x == DecMsg(ty, b, v.p, q - 1) IN
                   IF ~x.ok THEN bad ELSE [AddOne(r, x.v, q) EXCEPT !.unk = acc.unk \/ x.unk]
    ELSE unknown

DecMsg(m, b, p, e) ==
  LET RECURSIVE Loop(_)
      Loop(acc) == IF ~acc.ok \/ acc.p > e THEN acc ELSE Loop(MsgStep(m, acc, b, e))
  IN Loop([ok |-> TRUE, p |-> p, unk |-> FALSE, v |-> [k |-> m]])

Required(m) == { MsgFields(m)[i][2] : i \in { j \in 1..Len(MsgFields(m)) : MsgFields(m)[j][4] = "req" } }

PlusDec(b) ==
  LET r == DecMsg("StorageRecord", b, 1, Len(b))
  IN IF r.ok /\ Required("StorageRecord") \subseteq DOMAIN r.v THEN r ELSE [r EXCEPT !.ok = FALSE]

PlusIsOk(b) == PlusDec(b).ok

-------------------------------------------------------------------------------
(* the canonical encoding: fields in order of their numbers, minimal varints *)
RECURSIVE EncVar(_), EncLen(_)
EncLen(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o EncLen(n \div 128)
EncVar(v) == IF v[2] = 0 THEN EncLen(v[1])
             ELSE << 128 + (v[1] % 128) >> \o EncVar(<< v[1] \div 128 + 512 * (v[2] % 128), v[2] \div 128 >>)
EncTag(n, wt) == EncLen(n * 8 + wt)
EncScalar(ty, x) ==
  CASE ty \in {"u32", "enum"} -> EncVar(x)
    [] ty = "bool" -> IF x THEN <<1>> ELSE <<0>>
    [] ty = "s32" -> IF x[2] < 32768 THEN EncVar(<< (2 * x[1]) % 65536, 2 * x[2] + x[1] \div 32768 >>)
                     ELSE LET h == << 65535 - x[1], 65535 - x[2] >>
                          IN EncVar(<< ((2 * h[1]) % 65536) + 1, 2 * h[2] + h[1] \div 32768 >>)
    [] ty = "fix32" -> E32(x)
    [] ty = "bytes" -> EncLen(Len(x)) \o x

RECURSIVE EncMsg(_, _)
EncMsg(m, v) ==
  FoldLeft(LAMBDA acc, r :
     IF r[2] \notin DOMAIN v THEN acc
     ELSE LET One(x) == IF r[3] \in Scalar THEN EncTag(r[1], WireType(r[3])) \o EncScalar(r[3], x)
                        ELSE LET d == EncMsg(r[3], x) IN EncTag(r[1], 2) \o EncLen(Len(d)) \o d
          IN acc \o (IF r[4] = "rep" THEN FoldLeft(LAMBDA a, x : a \o One(x), <<>>, v[r[2]]) ELSE One(v[r[2]])),
     <<>>, MsgFields(m))

PlusEnc(v) == EncMsg("StorageRecord", v)

(* is b exactly what the encoder produces for what it says? *)
PlusCanonical(b) == LET r == PlusDec(b) IN r.ok /\ ~r.unk /\ PlusEnc(r.v) = b
=============================================================================
