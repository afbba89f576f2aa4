------------------------------- MODULE Connector -------------------------------
(***************************************************************************)
(* Storage connectors.                                                     *)
(*                                                                         *)
(* Settings: what a connector needs to start, and where its messages go.   *)
(* Saving: a save hands its message to the backend; the backend takes it   *)
(* or refuses it, or the connection breaks before or after that; a driver  *)
(* may hand the message over again only after a break.  A save succeeds    *)
(* when, and only when, the backend said that it took the message.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Kinds == {"redis", "nats", "postgresql", "mysql", "rabbitmq", "tarantool_queue"}

-------------------------------------------------------------------------------
(* settings: functions from names to texts *)
Has(s, n) == n \in DOMAIN s
Get(s, n) == IF Has(s, n) THEN s[n] ELSE ""
IsNumber(x) == x \in {ToString(n) : n \in 0..99}

(* the backend's address is the one configured *)
RightAddress(kind, s, b) ==
  CASE kind = "redis" -> Get(s, "server") = "@ADDR@"
    [] kind = "nats" -> Get(s, "servers") \in b.addresses
    [] kind = "mysql" -> b.up /\ Get(s, "uri") \in b.addresses
    [] OTHER -> Get(s, "host") = "@HOST@" /\ Get(s, "port") = "@PORT@"

(* settings without which the connector does not start *)
Complete(kind, s) ==
  CASE kind = "redis" -> Has(s, "queue") /\ (Has(s, "db") => IsNumber(s["db"]))
    [] kind = "tarantool_queue" -> \A n \in {"max_recons", "timeout", "reconnect"} : IsNumber(Get(s, n))
    [] OTHER -> TRUE

(* b.user, b.password, b.database: what the backend asks for; "" = anything (redis, nats, tarantool: no login) *)
RightLogin(kind, s, b) ==
  CASE kind = "redis" -> Get(s, "password") = b.password
    [] kind = "nats" -> b.user = "" \/ (Has(s, "user") /\ Has(s, "password") /\ s["user"] = b.user /\ s["password"] = b.password)
    [] kind = "postgresql" -> /\ Get(s, "user") = b.user /\ (b.auth = "trust" \/ Get(s, "password") = b.password)
                              /\ Get(s, "database") = b.database
    [] kind = "mysql" -> TRUE      \* part of the uri, see RightAddress
    [] kind = "rabbitmq" -> Get(s, "user") = b.user /\ Get(s, "password") = b.password
    [] kind = "tarantool_queue" -> Get(s, "user") = "" \/ (Get(s, "user") = b.user /\ Get(s, "password") = b.password)

RedisDbExists(s) == Has(s, "db") => s["db"] \in {ToString(n) : n \in 0..15}

InitOk(kind, s, b) ==
  /\ b.up
  /\ Complete(kind, s)
  /\ RightAddress(kind, s, b)
  /\ RightLogin(kind, s, b)
  /\ (kind = "redis" => RedisDbExists(s))

(* where messages go *)
Place(kind, s, b) ==
  CASE kind = "redis" -> <<IF Has(s, "db") THEN s["db"] ELSE "0", Get(s, "queue")>>
    [] kind = "nats" -> <<Get(s, "topic")>>
    [] kind \in {"postgresql", "mysql"} -> <<b.database, Get(s, "table")>>
    [] kind = "rabbitmq" -> <<Get(s, "key"), Get(s, "exchange")>>
    [] kind = "tarantool_queue" -> <<Get(s, "queue")>>

(* no message can get there; a Tarantool that knows users does not let a guest call its queues *)
NoPlace(kind, s, b) ==
  CASE kind = "nats" -> Get(s, "topic") = ""
    [] kind \in {"postgresql", "mysql"} -> Get(s, "table") = ""
    [] kind = "tarantool_queue" -> Get(s, "queue") = "" \/ (Get(s, "user") = "" /\ b.user # "")
    [] OTHER -> FALSE

-------------------------------------------------------------------------------
(* the JSON form of a record, keys in any order *)
JsonForm(r) == [client |-> r.client, packet_id |-> r.packet_id, navigation_unix_time |-> r.navigation_unix_time,
                received_unix_time |-> r.received_unix_time, latitude |-> r.latitude, longitude |-> r.longitude,
                speed |-> r.speed, pdop |-> r.pdop, hdop |-> r.hdop, vdop |-> r.vdop, nsat |-> r.nsat, ns |-> r.ns,
                course |-> r.course,
                an_sensors |-> [i \in 1..Len(r.an_sensors) |-> [sensor_number |-> r.an_sensors[i].sensor_number, value |-> r.an_sensors[i].value]],
                liquid_sensors |-> [i \in 1..Len(r.liquid_sensors) |->
                   [sensor_number |-> r.liquid_sensors[i].sensor_number, error_flag |-> r.liquid_sensors[i].error_flag,
                    value_mm |-> r.liquid_sensors[i].value_mm, value_l |-> r.liquid_sensors[i].value_l]]]

-------------------------------------------------------------------------------
(* one save: st: no, run, ok, err; got: times the backend took it; no: times it refused it; broke: its connection broke *)
Idle == [st |-> "no", got |-> 0, refused |-> 0, broke |-> FALSE]

Taken(v) == v \in {"ok", "slow", "after"}
Refused(v) == v \in {"refuse", "slowrefuse", "fatal"}
Broken(v) == v \in {"before", "after", "stall", "fatal"}

Begin(x) == [x EXCEPT !.st = "run"]
(* may the message be handed over (again)? *)
MayHand(x) == x.st = "run" /\ (x.got + x.refused = 0 \/ x.broke)
Handed(x, v) == [x EXCEPT !.got = @ + (IF Taken(v) THEN 1 ELSE 0), !.refused = @ + (IF Refused(v) THEN 1 ELSE 0),
                          !.broke = @ \/ Broken(v)]
(* conn: no connection to the backend has broken since the connector started *)
MaySucceed(x) == x.st = "run" /\ x.got > 0
MayFail(x, conn) == x.st = "run" /\ (x.refused > 0 \/ x.broke \/ ~conn)
Returned(x, ok) == [x EXCEPT !.st = IF ok THEN "ok" ELSE "err"]
=============================================================================
