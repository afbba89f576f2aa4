--------------------------- MODULE ConnectorSettings ---------------------------
(***************************************************************************)
(* Settings of the storage connectors, and the backends they may meet.     *)
(***************************************************************************)
EXTENDS Connector, SequencesExt

Passwords == {"secret", "p@ss w0rd", "it's \\ \"q\" sslmode=x", "a=b c:d/e#f?g%h&i", ""}

Uri(pw) == "my:" \o pw \o "@tcp(@ADDR@)/rdb"

Base(kind, pw) ==
  CASE kind = "redis" -> [server |-> "@ADDR@", queue |-> "egts", password |-> pw, db |-> "3"]
    [] kind = "nats" -> [servers |-> "nats://@ADDR@", topic |-> "receiver.x", user |-> "us", password |-> pw]
    [] kind = "postgresql" -> [host |-> "@HOST@", port |-> "@PORT@", user |-> "pg", password |-> pw, database |-> "rdb",
                               table |-> "points", sslmode |-> "disable"]
    [] kind = "mysql" -> [uri |-> Uri(pw), database |-> "rdb", table |-> "points"]
    [] kind = "rabbitmq" -> [host |-> "@HOST@", port |-> "@PORT@", user |-> "gu", password |-> pw, exchange |-> "ex", key |-> "k.1"]
    [] kind = "tarantool_queue" -> [host |-> "@HOST@", port |-> "@PORT@", user |-> "tu", password |-> pw, queue |-> "points",
                                    max_recons |-> "5", timeout |-> "1", reconnect |-> "1"]

User(kind) == CASE kind = "nats" -> "us" [] kind = "postgresql" -> "pg" [] kind = "mysql" -> "my" [] kind = "rabbitmq" -> "gu"
                [] kind = "tarantool_queue" -> "tu" [] OTHER -> ""
Right(kind, pw) ==
  [kind |-> kind, up |-> TRUE, user |-> User(kind), password |-> pw, auth |-> "",
   database |-> IF kind \in {"postgresql", "mysql"} THEN "rdb" ELSE "",
   places |-> <<>>,
   addresses |-> CASE kind = "nats" -> {"nats://@ADDR@", "@ADDR@", "nats://127.0.0.2:9, nats://@ADDR@", "nats://@ADDR@,nats://127.0.0.2:9"}
                   [] kind = "mysql" -> {Uri(pw)}
                   [] OTHER -> {}]

Without(s, n) == [x \in DOMAIN s \ {n} |-> s[x]]
With(s, n, v) == [x \in DOMAIN s \cup {n} |-> IF x = n THEN v ELSE s[x]]

Others(n) ==
  CASE n \in {"host"} -> {"127.0.0.2"}
    [] n = "port" -> {"9", "x"}
    [] n = "server" -> {"127.0.0.2:9"}
    [] n = "servers" -> {"nats://127.0.0.2:9", "nats://127.0.0.2:9, nats://@ADDR@", "nats://@ADDR@,nats://127.0.0.2:9", "@ADDR@"}
    [] n = "uri" -> {"my:secret@tcp(127.0.0.2:9)/rdb", "my:wrong@tcp(@ADDR@)/rdb", "other:secret@tcp(@ADDR@)/rdb", "my:secret@tcp(@ADDR@)/other", "@ADDR@"}
    [] n \in {"max_recons", "reconnect"} -> {"x", "", "1.5", "0", "2"}
    [] n = "timeout" -> {"x", "", "2", "10"}
    [] n = "db" -> {"0", "1", "15", "16", "x", ""}
    [] n = "sslmode" -> {}
    [] OTHER -> {"other"}

Settings(kind, pw) ==
  LET s == Base(kind, pw) IN
  {s} \cup {Without(s, n) : n \in DOMAIN s \ {"sslmode"}}
      \cup UNION {{With(s, n, v) : v \in Others(n)} : n \in DOMAIN s}
      \cup {With(s, "plugin", "x.so")}
      \cup (IF kind = "redis" THEN {Without(Without(s, "db"), "password")} ELSE {})
      \cup (IF kind \in {"nats", "tarantool_queue"} THEN {Without(Without(s, "user"), "password")} ELSE {})

Place1(kind) == CASE kind = "redis" -> "egts" [] kind = "nats" -> "receiver.x" [] kind = "rabbitmq" -> "ex" [] OTHER -> "points"
Backends(kind, pw) ==
  LET b == Right(kind, pw) IN
  {b, [b EXCEPT !.up = FALSE], [b EXCEPT !.password = "changed"],
   [b EXCEPT !.places = <<Place1(kind)>>], [b EXCEPT !.places = <<"elsewhere">>]}
  \cup (IF kind \in {"nats", "tarantool_queue"} THEN {[b EXCEPT !.user = "", !.password = ""]} ELSE {})
  \cup (IF kind = "postgresql" THEN {[b EXCEPT !.auth = "md5"], [b EXCEPT !.auth = "trust"], [b EXCEPT !.database = "another"]} ELSE {})
  \cup (IF kind = "mysql" THEN {[b EXCEPT !.database = "another"]} ELSE {})

(* mysql: a login is part of the uri, so every change of the backend makes the uri a wrong one *)
Fix(b) == IF b.kind = "mysql" /\ (b.password = "changed" \/ b.database = "another") THEN [b EXCEPT !.addresses = {}] ELSE b
(* NATS and Tarantool let everybody in when they know no users *)
Usable(kind, pw) == kind = "mysql" => pw \in {"secret", "p@ss w0rd", "a=b c:d/e#f?g%h&i"}
NoLogin(kind, pw) == kind = "redis" /\ pw = ""   \* a redis without a password

=============================================================================
