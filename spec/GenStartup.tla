------------------------------- MODULE GenStartup -------------------------------
(***************************************************************************)
(* Configurations of the receiver: every set of storages of some size, in  *)
(* every condition; levels, lifetimes and addresses; unusable files.       *)
(***************************************************************************)
EXTENDS ConnectorSettings, Json, IOUtils

Thorough == IOEnv.GEN_TIER = "thorough"

Modes == {"ok", "down", "unset", "login", "null"}
Mandatory(kind) == CASE kind = "redis" -> "server" [] kind = "nats" -> "servers" [] kind = "mysql" -> "uri" [] OTHER -> "host"

Storage(kind, mode) ==
  IF kind \notin Kinds THEN [name |-> kind, settings |-> <<>>, backend |-> [Right("redis", "") EXCEPT !.kind = "none"]]
  ELSE [name |-> kind,
        settings |-> CASE mode = "null" -> <<>> [] mode = "unset" -> Without(Base(kind, "secret"), Mandatory(kind)) [] OTHER -> Base(kind, "secret"),
        backend |-> Fix(CASE mode = "down" -> [Right(kind, "secret") EXCEPT !.up = FALSE]
                          [] mode = "login" -> [Right(kind, "secret") EXCEPT !.password = "changed"]
                          [] OTHER -> Right(kind, "secret"))]

Conf(stores) == [file |-> "fine", stores |-> stores, level |-> "DEBUG", ttl |-> 2, host |-> "specific", busy |-> FALSE, refuse |-> <<>>]
Of(f) == LET ks == SetToSeq(DOMAIN f) IN Conf([i \in 1..Len(ks) |-> Storage(ks[i], f[ks[i]])])

Unknowns == {"clickhouse", "Redis", "postgres", "log", "rabbitmq2"}
AllOk(s) == Of([k \in s |-> "ok"])

StoreCases ==
  {AllOk(s) : s \in {s \in SUBSET Kinds : Cardinality(s) \in IF Thorough THEN 0..6 ELSE {0, 1, 2, 6}}}
  \cup UNION {{Of(k :> m) : m \in Modes} : k \in Kinds}
  \cup UNION {{Of((k :> m) @@ (j :> "ok")) : m \in Modes, j \in Kinds \ {k}} : k \in Kinds}
  \cup {Of(u :> "ok") : u \in Unknowns}
  \cup {Of((u :> "ok") @@ (k :> "ok")) : u \in Unknowns, k \in Kinds}
  \cup {Of([k \in Kinds |-> IF k \in d THEN "down" ELSE "ok"]) : d \in {d \in SUBSET Kinds : Cardinality(d) \in IF Thorough THEN 1..6 ELSE {1, 6}}}
  \cup (IF Thorough THEN UNION {{Of((k :> m) @@ (j :> n)) : m \in Modes, n \in Modes, j \in Kinds \ {k}} : k \in Kinds} ELSE {})

Levels == {"DEBUG", "INFO", "WARN", "ERROR", "", "LOUD"}
Hosts == {"specific", "any", "empty", "localhost"}
Redis == AllOk({"redis"})
OtherCases ==
  {[c EXCEPT !.level = l] : l \in Levels, c \in {Redis, AllOk({}), Of("nats" :> "down"), AllOk({"postgresql", "tarantool_queue"})}}
  \cup {[Redis EXCEPT !.ttl = t, !.level = l] : t \in {1, 2, 3, 4} \cup (IF Thorough THEN {7, 12} ELSE {}), l \in {"DEBUG", "ERROR"}}
  \cup {[Redis EXCEPT !.host = h, !.ttl = t] : h \in Hosts, t \in {1, 3}}
  \cup {[c EXCEPT !.busy = TRUE] : c \in {Redis, AllOk({})}}
  \cup {[Redis EXCEPT !.file = f] : f \in {"none", "missing", "unreadable"}}

(* refuse: in each sequence, the storages (by position) that refuse the record of that number *)
RefuseCases ==
  {[AllOk({k}) EXCEPT !.refuse = q] : k \in Kinds, q \in {<<{1}>>, <<{}, {1}, {}>>, <<{1}, {}, {1}>>}}
  \cup {[AllOk({k, j}) EXCEPT !.refuse = q] : k \in Kinds, j \in Kinds, q \in {<<{1}, {2}>>, <<{2}, {}, {1, 2}>>}}

ASSUME ndJsonSerialize(IOEnv.GEN_OUT, SetToSeq(IF IOEnv.GEN_WHAT = "refuse" THEN RefuseCases ELSE StoreCases \cup OtherCases))

VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
