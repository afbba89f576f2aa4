-------------------------------- MODULE Startup --------------------------------
(***************************************************************************)
(* Starting the receiver.  A configuration c:                              *)
(*   file    none (not named), missing, unreadable, malformed, fine        *)
(*   stores  the storages it names: ok, fails (cannot be initialised) or   *)
(*           unknown                                                       *)
(*   busy    somebody else listens there already                           *)
(* The storages are initialised one after the other, in any order, until   *)
(* one fails; then, and also if there are none, the log is added.          *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

TheLog == "log"

Reads(file) == file = "fine"

(* what records may end up with *)
SinkSets(stores) ==
  LET names == DOMAIN stores
      good == {n \in names : stores[n] = "ok"}
  IN IF names = {} THEN {{TheLog}}
     ELSE IF good = names THEN {names, names \cup {TheLog}}
     ELSE {s \cup {TheLog} : s \in SUBSET good}

-------------------------------------------------------------------------------
(* log levels: less severe lines than the configured ones are not written *)
Severity(l) == CASE l = "debug" -> 0 [] l = "info" -> 1 [] l = "warning" -> 2 [] l = "error" -> 3 [] OTHER -> 4
Configured(l) == CASE l = "DEBUG" -> 0 [] l = "INFO" -> 1 [] l = "WARN" -> 2 [] l = "ERROR" -> 3 [] OTHER -> 1
Written(l, cfg) == Severity(l) >= Configured(cfg)
(* records are printed as information *)
LogShows(cfg) == Written("info", cfg)
=============================================================================
