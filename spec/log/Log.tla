--------------------------------- MODULE Log ---------------------------------
(* The log of the relay (common/log).  An entry made with a logger has a level  *)
(* and the fields of the logger.  It exists if the logger's level admits it; it *)
(* is then in the log file, on the console if the level of its module, or else  *)
(* of the console, admits it, and at every forwarder whose level admits it.     *)
(* Loggers made from a logger share its levels and outputs and add fields.      *)
EXTENDS Integers, Sequences, FiniteSets

Names == <<"panic", "fatal", "error", "warn", "info", "debug", "trace">>   \* levels 0..6
Letters == <<"P", "F", "E", "W", "I", "D", "T">>
Name(l) == Names[l + 1]
Levels == 0..6
Panic == 0  Info == 4  Debug == 5  Trace == 6

\* fields of a logger: a record of the strings below, "" where there is none
None == [module |-> "", wallet |-> "", chain |-> "", prefix |-> "", extra |-> ""]
Over(f, g) == [k \in DOMAIN f |-> IF g[k] # "" THEN g[k] ELSE f[k]]

Start == [lv |-> Debug, con |-> Trace, mods |-> << >>, caller |-> TRUE, file |-> 0, fw |-> << >>, logs |-> <<None>>, glob |-> 1]
HasMod(s, m) == \E i \in DOMAIN s.mods : s.mods[i].m = m
ModLevel(s, m) == IF HasMod(s, m) THEN LET i == CHOOSE j \in DOMAIN s.mods : s.mods[j].m = m IN s.mods[i].l ELSE s.con
SetMod(s, m, l) == [s EXCEPT !.mods = SelectSeq(@, LAMBDA x : x.m # m) \o <<[m |-> m, l |-> l]>>]

\* the package of who logs names the module of an entry that has none
Module(s, f) == IF f.module # "" THEN f.module ELSE IF s.caller THEN "main" ELSE ""
Wallet(w) == CASE w = "" -> "----" [] w = "a" -> "a---" [] w = "abcd" -> "abcd" [] w = "abcdefgh" -> "abcd" [] OTHER -> "????"
Line(s, f, l, msg) ==
  [lv |-> Letters[l + 1], wallet |-> Wallet(f.wallet), chain |-> IF f.chain = "" THEN "-" ELSE f.chain,
   module |-> IF Module(s, f) = "" THEN "--" ELSE Module(s, f),
   rest |-> f.prefix \o (IF s.caller THEN "@ " ELSE "") \o msg \o (IF f.extra = "" THEN "" ELSE " extra=" \o f.extra)]
Sent(s, f, l, msg) ==
  [lv |-> IF l = 3 THEN "warning" ELSE Name(l), module |-> Module(s, f), wallet |-> f.wallet, chain |-> f.chain, prefix |-> f.prefix, extra |-> f.extra,
   msg |-> msg, src |-> s.caller]

Made(s, l) == l <= s.lv
InFile(s, l) == Made(s, l) /\ s.file # 0
OnConsole(s, f, l) == Made(s, l) /\ l <= (IF Module(s, f) = "" THEN s.con ELSE ModLevel(s, Module(s, f)))
AtForwarder(s, i, l) == Made(s, l) /\ l <= s.fw[i]
=============================================================================
