-------------------------------- MODULE Conf --------------------------------
(* The configuration of the relay: each setting comes from a flag, else from    *)
(* the environment, else from the file, else it has its default "d".            *)
EXTENDS Naturals, Sequences
Sides == {"src", "dst"}
Bools == {"src.bridge_mode", "dst.bridge_mode", "maxSizeTx", "log_writer.localtime", "log_writer.compress"}
\* settings whose default is empty; an empty variable of the environment is none
Blank == {"src.address", "dst.address", "src.endpoint", "dst.endpoint",
          "log_forwarder.vendor", "log_forwarder.address", "log_forwarder.name"}
Maps == {"src.options", "dst.options", "log_forwarder.options"}
Others == {"direction", "offset", "log_level", "console_level", "log_forwarder.level",
           "log_writer.maxsize", "log_writer.maxage", "log_writer.maxbackups"}
Plain == Bools \cup Blank \cup Maps \cup Others
Paths == {"base_dir", "log_writer.filename"}       \* values are places, "d" is none
Keys == {"src.key_store", "dst.key_store"}         \* k1, k2 or one that was made
Secrets == {"src.key_password", "dst.key_password", "src.key_secret", "dst.key_secret"}
Settings == Plain \cup Paths \cup Keys \cup Secrets
Values(s, from) == CASE s \in Bools -> {"d", "v1"}
                     [] s \in Maps -> {"v1", "v2"}
                     [] s \in Blank -> IF from = "env" THEN {"v1", "v2"} ELSE {"d", "v1", "v2"}
                     [] s \in Others -> {"d", "v1", "v2"}
                     [] s \in Paths -> IF from = "env" THEN {"A", "B"} ELSE {"d", "A", "B"}
                     [] s \in Keys -> {"k1", "k2"}
                     [] OTHER -> {"p1", "p2"}
None == "d"
Fresh == [s \in Settings |-> None]
Get(o, from, s) == IF \E i \in 1..Len(o) : o[i].from = from /\ o[i].s = s
                   THEN <<o[CHOOSE i \in 1..Len(o) : o[i].from = from /\ o[i].s = s].v>> ELSE <<>>
\* what counts, with the overrides o on top of the contents of the file
Effective(file, o, s) == LET f == Get(o, "flag", s) e == Get(o, "env", s) IN
                         IF f # <<>> THEN f[1] ELSE IF e # <<>> THEN e[1] ELSE file[s]
KeyOf(side) == IF side = "src" THEN "src.key_store" ELSE "dst.key_store"
PwOf(side) == IF side = "src" THEN "src.key_password" ELSE "dst.key_password"
SecretOf(side) == IF side = "src" THEN "src.key_secret" ELSE "dst.key_secret"
\* the secret file counts before the password
Password(file, o, side) == LET s == Effective(file, o, SecretOf(side)) IN
                           IF s # None THEN s ELSE Effective(file, o, PwOf(side))
StorePw(k) == CASE k = "k1" -> "p1" [] k = "k2" -> "p2"
                [] k \in {"mp1", "np1"} -> "p1" [] k \in {"mp2", "np2"} -> "p2" [] OTHER -> None
\* a store is opened with the password, or made for it
OkSide(file, o, side) == LET k == Effective(file, o, KeyOf(side)) IN k = None \/ StorePw(k) = Password(file, o, side)
Ok(file, o) == \A side \in Sides : OkSide(file, o, side)
Made(side, p) == (IF side = "src" THEN "m" ELSE "n") \o p
After(file, o) == [s \in Settings |->
   IF s \in {"src.key_password", "dst.key_password"} THEN None       \* passwords are not kept
   ELSE IF s \in Keys /\ Effective(file, o, s) = None
        THEN LET side == IF s = "src.key_store" THEN "src" ELSE "dst" IN Made(side, Password(file, o, side))
   ELSE Effective(file, o, s)]
=============================================================================
