------------------------------- MODULE Store --------------------------------
(* A key store holds a key under a password.  dmg: what was done to it.         *)
EXTENDS Naturals, Sequences
\* damages after which a store must not open at all
Fatal(coin) == IF coin = "icx"
               THEN {"cipher", "kdf", "iv", "ivshort", "ivlong", "noiv", "ct", "ctshort", "ctlong", "noct", "mac", "macshort", "nomac", "salt",
                     "nosalt", "n", "nodd", "nzero", "r", "p", "dkshort", "dkzero", "dkneg", "addr", "noaddr", "kind", "coin", "cut", "empty", "nocrypto", "noparams", "type"}
               ELSE {"cipher", "kdf", "ct", "ctlong", "mac", "macshort", "salt", "n", "nodd", "nzero", "coin", "cut", "empty", "type"}
\* changes that do not matter
Harmless(coin) == IF coin = "icx" THEN {"id", "extra", "upper", "order", "dklong"} ELSE {"extra", "order", "upper", "dklong", "addr", "idnew"}
Damages(coin) == Fatal(coin) \cup Harmless(coin)
Opens(s, pw) == pw = s.pw /\ s.dmg \cap Fatal(s.coin) = {}
=============================================================================
