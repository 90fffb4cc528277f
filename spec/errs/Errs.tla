-------------------------------- MODULE Errs --------------------------------
(* Errors as layers, the innermost first.  Code 0 is the code of errors that    *)
(* have none.                                                                   *)
EXTENDS Integers, Sequences
Bases == {"std", "new", "errorf", "base", "errorc", "errorcf", "codenew", "codeerrorf"}
Layers == {"stack", "fmt", "withcode", "wrap", "wrapf", "wrapc", "wrapcf", "codewrap", "codewrapf"}
Coded == {"base", "errorc", "errorcf", "codenew", "codeerrorf", "withcode", "wrapc", "wrapcf", "codewrap", "codewrapf"}
HasCode(h) == \E i \in 1..Len(h) : h[i].op \in Coded
\* the outermost code counts
CodeOf(h) == IF HasCode(h) THEN h[CHOOSE i \in 1..Len(h) : h[i].op \in Coded /\ \A j \in (i + 1)..Len(h) : h[j].op \notin Coded].code ELSE 0
\* the text is that of the outermost layer which has one
Texts == {"wrap", "wrapf", "wrapc", "wrapcf", "codewrap", "codewrapf", "fmt"} \cup Bases
Text(h) == CHOOSE i \in 1..Len(h) : h[i].op \in Texts /\ \A j \in (i + 1)..Len(h) : h[j].op \notin Texts
=============================================================================
