------------------------------ MODULE LogDesign ------------------------------
(* Whatever is set in whatever order: what is on the console or forwarded was   *)
(* made, nothing made is missing from the file, raising a level never hides an  *)
(* entry, and a module's level concerns that module alone.                      *)
EXTENDS Log, TLC
VARIABLE s
Mods == {"a", "b"}
Init == s = Start
Next == \/ \E x \in Levels : s' = [s EXCEPT !.lv = x]
        \/ \E x \in Levels : s' = [s EXCEPT !.con = x]
        \/ \E m \in Mods, x \in Levels : s' = SetMod([s EXCEPT !.mods = SelectSeq(@, LAMBDA y : y.m # m)], m, x)
        \/ \E b \in BOOLEAN : s' = [s EXCEPT !.caller = b]
        \/ s' = [s EXCEPT !.file = 1 - @]
Spec == Init /\ [][Next]_s
F(m) == [None EXCEPT !.module = m]
Fs == {F(m) : m \in {"", "a", "b", "c"}}
OnlyMade == \A f \in Fs, x \in Levels : OnConsole(s, f, x) => Made(s, x)
Whole == s.file = 1 => \A f \in Fs, x \in Levels : OnConsole(s, f, x) => InFile(s, x)
Severe == \A f \in Fs, x \in Levels : OnConsole(s, f, x) => \A y \in 0..x : OnConsole(s, f, y)
Alone == \A m \in Mods, x \in Levels : \A f \in Fs : f.module # m => \A y \in Levels : OnConsole(SetMod(s, m, x), f, y) = OnConsole(s, f, y)
Raise == \A x \in Levels : x >= s.con => \A f \in Fs, y \in Levels : OnConsole(s, f, y) => OnConsole([s EXCEPT !.con = x], f, y)
=============================================================================
