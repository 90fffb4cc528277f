---------------------------- MODULE MTAAttackGen ----------------------------
EXTENDS MTAVerify, Json
Emit == PrintT("SCN" \o ToJson([n |-> n, wl |-> wl, ws |-> ws, h |-> h]))
=============================================================================
