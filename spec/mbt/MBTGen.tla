------------------------------ MODULE MBTGen -------------------------------
EXTENDS MBTDesign
Emit == kind = "forge" => PrintT("SCN" \o ToJson(arg))
=============================================================================
