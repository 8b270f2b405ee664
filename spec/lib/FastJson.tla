------------------------------ MODULE FastJson ------------------------------
(* Reading a recorded trace.  tools/java/FastJson.java overrides LoadNd with *)
(* a quicker parser of the same format; the definition is the standard one.  *)
EXTENDS Json
LoadNd(file) == ndJsonDeserialize(file)
=============================================================================
