-------------------------------- MODULE Files --------------------------------
(* The files the library is given by name.  disk: name -> content; other     *)
(* programs change it too (Put, Delete).  A content is whatever the user of  *)
(* this module takes for one (TraceFont: an index; MCFiles: the bytes); 0 is *)
(* a content that is not known, and the file may then also be missing.       *)
(*                                                                           *)
(* Names besides plain ones: "link" stands for the file "a"; "sub" is a      *)
(* directory, "no/x" is in a directory that does not exist, and "full" is a  *)
(* device that accepts no data.                                              *)
EXTENDS FontSystem

VARIABLE disk

NoFiles == [p \in {} |-> 0]
Resolved(p) == IF p = "link" THEN "a" ELSE p
Special == {"sub", "no/x", "full"}
Readable(p) == Resolved(p) \in DOMAIN disk
ContentOf(p) == disk[Resolved(p)]

SameDisk == UNCHANGED disk
Put(p, c) == disk' = (Resolved(p) :> c) @@ disk
Delete(p) == disk' = [q \in DOMAIN disk \ {p} |-> disk[q]]

(* Writing font h to p, with outcome ok and content c.  A write that fails   *)
(* leaves a plain file in an unknown state and everything else as it was.    *)
WriteFileD(p, ok, c) ==
  IF ok THEN Put(p, c)
  ELSE IF p \in Special THEN SameDisk
  ELSE Put(p, 0)
=============================================================================
