--------------------------------- MODULE Persist -------------------------------
(* Contexts that are used, saved, restored, cloned and dropped.  A slot holds a  *)
(* value or nothing; a blob holds the value its source had when it was saved.    *)
(* Every operation changes the one slot (or blob) it names and no other.         *)
EXTENDS Naturals, Sequences

Set(f, i, v) == [f EXCEPT ![i] = v]
None == <<0, 0>>
\* value after an operation: slots and blobs are functions
SaveTo(slots, blobs, s, b) == Set(blobs, b, slots[s])
RestoreTo(slots, blobs, b, s) == Set(slots, s, blobs[b])
CloneTo(slots, s, t) == Set(slots, t, slots[s])
================================================================================
