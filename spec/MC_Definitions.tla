--------------------------- MODULE MC_Definitions ---------------------------
(* Kind 1 may refer to another of its kind, kind 2 to one of kind 1, and to *)
(* several of either; kind 3 shares numbers with kind 1; kind 4 has none.   *)
EXTENDS Definitions, TLC, Json
CONSTANTS MaxDefs

Numbered(ks) == Cardinality({ x \in DOMAIN defs : defs[x][1] \in ks })
Ref(k) == { << 1, k, defs[x][2] >> : x \in { y \in DOMAIN defs : defs[y][1] = k } }
AnyRef == { << 1, defs[x][1], defs[x][2] >> : x \in { y \in DOMAIN defs : defs[y][2] >= 0 } }
NewDefs ==
  { << 1, Numbered({1, 3}), << << 0, Len(defs) >>, p >> >> : p \in Ref(1) \cup {<< 2 >>} }
  \cup { << 2, Numbered({2}), << p, << 3, s >> >> >> : p \in Ref(1), s \in { << >> } \cup { << a, b >> : a \in AnyRef, b \in AnyRef } }
  \cup { << 3, Numbered({1, 3}), << << 0, Len(defs) >>, p >> >> : p \in Ref(1) }
  \cup { << 4, -1, << p, << 0, 1 >> >> >> : p \in Ref(2) }

Init == defs = << >> /\ mode = "record" /\ left = {} /\ at = 0 /\ table = << >>
DoDefine == Len(defs) < MaxDefs /\ \E d \in NewDefs : Define(d)
DoRead == defs # << >> /\ StartReading
DoLook == left # {} /\ Look(SetMin(left))
DoKindDone == left # {} /\ KindDone(SetMin(left))
Next == DoDefine \/ DoRead \/ DoLook \/ DoKindDone \/ AllRead
Spec == Init /\ [][Next]_dfvars

GenNext == DoDefine \/ (/\ Len(defs) = MaxDefs /\ mode = "record" /\ PrintT("G " \o ToJson(defs)) /\ mode' = "printed" /\ UNCHANGED << defs, left, at, table >>)
GenSpec == Init /\ [][GenNext]_dfvars
=============================================================================
