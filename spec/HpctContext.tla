---------------------------- MODULE HpctContext ----------------------------
(* The contexts of an HPCToolkit database, << parent, kind, function, file, *)
(* line >> with parents before their children, are read one by one: entry   *)
(* points, functions and loops become nodes; lines and instructions stand   *)
(* for the node around them.  Functions are << name, file, line >>; 0 is    *)
(* none, and for an entry point the function is its name.                   *)
EXTENDS Val

VARIABLES
  ctxs, fns,
  node,   \* context -> context whose node it stands for
  up,     \* context with a node -> the node around it, 0 at the top
  src,    \* context -> << file, line >> it hands on
  name    \* context -> << class, which >>

hcvars == << ctxs, fns, node, up, src, name >>
Func == 0
Loop == 1
Line == 2
Instr == 3
Entry == 4
NoSource == << 0, -1 >>
Named == 1
LoopName == 2
Unknown == 3
EntryName == 4

Kind(k) == ctxs[k][2]
Own(k) == << ctxs[k][4], ctxs[k][5] >>
Parent(k) == ctxs[k][1]
Next1 == Len(node) + 1
FnName(f) == IF f = 0 THEN << Unknown, 0 >> ELSE IF fns[f][1] = 0 THEN << Unknown, 0 >> ELSE << Named, fns[f][1] >>

Begin(cs, fs) == ctxs = cs /\ fns = fs /\ node = << >> /\ up = << >> /\ src = << >> /\ name = << >>
Put(n, u, s, m) == /\ node' = Append(node, n) /\ up' = Append(up, u) /\ src' = Append(src, s) /\ name' = Append(name, m)
                   /\ UNCHANGED << ctxs, fns >>

ReadEntry ==
  /\ Next1 \in DOMAIN ctxs /\ Kind(Next1) = Entry
  /\ Put(Next1, 0, NoSource, << EntryName, ctxs[Next1][3] >>)
ReadFunction ==     \* called from where the context around it is
  /\ Next1 \in DOMAIN ctxs /\ Kind(Next1) = Func
  /\ LET p == Parent(Next1)  f == ctxs[Next1][3] IN
     Put(Next1, node[p],
         IF Kind(p) = Entry /\ f # 0 THEN << fns[f][2], fns[f][3] >>
         ELSE IF Own(Next1) # NoSource THEN Own(Next1) ELSE src[p],
         FnName(f))
ReadLoop ==
  /\ Next1 \in DOMAIN ctxs /\ Kind(Next1) = Loop
  /\ Put(Next1, node[Parent(Next1)], Own(Next1), << LoopName, 0 >>)
ReadInner ==        \* no node of its own
  /\ Next1 \in DOMAIN ctxs /\ Kind(Next1) \in {Line, Instr}
  /\ Put(node[Parent(Next1)], 0, Own(Next1), << Unknown, 0 >>)
AllRead == Len(node) = Len(ctxs)
HasNode(k) == node[k] = k

----------------------------------------------------------------------------
(* Said without reading in order *)
RECURSIVE Around(_)     \* from the context up
Around(k) == IF k = 0 THEN << >> ELSE << k >> \o Around(Parent(k))
Outer(s) == SelectSeq(s, LAMBDA k : Kind(k) \in {Entry, Func, Loop})
NodesRight == \A k \in DOMAIN node : node[k] = Outer(Around(k))[1]
UpRight == \A k \in DOMAIN node : HasNode(k) => LET o == Outer(Around(k)) IN up[k] = IF Len(o) = 1 THEN 0 ELSE o[2]
(* The source of a function: of the first context upwards that has one to   *)
(* give, through functions only, or of the function called by the entry.    *)
Gives(k) == Kind(k) # Func \/ Own(k) # NoSource
SourceRight == \A k \in DOMAIN node : Kind(k) = Func =>
  LET a == Around(k)
      ByEntry(i) == Kind(a[i]) = Func /\ Kind(Parent(a[i])) = Entry /\ ctxs[a[i]][3] # 0
      stop == SetMin({ i \in DOMAIN a : Gives(a[i]) \/ ByEntry(i) }) IN
  src[k] = IF ByEntry(stop) THEN << fns[ctxs[a[stop]][3]][2], fns[ctxs[a[stop]][3]][3] >> ELSE Own(a[stop])
(* Rooted, and acyclic *)
Forest == \A k \in DOMAIN node : HasNode(k) => up[k] < k /\ (up[k] # 0 => HasNode(up[k])) /\ (up[k] = 0 <=> Kind(k) = Entry)
=============================================================================
