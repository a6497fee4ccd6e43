------------------------------ MODULE Readers -------------------------------
(***************************************************************************)
(* Several threads looking up types in one collection without any          *)
(* synchronisation. A collection holds a map from types to segments and a  *)
(* cache from type_info addresses to entries of the map. A type_info of a  *)
(* type may have several addresses (its aliases). A look-up reads the      *)
(* cache bucket of the address and, if it is not there, the map; memory is *)
(* accessed in steps that take time (they begin and end), so that accesses *)
(* of different threads can overlap in every possible way.                 *)
(*                                                                         *)
(* With Memo, a look-up that misses the cache records the address in it,   *)
(* as the look-ups of non-const collections do. NoRace says that no two    *)
(* overlapping accesses to the same cell include a write: it must hold     *)
(* without Memo, for any interleaving, and fail with it. That the          *)
(* implementation of const operations has no writes in its footprint is    *)
(* what ReadOnlyTrace decides on the real code.                            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Types, Aliases, NBuckets, Lookups, Memo

Addr  == Types \X Aliases
Bucket(a) == (a[1] + 2 * a[2]) % NBuckets
NoAddr == <<-1, -1>>
None   == [c |-> <<"none", 0>>, w |-> FALSE]

VARIABLES registered,   \* types in the map
          cache,        \* addresses in the cache
          pc, arg, acc, \* of each thread: where it is, what it looks up,
                        \* the access under way
          left, out     \* look-ups to do; results: <<address, found>>
vars == <<registered, cache, pc, arg, acc, left, out>>

Init ==
  /\ registered \in SUBSET Types
  /\ cache \in SUBSET {a \in Addr : a[1] \in registered}
  /\ pc   = [t \in Threads |-> "idle"]
  /\ arg  = [t \in Threads |-> NoAddr]
  /\ acc  = [t \in Threads |-> None]
  /\ left = [t \in Threads |-> Lookups]
  /\ out  = {}

Begin(t, c, w) == acc' = [acc EXCEPT ![t] = [c |-> c, w |-> w]]
Go(t, l) == pc' = [pc EXCEPT ![t] = l]

Start(t) ==
  /\ pc[t] = "idle" /\ left[t] > 0
  /\ \E a \in Addr : /\ arg' = [arg EXCEPT ![t] = a]
                     /\ Begin(t, <<"cache", Bucket(a)>>, FALSE)
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ Go(t, "cache") /\ UNCHANGED <<registered, cache, out>>

Done(t, found) ==
  /\ out' = out \cup {<<arg[t], found>>}
  /\ acc' = [acc EXCEPT ![t] = None]
  /\ Go(t, "idle") /\ UNCHANGED <<registered, arg, left>>

Cached(t) ==
  /\ pc[t] = "cache"
  /\ \/ arg[t] \in cache /\ Done(t, TRUE) /\ UNCHANGED cache
     \/ /\ arg[t] \notin cache
        /\ Begin(t, <<"map", arg[t][1]>>, FALSE)
        /\ Go(t, "map") /\ UNCHANGED <<registered, cache, arg, left, out>>

Mapped(t) ==
  /\ pc[t] = "map"
  /\ IF Memo /\ arg[t][1] \in registered
     THEN /\ Begin(t, <<"cache", Bucket(arg[t])>>, TRUE)
          /\ Go(t, "memo") /\ UNCHANGED <<registered, cache, arg, left, out>>
     ELSE Done(t, arg[t][1] \in registered) /\ UNCHANGED cache

Memoed(t) ==
  /\ pc[t] = "memo"
  /\ cache' = cache \cup {arg[t]}
  /\ Done(t, TRUE)

Next == \E t \in Threads : Start(t) \/ Cached(t) \/ Mapped(t) \/ Memoed(t)
Spec == Init /\ [][Next]_vars

NoRace ==
  \A t, u \in Threads :
    t # u /\ acc[t].c = acc[u].c /\ acc[t].c # None.c => ~acc[t].w /\ ~acc[u].w
(* every thread gets what it would have got alone *)
Exact  == \A o \in out : o[2] = (o[1][1] \in registered)
Unchanged == [][cache' = cache /\ registered' = registered]_vars
=============================================================================
