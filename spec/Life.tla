-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* Storage and lifetime: the elementary steps underneath the operations.   *)
(*                                                                         *)
(* The state is                                                            *)
(*   blk  blocks obtained from allocators and not given back yet,          *)
(*        block |-> <<allocator, size>>                                    *)
(*   cel  objects alive, address |-> <<type, block it lies in (0: none)>>  *)
(*                                                                         *)
(* A step m is                                                             *)
(*   <<1, b, al, size>>  block b is obtained from al                       *)
(*   <<2, b, al, size>>  block b is given back to al                       *)
(*   <<3, p, t, b>>      an object of type t is constructed at p, in b     *)
(*   <<4, p, t, 0>>      the object of type t at p is destroyed            *)
(*   <<5, p, t, 0>>      the object of type t at p is read, assigned,      *)
(*                       compared, or copied or moved from                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Nothing    == [blk |-> <<>>, cel |-> <<>>]

(* what is wrong with doing m in state L *)
StepFaults(L, m) ==
  CASE m[1] = 1 -> {c \in {"BlockFresh"} : m[2] \in DOMAIN L.blk}
    [] m[1] = 2 ->
         IF m[2] \notin DOMAIN L.blk THEN {"BlockUnknown"}
         ELSE {c \in {"WrongAllocator"} : L.blk[m[2]][1] # m[3]}
         \cup {c \in {"WrongSize"} : L.blk[m[2]][2] # m[4]}
         \cup {c \in {"BlockInUse"} : \E p \in DOMAIN L.cel : L.cel[p][2] = m[2]}
    [] m[1] = 3 -> {c \in {"ConstructOverLive"} : m[2] \in DOMAIN L.cel}
              \cup {c \in {"ConstructOutside"} : m[4] # 0 /\ m[4] \notin DOMAIN L.blk}
    [] m[1] = 4 -> {c \in {"DestroyDead"} :
                      m[2] \notin DOMAIN L.cel \/ L.cel[m[2]][1] # m[3]}
    [] OTHER    -> {c \in {"UseDead"} :
                      m[2] \notin DOMAIN L.cel \/ L.cel[m[2]][1] # m[3]}

StepOn(L, m) ==
  CASE m[1] = 1 -> [L EXCEPT !.blk = (m[2] :> <<m[3], m[4]>>) @@ Drop(@, m[2])]
    [] m[1] = 2 -> [L EXCEPT !.blk = Drop(@, m[2])]
    [] m[1] = 3 -> [L EXCEPT !.cel = (m[2] :> <<m[3], m[4]>>) @@ Drop(@, m[2])]
    [] m[1] = 4 -> [L EXCEPT !.cel = Drop(@, m[2])]
    [] OTHER    -> L

(* state after the steps k.. of ms, and what went wrong underway *)
RECURSIVE Run(_, _, _, _)
Run(L, ms, k, bad) ==
  IF k > Len(ms) THEN [L |-> L, bad |-> bad]
  ELSE Run(StepOn(L, ms[k]), ms, k + 1, bad \cup StepFaults(L, ms[k]))

(* objects in blocks of allocator al with (cell) type t *)
Stored(L) == {p \in DOMAIN L.cel : L.cel[p][2] \in DOMAIN L.blk}
=============================================================================
