------------------------------- MODULE Cursor -------------------------------
(***************************************************************************)
(* Iterators as cursors over a sequence. A collection is a sequence of     *)
(* segments, given by their lengths; a cursor over a segment (local) or    *)
(* over the whole collection (global) is a position 0..n, n being the end. *)
(* Answer defines what each operation on a cursor at p, with argument q    *)
(* (another position, or an offset), yields:                               *)
(*   a cursor is reported as <<position, element>>, where position counts  *)
(*   the increments from the beginning and element is the index read       *)
(*   through it, -1 at the end;                                            *)
(*   comparisons yield 0 or 1, differences a number.                       *)
(*                                                                         *)
(* CursorModel walks two cursors at random over it and checks the laws of  *)
(* their category; CursorTrace validates what the real iterators answered. *)
(***************************************************************************)
EXTENDS Integers, Sequences

El(n, p) == IF p = n THEN -1 ELSE p
At(n, p) == <<p, El(n, p)>>
B(x)     == IF x THEN 1 ELSE 0
Ids(n)   == [k \in 1..n |-> k - 1]

(* operation, length, position, argument *)
Forward == {"der", "arrow", "inc", "incp", "incd", "copy", "assign", "swap",
            "eq", "ne", "cvt", "cvta", "next", "dist"}
Random  == Forward \cup {"dec", "decp", "add", "radd", "addeq", "sub", "subeq",
            "diff", "idx", "lt", "le", "gt", "ge", "prev", "rev", "adv"}

Enabled(op, n, p, q) ==
  CASE op \in {"der", "arrow", "inc", "incp", "incd"} -> p < n
    [] op \in {"dec", "decp", "prev", "rev"} -> p > 0
    [] op \in {"add", "radd", "addeq", "next", "adv"} -> p + q \in 0..n
    [] op \in {"sub", "subeq"} -> p - q \in 0..n
    [] op = "idx" -> p + q \in 0..(n - 1)
    [] OTHER -> TRUE

Answer(op, n, p, q) ==
  CASE op \in {"der", "arrow"}          -> <<p>>
    [] op = "inc"                       -> At(n, p + 1) \o At(n, p + 1)
    [] op = "incp"                      -> At(n, p + 1) \o At(n, p)
    [] op = "incd"                      -> At(n, p + 1) \o <<p>>   \* *it++
    [] op = "dec"                       -> At(n, p - 1) \o At(n, p - 1)
    [] op = "decp"                      -> At(n, p - 1) \o At(n, p)
    [] op \in {"copy", "cvt", "cvta"}   -> At(n, p)
    [] op = "assign"                    -> At(n, q) \o At(n, q)
    [] op = "swap"                      -> At(n, q) \o At(n, p)
    [] op \in {"add", "radd", "addeq", "next", "adv"} -> At(n, p + q)
    [] op \in {"sub", "subeq"}          -> At(n, p - q)
    [] op = "prev"                      -> At(n, p - 1)
    [] op = "rev"                       -> <<p - 1>>   \* *reverse_iterator(it)
    [] op \in {"diff"}                  -> <<p - q>>
    [] op = "dist"                      -> <<p>>
    [] op = "idx"                       -> <<p + q>>
    [] op = "eq"                        -> <<B(p = q)>>
    [] op = "ne"                        -> <<B(p # q)>>
    [] op = "lt"                        -> <<B(p < q)>>
    [] op = "le"                        -> <<B(p <= q)>>
    [] op = "gt"                        -> <<B(p > q)>>
    [] op = "ge"                        -> <<B(p >= q)>>
    [] op = "trav"                      -> Ids(n)
    [] op \in {"dflt", "cat"}           -> <<1>>
    [] op = "reverse"                   -> [k \in 1..n |-> n - k]
    [] op = "sort"                      -> Ids(n)
=============================================================================
