----------------------------- MODULE FactorApi -----------------------------
(* The factor part of the library as a state machine: a heap of immutable   *)
(* factors; every call appends its result (None when the call is refused)   *)
(* and never touches an existing entry.                                     *)
EXTENDS Data
VARIABLE heap

Put(o) == heap' = Append(heap, o)

\* declared roles are contradictory when both sides are given and do not partition the variables
RolesOK(vo, mode, ls, rs) == mode = 3 => (ls \cup rs = ToSet2(vo) /\ ls \cap rs = {})
LeftOf(vo, mode, ls, rs) == CASE mode = 0 -> ToSet2(vo)
                              [] mode = 1 -> ls
                              [] mode = 2 -> ToSet2(vo) \ rs
                              [] OTHER    -> ls

NewFactor(vo, do, vals, mode, ls, rs) ==
    Put(IF RolesOK(vo, mode, ls, rs) THEN Canon(vo, do, vals, LeftOf(vo, mode, ls, rs)) ELSE None)

BinF(op, F, G) == CASE op = "mul" -> FMul(F, G)
                    [] op = "add" -> FAdd(F, G)
                    [] op = "sub" -> FSub(F, G)
                    [] OTHER      -> FDiv(F, G)
Bin(op, i, j) == /\ Compatible(heap[i], heap[j])
                 /\ Put(BinF(op, heap[i], heap[j]))
Scal(op, i, q, rev) == Put(IF rev THEN BinF(op, ConstF(q), heap[i]) ELSE BinF(op, heap[i], ConstF(q)))
CombineAll(xs) == Put(FoldLeft(LAMBDA F, i : FMul(F, heap[i]), heap[xs[1]], SubSeq(xs, 2, Len(xs))))
Restr(i, obs) == Put(FRestrict(heap[i], obs))
FoldVars(op, i, R) == Put(IF op = "marg" THEN FMarg(heap[i], R) ELSE FMax(heap[i], R))
Ren(i, mp) == Put(FRename(heap[i], mp))
=============================================================================
