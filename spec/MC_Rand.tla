------------------------------ MODULE MC_Rand ------------------------------
(* Seeds: a generator with one hidden state, reseeded and used in any       *)
(* order.  What an action draws depends on the seed and on the actions      *)
(* since then only, whatever happened before and between.                   *)
EXTENDS Streams, Json
CONSTANTS SEEDS, ACTS, DEPTH, EMIT
VARIABLES g, steps
vars == <<g, steps>>
\* an instance of a generator: action a consumes a numbers, its result is made of all of them
Nxt(x) == ((5 * x) + 3) % 64
Use(x, a) == FoldLeft(LAMBDA s, i : [x |-> Nxt(s.x), r |-> (s.r * 7 + Nxt(s.x)) % 1009], [x |-> x, r |-> 0], [i \in 1..a |-> i])
Init == g = 11 /\ steps = <<>>
Seed(s) == g' = s /\ steps' = Append(steps, [k |-> "seed", n |-> s, r |-> 0])
Act(a) == LET u == Use(g, a) IN g' = u.x /\ steps' = Append(steps, [k |-> "act", n |-> a, r |-> u.r])
Next == Len(steps) < DEPTH /\ ((\E s \in SEEDS : Seed(s)) \/ (\E a \in ACTS : Act(a)))
Spec == Init /\ [][Next]_vars
Repeats == Repeatable(steps)
\* a generator with a second state that the seed does not reach is told apart
Leaky(st) == [i \in DOMAIN st |-> IF st[i].k = "act" THEN [st[i] EXCEPT !.r = @ + (i % 2)] ELSE st[i]]
Twice == \E i, j \in DOMAIN steps : i < j /\ (j - i) % 2 = 1 /\ steps[i].k = "act" /\ steps[j].k = "act" /\ Key(steps, i) = Key(steps, j) /\ Key(steps, i) # <<>>
Discriminates == Twice => ~Repeatable(Leaky(steps))
Emit == (EMIT /\ Len(steps) = DEPTH) => PrintT(<<"GEN", ToJson([i \in DOMAIN steps |-> <<steps[i].k, steps[i].n>>])>>)
=============================================================================
