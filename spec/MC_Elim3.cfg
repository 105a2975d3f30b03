CONSTANTS NN = 3
 PS = {1, 2, 3}
 EVS = {1, 2}
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS WeightInv AnswerInv ReduceInv IndepInv CondInv
CHECK_DEADLOCK FALSE
