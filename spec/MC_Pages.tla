------------------------------ MODULE MC_Pages ------------------------------
EXTENDS Pages
T(a, b) == [a |-> a, b |-> b]
MCItems == <<<<T(0, 0), T(N - 1, N - 1)>>, <<T(1, 4)>>, <<T(2, 2), T(2, 3), T(4, N - 2)>>>>
=============================================================================
