------------------------------ MODULE MC_Process ------------------------------
(* Facts the trace specification relies on, checked on small instances:      *)
(* Rouwenhorst's chain has, at every node, the conditional mean and variance *)
(* of the AR(1); the product of chains is a chain whose conditional laws are *)
(* the products of the conditional laws; products and mixtures are laws.     *)
EXTENDS Process, TLC
VARIABLES N, rho, a, b
Rhos == {"0", "1/2", "-1/3", "9/10"}
Laws == {<< <<"1", <<"0">>>> >>, << <<"1/4", <<"0">>>>, <<"3/4", <<"1">>>> >>, << <<"1/2", <<"2">>>>, <<"1/2", <<"-1">>>> >>,
         << <<"1/3", <<"1">>>>, <<"0", <<"5">>>>, <<"2/3", <<"0">>>> >>}
Init == N \in 2..5 /\ rho \in Rhos /\ a \in Laws /\ b \in Laws
Next == UNCHANGED <<N, rho, a, b>>
C == [P |-> [i \in 1..N |-> <<RouwZ(N)[i]>>], Q |-> RouwQ(N, rho)]
(* nodes in units of nu = sigma sqrt((N-1)/(1-rho^2)): the conditional       *)
(* variance sigma^2 is (1-rho^2)/(N-1)                                       *)
Rouwenhorst ==
  \A i \in 1..N :
    LET L == ChainLaw(C, i)
        m == <<RMul(rho, RouwZ(N)[i])>>
    IN IsLaw(L, "0") /\ REq(Mean(L, 1), m[1])
       /\ REq(Moment(L, m, <<"1">>, <<1, 1>>), RDiv(RSub("1", RMul(rho, rho)), ToRat(N - 1)))
Chain(L) == [P |-> [i \in 1..Len(L) |-> L[i][2]], Q |-> [i \in 1..Len(L) |-> W(L)]]
Products ==
  LET T == ProductChain(<<C, Chain(a)>>)
      U == ProductChain(<<Chain(a), Chain(b)>>)
  IN /\ \A i \in 1..(N * Len(a)) :
          LET d == Digits(<<N, Len(a)>>, i) IN
          /\ IsLaw(ChainLaw(T, i), "0")
          /\ SameLaw(ChainLaw(T, i), ProductLaw(<<ChainLaw(C, d[1]), a>>), "0")
     /\ \A i \in 1..Len(U.P) : SameLaw(ChainLaw(U, i), ProductLaw(<<a, b>>), "0")
     /\ IsLaw(ProductLaw(<<a, b>>), "0")
     /\ REq(Mean(ProductLaw(<<a, b>>), 2), Mean(b, 1))
Mixtures ==
  LET I == << <<"1/3", <<"1">>>>, <<"2/3", <<"0">>>> >>
      M == MixtureLaw(I, <<a, b>>)
  IN IsLaw(M, "0") /\ REq(Mean(M, 1), RAdd(RMul("2/3", Mean(a, 1)), RMul("1/3", Mean(b, 1))))
=============================================================================
