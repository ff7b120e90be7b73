----------------------------- MODULE FlowLive ------------------------------
(***************************************************************************)
(* The other half of C21: whatever the attacker does, a wallet that keeps  *)
(* to the flow obtains the credential.  The bounds of Flow on nonces and   *)
(* on proofs seen are bounds of the model and not of an issuer, so here    *)
(* the attacker leaves enough of both for W.  No history is kept, and the  *)
(* behaviour ends when W has the credential.                               *)
(***************************************************************************)
EXTENDS Flow

LiveTake(s) == Possible(s) /\ Effect(s) /\ hist' = hist
\* the nonces that W can need: one for the redemption, and one for each time one expires
Spare == MaxTime + 2
Attacks == Tick
           \/ (issued < MaxNonces - Spare /\ (RedeemAttack \/ RequestAttack))
           \/ (Cardinality(seen) < MaxSeen - 2 * MaxTime - 4 /\ Lure)
LiveNext == <<"o1", Did("W")>> \notin released /\ (Offer \/ RedeemHonest \/ RequestHonest \/ Attacks)
LiveSpec == Init /\ [][LiveNext]_vars /\ WF_vars(LiveNext /\ Offer) /\ WF_vars(LiveNext /\ RedeemHonest) /\ WF_vars(LiveNext /\ RequestHonest)
=============================================================================
