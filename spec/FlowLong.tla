----------------------------- MODULE FlowLong ------------------------------
(***************************************************************************)
(* Long behaviours of Flow with larger constants, drawn at random by TLC's *)
(* simulation: beyond what FlowCases enumerates.  The kind of the next     *)
(* step is drawn first, so that the many requests of the attacker do not   *)
(* crowd out the rest.  Each draw is bound by \E x \in {draw}: TLC would   *)
(* draw anew at every use of a LET.                                        *)
(***************************************************************************)
EXTENDS Flow, Json, CSV, IOUtils

Length == atoi(IOEnv.DEPTH)

Draw(S) == {RandomElement(S)}
Mine(p) == {o \in Offers : holder[o] = Some(p)}
(* Half the attacker's requests show a proof of W, or the best of its own  *)
Attack == \E o \in Draw(Mine("A")), w \in Draw(Waits), h \in Draw({TRUE, FALSE}) :
          \E p \in Draw(IF h THEN seen \cup {AsGood(o)} ELSE AttackProofs(o)) :
             Take([a |-> "request", p |-> "A", o |-> o, proof |-> p, wait |-> w])
Honest1 == \E k \in Draw({"1", "2"}), e \in Draw({None, Some(now + 2)}), w \in Draw(Waits) :
             Take([a |-> "request", p |-> "W", o |-> "o1", wait |-> w,
                   proof |-> [kid |-> Key("W", k), by |-> Key("W", k), nonce |-> nonce["o1"].n, aud |-> "I",
                              exp |-> e, iss |-> IF clients THEN Some("W") ELSE None]])
LongNext ==
    \E k \in Draw(1..12) :
        IF k <= 3 /\ Mine("W") # {} /\ MayIssue /\ Cardinality(seen) < MaxSeen THEN Honest1
        ELSE IF k = 4 /\ now < MaxTime THEN Tick
        ELSE IF k = 5 /\ "o1" \in offered /\ holder["o1"] = None THEN RedeemHonest
        ELSE IF k = 6 /\ (\E o \in offered : holder[o] = None) /\ MayIssue THEN RedeemAttack
        ELSE IF k = 7 /\ Cardinality(seen) < MaxSeen THEN Lure
        ELSE IF k >= 8 /\ Mine("A") # {} /\ MayIssue THEN Attack
        ELSE Offer \/ Next
LongSpec == Init /\ [][LongNext]_<<vars, hist>>

Emit == Len(hist) # Length \/ CSVWrite("%1$s", <<ToJson([in |-> [pin |-> pin, leaked |-> leaked, clients |-> clients, steps |-> hist], loop |-> FALSE, F |-> {}])>>, IOEnv.CASES)
=============================================================================
