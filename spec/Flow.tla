-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* A whole issuance: an issuer that follows the documented call order, an  *)
(* honest wallet W, and an attacker A who is also a customer.              *)
(*                                                                         *)
(* The issuer offers o1 to W and o2 to A.  A party redeems the code of an  *)
(* offer (each code once) and gets a session with a nonce; with it, it     *)
(* asks for the credential, showing a proof.  Each decision of the issuer  *)
(* is a decision of the library: TokenFaults and EvalFaults of Vci, on the *)
(* inputs the issuer has, followed by the issuer's own signature check.    *)
(*                                                                         *)
(* The attacker may know the code of o1 if a PIN protects it, sees every   *)
(* proof of W, makes W prove possession to another issuer J with a nonce   *)
(* of the attacker's choice, names any key, signs with its own key, copies *)
(* signatures, replays proofs, and guesses codes, PINs and nonces.         *)
(*                                                                         *)
(* A step is a record; Out(s) is what the step must lead to and Effect(s)  *)
(* what it does to the state.  hist is the behaviour so far: it is not     *)
(* part of the state (View).                                               *)
(***************************************************************************)
EXTENDS Vci

CONSTANTS MaxTime, MaxNonces, MaxSeen, Deviations

VARIABLES
    now,        \* ticks
    pin,        \* offers protected by a PIN
    leaked,     \* the attacker knows the code of o1
    clients,    \* the issuer knows its customers by client ids
    offered,    \* offers created
    holder,     \* who redeemed an offer, if anyone did
    nonce,      \* of a session: [n, at], the nonce and the tick it was issued
    issued,     \* number of nonces issued
    seen,       \* proofs of W the attacker has seen
    released,   \* pairs <<offer, did>>
    hist
vars == <<now, pin, leaked, clients, offered, holder, nonce, issued, seen, released>>
View == vars

Offers == {"o1", "o2"}
Customer(o) == IF o = "o1" THEN "W" ELSE "A"
Did(p) == "did:" \o p
Key(p, k) == Did(p) \o "#" \o k
Kids == {Key("W", "1"), Key("W", "2"), Key("A", "1")}
Keys(d) == IF d = Did("W") THEN <<Key("W", "1"), Key("W", "2")>> ELSE <<Key("A", "1")>>
Lifetime == 1                                        \* of a nonce, in ticks
Instant(t) == <<10, t, 0>>
Nonce(k) == "n" \o ToString(k)

-----------------------------------------------------------------------------
(* What the library is asked *)

(* Redeem: s = [a, p, o, grant, code, pin]; code: the offer whose code it   *)
(* is, or "x"; pin "none", "right" (that of the offer) or "wrong"           *)
TokenInput(s) ==
    [grant |-> s.grant, code |-> s.code,
     pin |-> CASE s.pin = "none" -> None [] s.pin = "right" -> Some("1234") [] OTHER -> Some("1235"),
     offer |-> Some([auth |-> None, pre |-> Some([code |-> s.o, req |-> Some(s.o \in pin)])]),
     opts |-> Some([pin |-> IF s.o \in pin THEN Some("1234") ELSE None])]

(* Request: s = [a, p, o, proof, wait]; wait: ticks between the two steps   *)
(* of evaluation; proof = [kid, by, nonce, aud, exp, iss], by: the signing  *)
(* key, or "forged"; iss: the party whose client id it carries, if any      *)
Document(d) == [id |-> d, vms |-> [i \in 1..Len(Keys(d)) |-> [id |-> Keys(d)[i], key |-> [kind |-> "okp", bytes |-> <<Keys(d)[i]>>]]]]
ProofJwt(p) ==
    [nseg |-> 3, hok |-> TRUE, bok |-> TRUE, keys |-> 1, keytext |-> TRUE, sig |-> Some(p.by), input |-> "",
     h |-> [typ |-> ProofTyp, alg |-> "EdDSA", kid |-> Some(p.kid), jwk |-> None, x5c |-> None, extra |-> <<>>],
     b |-> [iss |-> p.iss, aud |-> p.aud, sub |-> None, iat |-> Instant(0), nonce |-> p.nonce, nbf |-> None,
            exp |-> IF Has(p.exp) THEN Some(Instant(Get(p.exp))) ELSE None, extra |-> <<>>]]
EvalInput(s) ==
    [md |-> [iss |-> "I", ids |-> <<Some("degree")>>],
     offer |-> Some([auth |-> None, pre |-> Some([code |-> s.o, req |-> Some(s.o \in pin)])]),
     asmeta |-> FALSE, cred |-> "degree",
     proof |-> Some([ptype |-> "jwt", jwt |-> ProofJwt(s.proof)]),
     doc |-> Some(Document(DidOf(s.proof.kid))),
     opts |-> Some([client |-> IF clients THEN Some(s.p) ELSE None, nonce |-> Some([created |-> Instant(nonce[s.o].at), ttl |-> [d |-> 0, s |-> Lifetime], expected |-> nonce[s.o].n])]),
     now |-> Instant(now + s.wait)]
Expired(o, t) == t > nonce[o].at + Lifetime

Granted(s) == holder[s.o] = None /\ TokenFaults(TokenInput(s)) = {}
Released(s) == EvalFaults(EvalInput(s)) = {} /\ s.proof.by = s.proof.kid

(* What a step must lead to *)
Out(s) == CASE s.a = "redeem" -> [ok |-> Granted(s), did |-> ""]
            [] s.a = "request" -> [ok |-> Released(s), did |-> IF Released(s) THEN DidOf(s.proof.kid) ELSE ""]
            [] OTHER -> [ok |-> TRUE, did |-> ""]

-----------------------------------------------------------------------------
(* What a step does *)

Possible(s) ==
    CASE s.a = "offer" -> s.o \notin offered
      [] s.a = "redeem" -> s.o \in offered
      [] s.a = "request" -> holder[s.o] = Some(s.p)
      [] OTHER -> TRUE

Effect(s) ==
    CASE s.a = "offer" -> offered' = offered \cup {s.o} /\ UNCHANGED <<now, pin, leaked, clients, holder, nonce, issued, seen, released>>
      [] s.a = "tick" -> now' = now + 1 /\ UNCHANGED <<pin, leaked, clients, offered, holder, nonce, issued, seen, released>>
      [] s.a = "lure" -> seen' = seen \cup {s.proof} /\ UNCHANGED <<now, pin, leaked, clients, offered, holder, nonce, issued, released>>
      [] s.a = "redeem" ->
           /\ IF Granted(s)
              THEN /\ holder' = [holder EXCEPT ![s.o] = Some(s.p)]
                   /\ issued' = issued + 1
                   /\ nonce' = [nonce EXCEPT ![s.o] = [n |-> Nonce(issued + 1), at |-> now]]
              ELSE UNCHANGED <<holder, nonce, issued>>
           /\ UNCHANGED <<now, pin, leaked, clients, offered, seen, released>>
      [] s.a = "request" ->
           /\ now' = now + s.wait
           /\ seen' = IF s.p = "W" THEN seen \cup {s.proof} ELSE seen
           /\ released' = IF Released(s) THEN released \cup {<<s.o, DidOf(s.proof.kid)>>} ELSE released
              \* a used or expired nonce is replaced
           /\ IF Released(s) \/ Expired(s.o, now + s.wait)
              THEN /\ issued' = issued + 1
                   /\ nonce' = [nonce EXCEPT ![s.o] = [n |-> Nonce(issued + 1), at |-> now + s.wait]]
              ELSE UNCHANGED <<nonce, issued>>
           /\ UNCHANGED <<pin, leaked, clients, offered, holder>>

Take(s) == Possible(s) /\ Effect(s) /\ hist' = Append(hist, s)

-----------------------------------------------------------------------------
(* Who takes which steps *)

Offer == \E o \in Offers : Take([a |-> "offer", o |-> o])
Tick == now < MaxTime /\ Take([a |-> "tick"])

KnownCodes(p) == IF p = "W" THEN {"o1"} ELSE {"o2", "x"} \cup If(leaked, "o1")
RedeemHonest == "o1" \in offered /\ holder["o1"] = None
                /\ Take([a |-> "redeem", p |-> "W", o |-> "o1", grant |-> "pre", code |-> "o1", pin |-> IF "o1" \in pin THEN "right" ELSE "none"])
RedeemAttack == \E o \in offered, g \in {"pre", "auth"}, c \in KnownCodes("A") :
                   /\ g = "auth" => c = o
                   /\ holder[o] = None
                   /\ issued < MaxNonces
                   /\ \E n \in {"none", "wrong"} \cup If(o = "o2", "right") :
                         Take([a |-> "redeem", p |-> "A", o |-> o, grant |-> g, code |-> c, pin |-> n])

Waits == {w \in {0, 1} : now + w <= MaxTime}
MayIssue == issued < MaxNonces
RequestHonest == \E k \in {"1", "2"}, e \in {None, Some(now + 2)}, w \in Waits :
    /\ holder["o1"] = Some("W") /\ MayIssue
    /\ LET p == [kid |-> Key("W", k), by |-> Key("W", k), nonce |-> nonce["o1"].n, aud |-> "I", exp |-> e, iss |-> IF clients THEN Some("W") ELSE None]
       IN  /\ Cardinality(seen \cup {p}) <= MaxSeen
           /\ Take([a |-> "request", p |-> "W", o |-> "o1", proof |-> p, wait |-> w])

(* The attacker's nonces: those of its own sessions, and guesses *)
Guesses == {Nonce(k) : k \in 1..issued} \cup {"guess"}
Differences(p, q) == Cardinality({f \in DOMAIN p : p[f] # q[f]})
AsGood(o) == [kid |-> Key("A", "1"), by |-> Key("A", "1"), nonce |-> nonce[o].n, aud |-> "I", exp |-> None, iss |-> IF clients THEN Some("A") ELSE None]
AttackProofs(o) ==
    LET best == AsGood(o)
    IN  seen \cup {p \in [kid : Kids, by : {Key("A", "1"), "forged"}, nonce : Guesses, aud : {"I", "J"}, exp : {None, Some(now), Some(now + 1)},
                           iss : {None, Some("A"), Some("W")}] :
                     Differences(p, best) <= Deviations}
RequestAttack == \E o \in offered, w \in Waits :
    /\ holder[o] = Some("A") /\ MayIssue
    /\ \E p \in AttackProofs(o) : Take([a |-> "request", p |-> "A", o |-> o, proof |-> p, wait |-> w])
Lure == \E n \in Guesses :
    LET p == [kid |-> Key("W", "1"), by |-> Key("W", "1"), nonce |-> n, aud |-> "J", exp |-> None, iss |-> IF clients THEN Some("W") ELSE None]
    IN  /\ p \notin seen /\ Cardinality(seen) < MaxSeen
        /\ Take([a |-> "lure", proof |-> p])

Init == /\ pin \in {{}, {"o1"}, {"o2"}, {"o1", "o2"}}
        /\ leaked \in BOOLEAN /\ (leaked => "o1" \in pin)
        /\ clients \in BOOLEAN
        /\ now = 0 /\ offered = {} /\ issued = 0 /\ seen = {} /\ released = {}
        /\ holder = [o \in Offers |-> None]
        /\ nonce = [o \in Offers |-> [n |-> "", at |-> 0]]
        /\ hist = <<>>
Next == Offer \/ Tick \/ RedeemHonest \/ RedeemAttack \/ RequestHonest \/ RequestAttack \/ Lure
Spec == Init /\ [][Next]_<<vars, hist>>

-----------------------------------------------------------------------------
(* C21 *)

TypeOK == /\ \A o \in Offers : holder[o] = None \/ o \in offered
          /\ \A r \in released : holder[r[1]] # None
OnlyTheCustomer == /\ \A o \in Offers : holder[o] \in {None, Some(Customer(o))}
                   /\ \A r \in released : r[2] = Did(Customer(r[1]))
(* Every release is to the owner of the key that signed, on the current     *)
(* nonce, inside its lifetime, for this issuer                              *)
Earned ==
    LET s == hist'[Len(hist')]
    IN  released' # released =>
           /\ s.a = "request"
           /\ DidOf(s.proof.by) = DidOf(s.proof.kid)
           /\ released' = released \cup {<<s.o, DidOf(s.proof.by)>>}
           /\ s.proof.nonce = nonce[s.o].n
           /\ now' <= nonce[s.o].at + Lifetime
           /\ s.proof.aud = "I"
           /\ holder[s.o] = Some(s.p)
           /\ clients => s.proof.iss = Some(s.p)
OncePerNonce == released' # released => nonce' # nonce
(* An honest wallet that asks in time is served *)
Served ==
    LET s == hist'[Len(hist')]
    IN  s.a = "request" /\ s.p = "W" /\ s.wait = 0 /\ ~Expired("o1", now) => <<"o1", Did("W")>> \in released'
Safety == [][Earned /\ OncePerNonce /\ Served]_<<vars, hist>>

(* Under fairness of W and the issuer, W obtains the credential *)
Honest == Offer \/ RedeemHonest \/ \E k \in {"1"} : RequestHonest
Obtained == <>(<<"o1", Did("W")>> \in released)
=============================================================================
