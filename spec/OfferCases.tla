----------------------------- MODULE OfferCases -----------------------------
(***************************************************************************)
(* Abstract offers: every list of up to MaxSup supported ids and every     *)
(* list of up to MaxAsk credentials asked for, and every combination of    *)
(* endpoint and grants.                                                    *)
(***************************************************************************)
EXTENDS Offers, Json, CSV, IOUtils

MaxSup == IF IOEnv.DEPTH \in {"1", "2"} THEN 3 ELSE 4
MaxAsk == IF IOEnv.DEPTH \in {"1", "2"} THEN 2 ELSE 3

VARIABLES c, done

SupIds == {None, Some("{idA}"), Some("{idA~}"), Some("{idB}")}
Asks == {[id |-> Some("{idA}"), cred |-> ""], [id |-> Some("{idA~}"), cred |-> ""], [id |-> Some("{idB}"), cred |-> ""],
         [id |-> Some("{idC}"), cred |-> ""], [id |-> None, cred |-> "{inline}"], [id |-> Some("{idB~}"), cred |-> ""]}
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}

CredName(i) == CASE i = 1 -> "{cred1}" [] i = 2 -> "{cred2}" [] i = 3 -> "{cred3}" [] i = 4 -> "{cred4}"
Md(ids) == [iss |-> "{issuer}", sup |-> [i \in 1..Len(ids) |-> [id |-> ids[i], cred |-> CredName(i)]]]
Pres == {None} \cup {Some([code |-> "{code}", req |-> r]) : r \in {None, Some(TRUE), Some(FALSE)}}
Auths == {None, Some([state |-> None]), Some([state |-> Some("{state}")])}
Endpoints == {None, Some("{endpoint}"), Some("{endpoint}?"), Some("{endpoint}?a={xa}"), Some("{endpoint}?a=1&b={xa}&")}

Default == [auth |-> None, pre |-> Some([code |-> "{code}", req |-> None]), endpoint |-> None]
Inputs ==
    {[md |-> Md(ids), creds |-> asks, auth |-> Default.auth, pre |-> Default.pre, endpoint |-> Default.endpoint] :
        ids \in SeqsUpTo(SupIds, MaxSup), asks \in SeqsUpTo(Asks, MaxAsk)}
    \cup
    {[md |-> Md(ids), creds |-> asks, auth |-> a, pre |-> p, endpoint |-> e] :
        ids \in {<<Some("{idA}"), Some("{idB}")>>, <<Some("{idA}"), Some("{idA}")>>},
        asks \in {<<>>, <<[id |-> Some("{idB}"), cred |-> ""], [id |-> None, cred |-> "{inline}"]>>, <<[id |-> Some("{idC}"), cred |-> ""]>>},
        a \in Auths, p \in Pres, e \in Endpoints}

(* Longer lists of credentials asked for, and entries that repeat a credential as well as an id *)
Plain(ids, asks) == [md |-> Md(ids), creds |-> asks, auth |-> Default.auth, pre |-> Default.pre, endpoint |-> Default.endpoint]
Longer ==
    {Plain(<<Some("{idA}"), Some("{idB}")>>, asks) : asks \in [1..3 -> Asks]}
    \cup {Plain(<<Some("{idA}"), None, Some("{idB}")>>, <<a, b, b, a, x>>) : a \in Asks, b \in Asks, x \in Asks}
    \cup {[Plain(ids, asks) EXCEPT !.md.sup = [i \in 1..Len(ids) |-> [id |-> ids[i], cred |-> CredName(1)]]] :
              ids \in SeqsUpTo(SupIds, 3), asks \in {<<>>, <<[id |-> Some("{idA}"), cred |-> ""]>>, <<[id |-> None, cred |-> "{cred1}"]>>}}

Init == c \in Inputs \cup Longer /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c

Conforms == XOfferConforms(c)
(* Creation succeeds exactly under the three conditions *)
Iff == (XOffer(c) = NoErr) <=> /\ \A i, k \in 1..Len(c.md.sup) : i < k /\ Has(c.md.sup[i].id) => c.md.sup[i].id # c.md.sup[k].id
                              /\ ~Has(c.auth)
                              /\ \A i \in 1..Len(c.creds) : Has(c.creds[i].id) =>
                                     \E k \in 1..Len(c.md.sup) : c.md.sup[k].id = c.creds[i].id
(* With unique ids a resolution is determined *)
Determined == MdUnique(c.md) => \A i \in 1..Len(c.creds) : Cardinality(Resolution(c.md, c.creds[i])) <= 1

Emit == done => CSVWrite("%1$s", <<ToJson([in |-> c, F |-> OfferFaults(c)])>>, IOEnv.CASES)
=============================================================================
