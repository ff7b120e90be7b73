----------------------------- MODULE FlowTrace ------------------------------
(***************************************************************************)
(* Takes recorded histories of the real library through Flow, step by      *)
(* step: a history is accepted when every step is one the specification    *)
(* allows there and led to what the specification says it must lead to.    *)
(* After the first step that did not, the rest of the history says nothing *)
(* and is not compared.                                                    *)
(***************************************************************************)
EXTENDS Flow, Json, CSV, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, k, lost
Steps == Trace[i].in.steps
Set(s) == {s[x] : x \in 1..Len(s)}

TraceInit ==
    /\ i \in 1..Len(Trace)
    /\ k = 0 /\ lost = FALSE
    /\ pin = Set(Trace[i].in.pin) /\ leaked = Trace[i].in.leaked /\ clients = Trace[i].in.clients
    /\ now = 0 /\ offered = {} /\ issued = 0 /\ seen = {} /\ released = {}
    /\ holder = [o \in Offers |-> None]
    /\ nonce = [o \in Offers |-> [n |-> "", at |-> 0]]
    /\ hist = <<>>

Reasons(s, r) ==
    LET want == Out(s)
    IN  If(r.did = "PANIC", s.a \o ": panic")
        \cup If(r.ok /\ ~want.ok /\ s.a = "redeem", "a code was redeemed that must not be")
        \cup If(r.ok /\ ~want.ok /\ s.a = "request", "a credential was released that must not be")
        \cup If(r.ok /\ ~want.ok /\ s.a \notin {"redeem", "request"}, s.a \o " accepted")
        \cup If(~r.ok /\ want.ok /\ r.did # "PANIC", s.a \o " refused though all is as it should be")
        \cup If(r.ok /\ want.ok /\ r.did # want.did, "the credential was issued to another subject")

TraceNext ==
    /\ k < Len(Steps)
    /\ k' = k + 1 /\ i' = i
    /\ IF lost THEN UNCHANGED <<vars, hist, lost>>
       ELSE LET s == Steps[k + 1]
                r == Trace[i].out[k + 1]
                bad == IF Possible(s) THEN Reasons(s, r) ELSE {"HARNESS: not a step of the specification"}
            IN  IF bad = {}
                THEN Effect(s) /\ UNCHANGED <<hist, lost>>
                ELSE /\ CSVWrite("%1$s", <<ToJson([id |-> Trace[i].id, step |-> k + 1, reasons |-> bad])>>, IOEnv.BAD)
                     /\ lost' = TRUE /\ UNCHANGED <<vars, hist>>
TraceSpec == TraceInit /\ [][TraceNext]_<<i, k, lost, vars, hist>>

(* A recorded history that is taken to its end satisfies C21 *)
TraceSafe == OnlyTheCustomer /\ TypeOK
=============================================================================
