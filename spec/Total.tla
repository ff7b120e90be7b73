------------------------------- MODULE Total --------------------------------
(***************************************************************************)
(* Every operation returns.  A scenario is the set of documents an issuer  *)
(* handles; troubles are done to them; then every operation is called on   *)
(* whatever can still be read.  A call is begun and ends with a value or   *)
(* with an error; there is no third way to end and no call stays open.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Documents == {"token_request", "token_options", "offer", "metadata", "request", "header", "claims", "jwt", "proof",
              "did_document", "options", "response", "error", "endpoint", "clock"}

Troubles == {"none", "drop", "null", "kind", "empty", "huge", "unicode", "control", "number", "date", "leap", "notdate", "many", "deep",
             "extra", "near", "twice", "cut", "flip", "surrogate", "did", "key", "swap", "wrap", "bytes", "dots", "float", "wide"}

(* Calls that are made in every scenario, whatever the troubles *)
Always == {"read token_request", "read token_options", "read offer", "read metadata", "read request", "read header", "read claims",
           "read proof", "read did_document", "read options", "parse jwt", "token response", "token error", "credential error",
           "error codes", "token types", "profile"}

Ends == {"value", "error"}
TotalVerdict(out) ==
    {"the call did not end with a value or an error: " \o out[k].call : k \in {k \in 1..Len(out) : out[k].end \notin Ends}}
    \cup {"HARNESS: the call was not made: " \o c : c \in {c \in Always : ~\E k \in 1..Len(out) : out[k].call = c}}
=============================================================================
