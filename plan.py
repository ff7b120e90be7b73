"""What each check explores."""


def quick(tier, a, b):
    return a if tier == "quick" else b


TOKEN = {"C01": "AuthGrantType,NoOffer,NoGrant,GrantNotOffered,CodeMismatch",
         "C02": "LongPin,PinMissing,PinUnexpected,PinUnverifiable,PinMismatch",
         "C03": "AuthGrantType,NoOffer,NoGrant,GrantNotOffered,CodeMismatch,LongPin,PinMissing,PinUnexpected,PinUnverifiable,PinMismatch"}
PROOF = {"C04": "NonceExpired,Nonce", "C05": "Audience", "C06": "Issuer",
         "C07": "ProofType,Typ,Alg,Segments,Header,Claims", "C08": "NotYetValid,NotValidAnymore",
         "C09": "KeyRefs,KeyEmbedded,KeyNone,KidNotDid,NoDocument,KidNotInDocument,KeyMissing", "C10": "-",
         "C11": "NoOffer,AuthServerMetadata,NoProof,Metadata"}
SEQUENTIAL = ["Inputs outside the enumerated and generated ones are not explored.",
              "The wall clock is read through clock_gettime, which the harness replaces."]


def token(p):
    def plan(tier):
        return {"assumptions": SEQUENTIAL, "parts": [
            {"name": "token", "suite": "token", "module": "TokenCases", "focus": TOKEN[p], "shards": quick(tier, 6, 24),
             "reps": quick(tier, 80, 300), "other": quick(tier, 8, 30), "least": 3000}]}
    return plan


def proof(p):
    def plan(tier):
        return {"assumptions": SEQUENTIAL, "parts": [
            {"name": "proof", "suite": "proof", "module": "ProofCases", "focus": PROOF[p], "shards": quick(tier, 6, 28),
             "depth": quick(tier, 2, 3), "reps": quick(tier, 20, 24), "other": quick(tier, 2, 1), "random": quick(tier, 5000, 30000), "least": 5000}]}
    return plan


OFFER = {"C12": "Metadata,AuthGrant,UnknownId", "C13": "-", "C14": "Metadata,UnknownId"}


def offer(p):
    def plan(tier):
        return {"assumptions": SEQUENTIAL, "parts": [
            {"name": "offer", "suite": "offer", "module": "OfferCases", "focus": OFFER[p], "shards": quick(tier, 6, 28),
             "depth": quick(tier, 2, 3), "reps": quick(tier, 12 if p != "C13" else 60, 12 if p != "C13" else 80), "other": quick(tier, 3, 1) if p != "C13" else 0, "least": 1500}]}
    return plan


def resp(p):
    def plan(tier):
        return {"assumptions": SEQUENTIAL, "parts": [
            {"name": "resp", "suite": "resp", "module": "RespCases", "shards": quick(tier, 6, 28),
             "reps": quick(tier, 60, 300), "least": 5000}]}
    return plan


def err(p):
    def plan(tier):
        return {"assumptions": SEQUENTIAL, "parts": [
            {"name": "err", "suite": "err", "module": "ErrCases", "shards": quick(tier, 6, 28),
             "reps": quick(tier, 120, 600), "least": 5000}]}
    return plan


def wire(p):
    def plan(tier):
        return {"assumptions": SEQUENTIAL, "parts": [
            {"name": "wire", "suite": "wire", "module": "WireCases", "workers": 1, "shards": quick(tier, 7, 42),
             "reps": quick(tier, 1, 16), "least": 10000}]}
    return plan


def flow(p):
    def plan(tier):
        return {"assumptions": SEQUENTIAL + ["Signatures are a stand-in that depends on every signed part; only the signing key's owner makes them."],
                "models": [] if tier == "quick" else [{"module": "FlowLive"}], "parts": [
            {"name": "flow", "suite": "flow", "module": "FlowCases", "judge": "FlowTrace", "splits": 7, "workers": 1, "histories": True, "shards": quick(tier, 7, 28),
             "reps": quick(tier, 1, 4), "least": 10000},
            {"name": "long", "suite": "flow", "module": "FlowLong", "judge": "FlowTrace", "splits": 7, "workers": 1, "histories": True, "shards": quick(tier, 7, 28),
             "depth": quick(tier, 30, 60), "simulate": quick(tier, 60, 1500), "reps": quick(tier, 1, 4), "least": 400}]}
    return plan


def state(p):
    def plan(tier):
        return {"assumptions": ["The schedules of the threads are those the machine happens to produce.",
                                "Calls outside the 98 of a history, and orders longer than those made, are not explored."],
                "models": [{"module": "Memo"}], "parts": [
            {"name": "state", "suite": "state", "module": "MemoCases", "judge": "MemoTrace", "histories": True, "depth": 2,
             "shards": quick(tier, 7, 28), "reps": quick(tier, 7, 112), "random": quick(tier, 5000, 9604), "least": 7}]}
    return plan


def total(p):
    def plan(tier):
        return {"assumptions": SEQUENTIAL + ["Panics are looked for in a build with overflow checks.", "JSON nested deeper than serde_json reads is not constructed."],
                "parts": [
            {"name": "total", "suite": "total", "module": "TotalCases", "depth": 2, "shards": quick(tier, 7, 35),
             "reps": quick(tier, 40, 300), "other": quick(tier, 1, 2), "random": quick(tier, 8, 100), "least": 10000},
            {"name": "token", "suite": "token", "module": "TokenCases", "shards": 1, "reps": 1, "other": quick(tier, 1, 8), "least": 500},
            {"name": "proof", "suite": "proof", "module": "ProofCases", "shards": quick(tier, 2, 14), "depth": quick(tier, 1, 2), "reps": quick(tier, 2, 4),
             "other": quick(tier, 2, 4), "random": quick(tier, 2000, 20000), "least": 1000},
            {"name": "offer", "suite": "offer", "module": "OfferCases", "shards": quick(tier, 2, 14), "depth": quick(tier, 1, 2), "reps": quick(tier, 2, 4), "other": quick(tier, 2, 4), "least": 100},
            {"name": "resp", "suite": "resp", "module": "RespCases", "shards": quick(tier, 1, 7), "reps": quick(tier, 3, 30), "least": 500},
            {"name": "err", "suite": "err", "module": "ErrCases", "shards": quick(tier, 1, 7), "reps": quick(tier, 4, 40), "least": 500}]}
    return plan


PLAN = {"C19": total("C19"), "C20": state("C20"), "C21": flow("C21"), "C22": wire("C22")}
for _p in ("C15", "C16"):
    PLAN[_p] = resp(_p)
for _p in ("C17", "C18"):
    PLAN[_p] = err(_p)
for _p in TOKEN:
    PLAN[_p] = token(_p)
for _p in PROOF:
    PLAN[_p] = proof(_p)
for _p in OFFER:
    PLAN[_p] = offer(_p)

TECHNIQUE = {"": "TLA+ specification checked with TLC; its enumerated cases replayed into the library; recorded trace judged by TLC"}
NOTE = {"": "Every case of the specification within the stated bounds is explored and replayed with several concrete values each; "
            "values outside those are sampled. Trusted: TLC, the projection of calls and results in harness/, the replaced clock."}
