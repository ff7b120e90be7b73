//! The same calls, over and over: first in a process of their own, then in every order, then side by side
use crate::env::Env;
use crate::proof::{self, Shift};
use crate::token::{self, fill};
use crate::util::*;
use crate::{errs, offer, resp, wire, Log};
use openid4vci::access_token::error_response::AccessTokenErrorCode;
use openid4vci::access_token::AccessToken;
use openid4vci::credential_issuer::error_code::CredentialIssuerErrorCode;
use openid4vci::credential_issuer::CredentialIssuer;
use openid4vci::jwt::ProofJwt;
use serde_json::{json, Value};
use std::str::FromStr;
use std::sync::{Arc, Barrier};
use std::time::Instant;

pub struct Symbol {
    /// which of the clock readings
    at: usize,
    run: Box<dyn Fn() -> Value + Send + Sync>,
    args: Box<dyn Fn() -> String + Send + Sync>,
}
pub struct Symbols {
    pub all: Vec<Symbol>,
    clock: [Time; 2],
}
pub const COUNT: usize = 98;

fn good_proof() -> Value {
    json!({
        "md": {"iss": "{issuer}", "ids": [["{idA}"], [], ["{idB}"]]},
        "offer": [{"auth": [], "pre": [{"code": "{code}", "req": []}]}],
        "asmeta": false,
        "proof": [{"ptype": "jwt", "jwt": {
            "nseg": 3, "hok": true, "bok": true, "input": "", "keys": 1, "keytext": true,
            "h": {"typ": proof::TYP, "alg": "EdDSA", "kid": ["did:{m}#{frag}"], "jwk": [], "x5c": [], "extra": []},
            "b": {"iss": ["{client}"], "aud": "{issuer}", "sub": [], "iat": [5, 0, 0], "nonce": "{nonce}", "nbf": [[9, 0, 0]], "exp": [[10, 86000, 0]], "extra": []},
            "sig": ["{sig}"]}}],
        "cred": "{cred}",
        "doc": [{"id": "did:{m}", "vms": [{"id": "did:{m}#{frag}", "rel": "verificationMethod", "key": {"kind": "okp", "bytes": ["{key}"]}},
                                          {"id": "did:{m}#{frag~}", "rel": "verificationMethod", "key": {"kind": "okp", "bytes": ["{keyB}"]}}]}],
        "opts": [{"nonce": [{"created": [10, 0, 0], "ttl": {"d": 0, "s": 600}, "expected": "{nonce}"}], "client": ["{client}"]}],
        "now": [10, 0, 0]
    })
}
fn put(v: &mut Value, path: &str, x: Value) {
    *v.pointer_mut(path).unwrap() = x;
}

/// A nonce that lives long, and a proof that runs out half an hour from the first reading of the clock
fn between(c: &mut Value) {
    put(c, "/opts/0/nonce/0/ttl", json!({"d": 1, "s": 0}));
    put(c, "/proof/0/jwt/b/exp/0", json!([10, 1800, 0]));
}

/// The calls of one history, from its seed alone
pub fn symbols(seed: u64) -> Option<Symbols> {
    let mut env = Env::new(Rng::new(seed, "state"), (seed % 48) as usize);
    for n in ["issuer", "idA", "idB", "code", "m", "frag", "client", "nonce", "sig", "cred", "key", "keyB", "issuer~", "m~", "frag~", "nonce~", "code~", "pin", "pin~"] {
        env.get(n);
    }
    let now = Time { secs: 1_500_000_000 + env.rng.below(900_000_000) as i64, nanos: env.rng.below(1_000_000_000) as u32 };
    let shift = Shift::fixed(now);
    let clock = [now, now.add(3600, 0)];
    let mut all: Vec<Symbol> = vec![];
    // evaluation, pre-evaluation and the operations of the proof
    type Edit = fn(&mut Value);
    let edits: Vec<(Edit, usize)> = vec![
        (|_| {}, 0),
        (|_| {}, 1), // the nonce has expired
        (|c| put(c, "/proof/0/jwt/b/nonce", json!("{nonce~}")), 0),
        (|c| { put(c, "/proof/0/jwt/b/nonce", json!("{nonce~}")); put(c, "/opts/0/nonce/0/expected", json!("{nonce~}")) }, 0),
        (|c| put(c, "/doc/0/vms/0/key/bytes/0", json!("{keyC}")), 0),
        (|c| put(c, "/md/iss", json!("{issuer~}")), 0),
        (|c| { put(c, "/md/iss", json!("{issuer~}")); put(c, "/proof/0/jwt/b/aud", json!("{issuer~}")) }, 0),
        (|c| put(c, "/proof/0/jwt/h/kid/0", json!("did:{m}#{frag~}")), 0),
        (|c| put(c, "/proof/0/jwt/h/kid/0", json!("did:{m~}#{frag}")), 0),
        (|c| put(c, "/offer", json!([])), 0),
        (|c| put(c, "/proof/0/jwt/sig/0", json!("{sig!}")), 0),
        (|c| put(c, "/proof/0/jwt/h/alg", json!("ES256")), 0),
        (|c| put(c, "/proof/0/jwt/b/exp", json!([[9, 86000, 0]])), 0),
        (|c| put(c, "/opts/0/client/0", json!("{client~}")), 0),
        // one place at a time
        (|c| put(c, "/md/ids", json!([["{idA}"], [], ["{idA}"]])), 0),
        (|c| put(c, "/md/ids", json!([["{idA}"], ["{idC}"], ["{idB}"]])), 0),
        (|c| put(c, "/offer/0/auth", json!([{"state": ["{state}"]}])), 0),
        (|c| { put(c, "/offer/0/pre", json!([])); put(c, "/opts/0/client", json!([])) }, 0),
        (|c| { put(c, "/offer/0/auth", json!([{"state": ["{state}"]}])); put(c, "/opts/0/client", json!([])) }, 0),
        (|c| put(c, "/opts/0/client", json!([])), 0),
        (|c| put(c, "/asmeta", json!(true)), 0),
        (|c| put(c, "/proof/0/ptype", json!("ldp")), 0),
        (|c| put(c, "/proof/0/ptype", json!("JWT")), 0),
        (|c| put(c, "/proof/0/jwt/h/typ", json!("JWT")), 0),
        (|c| put(c, "/proof/0/jwt/h/alg", json!("HS256")), 0),
        (|c| put(c, "/proof/0/jwt/b/iss", json!([])), 0),
        (|c| put(c, "/proof/0/jwt/b/iss/0", json!("{client~}")), 0),
        (|c| put(c, "/proof/0/jwt/b/sub", json!(["{state}"])), 0),
        (|c| put(c, "/proof/0/jwt/b/nbf/0", json!([10, 0, 1])), 0),
        (|c| put(c, "/cred", json!("{cred~}")), 0),
        (|c| put(c, "/doc", json!([])), 0),
        (|c| put(c, "/doc/0/vms", json!([{"id": "did:{m}#{frag~}", "rel": "verificationMethod", "key": {"kind": "okp", "bytes": ["{keyB}"]}}])), 0),
        (|c| { put(c, "/doc/0/vms/0/key/bytes/0", json!("{keyB}")); put(c, "/doc/0/vms/1/key/bytes/0", json!("{key}")) }, 0),
        (|c| put(c, "/proof", json!([])), 0),
        (|c| put(c, "/opts", json!([])), 0),
        (|c| put(c, "/opts/0/nonce", json!([])), 0),
        (|c| put(c, "/opts/0/nonce/0/ttl", json!({"d": 0, "s": 599})), 0),
        (|c| put(c, "/opts/0/nonce/0/created", json!([9, 86000, 0])), 0),
        (|c| put(c, "/opts/0/nonce/0/created", json!([9, 80000, 0])), 0),
        // the same call, early and late, with an expiry and a not-before between
        (between, 0),
        (between, 1),
        (|c| { between(c); put(c, "/proof/0/jwt/b/nbf/0", json!([10, 1800, 0])); put(c, "/proof/0/jwt/b/exp", json!([])) }, 0),
        (|c| { between(c); put(c, "/proof/0/jwt/b/nbf/0", json!([10, 1800, 0])); put(c, "/proof/0/jwt/b/exp", json!([])) }, 1),
        (|c| { between(c); put(c, "/proof/0/jwt/b/exp", json!([])) }, 1),
        // large
        (|c| { put(c, "/proof/0/jwt/b/nonce", json!("{large}")); put(c, "/opts/0/nonce/0/expected", json!("{large}")) }, 0),
    ];
    let large = env.rng.word(70_000);
    env.set("large", large);
    for n in ["state", "idC", "cred~"] {
        env.get(n);
    }
    let same: Env = env.clone();
    for &(edit, at) in &edits {
        let mut c = good_proof();
        edit(&mut c);
        let call = Arc::new(proof::build_at(&c, &mut same.clone(), &shift)?);
        let other = call.clone();
        all.push(Symbol {
            at,
            run: Box::new(move || call.eval_now()),
            args: Box::new(move || {
                json!([serde_json::to_value(&other.md).ok(), serde_json::to_value(&other.req).ok(), serde_json::to_value(&other.offer).ok(), format!("{:?}", other.doc)]).to_string()
            }),
        });
    }
    for (edit, at) in [edits[0], edits[8], edits[7], edits[21], edits[23]] {
        let mut c = good_proof();
        edit(&mut c);
        let call = Arc::new(proof::build_at(&c, &mut same.clone(), &shift)?);
        let other = call.clone();
        all.push(Symbol { at, run: Box::new(move || call.pre()), args: Box::new(move || serde_json::to_string(&other.req).unwrap_or_default()) });
    }
    for (edit, at) in [edits[0], edits[4], edits[12], edits[32], (between as Edit, 1)] {
        let mut c = good_proof();
        edit(&mut c);
        let call = Arc::new(proof::build_at(&c, &mut same.clone(), &shift)?);
        let other = call.clone();
        all.push(Symbol { at, run: Box::new(move || call.ops_now()), args: Box::new(move || format!("{:?}", other.doc)) });
    }
    // tokens
    let good = json!({"grant": "pre", "code": "{code}", "pin": ["{pin}"], "offer": [{"auth": [], "pre": [{"code": "{code}", "req": [true]}]}], "opts": [{"pin": ["{pin}"]}]});
    let tokens: Vec<Edit> = vec![
        |_| {},
        |c| put(c, "/code", json!("{code~}")),
        |c| put(c, "/pin/0", json!("{pin~}")),
        |c| put(c, "/pin", json!([])),
        |c| { put(c, "/code", json!("{code~}")); put(c, "/offer/0/pre/0/code", json!("{code~}")) },
        |c| put(c, "/offer/0/pre/0/req", json!([false])),
        |c| put(c, "/offer/0/pre/0/code", json!("{code~}")),
        |c| put(c, "/opts/0/pin/0", json!("{pin~}")),
        |c| put(c, "/opts", json!([])),
        |c| put(c, "/offer", json!([])),
        |c| put(c, "/grant", json!("auth")),
        |c| put(c, "/offer/0/auth", json!([{"state": []}])),
        |c| { put(c, "/pin", json!([])); put(c, "/offer/0/pre/0/req", json!([])) },
    ];
    for edit in tokens {
        let mut c = good.clone();
        edit(&mut c);
        let call = token::build(&c, &mut same.clone())?;
        all.push(Symbol { at: 0, run: Box::new(move || call.run()), args: Box::new(String::new) });
    }
    // offers and resolution: the same ids in another issuer's metadata
    let md = |iss: &str, a: &str, b: &str| json!({"iss": iss, "sup": [{"id": ["{idA}"], "cred": a}, {"id": ["{idB}"], "cred": b}]});
    let ask = |id: &str| json!([{"id": [id], "cred": ""}]);
    let sup = |ids: [&str; 2]| json!({"iss": "{issuer}", "sup": [{"id": [ids[0]], "cred": "{cred1}"}, {"id": [ids[1]], "cred": "{cred2}"}]});
    let flow = |code: &str, req: Value| json!([{"code": code, "req": req}]);
    let first = md("{issuer}", "{cred1}", "{cred2}");
    for (m, asks, auth, pre, endpoint) in [
        (first.clone(), ask("{idA}"), json!([]), flow("{code}", json!([])), json!([])),
        (md("{issuer~}", "{cred2}", "{cred1}"), ask("{idA}"), json!([]), flow("{code}", json!([])), json!([])),
        (first.clone(), ask("{idC}"), json!([]), flow("{code}", json!([])), json!([])),
        (first.clone(), ask("{idB}"), json!([]), flow("{code}", json!([true])), json!([])),
        (md("{issuer}", "{cred2}", "{cred1}"), ask("{idA}"), json!([]), flow("{code~}", json!([])), json!([])),
        (sup(["{idA}", "{idA}"]), ask("{idA}"), json!([]), flow("{code}", json!([])), json!([])),
        (sup(["{idC}", "{idB}"]), ask("{idA}"), json!([]), flow("{code}", json!([])), json!(["{endpoint}"])),
        (sup(["{idC}", "{idA}"]), json!([{"id": ["{idA}"], "cred": ""}, {"id": ["{idC}"], "cred": ""}]), json!([]), json!([]), json!(["{endpoint}?a=b"])),
        (first.clone(), ask("{idA}"), json!([{"state": []}]), flow("{code}", json!([])), json!(["{endpoint}"])),
        (first.clone(), Value::Array(vec![json!({"id": [], "cred": "{cred1}"}); 300]), json!([]), flow("{large}", json!([])), json!([])),
    ] {
        let c = json!({"md": m, "creds": asks, "auth": auth, "pre": pre, "endpoint": endpoint});
        let call = Arc::new(offer::build_plain(&c, &mut same.clone())?);
        let (a, b, d, e) = (call.clone(), call.clone(), call.clone(), call.clone());
        all.push(Symbol { at: 0, run: Box::new(move || a.run()), args: Box::new(move || d.args()) });
        all.push(Symbol { at: 0, run: Box::new(move || json!([b.md(), b.resolve()])), args: Box::new(move || e.args()) });
    }
    // responses, at two times
    for (at, nonce) in [(0, "{$n}"), (1, "{$n}"), (0, "{$m}")] {
        let c = json!({"kind": "token", "access_token": "{$a}", "expires_in": ["{#e}"], "scope": ["{$s}"], "c_nonce": [nonce], "c_nonce_expires_in": ["{#n}"],
                       "authorization_pending": [], "interval": []});
        let call = resp::build(&c, &mut same.clone())?;
        all.push(Symbol { at, run: Box::new(move || call.run_now()), args: Box::new(String::new) });
    }
    let mut broken = good_proof()["proof"][0].clone();
    put(&mut broken, "/jwt/h/typ", json!("JWT"));
    for (f, what, broke) in [("ldp_vc", "credential", false), ("jwt_vc_json", "credential", false), ("jwt_vc_json", "credential", true), ("jwt_vc_json", "token", false), ("mso_mdoc", "credential", false)] {
        let c = json!({"kind": "cred", "format": f, "credformat": f, "what": what, "token": "{$t}", "nonce": [{"c_nonce": "{$n}", "expires": ["{#n}"]}],
                       "proof": [if broke { broken.clone() } else { good_proof()["proof"][0].clone() }]});
        let call = Arc::new(resp::build(&c, &mut same.clone())?);
        let other = call.clone();
        all.push(Symbol {
            at: 0,
            run: Box::new(move || {
                // the order of members in an encoded JSON object says nothing: the decoded value is compared
                let mut v = call.run_now();
                if v["decoded"].get(0).is_some() {
                    v["text"] = json!("");
                    v["leaves"].as_array_mut().unwrap().retain(|l| l[0] != "/credential");
                }
                v
            }),
            args: Box::new(move || other.args()),
        });
    }
    // error responses and messages
    let d = fill(&json!({"x": "{nonce}", "y": ["{idA}", 1]}), &mut same.clone());
    all.push(Symbol {
        at: 0,
        run: Box::new(move || {
            let a = AccessToken::create_access_token_error_response(AccessTokenErrorCode::InvalidGrant, Some("d".into()), None, Some(d.clone()));
            let b = CredentialIssuer::create_credential_error_response(&CredentialIssuerErrorCode::InvalidToken, None, Some("u".into()), Some(d.clone()));
            json!([a.ok().map(|x| serde_json::to_value(x).ok()), b.ok().map(|x| serde_json::to_value(x).ok())])
        }),
        args: Box::new(String::new),
    });
    let mut e = same.clone();
    let (h, b) = (e.get("issuer"), e.get("nonce"));
    let text = format!("{}.{}.{}", b64url(json!({"typ": proof::TYP, "alg": "none"}).to_string().as_bytes()), b64url(json!({"aud": h, "nonce": b}).to_string().as_bytes()), "x");
    all.push(Symbol {
        at: 0,
        run: Box::new(move || match ProofJwt::from_str(&text) {
            Ok(j) => json!({"ok": format!("{j:?}")}),
            Err(e) => errs::validation(&e),
        }),
        args: Box::new(String::new),
    });
    if all.len() != COUNT {
        eprintln!("{} calls, not {COUNT}", all.len());
        std::process::exit(2);
    }
    let _ = wire::any_json;
    Some(Symbols { all, clock })
}

impl Symbols {
    fn call(&self, c: usize) -> (String, bool) {
        let s = &self.all[c];
        let before = (s.args)();
        let r = match guard(|| (s.run)()) {
            Ok(v) => canon(&v),
            Err(m) => canon(&panicked(&m)),
        };
        (r, before == (s.args)())
    }
    fn set(&self, at: usize) {
        set_clock(self.clock[at]);
    }
}

/// One call, the only one of this process
pub fn fresh(seed: u64, c: usize) {
    let s = symbols(seed).expect("the calls can be built");
    s.set(s.all[c].at);
    let (r, same) = s.call(c);
    println!("{}", json!({"r": r, "same": same}));
}

/// `until`: a history that takes longer than it ever should is cut, and judged as far as it went
pub fn history(seed: u64, orders: &[Vec<usize>], until: Instant, log: &mut Log) -> Option<(Value, Value)> {
    let late = || Instant::now() > until;
    let s = Arc::new(symbols(seed)?);
    let mut table: Vec<String> = vec![];
    let mut steps: Vec<Value> = vec![];
    let mut made: Vec<u64> = vec![];
    let mut add = |c: usize, how: &str, r: String, same: bool| {
        let n = match table.iter().position(|x| *x == r) {
            Some(n) => n,
            None => {
                table.push(r);
                table.len() - 1
            }
        };
        // a call repeated with the same result is one entry
        if let Some(last) = steps.last() {
            if last["c"] == c + 1 && last["how"] == how && last["r"] == n + 1 && last["same"] == same {
                *made.last_mut().unwrap() += 1;
                return;
            }
        }
        steps.push(json!({"c": c + 1, "how": how, "r": n + 1, "same": same}));
        made.push(1);
    };
    let me = std::env::current_exe().unwrap();
    for c in 0..COUNT {
        for zone in ["UTC", "Pacific/Kiritimati"] {
            log.about("state", &json!({"seed": seed, "fresh": c}));
            let o = std::process::Command::new(&me)
                .args(["fresh", "--seed", &seed.to_string(), "--call", &c.to_string()])
                .env("TZ", zone)
                .env("LC_ALL", if zone == "UTC" { "C" } else { "tr_TR.UTF-8" })
                .output()
                .unwrap();
            match serde_json::from_slice::<Value>(&o.stdout) {
                Ok(v) => add(c, "first call of a process", v["r"].as_str().unwrap().to_owned(), v["same"] == true),
                Err(_) => add(c, "first call of a process", format!("no result: {:?}", o.status), true),
            }
        }
    }
    for order in orders {
        if late() {
            break;
        }
        log.about("state", &json!({"seed": seed, "order": order}));
        for c in order {
            s.set(s.all[*c].at);
            let (r, same) = s.call(*c);
            add(*c, "after other calls", r, same);
        }
    }
    // many other calls, with arguments of their own, and then these again
    for round in 0..2 {
        log.about("state", &json!({"seed": seed, "flood": round}));
        for i in 0..if round == 0 { 300 } else { 1200 } {
            if late() {
                break;
            }
            let mut rng = Rng::new(seed, &format!("flood {round} {i}"));
            let case = proof::random_case(&mut rng);
            if let Some(c) = proof::build(&case, &mut Env::new(rng.clone(), i)) {
                c.eval();
                c.pre();
                if i % 4 == 0 {
                    c.ops();
                }
            }
            let case = json!({"grant": "pre", "code": if i % 3 > 0 { "{code}" } else { "{code~}" }, "pin": ["{pin}"],
                              "offer": [{"auth": [], "pre": [{"code": "{code}", "req": [true]}]}], "opts": [{"pin": [if i % 5 > 0 { "{pin}" } else { "{pin~}" }]}]});
            if let Some(c) = token::build(&case, &mut Env::new(rng.clone(), i)) {
                c.run();
            }
            let case = json!({"md": {"iss": "{issuer}", "sup": [{"id": ["{idA}"], "cred": "{cred1}"}, {"id": ["{idB}"], "cred": "{cred2}"}]}, "creds": [{"id": [if i % 2 > 0 { "{idA}" } else { "{idC}" }], "cred": ""}],
                              "auth": [], "pre": [{"code": "{code}", "req": []}], "endpoint": []});
            if let Some(c) = offer::build_plain(&case, &mut Env::new(rng, i)) {
                c.run();
                c.md();
                c.resolve();
            }
        }
        for c in 0..COUNT {
            s.set(s.all[c].at);
            let (r, same) = s.call(c);
            add(c, "after many other calls", r, same);
        }
    }
    // the same calls on eight threads, at one reading of the clock
    for at in [0, 1] {
        s.set(at);
        let mine: Vec<usize> = (0..COUNT).filter(|c| s.all[*c].at == at).collect();
        log.about("state", &json!({"seed": seed, "threads": at}));
        let barrier = Arc::new(Barrier::new(8));
        let hs: Vec<_> = (0..8u64)
            .map(|t| {
                let (s, barrier, mine) = (s.clone(), barrier.clone(), mine.clone());
                std::thread::spawn(move || {
                    let mut rng = Rng::new(seed, &format!("thread {t}"));
                    barrier.wait();
                    let mut got = vec![];
                    for _ in 0..if at == 0 { 60 } else { 10 } {
                        let c = mine[rng.below(mine.len())];
                        let (r, same) = s.call(c);
                        got.push((c, r, same));
                    }
                    got
                })
            })
            .collect();
        for h in hs {
            for (c, r, same) in h.join().unwrap() {
                add(c, "beside other calls", r, same);
            }
        }
    }
    Some((json!({"seed": seed.to_string(), "calls": made.iter().sum::<u64>(), "results": table.iter().map(|t| digest(&esc(t))).collect::<Vec<_>>()}), Value::Array(steps)))
}
