//! Whole issuances.  An issuer that follows the documented call order, a wallet and an attacker; the
//! library makes every decision and every message.  Only what happened is recorded.
use crate::env::Env;
use crate::proof::{document, metadata, stated};
use crate::util::*;
use openid4vci::access_token::error_response::AccessTokenErrorCode;
use openid4vci::access_token::{AccessToken, AccessTokenRequest};
use openid4vci::credential_issuer::error_code::CredentialIssuerErrorCode;
use openid4vci::credential_issuer::{
    CNonce, CNonceOptions, CredentialIssuer, CredentialOffer, CredentialOrAcceptanceToken, CredentialOrId, EvaluateCredentialRequestOptions,
    PreAuthorizedCodeFlow,
};
use openid4vci::types::credential_issuer_metadata::CredentialIssuerMetadata;
use openid4vci::types::credential_request::CredentialRequest;
use openid4vci::types::token_type::AccessTokenType;
use openid4vci::Document;
use serde_json::{json, Value};
use std::collections::HashMap;

const PRE: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";

struct Session {
    holder: String,
    nonce: String,
    created: Time,
}
pub struct World {
    env: Env,
    base: Time,
    tick: i64,
    life: i64,
    now: i64,
    md: CredentialIssuerMetadata,
    issuer: String,
    other: String,
    pins: HashMap<String, u64>,
    /// as the issuer stores them
    offers: HashMap<String, String>,
    links: HashMap<String, Value>,
    sessions: HashMap<String, Session>,
    /// nonces as the wallets read them, by their names in the specification
    nonces: Vec<String>,
    names: HashMap<String, String>,
    keys: HashMap<String, String>,
    registry: HashMap<String, Document>,
    seen: HashMap<String, String>,
    /// client ids, if the issuer knows its customers by them
    clients: Option<[String; 2]>,
    cred: Value,
    alg: String,
}

/// A stand-in for a signature scheme: depends on every part of what is signed
fn sign(key: &str, alg: &str, what: &Value) -> String {
    let t = format!("{key}|{alg}|{}", canon(what));
    let h = |seed: u64| t.bytes().fold(seed, |h, b| (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3).rotate_left(7));
    b64url(&[h(1), h(0x5151), h(0xabcdef), h(77)].iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<_>>())
}

impl World {
    pub fn new(case: &Value, mut env: Env) -> Option<World> {
        let life = match env.rng.below(6) {
            0 => 86400,
            1 => 1,
            2 => 300,
            3 => 2 + env.rng.below(100) as i64,
            4 => 86400 * (2 + env.rng.below(300) as i64) + env.rng.below(86400) as i64,
            _ => 30 + env.rng.below(10_000) as i64,
        };
        // one tick is within the lifetime of a nonce, two are not
        let tick = life - env.rng.below(((life - 1) / 2 + 1) as usize) as i64;
        let base = Time { secs: *env.rng.pick(&[0, 1_700_000_000, 2_147_483_640, 4_294_967_290, 1_600_000_000, 951_782_395]), nanos: env.rng.below(1_000_000_000) as u32 };
        let (issuer, other) = (env.get("issuer"), env.get("issuer~"));
        let cred_id = env.get("id");
        let cred = crate::env::profile(&mut env.rng);
        let md = metadata(&json!(issuer), &[(None, crate::env::profile(&mut env.rng)), (Some(cred_id), cred.clone())], &mut env.rng)?;
        let mut w = World {
            base, tick, life, now: 0, md, issuer, other, cred,
            pins: HashMap::new(), offers: HashMap::new(), links: HashMap::new(), sessions: HashMap::new(), nonces: vec![],
            names: HashMap::new(), keys: HashMap::new(), registry: HashMap::new(), seen: HashMap::new(),
            clients: (case["clients"] == true).then(|| [env.get("client"), env.get("client~")]),
            alg: (*env.rng.pick(&["EdDSA", "EdDSA", "ES256", "PS512", "ES256K", "RS256"])).to_owned(),
            env,
        };
        for o in case["pin"].as_array().unwrap() {
            let p = w.env.get("pin").parse().unwrap();
            w.pins.insert(o.as_str().unwrap().to_owned(), p);
            let again = w.env.get("pin~");
            if w.env.rng.chance(1, 2) {
                w.env.set("pin", again); // the other offer has a PIN close to this one
                w.env.set("pin~", p.to_string());
            }
        }
        // DIDs and keys that resemble each other
        for (p, m, frags) in [("W", "m", &["1", "2"][..]), ("A", "m~", &["1"][..])] {
            let did = format!("did:{}", w.env.get(m));
            w.names.insert(did.clone(), format!("did:{p}"));
            let mut vms = vec![];
            for (i, f) in frags.iter().enumerate() {
                let frag = w.env.get(if i == 0 { "frag" } else { "frag~" });
                let key = w.env.get(&format!("key{p}{i}"));
                let kid = format!("{did}#{frag}");
                w.keys.insert(kid.clone(), key.clone());
                w.names.insert(format!("did:{p}#{f}"), kid.clone());
                let id = if w.env.rng.chance(1, 4) { format!("#{frag}") } else { kid };
                vms.push(json!({"id": id, "rel": "verificationMethod", "key": {"kind": "okp", "bytes": [key]}}));
            }
            if p == "A" && w.env.rng.chance(1, 2) {
                // the attacker's document claims keys of the other's name
                for f in ["1", "2"] {
                    vms.insert(0, json!({"id": w.names[&format!("did:W#{f}")], "rel": "verificationMethod", "key": {"kind": "okp", "bytes": [w.env.get("keyA0")]}}));
                }
            }
            let doc = document(&json!({"id": did, "vms": vms}), &mut w.env.rng)?;
            w.registry.insert(did, doc);
        }
        Some(w)
    }

    fn time(&self, tick: i64) -> Time {
        self.base.add(tick * self.tick, 0)
    }
    fn text_of_nonce(&mut self, name: &str) -> String {
        match name.strip_prefix('n').and_then(|k| k.parse::<usize>().ok()) {
            Some(k) => self.nonces.get(k - 1).cloned().unwrap_or_else(|| self.env.get("nonce!")),
            None => match self.nonces.last().cloned() {
                Some(n) => (0..)
                    .map(|i| near(&n, self.env.k + i, &mut self.env.rng))
                    .find(|g| !self.nonces.contains(g))
                    .unwrap_or_default(),
                None => self.env.get("nonce!"),
            },
        }
    }
    /// A nonce never used before, often close to the one before it
    fn fresh_nonce(&mut self) -> String {
        loop {
            let n = match self.nonces.last().cloned() {
                Some(l) if self.env.rng.chance(1, 2) => mutate(&l, self.env.rng.below(MUTATORS), &mut self.env.rng),
                _ => text(&mut self.env.rng),
            };
            if !n.is_empty() && !self.nonces.contains(&n) {
                return n;
            }
        }
    }

    // ---------------------------------------------------------------- wallets
    fn jwt(&mut self, p: &Value) -> String {
        if let Some(t) = self.seen.get(&canon(p)) {
            if self.env.rng.chance(2, 3) || p["by"].as_str().unwrap().starts_with("did:W") {
                return t.clone();
            }
        }
        let kid = self.names[p["kid"].as_str().unwrap()].clone();
        let aud = if p["aud"] == "I" { self.issuer.clone() } else { self.other.clone() };
        let nonce = self.text_of_nonce(p["nonce"].as_str().unwrap());
        let h = json!({"typ": "openid4vci-proof+jwt", "alg": self.alg, "kid": kid});
        let mut b = json!({"aud": aud, "nonce": nonce, "iat": self.time(self.now).rfc3339(&mut self.env.rng)});
        if let Some(e) = p["exp"].get(0).and_then(Value::as_i64) {
            b["exp"] = json!(self.time(e).rfc3339(&mut self.env.rng));
        }
        if let Some(i) = p["iss"].get(0).and_then(Value::as_str) {
            b["iss"] = json!(match &self.clients {
                Some([w, _]) if i == "W" => w.clone(),
                Some([_, a]) => a.clone(),
                None => self.env.get(if i == "W" { "client" } else { "client~" }),
            });
        }
        let plain = format!("{h}.{b}");
        let input = format!("{}.{}", b64url(scrambled(&h, &mut self.env.rng).as_bytes()), b64url(scrambled(&b, &mut self.env.rng).as_bytes()));
        let sig = match p["by"].as_str().unwrap() {
            "forged" => {
                let copied: Vec<String> = self.seen.values().filter_map(|t| t.rsplit('.').next().map(ToOwned::to_owned)).collect();
                match self.env.rng.below(4) {
                    0 if !copied.is_empty() => copied[self.env.rng.below(copied.len())].clone(),
                    1 => String::new(),
                    2 => sign("", &self.alg, &stated(&plain).unwrap_or_default()),
                    _ => self.env.rng.word(43),
                }
            }
            by => {
                let key = self.keys[&self.names[by]].clone();
                sign(&key, &self.alg, &stated(&plain).unwrap_or_default())
            }
        };
        format!("{input}.{sig}")
    }

    // ---------------------------------------------------------------- steps
    fn offer(&mut self, o: &str) -> Result<(), String> {
        let code = self.env.get(if o == "o1" { "code" } else { "code~" });
        let endpoint = self.env.rng.chance(1, 2).then(|| crate::env::endpoint(&mut self.env.rng));
        let id = self.md.credentials_supported[1].id.clone().unwrap_or_default();
        let pre = PreAuthorizedCodeFlow {
            code,
            user_pin_required: if self.pins.contains_key(o) { Some(true) } else if self.env.rng.chance(1, 2) { Some(false) } else { None },
        };
        let (offer, url) = CredentialIssuer::create_offer(&self.md, vec![CredentialOrId::CredentialId(id)], &endpoint, &None, &Some(pre)).map_err(|e| e.to_string())?;
        let at = url.rfind("credential_offer=").ok_or("no offer in the link")?;
        let bytes = unpct(&url[at + 17..]).ok_or("not percent-encoded")?;
        let read: Value = serde_json::from_slice(&bytes).map_err(|e| e.to_string())?;
        if read["credential_issuer"] != json!(self.issuer) {
            return Err("the wallet is sent to another issuer".into());
        }
        self.offers.insert(o.into(), serde_json::to_string(&offer).map_err(|e| e.to_string())?);
        self.links.insert(o.into(), read);
        Ok(())
    }

    fn redeem(&mut self, s: &Value) -> Result<bool, String> {
        let (p, o) = (s["p"].as_str().unwrap(), s["o"].as_str().unwrap());
        let Some(offer) = self.offers.get(o) else { return Ok(false) };
        let offer: CredentialOffer = serde_json::from_str(offer).map_err(|e| e.to_string())?;
        let code = match s["code"].as_str().unwrap() {
            "x" => {
                let (c, d) = (self.env.get(if o == "o1" { "code" } else { "code~" }), self.env.get(if o == "o1" { "code~" } else { "code" }));
                let mut others = vec![d, self.issuer.clone()];
                if let Some(p) = self.pins.get(o) {
                    others.extend([p.to_string(), p.to_string(), format!("{p:08}")]);
                }
                let with = self.env.rng.pick(&others).clone();
                let mixed = combined(&c, &with, &mut self.env.rng);
                if mixed != c && self.env.rng.chance(1, 2) { mixed } else { near(&c, self.env.k + 3, &mut self.env.rng) }
            }
            c => match self.links.get(c) {
                Some(l) => l["grants"][PRE]["pre-authorized_code"].as_str().unwrap_or_default().to_owned(),
                None => self.env.get(if c == "o1" { "code" } else { "code~" }),
            },
        };
        let right = self.pins.get(o).copied();
        let pin = match s["pin"].as_str().unwrap() {
            "none" => None,
            "right" => Some(right.unwrap_or(1234)),
            _ => {
                let w: u64 = self.env.get("pin!").parse().unwrap();
                let near = match right {
                    Some(r) => *self.env.rng.pick(&[r + 1, r.saturating_sub(1), r / 10, r * 10 % 100_000_000, r ^ 1, w, r + 65536, (r + 10) % 100_000_000]),
                    None => w,
                };
                Some(if Some(near) == right || near >= 100_000_000 { (right.unwrap_or(0) + 1) % 100_000_000 } else { near })
            }
        };
        let mut inner = json!({"grant_type": if s["grant"] == "pre" { PRE } else { "authorization_code" }});
        if s["grant"] == "pre" {
            inner["pre_authorized_code"] = json!(code);
            if let Some(p) = pin {
                inner["user_pin"] = json!(p);
            }
        }
        let req: AccessTokenRequest = serde_json::from_value(json!({"grant_type": inner})).map_err(|e| format!("HARNESS {e}"))?;
        if self.sessions.contains_key(o) {
            return Ok(false); // a code is good once
        }
        let opts = match right {
            Some(r) => Some(serde_json::from_value(json!({"expected_user_pin": r})).unwrap()),
            None if self.env.rng.chance(1, 2) => Some(serde_json::from_value(json!({})).unwrap()),
            None => None,
        };
        if let Err(e) = AccessToken::evaluate_access_token_request(&req, Some(offer), opts) {
            AccessToken::create_access_token_error_response(AccessTokenErrorCode::InvalidGrant, Some(e.to_string()), None, None).map_err(|e| e.to_string())?;
            return Ok(false);
        }
        let nonce = self.fresh_nonce();
        let (r, at) = AccessToken::create_access_token_success_response(
            self.env.rng.word(20), AccessTokenType::Bearer, Some(86400), None, Some(nonce.clone()), Some(self.life as u32), None, None,
        )
        .map_err(|e| e.to_string())?;
        let sent = serde_json::to_value(&r).map_err(|e| e.to_string())?;
        self.nonces.push(sent["c_nonce"].as_str().unwrap_or_default().to_owned());
        self.sessions.insert(o.to_owned(), Session { holder: p.to_owned(), nonce, created: Time::of(at) });
        Ok(true)
    }

    fn request(&mut self, s: &Value) -> Result<(bool, String), String> {
        let (p, o) = (s["p"].as_str().unwrap(), s["o"].as_str().unwrap());
        let jwt = self.jwt(&s["proof"]);
        if p == "W" {
            self.seen.insert(canon(&s["proof"]), jwt.clone());
        }
        let mut r = self.cred.clone();
        r["proof"] = json!({"proof_type": "jwt", "jwt": jwt});
        let req: Result<CredentialRequest, _> = serde_json::from_str(&r.to_string());
        let wait = s["wait"].as_i64().unwrap();
        match self.sessions.get(o) {
            Some(x) if x.holder == p => {}
            _ => return Ok((false, String::new())),
        }
        // the two steps of evaluation, the DID resolved in between
        let req = req.map_err(|e| format!("the request cannot be read: {e}"))?;
        let pre = CredentialIssuer::pre_evaluate_credential_request(&req);
        self.now += wait;
        set_clock(self.time(self.now));
        let done = match pre {
            Err(_) => None,
            Ok(pre) => {
                let doc = pre.did.as_ref().and_then(|d| self.registry.get(d));
                let offer: Option<CredentialOffer> = self.offers.get(o).and_then(|o| serde_json::from_str(o).ok());
                let x = &self.sessions[o];
                let opts = EvaluateCredentialRequestOptions {
                    client_id: self.clients.as_ref().map(|[w, a]| if p == "W" { w.clone() } else { a.clone() }),
                    c_nonce: Some(CNonceOptions { expected_c_nonce: x.nonce.clone(), c_nonce_created_at: x.created.dt().unwrap(), c_nonce_expires_in: self.life as u32 }),
                };
                CredentialIssuer::evaluate_credential_request(&self.md, &req, offer.as_ref(), None, doc, Some(opts)).ok()
            }
        };
        // the issuer's own signature check
        let done = done.filter(|d| {
            d.proof_of_possession.as_ref().map_or(false, |p| {
                let alg = serde_json::to_value(&p.algorithm).unwrap_or_default();
                let m = String::from_utf8_lossy(&p.message);
                // the JSON text of header and claims, or the signing input that encodes it
                let plain = || {
                    let (h, b) = m.split_once('.')?;
                    Some(format!("{}.{}", String::from_utf8(unb64url(h)?).ok()?, String::from_utf8(unb64url(b)?).ok()?))
                };
                let what = stated(&m).or_else(|| stated(&plain()?)).unwrap_or_default();
                p.signature == sign(&hex(&p.public_key), alg.as_str().unwrap_or(""), &what).into_bytes()
            })
        });
        let late = {
            let x = &self.sessions[o];
            let (n, e) = (self.time(self.now), x.created.add(self.life, 0));
            (n.secs, n.nanos) > (e.secs, e.nanos)
        };
        let Some(done) = done else {
            if late {
                let n = self.fresh_nonce();
                let details = json!({"c_nonce": n, "c_nonce_expires_in": self.life});
                let r = CredentialIssuer::create_credential_error_response(&CredentialIssuerErrorCode::InvalidOrMissingProof, Some("late".into()), None, Some(details))
                    .map_err(|e| e.to_string())?;
                let sent = serde_json::to_value(&r).map_err(|e| e.to_string())?;
                self.nonces.push(sent["c_nonce"].as_str().unwrap_or_default().to_owned());
                let created = self.time(self.now);
                let x = self.sessions.get_mut(o).unwrap();
                x.nonce = n;
                x.created = created;
            }
            return Ok((false, String::new()));
        };
        let n = self.fresh_nonce();
        let what = CredentialOrAcceptanceToken::Credential(done.credential.clone());
        let (r, at) = CredentialIssuer::create_credential_success_response(&req, Some(what), Some(CNonce { c_nonce: n.clone(), c_nonce_expires_in: Some(self.life as u32) }))
            .map_err(|e| e.to_string())?;
        let sent = serde_json::to_value(&r).map_err(|e| e.to_string())?;
        if sent["credential"].is_null() {
            return Err("the response carries no credential".into());
        }
        self.nonces.push(sent["c_nonce"].as_str().unwrap_or_default().to_owned());
        let x = self.sessions.get_mut(o).unwrap();
        x.nonce = n;
        x.created = Time::of(at);
        let subject = done.subject_id.unwrap_or_default();
        Ok((true, self.names.get(&subject).cloned().unwrap_or_else(|| format!("unknown {}", esc(&subject)))))
    }

    pub fn step(&mut self, s: &Value) -> Value {
        set_clock(self.time(self.now));
        let r = guard(|| match s["a"].as_str().unwrap() {
            "offer" => self.offer(s["o"].as_str().unwrap()).map(|()| (true, String::new())),
            "tick" => {
                self.now += 1;
                Ok((true, String::new()))
            }
            "lure" => {
                let t = self.jwt(&s["proof"]);
                self.seen.insert(canon(&s["proof"]), t);
                Ok((true, String::new()))
            }
            "redeem" => self.redeem(s).map(|ok| (ok, String::new())),
            _ => self.request(s),
        });
        match r {
            Ok(Ok((ok, did))) => json!({"ok": ok, "did": did, "note": ""}),
            Ok(Err(e)) => json!({"ok": false, "did": "", "note": esc(&e)}),
            Err(m) => json!({"ok": false, "did": "PANIC", "note": esc(&m)}),
        }
    }
}

/// Steps that leave the state of the specification as it was follow one another in one history; a
/// history that another one continues is left out
pub fn bundle(all: &[Value], seed: u64) -> Vec<Value> {
    let mut loops: std::collections::BTreeMap<String, Vec<&Value>> = Default::default();
    let mut inner: std::collections::HashSet<String> = Default::default();
    let mut ends = vec![];
    for c in all {
        let steps = c["in"]["steps"].as_array().unwrap();
        let prefix = canon(&json!([c["in"]["pin"], c["in"]["leaked"], c["in"]["clients"], steps[..steps.len() - 1]]));
        if c["loop"] == true {
            loops.entry(prefix.clone()).or_default().push(c);
        } else {
            ends.push(c);
        }
        inner.insert(prefix);
    }
    let mut out = vec![];
    for c in ends {
        if !inner.contains(&canon(&json!([c["in"]["pin"], c["in"]["leaked"], c["in"]["clients"], c["in"]["steps"]]))) {
            out.push(c["in"].clone());
        }
    }
    for (k, v) in &loops {
        let mut v = v.clone();
        Rng::new(seed, k).shuffle(&mut v);
        for part in v.chunks(12) {
            let mut c = part[0]["in"].clone();
            for x in &part[1..] {
                let s = x["in"]["steps"].as_array().unwrap().last().unwrap().clone();
                c["steps"].as_array_mut().unwrap().push(s);
            }
            out.push(c);
        }
    }
    out
}
