//! Issuer metadata, resolution of ids, offer creation
use crate::env::Env;
use crate::errs;
use crate::proof::metadata;
use crate::token::{escaped, fill};
use crate::util::*;
use openid4vci::credential_issuer::{AuthorizedCodeFlow, CredentialIssuer, CredentialOffer, CredentialOrId, CredentialOrIds, PreAuthorizedCodeFlow};
use openid4vci::types::credential::CredentialFormatProfile;
use openid4vci::types::credential_issuer_metadata::CredentialIssuerMetadata;
use openid4vci::validate::Validatable;
use serde_json::{json, Value};

pub struct Call {
    pub input: Value,
    md: CredentialIssuerMetadata,
    asks: Vec<CredentialOrId>,
    way: usize,
    endpoint: Option<String>,
    auth: Option<AuthorizedCodeFlow>,
    pre: Option<PreAuthorizedCodeFlow>,
}

fn cred_text(c: &CredentialFormatProfile) -> String {
    esc(&digest(&canon(&serde_json::to_value(c).unwrap_or(Value::Null))))
}
fn text_digest(s: &str) -> String {
    digest(&canon(&serde_json::from_str(s).unwrap()))
}

pub fn build(case: &Value, env: &mut Env) -> Option<Call> {
    let mut c = fill(case, env);
    // at times many more supported credentials, and many more asked for
    let sup = c["md"]["sup"].as_array_mut().unwrap();
    if env.rng.chance(1, 25) {
        for i in 0..*env.rng.pick(&[20, 64, 129, 300]) {
            let at = env.rng.below(sup.len() + 1);
            let id = if i % 3 > 0 { json!([format!("filler-{i}-{}", env.rng.word(3))]) } else { json!([]) };
            sup.insert(at, json!({"id": id, "cred": crate::env::profile(&mut env.rng).to_string()}));
        }
    }
    let ids: Vec<Value> = sup.iter().map(|s| s["id"].clone()).collect();
    // texts that say something about a supported credential, but are not its id
    let mut about: Vec<String> = (0..3).map(|i| i.to_string()).collect();
    for s in sup.iter() {
        let p: Value = serde_json::from_str(s["cred"].as_str().unwrap()).unwrap();
        about.push(p["format"].as_str().unwrap_or("").to_owned());
        about.extend(p["doctype"].as_str().map(ToOwned::to_owned));
        about.extend(p["types"].as_array().into_iter().flatten().filter_map(|t| t.as_str().map(ToOwned::to_owned)));
        about.push(s["cred"].as_str().unwrap().to_owned());
    }
    about.retain(|t| !ids.contains(&json!([t])));
    for a in c["creds"].as_array_mut().unwrap() {
        if a["id"].get(0).is_some() && !ids.contains(&a["id"]) && !about.is_empty() && env.rng.chance(1, 3) {
            a["id"] = json!([env.rng.pick(&about)]);
        }
    }
    let asks = c["creds"].as_array_mut().unwrap();
    if !asks.is_empty() && env.rng.chance(1, 25) {
        let n = *env.rng.pick(&[3, 9, 40]);
        *asks = (0..n * asks.len()).map(|i| asks[i % asks.len()].clone()).collect();
        if env.rng.chance(2, 3) {
            // in a random order, with other known ids between
            let known: Vec<Value> = ids.iter().filter(|i| i.get(0).is_some()).map(|i| json!({"id": i, "cred": ""})).collect();
            for _ in 0..n {
                if !known.is_empty() {
                    asks.push(env.rng.pick(&known).clone());
                }
            }
            env.rng.shuffle(asks);
        }
    }
    built(c, env)
}
pub fn build_plain(case: &Value, env: &mut Env) -> Option<Call> {
    let c = fill(case, env);
    built(c, env)
}
fn built(mut c: Value, env: &mut Env) -> Option<Call> {
    let entries: Vec<(Option<String>, Value)> = c["md"]["sup"]
        .as_array()
        .unwrap()
        .iter()
        .map(|s| (s["id"].get(0).and_then(Value::as_str).map(ToOwned::to_owned), serde_json::from_str(s["cred"].as_str().unwrap()).unwrap()))
        .collect();
    let md = metadata(&c["md"]["iss"], &entries, &mut env.rng)?;
    let asks = c["creds"]
        .as_array()
        .unwrap()
        .iter()
        .map(|a| match a["id"].get(0).and_then(Value::as_str) {
            Some(id) => Some(match env.rng.below(3) {
                0 => CredentialOrId::CredentialId(id.to_owned()),
                1 => CredentialOrId::from(id),
                _ => CredentialOrId::from(id.to_owned()),
            }),
            None => {
                let p: CredentialFormatProfile = serde_json::from_str(a["cred"].as_str().unwrap()).ok()?;
                Some(if env.rng.chance(1, 2) { p.into() } else { CredentialOrId::Credential(p) })
            }
        })
        .collect::<Option<Vec<_>>>()?;
    for s in c["md"]["sup"].as_array_mut().unwrap() {
        s["cred"] = json!(text_digest(s["cred"].as_str().unwrap()));
    }
    for a in c["creds"].as_array_mut().unwrap() {
        if a["id"].get(0).is_none() {
            a["cred"] = json!(text_digest(a["cred"].as_str().unwrap()));
        }
    }
    let endpoint = c["endpoint"].get(0).and_then(Value::as_str).map(ToOwned::to_owned);
    let auth = c["auth"].get(0).map(|a| AuthorizedCodeFlow { issuer_state: a["state"].get(0).and_then(Value::as_str).map(ToOwned::to_owned) });
    let pre = c["pre"].get(0).map(|p| PreAuthorizedCodeFlow {
        code: p["code"].as_str().unwrap().to_owned(),
        user_pin_required: p["req"].get(0).and_then(Value::as_bool),
    });
    Some(Call { input: escaped(&c), md, asks, way: env.rng.below(5), endpoint, auth, pre })
}

impl Call {
    /// The list asked for, made in any of the ways there are
    fn list(&self) -> CredentialOrIds {
        let asks = self.asks.clone();
        let ids: Option<Vec<String>> = asks.iter().map(|a| match a { CredentialOrId::CredentialId(i) => Some(i.clone()), CredentialOrId::Credential(_) => None }).collect();
        let creds: Option<Vec<CredentialFormatProfile>> = asks.iter().map(|a| match a { CredentialOrId::Credential(c) => Some(c.clone()), CredentialOrId::CredentialId(_) => None }).collect();
        match (self.way, ids, creds) {
            (0, _, _) => CredentialOrIds::new(asks),
            (1, _, _) => CredentialOrIds::from(&asks.iter().collect::<Vec<_>>()[..]),
            (2, Some(i), _) => i.into(),
            (3, Some(i), _) => i.iter().map(String::as_str).collect::<Vec<_>>().into(),
            (2 | 3, _, Some(c)) => c.into(),
            _ => asks.into(),
        }
    }
}

/// The credentials of an offer, through the JSON the list serializes to
fn list(l: &CredentialOrIds) -> Value {
    let v = serde_json::to_value(l).unwrap_or(Value::Null);
    Value::Array(
        v.as_array()
            .cloned()
            .unwrap_or_default()
            .iter()
            .map(|c| match c {
                Value::String(s) => json!({"id": [esc(s)], "cred": ""}),
                x => json!({"id": [], "cred": esc(&digest(&canon(x)))}),
            })
            .collect(),
    )
}
fn offer_json(o: &CredentialOffer) -> Value {
    json!({
        "iss": esc(&o.credential_issuer),
        "creds": list(&o.credentials),
        "auth": opt(o.grants.authorized_code_flow.as_ref().map(|a| json!({"state": eopt(a.issuer_state.as_deref())}))),
        "pre": opt(o.grants.pre_authorized_code_flow.as_ref().map(|p| json!({"code": esc(&p.code), "req": opt(p.user_pin_required)}))),
    })
}
const MARK: &str = "credential_offer=";
fn link(o: &CredentialOffer, url: &str, endpoint: Option<&str>) -> Value {
    // the parameter value starts at the first occurrence after the endpoint
    let from = endpoint.filter(|e| url.starts_with(e)).map_or(0, str::len);
    let at = url[from..].find(MARK).map(|i| from + i + MARK.len());
    let value = at.map_or("", |i| &url[i..]);
    let plain = unpct(value).and_then(|b| String::from_utf8(b).ok());
    let parsed = plain.as_deref().and_then(|p| serde_json::from_str::<Value>(p).ok());
    let reread = plain.as_deref().and_then(|p| serde_json::from_str::<CredentialOffer>(p).ok());
    let mut chars: Vec<String> = value.chars().map(|c| esc(&c.to_string())).collect();
    chars.sort();
    chars.dedup();
    let head = at.unwrap_or(url.len().min(400));
    json!({
        "url": esc(&url[..head]), "len": esc(url).len(), "enclen": esc(value).len(), "charset": chars,
        "json": esc(&digest(&canon(&serde_json::to_value(o).unwrap_or(Value::Null)))),
        "decoded": opt(parsed.map(|p| esc(&digest(&canon(&p))))),
        "reread": reread.as_ref() == Some(o),
        "same": reread.as_ref().map_or(json!([]), |r| json!([offer_json(r)])),
    })
}

impl Call {
    pub fn args(&self) -> String {
        format!("{:?}{:?}", serde_json::to_string(&self.md), self.asks)
    }
    pub fn run(&self) -> Value {
        let r = guard(|| {
            CredentialIssuer::create_offer(&self.md, self.list(), &self.endpoint, &self.auth, &self.pre)
                .map_err(|e| errs::issuer(&e))
        });
        match r {
            Ok(Ok((o, url))) => json!({"ok": true, "err": errs::none(), "res": [{"offer": offer_json(&o), "link": link(&o, &url, self.endpoint.as_deref())}]}),
            Ok(Err(e)) => json!({"ok": false, "err": e, "res": []}),
            Err(m) => { let mut v = panicked(&m); v["res"] = json!([]); v }
        }
    }
    pub fn md(&self) -> Value {
        match guard(|| self.md.validate().map_err(|e| errs::validation(&e))) {
            Ok(Ok(())) => json!({"ok": true, "err": errs::none()}),
            Ok(Err(e)) => json!({"ok": false, "err": e}),
            Err(m) => panicked(&m),
        }
    }
    /// Every credential asked for and every supported id, resolved one by one; and the list as a whole
    pub fn resolve(&self) -> Value {
        let mut asks: Vec<(Value, CredentialOrId)> =
            self.input["creds"].as_array().unwrap().iter().cloned().zip(self.asks.iter().cloned()).collect();
        let ids: Vec<String> = self.md.credentials_supported.iter().filter_map(|s| s.id.clone()).collect();
        for id in ids.iter().take(40) {
            asks.push((json!({"id": [esc(id)], "cred": ""}), CredentialOrId::CredentialId(id.clone())));
        }
        let one: Vec<Value> = asks
            .iter()
            .map(|(j, a)| {
                let r = match guard(|| a.resolve(&self.md).map_err(|e| errs::issuer(&e))) {
                    Ok(Ok(c)) => json!({"ok": true, "err": errs::none(), "cred": cred_text(&c)}),
                    Ok(Err(e)) => json!({"ok": false, "err": e, "cred": ""}),
                    Err(m) => { let mut v = panicked(&m); v["cred"] = json!(""); v }
                };
                json!({"c": j, "r": r})
            })
            .collect();
        let all = self.list();
        let r = match guard(|| all.resolve_all(&self.md).map_err(|e| errs::issuer(&e))) {
            Ok(Ok(cs)) => json!({"ok": true, "err": errs::none(), "creds": cs.iter().map(cred_text).collect::<Vec<_>>()}),
            Ok(Err(e)) => json!({"ok": false, "err": e, "creds": []}),
            Err(m) => { let mut v = panicked(&m); v["creds"] = json!([]); v }
        };
        json!({"one": one, "all": r})
    }
}
