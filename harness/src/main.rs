//! Replays actions of the specification on the real contracts (in cw-multi-test) and reports what
//! happened: success or failure, the figures in the emitted events, and the projected state.
//! One JSON value per line on stdin, one reply per line on stdout.
mod big;

use cosmwasm_std::{
    coin, from_slice, to_binary, Addr, AllBalanceResponse, BankQuery, Binary, BlockInfo, Coin,
    ContractInfoResponse, CosmosMsg, Decimal, Empty, QueryRequest, Timestamp, Uint128, WasmMsg, WasmQuery, BankMsg,
};
use cosmwasm_std::{testing::MockApi, Order, Record, Storage};
use cw_multi_test::{App as ChainApp, AppBuilder, AppResponse, BankKeeper, Contract, ContractWrapper, Executor};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::ops::Bound;
use std::rc::Rc;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

const NATIVE: i64 = 1000;
/// the native coin whose name is the address of the first token
const TWIN: i64 = 1019;
/// a text that is not an address
const BAD: i64 = 90;
/// expirations in seconds since the start
const TIME: i64 = 1_000_000_000;

fn start() -> Timestamp {
    cosmwasm_std::testing::mock_env().block.time
}

fn token() -> Box<dyn Contract<Empty>> {
    use halo_token::contract::*;
    Box::new(ContractWrapper::new(execute, instantiate, query))
}
fn pair() -> Box<dyn Contract<Empty>> {
    use halo_pair::contract::*;
    Box::new(ContractWrapper::new(execute, instantiate, query).with_reply(reply).with_migrate(migrate))
}
fn factory() -> Box<dyn Contract<Empty>> {
    use halo_factory::contract::*;
    Box::new(ContractWrapper::new(execute, instantiate, query).with_reply(reply).with_migrate(migrate))
}
fn router() -> Box<dyn Contract<Empty>> {
    use halo_router::contract::*;
    Box::new(ContractWrapper::new(execute, instantiate, query).with_migrate(migrate))
}

// ------------------------------------------------------------------ JSON helpers
fn num(v: &Value) -> i128 {
    match v {
        Value::Number(n) => n.as_i64().unwrap() as i128,
        Value::String(s) => s.parse::<i128>().unwrap_or(i128::MAX),
        _ => panic!("bad number {v}"),
    }
}
fn id(v: &Value) -> i64 {
    num(v) as i64
}
fn amt(v: &Value) -> u128 {
    match v {
        Value::String(s) => s.parse::<u128>().expect("amount"),
        _ => u128::try_from(num(v)).expect("amount"),
    }
}
fn opt_amt(v: &Value) -> Value {
    if num(v) < 0 { Value::Null } else { json!(amt(v).to_string()) }
}
/// 18-decimal number given in atomics
fn opt_dec(v: &Value) -> Value {
    if num(v) < 0 { Value::Null } else { json!(Decimal::from_atomics(amt(v), 18).unwrap().to_string()) }
}
fn out_num(x: u128) -> Value {
    if x < (1 << 50) { json!(x as u64) } else { json!(x.to_string()) }
}
fn parse_num(s: &str) -> Value {
    match s.parse::<u128>() { Ok(x) => out_num(x), Err(_) => json!(-9) }
}
fn bin(v: &Value) -> Binary {
    Binary(serde_json::to_vec(v).unwrap())
}
fn text(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|c| char::from_u32(id(c) as u32).unwrap_or('?')).collect()
}
fn points(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}

fn expiration(e: &Value) -> i64 {
    if let Some(h) = e["at_height"].as_u64() { h as i64 }
    else if let Some(t) = e["at_time"].as_str() {
        let n: u64 = t.parse().unwrap_or(0);
        TIME + (n.saturating_sub(start().nanos()) / 1_000_000_000) as i64
    } else if e.get("never").is_some() { 0 } else { 1 }
}

/// storage that can be copied and put back
#[derive(Clone, Default)]
struct Mem(Rc<RefCell<BTreeMap<Vec<u8>, Vec<u8>>>>);
impl Storage for Mem {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.0.borrow().get(key).cloned()
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        self.0.borrow_mut().insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        self.0.borrow_mut().remove(key);
    }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        if let (Some(a), Some(b)) = (start, end) {
            if a > b { return Box::new(std::iter::empty()); }
        }
        let lo = start.map_or(Bound::Unbounded, |x| Bound::Included(x.to_vec()));
        let hi = end.map_or(Bound::Unbounded, |x| Bound::Excluded(x.to_vec()));
        let m = self.0.borrow();
        let mut l: Vec<Record> = m.range((lo, hi)).map(|(k, v)| (k.clone(), v.clone())).collect();
        if matches!(order, Order::Descending) { l.reverse(); }
        Box::new(l.into_iter())
    }
}
type App = ChainApp<BankKeeper, MockApi, Mem>;

/// everything that may differ between two moments
#[derive(Clone)]
struct Snapshot {
    data: BTreeMap<Vec<u8>, Vec<u8>>,
    block: BlockInfo,
    prev: Proj,
    reg_prev: Proj,
}

type Proj = BTreeMap<String, (Vec<Value>, Value)>;

struct H {
    app: App,
    /// native coins: number, name
    denoms: Vec<(i64, String)>,
    limit: i64,
    prev: Proj,
    reg_prev: Proj,
    mem: Mem,
}

impl H {
    fn save(&self) -> Snapshot {
        Snapshot { data: self.mem.0.borrow().clone(), block: self.app.block_info(), prev: self.prev.clone(), reg_prev: self.reg_prev.clone() }
    }
    fn load(&mut self, s: &Snapshot) {
        *self.mem.0.borrow_mut() = s.data.clone();
        self.app.set_block(s.block.clone());
        self.prev = s.prev.clone();
        self.reg_prev = s.reg_prev.clone();
    }
    /// of all stored data, what the projection does not show included
    fn fingerprint(&self) -> String {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.mem.0.borrow().hash(&mut h);
        self.app.block_info().height.hash(&mut h);
        format!("{:016x}", h.finish())
    }
    fn new(cfg: &Value) -> H {
        let denoms: Vec<(i64, String)> = cfg["denoms"].as_array().unwrap().iter().enumerate()
            .map(|(i, d)| { let d = d.as_str().unwrap().to_string(); (if d == "contract2" { TWIN } else { NATIVE + i as i64 }, d) }).collect();
        let users = id(&cfg["users"]);
        let funds = amt(&cfg["funds"]);
        let d2 = denoms.clone();
        let mem = Mem::default();
        let mut app = AppBuilder::new()
            .with_storage(mem.clone())
            .with_block(BlockInfo { height: 12345, ..cosmwasm_std::testing::mock_env().block })
            .build(|r, _, storage| {
                for u in 0..users {
                    let coins: Vec<Coin> = d2.iter().map(|d| coin(funds, d.1.clone())).collect();
                    r.bank.init_balance(storage, &Addr::unchecked(format!("user{u}")), coins).unwrap();
                }
            });
        let t1 = app.store_code(token());
        let p1 = app.store_code(pair());
        let f = app.store_code(factory());
        let r = app.store_code(router());
        let t2 = app.store_code(token());
        let p2 = app.store_code(pair());
        assert_eq!((t1, p1, f, r, t2, p2), (1, 2, 3, 4, 5, 6));
        let owner = Addr::unchecked("user0");
        for (code, msg) in [(f, json!({"pair_code_id": 2, "token_code_id": 1})), (r, json!({"halo_factory": "contract0"}))] {
            app.execute(owner.clone(), WasmMsg::Instantiate { admin: Some(owner.to_string()), code_id: code, msg: bin(&msg), funds: vec![], label: "core".into() }.into()).unwrap();
        }
        H { app, denoms, limit: id(&cfg["limit"]), prev: Proj::new(), reg_prev: Proj::new(), mem }
    }

    // -------------------------------------------------------------- names
    fn addr(&self, v: &Value) -> String {
        self.addr_id(id(v))
    }
    fn addr_id(&self, i: i64) -> String {
        if i >= 100 { format!("contract{}", i - 100) } else if i == BAD { "USER3".into() } else { format!("user{i}") }
    }
    fn opt_addr(&self, v: &Value) -> Value {
        if id(v) < 0 { Value::Null } else { json!(self.addr(v)) }
    }
    fn addr_of(&self, s: &str) -> i64 {
        if let Some(k) = s.strip_prefix("contract") { k.parse::<i64>().map(|k| k + 100).unwrap_or(-7) }
        else if let Some(k) = s.strip_prefix("user") { k.parse::<i64>().unwrap_or(-7) }
        else if s == "USER3" { BAD }
        else { -7 }
    }
    fn denom(&self, i: i64) -> String {
        self.denoms.iter().find(|d| d.0 == i).expect("denom").1.clone()
    }
    fn asset_id(&self, i: i64) -> Value {
        if i >= NATIVE { json!({"native_token": {"denom": self.denom(i)}}) }
        else { json!({"token": {"contract_addr": self.addr_id(i)}}) }
    }
    fn asset(&self, v: &Value) -> Value {
        self.asset_id(id(v))
    }
    fn asset_of(&self, v: &Value) -> i64 {
        if let Some(t) = v.get("token") { self.addr_of(t["contract_addr"].as_str().unwrap_or("")) }
        else if let Some(n) = v.get("native_token") {
            let d = n["denom"].as_str().unwrap_or("");
            self.denoms.iter().find(|x| x.1 == d).map(|x| x.0).unwrap_or(-8)
        } else { -9 }
    }
    /// asset as printed in an attribute (where a token and its twin look alike)
    fn asset_text(&self, s: &str) -> i64 {
        match self.denoms.iter().find(|x| x.1 == s && x.0 != TWIN) { Some(d) => d.0, None => self.addr_of(s) }
    }
    /// "12uusd, 3contract7" as asset, amount, asset, amount, by asset
    fn two(&self, s: &str) -> Vec<Value> {
        let mut l: Vec<(i64, u128, Value)> = s.split(", ").map(|x| {
            let k = x.find(|c: char| !c.is_ascii_digit()).unwrap_or(0);
            (self.asset_text(&x[k..]), x[..k].parse().unwrap_or(0), parse_num(&x[..k]))
        }).collect();
        l.sort_by_key(|x| (x.0, x.1));
        l.into_iter().flat_map(|(a, _, x)| [json!(a), x]).collect()
    }
    fn coins(&self, v: &Value) -> Vec<Coin> {
        v.as_array().unwrap().iter().map(|c| coin(amt(&c["amt"]), self.denom(id(&c["den"])))).collect()
    }
    fn ops(&self, v: &Value) -> Value {
        Value::Array(v.as_array().unwrap().iter().map(|o| json!({"halo_swap": {
            "offer_asset_info": self.asset(&o["o"]), "ask_asset_info": self.asset(&o["a"])}})).collect())
    }
    fn hook(&self, h: &Value) -> Binary {
        let v = &h["v"];
        match h["t"].as_str().unwrap() {
            "HSwap" => bin(&json!({"swap": {"belief_price": opt_dec(&v["belief"]),
                "max_spread": opt_dec(&v["maxs"]), "to": self.opt_addr(&v["to"])}})),
            "HWithdraw" => bin(&json!({"withdraw_liquidity": {}})),
            "HRoute" => bin(&json!({"execute_swap_operations": {"operations": self.ops(&v["ops"]),
                "minimum_receive": opt_amt(&v["min"]), "to": self.opt_addr(&v["to"])}})),
            _ => bin(&json!({"nonsense": {}})),
        }
    }

    // -------------------------------------------------------------- execution
    fn exec(&mut self, who: &Value, contract: String, msg: Value, funds: Vec<Coin>) -> Result<AppResponse, String> {
        let m = CosmosMsg::Wasm(WasmMsg::Execute { contract_addr: contract, msg: bin(&msg), funds });
        self.run(who, m)
    }
    fn run(&mut self, who: &Value, m: CosmosMsg) -> Result<AppResponse, String> {
        let sender = Addr::unchecked(self.addr(who));
        let app = &mut self.app;
        match catch_unwind(AssertUnwindSafe(|| app.execute(sender, m))) {
            Ok(Ok(r)) => Ok(r),
            Ok(Err(e)) => Err(format!("{:#}", e)),
            Err(_) => Err("panic".into()),
        }
    }
    fn smart(&self, contract: String, msg: &Value) -> Result<Value, String> {
        let req: QueryRequest<Empty> = WasmQuery::Smart { contract_addr: contract, msg: bin(msg) }.into();
        self.query(req)
    }
    fn query(&self, req: QueryRequest<Empty>) -> Result<Value, String> {
        let raw = to_binary(&req).unwrap();
        use cosmwasm_std::Querier;
        let app = &self.app;
        match catch_unwind(AssertUnwindSafe(|| {
            struct W<'a>(&'a App);
            impl<'a> Querier for W<'a> {
                fn raw_query(&self, b: &[u8]) -> cosmwasm_std::QuerierResult { self.0.raw_query(b) }
            }
            W(app).raw_query(raw.as_slice())
        })) {
            Ok(cosmwasm_std::SystemResult::Ok(cosmwasm_std::ContractResult::Ok(b))) =>
                serde_json::from_slice(b.as_slice()).map_err(|e| e.to_string()),
            Ok(e) => Err(format!("{:?}", e)),
            Err(_) => Err("panic".into()),
        }
    }
    fn u(&self, v: &Value) -> Value {
        match v { Value::String(s) => parse_num(s), Value::Number(n) => json!(n), _ => json!(-9) }
    }

    fn logs(&self, r: &AppResponse) -> Value {
        let mut out = vec![];
        for e in r.events.iter().filter(|e| e.ty == "wasm") {
            let get = |k: &str| e.attributes.iter().find(|a| a.key == k).map(|a| a.value.clone()).unwrap_or_default();
            let c = self.addr_of(&get("_contract_addr"));
            let a = |k: &str| json!(self.addr_of(&get(k)));
            let n = |k: &str| parse_num(&get(k));
            match get("action").as_str() {
                "swap" => out.push(json!({"k": "swap", "c": c, "xs": [a("sender"), a("receiver"),
                    self.asset_text(&get("offer_asset")), self.asset_text(&get("ask_asset")),
                    n("offer_amount"), n("return_amount"), n("spread_amount"), n("commission_amount")]})),
                "provide_liquidity" => {
                    let mut xs = vec![a("sender"), a("receiver"), n("share")];
                    xs.extend(self.two(&get("assets")));
                    out.push(json!({"k": "provide", "c": c, "xs": xs}))
                }
                "withdraw_liquidity" => {
                    let mut xs = vec![a("sender"), n("withdrawn_share")];
                    xs.extend(self.two(&get("refund_assets")));
                    out.push(json!({"k": "withdraw", "c": c, "xs": xs}))
                }
                _ => {}
            }
        }
        Value::Array(out)
    }

    fn act(&mut self, t: &str, v: &Value) -> Result<Value, String> {
        let tx: Result<AppResponse, String> = match t {
            "Nop" => return Ok(json!([])),
            "Advance" => {
                let n = id(v) as u64;
                self.app.update_block(|b| { b.height += n; b.time = b.time.plus_seconds(5 * n) });
                return Ok(json!([]));
            }
            "NewToken" => {
                let init: Vec<Value> = v["init"].as_array().unwrap().iter()
                    .map(|c| json!({"address": self.addr(&c["den"]), "amount": amt(&c["amt"]).to_string()})).collect();
                let mint = if id(&v["minter"]) < 0 { Value::Null } else {
                    json!({"minter": self.addr(&v["minter"]), "cap": opt_amt(&v["cap"])}) };
                let msg = json!({"name": text(&v["name"]), "symbol": text(&v["sym"]), "decimals": id(&v["dec"]),
                    "initial_balances": init, "mint": mint});
                self.run(&v["who"], WasmMsg::Instantiate { admin: None, code_id: 1, msg: bin(&msg), funds: vec![], label: "token".into() }.into())
            }
            "NewPair" => {
                let wl: Vec<Value> = v["wl"].as_array().unwrap().iter().map(|w| json!(self.addr(w))).collect();
                let msg = json!({"asset_infos": [self.asset(&v["a0"]), self.asset(&v["a1"])], "token_code_id": 1,
                    "asset_decimals": [id(&v["d0"]), id(&v["d1"])],
                    "requirements": {"whitelist": wl, "first_asset_minimum": amt(&v["m0"]).to_string(),
                                     "second_asset_minimum": amt(&v["m1"]).to_string()}});
                self.run(&v["who"], WasmMsg::Instantiate { admin: None, code_id: 2, msg: bin(&msg), funds: vec![], label: "pair".into() }.into())
            }
            "CreatePair" => {
                let wl: Vec<Value> = v["wl"].as_array().unwrap().iter().map(|w| json!(self.addr(w))).collect();
                let msg = json!({"create_pair": {"asset_infos": [self.asset(&v["a0"]), self.asset(&v["a1"])],
                    "requirements": {"whitelist": wl, "first_asset_minimum": amt(&v["m0"]).to_string(),
                                     "second_asset_minimum": amt(&v["m1"]).to_string()}}});
                self.exec(&v["who"], self.addr_id(100), msg, self.coins(&v["funds"]))
            }
            "UpdateConfig" => {
                let code = |x: &Value| if id(x) < 0 { Value::Null } else { json!(id(x)) };
                let msg = json!({"update_config": {"owner": self.opt_addr(&v["owner"]),
                    "token_code_id": code(&v["tokenCode"]), "pair_code_id": code(&v["pairCode"])}});
                self.exec(&v["who"], self.addr_id(100), msg, self.coins(&v["funds"]))
            }
            "AddDecimals" => {
                let msg = json!({"add_native_token_decimals": {"denom": self.denom(id(&v["den"])), "decimals": id(&v["dec"])}});
                self.exec(&v["who"], self.addr_id(100), msg, self.coins(&v["funds"]))
            }
            "Migrate" => {
                let code = if id(&v["code"]) < 0 { Value::Null } else { json!(id(&v["code"])) };
                let msg = json!({"migrate_pair": {"contract": self.addr(&v["pair"]), "code_id": code}});
                self.exec(&v["who"], self.addr_id(100), msg, self.coins(&v["funds"]))
            }
            "MigrateCore" => {
                let c = id(&v["c"]);
                self.run(&v["who"], WasmMsg::Migrate { contract_addr: self.addr_id(c), new_code_id: if c == 100 { 3 } else { 4 }, msg: bin(&json!({})) }.into())
            }
            "BankSend" => {
                let m = BankMsg::Send { to_address: self.addr(&v["to"]), amount: vec![coin(amt(&v["amt"]), self.denom(id(&v["den"])))] };
                self.run(&v["who"], m.into())
            }
            "Transfer" => self.exec(&v["who"], self.addr(&v["tok"]),
                json!({"transfer": {"recipient": self.addr(&v["to"]), "amount": amt(&v["amt"]).to_string()}}), vec![]),
            "TransferFrom" => self.exec(&v["who"], self.addr(&v["tok"]),
                json!({"transfer_from": {"owner": self.addr(&v["owner"]), "recipient": self.addr(&v["to"]), "amount": amt(&v["amt"]).to_string()}}), vec![]),
            "Burn" => self.exec(&v["who"], self.addr(&v["tok"]), json!({"burn": {"amount": amt(&v["amt"]).to_string()}}), vec![]),
            "BurnFrom" => self.exec(&v["who"], self.addr(&v["tok"]),
                json!({"burn_from": {"owner": self.addr(&v["owner"]), "amount": amt(&v["amt"]).to_string()}}), vec![]),
            "Mint" => self.exec(&v["who"], self.addr(&v["tok"]),
                json!({"mint": {"recipient": self.addr(&v["to"]), "amount": amt(&v["amt"]).to_string()}}), vec![]),
            "IncAllow" | "DecAllow" => {
                let e = id(&v["exp"]);
                let exp = if e < 0 { Value::Null } else if e == 0 { json!({"never": {}}) }
                    else if e >= TIME { json!({"at_time": start().plus_seconds((e - TIME) as u64)}) } else { json!({"at_height": e}) };
                let body = json!({"spender": self.addr(&v["spender"]), "amount": amt(&v["amt"]).to_string(), "expires": exp});
                let msg = if t == "IncAllow" { json!({"increase_allowance": body}) } else { json!({"decrease_allowance": body}) };
                self.exec(&v["who"], self.addr(&v["tok"]), msg, vec![])
            }
            "SetMinter" => self.exec(&v["who"], self.addr(&v["tok"]),
                json!({"update_minter": {"new_minter": self.opt_addr(&v["to"])}}), vec![]),
            "Send" => self.exec(&v["who"], self.addr(&v["tok"]), json!({"send": {"contract": self.addr(&v["to"]),
                "amount": amt(&v["amt"]).to_string(), "msg": self.hook(&v["hook"]).to_base64()}}), vec![]),
            "SendFrom" => self.exec(&v["who"], self.addr(&v["tok"]), json!({"send_from": {"owner": self.addr(&v["owner"]),
                "contract": self.addr(&v["to"]), "amount": amt(&v["amt"]).to_string(), "msg": self.hook(&v["hook"]).to_base64()}}), vec![]),
            "Notify" => self.exec(&v["who"], self.addr(&v["to"]), json!({"receive": {"sender": self.addr(&v["sender"]),
                "amount": amt(&v["amt"]).to_string(), "msg": self.hook(&v["hook"]).to_base64()}}), self.coins(&v["funds"])),
            "Provide" => {
                let xs: Vec<Value> = v["xs"].as_array().unwrap().iter()
                    .map(|c| json!({"info": self.asset(&c["den"]), "amount": amt(&c["amt"]).to_string()})).collect();
                self.exec(&v["who"], self.addr(&v["pair"]), json!({"provide_liquidity": {"assets": xs,
                    "slippage_tolerance": opt_dec(&v["tol"]), "receiver": self.opt_addr(&v["recv"])}}), self.coins(&v["funds"]))
            }
            "NativeSwap" => {
                let d = id(&v["den"]);
                let funds = if amt(&v["paid"]) == 0 { vec![] } else { vec![coin(amt(&v["paid"]), self.denom(d))] };
                self.exec(&v["who"], self.addr(&v["pair"]), json!({"swap": {"offer_asset": {"info": self.asset_id(d),
                    "amount": amt(&v["amt"]).to_string()}, "belief_price": null, "max_spread": null, "to": self.opt_addr(&v["to"])}}), funds)
            }
            "RouterExec" => self.exec(&v["who"], self.addr_id(101), json!({"execute_swap_operations": {"operations": self.ops(&v["ops"]),
                "minimum_receive": opt_amt(&v["min"]), "to": self.opt_addr(&v["to"])}}), self.coins(&v["funds"])),
            "RouterOp" => self.exec(&v["who"], self.addr_id(101), json!({"execute_swap_operation": {"operation": {"halo_swap": {
                "offer_asset_info": self.asset(&v["o"]), "ask_asset_info": self.asset(&v["a"])}}, "to": self.opt_addr(&v["to"])}}), vec![]),
            "RouterAssert" => self.exec(&v["who"], self.addr_id(101), json!({"assert_minimum_receive": {"asset_info": self.asset(&v["asset"]),
                "prev_balance": amt(&v["prev"]).to_string(), "minimum_receive": amt(&v["min"]).to_string(), "receiver": self.addr(&v["recv"])}}), vec![]),
            "QSim" => {
                let r = self.smart(self.addr(&v["pair"]), &json!({"simulation": {"offer_asset": {"info": self.asset(&v["asset"]), "amount": amt(&v["amt"]).to_string()}}}))?;
                return Ok(json!([{"k": "q", "c": 0, "xs": [self.u(&r["return_amount"]), self.u(&r["spread_amount"]), self.u(&r["commission_amount"])]}]));
            }
            "QRev" => {
                let r = self.smart(self.addr(&v["pair"]), &json!({"reverse_simulation": {"ask_asset": {"info": self.asset(&v["asset"]), "amount": amt(&v["amt"]).to_string()}}}))?;
                return Ok(json!([{"k": "q", "c": 0, "xs": [self.u(&r["offer_amount"]), self.u(&r["spread_amount"]), self.u(&r["commission_amount"])]}]));
            }
            "QPool" => {
                let r = self.smart(self.addr(v), &json!({"pool": {}}))?;
                return Ok(json!([{"k": "q", "c": 0, "xs": [self.asset_of(&r["assets"][0]["info"]), self.u(&r["assets"][0]["amount"]),
                    self.asset_of(&r["assets"][1]["info"]), self.u(&r["assets"][1]["amount"]), self.u(&r["total_share"])]}]));
            }
            "QRoute" => {
                let r = self.smart(self.addr_id(101), &json!({"simulate_swap_operations": {"offer_amount": amt(&v["amt"]).to_string(), "operations": self.ops(&v["ops"])}}))?;
                return Ok(json!([{"k": "q", "c": 0, "xs": [self.u(&r["amount"]), self.chain(&v["ops"], &v["amt"], false)]}]));
            }
            "QRouteRev" => {
                let r = self.smart(self.addr_id(101), &json!({"reverse_simulate_swap_operations": {"ask_amount": amt(&v["amt"]).to_string(), "operations": self.ops(&v["ops"])}}))?;
                return Ok(json!([{"k": "q", "c": 0, "xs": [self.u(&r["amount"]), self.chain(&v["ops"], &v["amt"], true)]}]));
            }
            "QLookup" => {
                let l = v.as_array().unwrap();
                let (mut xs, mut records) = (vec![], vec![]);
                for a in l {
                    for b in l {
                        xs.push(match self.smart(self.addr_id(100), &json!({"pair": {"asset_infos": [self.asset(a), self.asset(b)]}})) {
                            Ok(r) => {
                                let i = self.info(&r);
                                let wl = i["wl"].as_array().cloned().unwrap_or_default();
                                for k in ["addr", "a0", "a1", "d0", "d1", "lp", "m0", "m1"] { records.push(i[k].clone()) }
                                records.push(json!(wl.len()));
                                records.extend(wl);
                                i["addr"].clone()
                            }
                            Err(_) => json!(-1),
                        });
                    }
                }
                return Ok(json!([{"k": "q", "c": 0, "xs": xs}, {"k": "records", "c": 0, "xs": records}]));
            }
            "QPage" => {
                let after = if id(&v["a"]) < 0 { Value::Null } else { json!([self.asset(&v["a"]), self.asset(&v["b"])]) };
                let page = self.page(after, &v["limit"])?;
                return Ok(json!([{"k": "page", "c": 0, "xs": page.0}]));
            }
            "QWalk" => {
                let flip = v["flip"].as_bool().unwrap();
                let mut out = vec![];
                let mut after = Value::Null;
                for _ in 0..200 {
                    let (xs, last) = self.page(after, &v["limit"])?;
                    let empty = xs.is_empty();
                    out.push(json!({"k": "page", "c": 0, "xs": xs}));
                    if empty { break; }
                    let l = last.as_array().cloned().unwrap_or_default();
                    after = if flip { json!([l[1], l[0]]) } else { json!([l[0], l[1]]) };
                }
                return Ok(Value::Array(out));
            }
            "QDecimals" => {
                let r = self.smart(self.addr_id(100), &json!({"native_token_decimals": {"denom": self.denom(id(v))}}))?;
                return Ok(json!([{"k": "q", "c": 0, "xs": [self.u(&r["decimals"])]}]));
            }
            "QCore" => {
                let r = self.smart(self.addr_id(101), &json!({"config": {}}))?;
                let f = self.smart(self.addr_id(100), &json!({"config": {}}))?;
                return Ok(json!([{"k": "q", "c": 0, "xs": [self.addr_of(r["halo_factory"].as_str().unwrap_or("")),
                    self.addr_of(f["owner"].as_str().unwrap_or("")), self.u(&f["token_code_id"]), self.u(&f["pair_code_id"])]}]));
            }
            "QToken" => {
                let t = self.addr(&v["tok"]);
                let (o, s) = (self.addr(&v["owner"]), self.addr(&v["spender"]));
                let ti = self.smart(t.clone(), &json!({"token_info": {}}))?;
                let mi = self.smart(t.clone(), &json!({"minter": {}}))?;
                let b = self.smart(t.clone(), &json!({"balance": {"address": o}}))?;
                let al = self.smart(t, &json!({"allowance": {"owner": o, "spender": s}}))?;
                return Ok(json!([{"k": "q", "c": 0, "xs": [self.u(&ti["total_supply"]), self.u(&ti["decimals"]),
                    mi["minter"].as_str().map(|s| self.addr_of(s)).unwrap_or(-1), mi["cap"].as_str().map(parse_num).unwrap_or(json!(-1)),
                    self.u(&b["balance"]), self.u(&al["allowance"]), expiration(&al["expires"])]}]));
            }
            _ => panic!("unknown action {t}"),
        };
        let r = tx?;
        Ok(self.logs(&r))
    }

    /// the pairs' own quotes, one after the other
    fn chain(&self, ops: &Value, start: &Value, rev: bool) -> Value {
        let mut l: Vec<Value> = ops.as_array().unwrap().clone();
        if rev { l.reverse(); }
        let mut x = amt(start).to_string();
        for o in &l {
            let pair = match self.smart(self.addr_id(100), &json!({"pair": {"asset_infos": [self.asset(&o["o"]), self.asset(&o["a"])]}})) {
                Ok(p) => p["contract_addr"].as_str().unwrap_or("").to_string(),
                Err(_) => return json!(-1),
            };
            let r = if rev { self.smart(pair, &json!({"reverse_simulation": {"ask_asset": {"info": self.asset(&o["a"]), "amount": x}}})) }
                    else { self.smart(pair, &json!({"simulation": {"offer_asset": {"info": self.asset(&o["o"]), "amount": x}}})) };
            match r {
                Ok(r) => x = r[if rev { "offer_amount" } else { "return_amount" }].as_str().unwrap_or("").to_string(),
                Err(_) => return json!(-1),
            }
        }
        parse_num(&x)
    }

    fn page(&self, after: Value, limit: &Value) -> Result<(Vec<Value>, Value), String> {
        let lim = if id(limit) < 0 { Value::Null } else { json!(id(limit)) };
        let r = self.smart(self.addr_id(100), &json!({"pairs": {"start_after": after, "limit": lim}}))?;
        let mut xs = vec![];
        let mut last = Value::Null;
        for p in r["pairs"].as_array().ok_or("no pairs")? {
            xs.push(json!(self.addr_of(p["contract_addr"].as_str().unwrap_or(""))));
            xs.push(json!(self.asset_of(&p["asset_infos"][0])));
            xs.push(json!(self.asset_of(&p["asset_infos"][1])));
            last = p["asset_infos"].clone();
        }
        Ok((xs, last))
    }

    // -------------------------------------------------------------- projection
    fn info(&self, p: &Value) -> Value {
        let wl: Vec<Value> = p["requirements"]["whitelist"].as_array().cloned().unwrap_or_default().iter()
            .map(|w| json!(self.addr_of(w.as_str().unwrap_or("")))).collect();
        json!({"addr": self.addr_of(p["contract_addr"].as_str().unwrap_or("")),
            "a0": self.asset_of(&p["asset_infos"][0]), "a1": self.asset_of(&p["asset_infos"][1]),
            "d0": p["asset_decimals"][0], "d1": p["asset_decimals"][1],
            "lp": self.addr_of(p["liquidity_token"].as_str().unwrap_or("")), "wl": wl,
            "m0": self.u(&p["requirements"]["first_asset_minimum"]), "m1": self.u(&p["requirements"]["second_asset_minimum"])})
    }

    fn project(&mut self, with_reg: bool) -> Proj {
        let mut m = Proj::new();
        let mut put = |path: Vec<Value>, v: Value| { m.insert(serde_json::to_string(&path).unwrap(), (path, v)); };
        put(vec![json!("h")], json!(self.app.block_info().height));
        let mut n = 100i64;
        let mut toks = vec![];
        loop {
            let a = self.addr_id(n);
            let Ok(ci) = self.query(WasmQuery::ContractInfo { contract_addr: a.clone() }.into()) else { break };
            let _: Option<ContractInfoResponse> = from_slice(&serde_json::to_vec(&ci).unwrap()).ok();
            let code = ci["code_id"].as_i64().unwrap_or(-1);
            match code {
                2 | 6 => {
                    let info = match self.smart(a.clone(), &json!({"pair": {}})) { Ok(p) => self.info(&p), Err(_) => json!({"addr": -9, "a0": -9, "a1": -9, "d0": -9, "d1": -9, "lp": -9, "wl": [], "m0": -9, "m1": -9}) };
                    let adm = ci["admin"].as_str().map(|s| self.addr_of(s)).unwrap_or(-1);
                    put(vec![json!("pair"), json!(n)], json!({"info": info, "code": code, "adm": adm}));
                }
                1 | 5 => {
                    toks.push(n);
                    let ti = self.smart(a.clone(), &json!({"token_info": {}})).unwrap_or(json!({}));
                    let mi = self.smart(a.clone(), &json!({"minter": {}})).unwrap_or(json!({}));
                    let minter = mi["minter"].as_str().map(|s| self.addr_of(s)).unwrap_or(-1);
                    let cap = mi["cap"].as_str().map(parse_num).unwrap_or(json!(-1));
                    put(vec![json!("tok"), json!(n)], json!({"name": points(ti["name"].as_str().unwrap_or("")),
                        "sym": points(ti["symbol"].as_str().unwrap_or("")), "dec": ti["decimals"], "supply": self.u(&ti["total_supply"]),
                        "minter": minter, "cap": cap, "code": code}));
                    // balances
                    for acc in self.all_accounts(&a) {
                        let b = self.smart(a.clone(), &json!({"balance": {"address": acc}})).map(|b| self.u(&b["balance"])).unwrap_or(json!(-9));
                        put(vec![json!("bal"), json!(n), json!(self.addr_of(&acc))], b);
                    }
                    // allowances granted by users
                    let mut al: Vec<Value> = vec![];
                    for u in 0..6 {
                        let owner = self.addr_id(u);
                        let mut after = Value::Null;
                        loop {
                            let r = self.smart(a.clone(), &json!({"all_allowances": {"owner": owner, "start_after": after, "limit": 30}})).unwrap_or(json!({}));
                            let l = r["allowances"].as_array().cloned().unwrap_or_default();
                            for x in &l {
                                let s = x["spender"].as_str().unwrap_or("").to_string();
                                let e = expiration(&x["expires"]);
                                al.push(json!([u * 1000 + self.addr_of(&s), self.u(&x["allowance"]), e]));
                                after = json!(s);
                            }
                            if l.len() < 30 { break; }
                        }
                    }
                    put(vec![json!("allow"), json!(n)], Value::Array(al));
                }
                _ => {}
            }
            n += 1;
        }
        put(vec![json!("next")], json!(n));
        // native balances
        for i in (0..6).chain(100..self.limit.min(n)) {
            let r = self.query(BankQuery::AllBalances { address: self.addr_id(i) }.into()).unwrap_or(json!({}));
            let _ = AllBalanceResponse { amount: vec![] };
            for c in r["amount"].as_array().cloned().unwrap_or_default() {
                if let Some(d) = self.denoms.iter().find(|d| Some(d.1.as_str()) == c["denom"].as_str()) {
                    put(vec![json!("bal"), json!(d.0), json!(i)], self.u(&c["amount"]));
                }
            }
        }
        if with_reg {
            let mut reg = Proj::new();
            let mut rput = |path: Vec<Value>, v: Value| { reg.insert(serde_json::to_string(&path).unwrap(), (path, v)); };
            let f = self.addr_id(100);
            let c = self.smart(f.clone(), &json!({"config": {}})).unwrap_or(json!({}));
            rput(vec![json!("cfg")], json!([self.addr_of(c["owner"].as_str().unwrap_or("")),
                c["token_code_id"].as_i64().unwrap_or(-9), c["pair_code_id"].as_i64().unwrap_or(-9)]));
            for (p, d) in &self.denoms {
                if let Ok(r) = self.smart(f.clone(), &json!({"native_token_decimals": {"denom": d}})) {
                    rput(vec![json!("dec"), json!(p)], self.u(&r["decimals"]));
                }
            }
            let assets: Vec<i64> = toks.iter().copied().chain(self.denoms.iter().map(|d| d.0)).collect();
            for (i, a) in assets.iter().enumerate() {
                for b in &assets[i + 1..] {
                    if let Ok(r) = self.smart(f.clone(), &json!({"pair": {"asset_infos": [self.asset_id(*a), self.asset_id(*b)]}})) {
                        let (lo, hi) = (*a.min(b), *a.max(b));
                        rput(vec![json!("reg"), json!(lo * 100000 + hi)], self.info(&r));
                    }
                }
            }
            self.reg_prev = reg;
        }
        for (k, v) in &self.reg_prev { m.insert(k.clone(), v.clone()); }
        m
    }

    fn all_accounts(&self, t: &str) -> Vec<String> {
        let mut out = vec![];
        let mut after = Value::Null;
        loop {
            let r = self.smart(t.to_string(), &json!({"all_accounts": {"start_after": after, "limit": 30}})).unwrap_or(json!({}));
            let l = r["accounts"].as_array().cloned().unwrap_or_default();
            for x in &l { let s = x.as_str().unwrap_or("").to_string(); after = json!(s); out.push(s); }
            if l.len() < 30 { break; }
        }
        out
    }

    /// entries that changed since the last call
    fn diff(&mut self, with_reg: bool) -> Value {
        let cur = self.project(with_reg);
        let mut out = vec![];
        for (k, (p, v)) in &cur {
            if self.prev.get(k).map(|x| &x.1) != Some(v) { out.push(json!([p, v])); }
        }
        for (k, (p, _)) in &self.prev {
            if !cur.contains_key(k) { out.push(json!([p, null])); }
        }
        self.prev = cur;
        Value::Array(out)
    }
}

fn main() {
    if std::env::var("HARNESS_PANICS").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::new(stdout.lock());
    let mut h: Option<H> = None;
    let mut saved: HashMap<i64, Snapshot> = HashMap::new();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let v: Value = serde_json::from_str(&line).expect("json");
        let reply = match v["cmd"].as_str().unwrap() {
            "reset" => {
                saved.clear();
                h = Some(H::new(&v));
                let d = h.as_mut().unwrap().diff(true);
                json!({ "diff": d })
            }
            "act" => {
                let h = h.as_mut().expect("reset first");
                let t = v["t"].as_str().unwrap();
                let res = h.act(t, &v["v"]);
                let reg = matches!(t, "CreatePair" | "NewPair" | "UpdateConfig" | "AddDecimals" | "Migrate" | "MigrateCore" | "NewToken");
                let d = if t.starts_with('Q') { json!([]) } else { h.diff(reg) };
                match res {
                    Ok(l) => json!({"ok": true, "err": "", "logs": l, "diff": d}),
                    Err(e) => json!({"ok": false, "err": e, "logs": [], "diff": d}),
                }
            }
            "save" => {
                saved.insert(id(&v["id"]), h.as_ref().expect("reset first").save());
                json!({})
            }
            "load" => {
                h.as_mut().expect("reset first").load(&saved[&id(&v["id"])]);
                json!({})
            }
            "drop" => {
                saved.remove(&id(&v["id"]));
                json!({})
            }
            "print" => json!({ "print": h.as_ref().expect("reset first").fingerprint() }),
            "big" => big::eval(&v),
            c => panic!("unknown command {c}"),
        };
        serde_json::to_writer(&mut out, &reply).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
    let _ = Uint128::zero();
}
