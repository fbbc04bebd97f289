//! The wide-number operations. Operands and results are raw 256-bit values written in decimal
//! (an 18-decimal fixed-point number by its atomics); text travels as code points.
//! Reading and writing raw values goes limb by limb and uses none of the library under test.
use bignumber::{Decimal256, Uint256};
use bigint::U256;
use cosmwasm_std::{Decimal, Uint128};
use serde_json::{json, Value};
use std::convert::TryFrom;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

fn limbs(v: &Value) -> U256 {
    let s = match v { Value::String(s) => s.clone(), Value::Number(n) => n.to_string(), _ => panic!("operand") };
    let mut l = [0u64; 4];
    for c in s.bytes() {
        let mut carry = (c - b'0') as u128;
        for x in l.iter_mut() {
            let t = (*x as u128) * 10 + carry;
            *x = t as u64;
            carry = t >> 64;
        }
        assert!(carry == 0, "operand above 256 bits");
    }
    U256(l)
}
fn written(x: U256) -> String {
    let mut l = x.0;
    let mut out = vec![];
    while l.iter().any(|x| *x != 0) {
        let mut r = 0u128;
        for x in l.iter_mut().rev() {
            let t = (r << 64) | *x as u128;
            *x = (t / 10) as u64;
            r = t % 10;
        }
        out.push(b'0' + r as u8);
    }
    if out.is_empty() { out.push(b'0') }
    out.reverse();
    String::from_utf8(out).unwrap()
}
fn narrow(x: U256) -> u128 {
    assert!(x.0[2] == 0 && x.0[3] == 0);
    ((x.0[1] as u128) << 64) | x.0[0] as u128
}

enum R { N(U256), T(String), No }

fn op(name: &str, a: U256, b: U256, c: U256, s: &str) -> R {
    let d = |x: U256| Decimal256(x);
    let u = |x: U256| Uint256(x);
    let n = |x: u128| U256([x as u64, (x >> 64) as u64, 0, 0]);
    let ord = |o: std::cmp::Ordering| n((o as i32 + 1) as u128);
    let quote = |s: &str| serde_json::to_string(s).unwrap();
    match name {
        "d_add" => R::N((d(a) + d(b)).0),
        "d_add_assign" => { let mut x = d(a); x += d(b); R::N(x.0) }
        "d_sub" => R::N((d(a) - d(b)).0),
        "d_mul" => R::N((d(a) * d(b)).0),
        "d_div" => R::N((d(a) / d(b)).0),
        "d_ratio" => R::N(Decimal256::from_ratio(a, b).0),
        "d_from_u" => R::N(Decimal256::from_uint256(u(a)).0),
        "d_percent" => R::N(Decimal256::percent(narrow(a) as u64).0),
        "d_permille" => R::N(Decimal256::permille(narrow(a) as u64).0),
        "d_cmp" => {
            let (x, y) = (d(a), d(b));
            // all the relations must agree
            let o = x.cmp(&y);
            assert!((x < y) == o.is_lt() && (x == y) == o.is_eq() && (x > y) == o.is_gt() && (x <= y) == o.is_le() && (x != y) == o.is_ne());
            R::N(ord(o))
        }
        "d_is_zero" => R::N(n(d(a).is_zero() as u128)),
        "d_to_dec" => R::N(n(Decimal::from(d(a)).atomics().u128())),
        "dec_to_d" => R::N(Decimal256::from(Decimal::from_atomics(narrow(a), 18).unwrap()).0),
        "d_parse" => Decimal256::from_str(s).map_or(R::No, |x| R::N(x.0)),
        "d_unjson" => cosmwasm_std::from_slice::<Decimal256>(quote(s).as_bytes()).map_or(R::No, |x| R::N(x.0)),
        "d_show" => R::T(d(a).to_string()),
        "d_json" => R::T(String::from_utf8(cosmwasm_std::to_vec(&d(a)).unwrap()).unwrap()),
        "d_round" => R::N(Decimal256::from_str(&d(a).to_string()).unwrap().0),
        "d_one" => R::N(Decimal256::one().0),
        "d_zero" => R::N(Decimal256::zero().0),
        "d_max" => R::N(Decimal256::MAX.0),
        "u_add" => R::N((u(a) + u(b)).0),
        "u_add_assign" => { let mut x = u(a); x += u(b); R::N(x.0) }
        "u_sub" => R::N((u(a) - u(b)).0),
        "u_mul" => R::N((u(a) * u(b)).0),
        "u_mul_d" => R::N((u(a) * d(b)).0),
        "d_mul_u" => R::N((d(a) * u(b)).0),
        "u_div_d" => R::N((u(a) / d(b)).0),
        "u_mul_ratio" => R::N(u(a).multiply_ratio(b, c).0),
        "u_cmp" => {
            let (x, y) = (u(a), u(b));
            let o = x.cmp(&y);
            assert!((x < y) == o.is_lt() && (x == y) == o.is_eq() && (x > y) == o.is_gt() && (x <= y) == o.is_le() && (x != y) == o.is_ne());
            R::N(ord(o))
        }
        "u_is_zero" => R::N(n(u(a).is_zero() as u128)),
        "u_to_128" => R::N(n(u128::from(u(a)))),
        "u_to_uint128" => R::N(n(Uint128::from(u(a)).u128())),
        "u_from_128" => R::N(Uint256::from(narrow(a)).0),
        "u_from_uint128" => R::N(Uint256::from(Uint128::new(narrow(a))).0),
        "u_from_64" => R::N(Uint256::from(narrow(a) as u64).0),
        "u_raw" => R::N(U256::from(Uint256::from(a))),
        "u_parse" => Uint256::from_str(s).map_or(R::No, |x| R::N(x.0)),
        "u_try" => Uint256::try_from(s).map_or(R::No, |x| R::N(x.0)),
        "u_unjson" => cosmwasm_std::from_slice::<Uint256>(quote(s).as_bytes()).map_or(R::No, |x| R::N(x.0)),
        "u_show" => R::T(u(a).to_string()),
        "u_string" => R::T(String::from(u(a))),
        "u_json" => R::T(String::from_utf8(cosmwasm_std::to_vec(&u(a)).unwrap()).unwrap()),
        "u_round" => R::N(Uint256::from_str(&u(a).to_string()).unwrap().0),
        "u_one" => R::N(Uint256::one().0),
        "u_zero" => R::N(Uint256::zero().0),
        _ => panic!("unknown operation {name}"),
    }
}

pub fn eval(v: &Value) -> Value {
    let xs: Vec<U256> = v["xs"].as_array().unwrap().iter().map(limbs).collect();
    let s: String = v["s"].as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect();
    let name = v["op"].as_str().unwrap();
    match catch_unwind(AssertUnwindSafe(|| op(name, xs[0], xs[1], xs[2], &s))) {
        Ok(R::N(x)) => json!({"ok": true, "n": written(x), "s": []}),
        Ok(R::T(t)) => json!({"ok": true, "n": "0", "s": t.chars().map(|c| json!(c as u32)).collect::<Vec<_>>()}),
        _ => json!({"ok": false, "n": "0", "s": []}),
    }
}
