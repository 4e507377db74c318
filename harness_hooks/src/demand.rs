//! Navigation demands of waiting editor requests.
use crate::driver::*;
use ruby_fast_lsp::verif_hooks::NavigationDemands;
use serde_json::{json, Value};

pub fn demand(case: &Value, ctx: &mut Ctx) -> Result<u64, Value> {
    let d = NavigationDemands::default();
    let mut tasks: Vec<Task<&'static str>> = vec![];
    let mut compared = 0;
    for (i, st) in case["steps"].as_array().unwrap().iter().enumerate() {
        let (o, x) = (&st["o"], &st["x"]);
        let dep = o["s"].as_str() == Some("dependency");
        let g = o["g"].as_u64().unwrap_or(0);
        let got = match s(o, "a") {
            "begin" => {
                d.begin(g);
                Value::Null
            }
            "request" => {
                tasks.push(Task::new(d.request(g, dep, s(o, "k"))));
                Value::Null
            }
            "poll" => {
                let t = &mut tasks[n(o, "id") as usize - 1];
                let r = t.poll().unwrap_or("none");
                ctx.hit(r);
                json!(r)
            }
            "drain" => json!(d.drain(g, dep)),
            "claim" => json!(d.claim(g, dep, s(o, "k"))),
            "completekeys" => {
                let ks: Vec<String> = o["ks"].as_array().unwrap().iter().map(|k| k.as_str().unwrap().to_string()).collect();
                d.complete_keys(g, dep, &ks);
                Value::Null
            }
            "completestage" => {
                d.complete_stage(g, dep);
                Value::Null
            }
            "cancel" => {
                d.cancel(g);
                Value::Null
            }
            a => panic!("op {a}"),
        };
        let mut want = o["res"].clone();
        let mut got = got;
        for v in [&mut want, &mut got] {
            if let Value::Array(a) = v {
                a.sort_by_key(|k| k.as_str().unwrap().to_string());
            }
        }
        if got != want {
            return Err(json!({"step": i, "op": o, "expected": want, "got": got}));
        }
        // A waiting request whose answer exists must have been woken up.
        for w in x["mustwake"].as_array().unwrap() {
            let id = w.as_u64().unwrap() as usize;
            if !tasks[id - 1].woken() {
                return Err(json!({"step": i, "op": o, "what": "a waiting request was not woken although its answer is known", "ticket": id}));
            }
        }
        compared += 1;
    }
    Ok(compared)
}
