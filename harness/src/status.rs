//! Indexing generations of one project, as shown to the user.
use crate::driver::*;
use ruby_fast_lsp::indexing_status::*;
use serde_json::{json, Value};
use std::path::PathBuf;

const PHASES: [IndexingPhase; 14] = [
    IndexingPhase::Discovered,
    IndexingPhase::Queued,
    IndexingPhase::ResolvingRuntime,
    IndexingPhase::DiscoveringInputs,
    IndexingPhase::IndexingCore,
    IndexingPhase::IndexingProject,
    IndexingPhase::ProjectNavigationReady,
    IndexingPhase::IndexingDependencies,
    IndexingPhase::ResolvingSemantics,
    IndexingPhase::DependencyNavigationReady,
    IndexingPhase::PublishingDiagnostics,
    IndexingPhase::Ready,
    IndexingPhase::Failed,
    IndexingPhase::Cancelled,
];

pub fn status(case: &Value, ctx: &mut Ctx) -> Result<u64, Value> {
    let st = ProjectIndexingStatus::new(PathBuf::from("/workspace/app"));
    let mut runs: Vec<IndexingRun> = vec![];
    let mut compared = 0;
    let mut last: Option<ProjectIndexingSnapshot> = None;
    for (i, step) in case["steps"].as_array().unwrap().iter().enumerate() {
        let (o, x) = (&step["o"], &step["x"]);
        let answer = match s(o, "a") {
            "begin" => {
                runs.push(st.begin_run());
                Some(st.snapshot())
            }
            "step" => {
                let (c, t) = (o["p"][0].as_i64().unwrap(), o["p"][1].as_i64().unwrap());
                let p = if c < 0 { (None, None) } else { (Some(c as u64), Some(t as u64)) };
                quiet(|| st.transition(n(o, "g"), PHASES[n(o, "ph") as usize], p.0, p.1)).unwrap_or(None)
            }
            "fail" => quiet(|| st.fail(n(o, "g"), "it broke".into())).unwrap_or(None),
            "cancel" => match s(o, "how") {
                "current" => st.cancel_current(),
                _ => st.cancel(n(o, "g")),
            },
            a => panic!("op {a}"),
        };
        let sn = st.snapshot();
        let rank = PHASES.iter().position(|p| *p == sn.phase).unwrap();
        let got = json!({
            "gen": sn.generation, "seq": sn.sequence, "phase": rank,
            "prog": [sn.completed.map_or(-1, |v| v as i64), sn.total.map_or(-1, |v| v as i64)],
            "nav": sn.project_navigation_ready_ms.is_some(), "dep": sn.dependency_navigation_ready_ms.is_some(),
            "failed": sn.failure.is_some(),
            "cancelled": runs.iter().map(|r| r.is_cancelled()).collect::<Vec<_>>(),
            "current": runs.iter().map(|r| st.is_current_run(r)).collect::<Vec<_>>(),
        });
        let res = if answer.is_some() { "ok" } else { "refused" };
        if res != s(o, "res") || &got != x {
            return Err(json!({"step": i, "op": o, "expected": x, "got": got, "answer": res}));
        }
        if let Some(a) = answer {
            if (a.generation, a.sequence, a.phase) != (sn.generation, sn.sequence, sn.phase) {
                return Err(json!({"step": i, "op": o, "what": "the update's answer is not the state it produced"}));
            }
        }
        if let (Some(l), true) = (&last, res == "refused") {
            let mut sn2 = sn.clone();
            if rank < 11 {
                sn2.elapsed_ms = l.elapsed_ms;
            }
            if *l != sn2 {
                return Err(json!({"step": i, "op": o, "what": "a refused update changed the published state",
                                  "before": format!("{l:?}"), "after": format!("{sn:?}")}));
            }
        }
        let pending = (sn.phase.project_navigation_pending(), sn.phase.dependency_navigation_pending());
        if pending != (rank < 6, rank < 9) {
            return Err(json!({"step": i, "what": "pending predicates", "phase": rank, "got": format!("{pending:?}")}));
        }
        last = Some(sn);
        compared += 1;
    }
    if let Some(l) = &last {
        ctx.serial += 1;
        if PHASES.iter().position(|p| *p == l.phase).unwrap() >= 11 && ctx.serial % 200 == 0 {
            std::thread::sleep(std::time::Duration::from_millis(4));
            ctx.hit("terminal_frozen");
            if st.snapshot() != *l {
                return Err(json!({"what": "a finished generation keeps changing", "was": format!("{l:?}"), "now": format!("{:?}", st.snapshot())}));
            }
        }
    }
    Ok(compared)
}
