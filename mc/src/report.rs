use crate::engine::*;
use crate::props::Prop;
use std::path::PathBuf;

pub struct Known {
    pub sig: String,
    pub desc: String,
}
pub fn root() -> PathBuf {
    let c = std::env::current_dir().unwrap_or_default();
    if c.join("MANIFEST.json").exists() {
        return c;
    }
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).join("..")
}
pub fn load_known(id: &str) -> Vec<Known> {
    let s = std::fs::read_to_string(root().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let r = l.strip_prefix("known: property=")?;
            let (pid, r) = r.split_once(" sig=")?;
            if pid != id {
                return None;
            }
            let (sig, desc) = r.split_once(" -- ")?;
            Some(Known { sig: sig.trim().into(), desc: desc.trim().into() })
        })
        .collect()
}
pub fn write_replay(id: &str, sc: &str, path: &[u32], f: &Fail, tier: Tier) -> String {
    let d = root().join("evidence/replay");
    let _ = std::fs::create_dir_all(&d);
    let h = hash_str(&format!("{sc}{}", f.sig)) as u32;
    let rel = format!("evidence/replay/{id}-{h:08x}.txt");
    let _ = std::fs::write(
        root().join(&rel),
        format!(
            "property: {id}\nscenario: {sc}\ntier: {}\npath: {}\nsig: {}\nmessage: {}\nreplay with: mc/target/debug/mc replay {rel}\n",
            tname(tier), path_str(path), f.sig, f.msg
        ),
    );
    rel
}
fn tname(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn clip(s: &str) -> String {
    if s.chars().count() > 900 {
        format!("{}…", s.chars().take(900).collect::<String>())
    } else {
        s.to_string()
    }
}
pub fn write_evidence(p: &Prop, tier: Tier, reps: &[ScenarioReport], bad: usize, wall: f64) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let sum = |f: &dyn Fn(&ScenarioReport) -> u64| reps.iter().map(|r| f(r)).sum::<u64>();
    let samples: Vec<String> = reps.iter().flat_map(|r| r.samples.iter().take(3).map(|s| js(&clip(s)))).take(14).collect();
    let scen: Vec<String> = reps
        .iter()
        .map(|r| {
            let cov: Vec<String> = r.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
            format!(
                "{{\"name\":{},\"bound\":{},\"executions\":{},\"steps\":{},\"distinct_states\":{},\"distinct_outcomes\":{},\"distinct_nontrivial\":{},\"exhausted_within_bound\":{},\"wall_s\":{:.2},\"covers\":{{{}}}}}",
                js(&r.name), js(&r.bound), r.execs, r.steps, r.states, r.outcomes, r.nontrivial, r.exhaustive, r.wall, cov.join(",")
            )
        })
        .collect();
    let ex = reps.iter().all(|r| r.exhaustive);
    let execs = sum(&|r| r.execs);
    let counts = match p.level {
        "model_checking" => format!(
            "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"distinct_outcomes\":{}",
            sum(&|r| r.states), sum(&|r| r.steps), execs, sum(&|r| r.outcomes)
        ),
        _ => format!(
            "\"evaluations\":{},\"distinct_nontrivial\":{},\"distinct_outcomes\":{}",
            execs, sum(&|r| r.nontrivial), sum(&|r| r.outcomes)
        ),
    };
    let ass: Vec<String> = p.assumptions.iter().map(|s| js(s)).collect();
    let s = format!(
        "{{\n\"property\":{},\n\"tier\":{},\n\"seed\":{seed},\n\"level\":{},\n\"coverage\":{{{counts},\n\"rule\":{},\n\"exhaustive\":{ex},\n\"samples\":[{}],\n\"scenarios\":[{}]}},\n\"assumptions\":[{}],\n\"wall_s\":{:.2},\n\"violations\":{bad}\n}}\n",
        js(p.id), js(tname(tier)), js(p.level), js(p.rule), samples.join(",\n"), scen.join(",\n"), ass.join(","), wall
    );
    let d = root().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let _ = std::fs::write(d.join(format!("{}.json", p.id)), s);
}
