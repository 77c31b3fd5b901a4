use crate::util::*;
use symrt::*;

pub fn mode(_prop: &str, cfg: &Cfg) -> Mode {
    match cfg.s("mode") {
        Some("fp") => Mode::Fp,
        Some("hyb") => Mode::Hybrid,
        _ => Mode::Real,
    }
}
pub fn configs(prop: &str, thorough: bool) -> Vec<String> {
    for f in [crate::eval::configs, crate::manip::configs, crate::joins::configs, crate::knotsp::configs, crate::gen::configs, crate::laws::configs, crate::order::configs] {
        let v = f(prop, thorough);
        if !v.is_empty() {
            let mut v = v;
            for c in large(prop) {
                if !v.contains(&c) {
                    v.push(c);
                }
            }
            // large and tiny coordinates
            let hyb: Vec<String> = v.iter().filter(|c| c.contains("mode=hyb") && !c.contains("sym=")).cloned().collect();
            for (i, c) in hyb.iter().enumerate() {
                match i % 6 {
                    1 => v.push(format!("{} r=20", c)),
                    4 => v.push(format!("{} r=-30", c)),
                    _ => {}
                }
            }
            return v;
        }
    }
    vec![]
}
pub fn body(prop: &str, cfg: &Cfg) {
    // r=20: coordinates up to 2^20
    range(cfg.s("r").map(|x| 2f64.powi(x.parse().unwrap())).unwrap_or(1.0));
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C20" | "C22" => crate::eval::body(prop, cfg),
        "C05" | "C06" | "C07" | "C08" | "C16" | "C19" | "C24" | "C27" => crate::manip::body(prop, cfg),
        "C09" | "C10" | "C23" => crate::joins::body(prop, cfg),
        "C17" | "C18" | "C26" => crate::knotsp::body(prop, cfg),
        "C11" | "C12" | "C13" | "C14" | "C15" | "C21" | "C25" => crate::gen::body(prop, cfg),
        "C28" | "C29" | "C30" | "C31" => crate::laws::body(prop, cfg),
        "C32" | "C33" | "C34" => crate::order::body(prop, cfg),
        _ => panic!("unknown property"),
    }
}

/// sizes well above those of the other configurations: bounds on what "every degree and size" is checked for
fn large(prop: &str) -> Vec<String> {
    let l: &[&str] = match prop {
        "C01" => &["p=9 m=1 kn=fix", "p=7 m=1,8,2 kn=fix2 dim=7"],
        "C02" => &["p=7 m=1,2 k=0 kn=fix", "p=8 m=1 k=0 kn=fix2", "p=3 m=r18 k=0 kn=fix", "p=7 m=2 k=5 kn=fix", "p=8 m=9 k=3 kn=fix"],
        "C03" => &["p=8 m=1 kn=fix", "p=7 m=r3 kn=fix dim=5", "p=6 m=7,2 kn=fix2"],
        "C04" => &["mode=fp p=8 m=1,9 kn=fix dim=7", "mode=fp p=3 m=r30 kn=fix", "mode=fp p=7 m=2 kn=sym"],
        "C05" => &["op=one p=7 m=2,1 kn=fix dim=5", "op=one p=8 m=- kn=fix", "op=one p=3 m=r12 kn=fix2", "op=times p=6 m=1 kn=fix", "op=one p=6 m=7,1 kn=fix2"],
        "C06" => &["mode=fp p=8 m=1,9,4 kn=fix", "mode=fp p=3 m=r12 kn=fix2", "mode=fp p=6 m=6 kn=fp"],
        "C07" => &["p=7 m=1 kn=fix", "p=8 m=- kn=fix2", "p=3 m=r7 kn=fix", "p=6 m=6,1 kn=fix2"],
        "C08" => &["p=8 m=1,2 kn=fix", "p=3 m=r18 kn=fix dim=6", "p=7 m=8 kn=fix2"],
        "C09" | "C10" | "C23" => &[
            "mode=hyb p=6 m=1 mb=1 kn=fix", "mode=hyb p=6 m=- mb=2,1 kn=uni", "mode=hyb p=7 m=1 mb=- kn=fix", "mode=hyb p=3 m=r6 mb=r5 kn=fix", "mode=hyb p=2 m=r16 mb=r3 kn=fix2",
        ],
        "C11" => &["mode=hyb p=6 n=10 u=irr k=averaging dim=5", "mode=hyb p=7 n=9 u=irr k=deboor dim=1", "mode=hyb p=3 n=20 u=irr2 k=averaging dim=4", "mode=hyb p=6 n=6 u=eq k=uniform dim=2"],
        "C12" | "C13" => &["mode=hyb p=6 n=8 m=12 u=eq kn=uniform dim=1", "mode=hyb p=2 n=3 m=5 u=eq kn=uniform dim=5", "mode=hyb p=3 n=10 m=16 u=irr kn=uniform dim=1", "mode=hyb p=7 n=9 m=14 u=irr kn=fix dim=2", "mode=hyb p=2 n=9 m=10 u=eq kn=uniform dim=1"],
        "C14" => &["kind=chord m=9 dim=2 d=2", "kind=centripetal m=14 dim=3 d=1", "kind=chord m=8 dim=1 d=0"],
        "C15" => &["kind=averaging p=7 n=12", "kind=deboor p=7 n=12 m=12", "kind=averaging p=6 n=15", "kind=deboor p=3 n=14 m=14", "kind=deboor p=2 n=5 m=12"],
        "C16" => &["op=insert p=6 m=1,1 kn=fix dim=2", "op=split p=6 m=1 kn=fix2", "op=reverse p=7 m=1,2 kn=fix dim=5", "op=insert p=3 m=r9 kn=fix", "op=split p=3 m=r8 kn=fix", "mode=hyb op=merge p=6 m=1 kn=fix"],
        "C17" => &["mode=fp p=7 m=1,8,2", "mode=fp p=8 m=r2", "mode=fp p=2 m=r16 kn=fix", "mode=fp p=3 m=1,4,2,1,3,1,1,2 kn=fix2", "mode=fp p=1 m=r40 kn=fix"],
        "C18" => &["op=pred w=0 mode=fp p=6 n=14", "op=uniform mode=fp p=5 n=24", "op=scale p=6 m=1,1", "op=scale p=7 m=8 kn=fix", "op=clamp mode=fp p=6 n=7"],
        "C19" => &[
            "op=evaluate p=5 m=1 kn=fix dim=9", "op=insert p=5 m=1 kn=fix dim=9", "op=split p=5 m=1 kn=fix dim=9", "op=reverse p=6 m=1,2 kn=fix dim=9", "op=derivative p=6 m=1,2 kn=fix dim=9",
            "mode=hyb op=merge p=5 n=8 dim=9 kn=fix", "mode=hyb op=interpolate p=5 n=9 dim=9 kn=fix", "mode=hyb op=loose p=5 n=9 dim=9 kn=fix", "mode=hyb op=fixed-pen p=5 n=9 dim=9 kn=fix",
        ],
        "C20" => &["p=8 m=1 kn=fix", "p=7 m=1,2 kn=fix2 dim=5", "p=3 m=r16 kn=fix"],
        "C22" => &["p=7 m=1 kn=fix", "p=3 m=r9 kn=fix dim=2", "p=8 m=- kn=fix2", "p=6 m=6 kn=fix"],
        "C24" => &["mode=hyb p=6 m=1,1 kn=fix", "mode=hyb p=7 m=- kn=fix", "mode=hyb p=3 m=r7 kn=fix", "mode=hyb p=8 m=1 kn=fix3"],
        "C25" => &[
            "kind=manual p=6 n=14 dim=5", "mode=hyb kind=interpolation p=6 n=9 dim=5", "mode=hyb kind=loose p=6 n=10 m=20 dim=5", "mode=hyb kind=fixed p=6 n=10 m=20 dim=5",
            "kind=method p=5 n=8 k=averaging u=chord dim=2", "kind=method p=6 n=9 k=deboor u=centripetal dim=2",
        ],
        "C26" => &["mode=fp p=8 m=1,8", "mode=fp p=3 m=r16 kn=fix", "mode=fp p=7 m=8,3"],
        "C27" => &["len=2 p=6 m=1 kn=fix", "len=2 p=5 m=2 kn=fix2", "len=2 p=3 m=1,1,1 kn=fix"],
        _ => &[],
    };
    cfgs(l)
}
