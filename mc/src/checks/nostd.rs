//! C51 builds without the standard library: the checks of the byte stream, of decompression and of
//! the decoders, executed by a harness in which every library is built without its `std` feature
use crate::engine::*;
use crate::Check;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C51",
        level: "model_checking",
        rule: "the enumerations of C01, C02, C09-C11, C13-C15, C17-C19, C21 and C22 (those scenarios that need no standard library), executed against libraries built without it; states and bounds as described there",
        assumptions: &["the HDR decoder and everything above the decoders always use the standard library"],
        scenarios: |_| {
            const USED: &[(&str, &[&str])] = &[
                ("C01", &["zcursor", "trait_zcursor"]),
                ("C02", &["vec", "slice"]),
                ("C14", &[]),
                ("C13", &[]),
                ("C15", &[]),
                ("C21", &[]),
                ("C17", &[]),
                ("C18", &[]),
                ("C19", &[]),
                ("C10", &[]),
                ("C11", &["frames"]),
                ("C09", &[]),
                ("C22", &["codings", "tables", "accuracy", "scripts", "large"])
            ];
            let all = super::all();
            let mut v = vec![];
            for (id, names) in USED {
                let Some(c) = all.iter().find(|c| c.id == *id) else { continue };
                for s in (c.scenarios)(Tier::Quick) {
                    if names.is_empty() || names.contains(&s.name) {
                        v.push(Scenario { name: Box::leak(format!("{id} {}", s.name).into_boxed_str()), f: s.f });
                    }
                }
            }
            v
        }
    }]
}
