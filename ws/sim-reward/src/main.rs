mod num;
mod pools;
mod rt;
mod vaults;
use sim_core::*;

const PROPS: &[(&str, &str)] = &[
    ("F01", "each case is a simulated run of stakers, distributions and claims in two reward pools; non-trivial when a reward was claimed, distinct by event digest"),
    ("F02", "each case is a simulated run of stakes, slashes, refunds, distributions and claims in two vaults' staking pools; non-trivial when a reward was claimed from a judged pool, distinct by event digest"),
];

fn main() {
    main_with(
        |p, seed, tier| {
            let (_, rule) = PROPS.iter().find(|x| x.0 == p)?;
            let (runs, secs) = if tier == "thorough" { (20_000_000, 600.0) } else { (60_000, 20.0) };
            let b = Budget { runs, secs };
            let part = match p {
                "F01" => run_part::<pools::Sim>(p, seed, b),
                _ => run_part::<vaults::Sim>(p, seed, b),
            };
            Some(conclude(
                Plan {
                    property: p,
                    level: "exploration",
                    rule,
                    assumptions: vec![
                        "the FRAME stand-ins in ws/shim behave as FRAME does for the parts the pallets use".into(),
                        "numbers near the end of the chain's fixed point type may be refused".into(),
                    ],
                },
                tier,
                seed,
                vec![part],
            ))
        },
        |doc| {
            Some(match doc["scenario"].as_str() {
                Some("pools") => replay_part::<pools::Sim>(doc),
                _ => replay_part::<vaults::Sim>(doc),
            })
        },
    )
}
