mod num;
mod rt;
mod sim;
mod stable;
mod world;
use sim_core::*;

const PROPS: &[(&str, &str)] = &[
    ("X01", "each case is a simulated run of pairs rich in swaps along paths; non-trivial when a swap took effect, distinct by event digest"),
    ("X02", "each case is a simulated run of pairs rich in liquidity added and removed; non-trivial when one of these took effect, distinct by event digest"),
    ("X03", "each case is a simulated run of bootstraps; non-trivial when one of their calls took effect, distinct by event digest"),
    ("X04", "each case is a simulated run of stable pools rich in swaps; non-trivial when one took effect, distinct by event digest"),
    ("X05", "each case is a simulated run of stable pools rich in liquidity added and removed; non-trivial when one of these took effect, distinct by event digest"),
    ("X06", "each case is a simulated run of stable pools rich in governance and clock jumps; non-trivial when one of governance's calls took effect, distinct by event digest"),
    ("X07", "each case is a simulated run of pairs and pools rich in composite calls and routes; non-trivial when one of these took effect, distinct by event digest"),
];

fn main() {
    main_with(
        |p, seed, tier| {
            let (_, rule) = PROPS.iter().find(|x| x.0 == p)?;
            let (runs, secs) = if tier == "thorough" { (20_000_000, 600.0) } else { (60_000, 30.0) };
            let part = run_part::<sim::Sim>(p, seed, Budget { runs, secs });
            Some(conclude(
                Plan {
                    property: p,
                    level: "exploration",
                    rule,
                    assumptions: vec![
                        "the FRAME stand-ins in ws/shim behave as FRAME does for the parts the pallets use".into(),
                    ],
                },
                tier,
                seed,
                vec![part],
            ))
        },
        |doc| Some(replay_part::<sim::Sim>(doc)),
    )
}
