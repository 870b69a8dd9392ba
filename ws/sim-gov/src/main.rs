mod rt;
mod sim;
mod world;
use sim_core::*;

const PROPS: &[(&str, &str)] = &[
    ("G01", "each case is a simulated run of governance and emissions rich in locks; non-trivial when a lock changed, distinct by event digest"),
    ("G02", "each case is a simulated run of governance and emissions rich in locks, limits and transfers; non-trivial when one of these took effect, distinct by event digest"),
    ("G03", "each case is a simulated run of governance and emissions rich in proposals and seconds; non-trivial when one took effect, distinct by event digest"),
    ("G04", "each case is a simulated run of governance and emissions rich in votes and referenda; non-trivial when one took effect, distinct by event digest"),
    ("G05", "each case is a simulated run of governance and emissions rich in inflation and claims; non-trivial when a claim or an emission took effect, distinct by event digest"),
    ("G06", "each case is a simulated run of governance and emissions rich in farming; non-trivial when a farming call took effect, distinct by event digest"),
    ("G07", "each case is a simulated run of governance and emissions rich in collators' calls and sessions; non-trivial when one took effect, distinct by event digest"),
    ("G08", "each case is a simulated run of governance and emissions rich in pauses and releases; non-trivial when one took effect, distinct by event digest"),
];

fn main() {
    main_with(
        |p, seed, tier| {
            let (_, rule) = PROPS.iter().find(|x| x.0 == p)?;
            let (runs, secs) = if tier == "thorough" { (20_000_000, 600.0) } else { (60_000, 30.0) };
            let part = run_part::<sim::Sim>(p, seed, Budget { runs, secs });
            Some(conclude(
                Plan {
                    property: p,
                    level: "exploration",
                    rule,
                    assumptions: vec![
                        "the FRAME stand-ins in ws/shim, and the scheduler and preimage store of sim-gov, behave as FRAME's do for the parts the pallets use".into(),
                        "the reward pools are what F01 to F03 say they are".into(),
                    ],
                },
                tier,
                seed,
                vec![part],
            ))
        },
        |doc| Some(replay_part::<sim::Sim>(doc)),
    )
}
