mod num;
mod rt;
mod sim;
mod world;
use sim_core::*;

const PROPS: &[(&str, &str)] = &[
    ("L01", "each case is a simulated run of suppliers, borrowers, liquidators and governance on three markets; non-trivial when a call took effect, distinct by event digest"),
    ("L02", "each case is a simulated run of the markets rich in repayments, reserves and clock jumps; non-trivial when a call took effect, distinct by event digest"),
    ("L03", "each case is a simulated run of the markets rich in borrowing, locking and transfers; non-trivial when one of these took effect, distinct by event digest"),
    ("L04", "each case is a simulated run of the markets rich in liquidations; non-trivial when one took effect, distinct by event digest"),
    ("L05", "each case is a simulated run of the markets rich in reward changes and claims; non-trivial when one took effect, distinct by event digest"),
    ("L06", "each case is a simulated run of the markets rich in governance calls; non-trivial when one took effect, distinct by event digest"),
];

fn main() {
    main_with(
        |p, seed, tier| {
            let (_, rule) = PROPS.iter().find(|x| x.0 == p)?;
            let (runs, secs) = if tier == "thorough" { (20_000_000, 600.0) } else { (60_000, 30.0) };
            let part = run_part::<sim::Sim>(p, seed, Budget { runs, secs });
            Some(conclude(
                Plan {
                    property: p,
                    level: "exploration",
                    rule,
                    assumptions: vec![
                        "the FRAME stand-ins in ws/shim behave as FRAME does for the parts the pallets use".into(),
                        "prices are what V08 says they are".into(),
                    ],
                },
                tier,
                seed,
                vec![part],
            ))
        },
        |doc| Some(replay_part::<sim::Sim>(doc)),
    )
}
