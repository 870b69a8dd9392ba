mod relay;
mod rt;
use relay::Sim;
use sim_core::*;

const PROPS: &[(&str, &str)] = &[
    ("R01", "each case is a simulated run in which honest and adversarial relayers submit headers of a forking Bitcoin network; non-trivial when a header was accepted and one was judged against the model, distinct by event digest"),
    ("R02", "each case is a simulated run with competing Bitcoin branches; non-trivial when the relay's best block was compared after an accepted header, distinct by event digest"),
    ("R03", "each case is a simulated run in which users prove transactions, honestly or not; non-trivial when at least one proof was judged, distinct by event digest"),
    ("R04", "each case is a simulated run in which payment transactions are checked; non-trivial when at least one payment was judged, distinct by event digest"),
    ("R05", "each case is a simulated run whose faults stop and which then has a bounded number of steps to converge; non-trivial when it reached that phase with an initialised relay, distinct by event digest"),
    ("R06", "each case is a simulated run with request deadlines on both clocks; non-trivial when at least one deadline was judged, distinct by event digest"),
    ("R07", "each case is a simulated run drawing request identifiers across blocks, crashes and restarts; non-trivial when at least two were drawn, distinct by event digest"),
];

fn main() {
    main_with(
        |p, seed, tier| {
            let (_, rule) = PROPS.iter().find(|x| x.0 == p)?;
            let (runs, secs) = if tier == "thorough" { (3_000_000, 600.0) } else { (40_000, 20.0) };
            let part = run_part::<Sim>(p, seed, Budget { runs, secs });
            Some(conclude(
                Plan {
                    property: p,
                    level: "exploration",
                    rule,
                    assumptions: vec![
                        "the FRAME stand-ins in ws/shim behave as FRAME does for the parts the pallets use".into(),
                        "proof of work is declared by the simulated miner, not searched for".into(),
                    ],
                },
                tier,
                seed,
                vec![part],
            ))
        },
        |doc| Some(replay_part::<Sim>(doc)),
    )
}
