mod swap;
use sim_core::*;
use swap::Swap;

const PROPS: &[(&str, &str)] = &[
    ("C01", "each case is a simulated run of makers, takers, miners and a relayer around the swap contract; non-trivial when an order was executed or an execution refused, distinct by event digest"),
    ("C02", "each case is a simulated run in which contracts ask about Bitcoin payments; non-trivial when at least one answer was judged, distinct by event digest"),
    ("C03", "each case is a simulated run of clients of the flipper contract; non-trivial when its value was compared after a flip, distinct by event digest"),
];

fn main() {
    main_with(
        |p, seed, tier| {
            let (_, rule) = PROPS.iter().find(|x| x.0 == p)?;
            let (runs, secs) = if tier == "thorough" { (3_000_000, 600.0) } else { (40_000, 20.0) };
            let part = run_part::<Swap>(p, seed, Budget { runs, secs });
            Some(conclude(
                Plan {
                    property: p,
                    level: "exploration",
                    rule,
                    assumptions: vec![
                        "the FRAME stand-ins in ws/shim behave as FRAME does for the parts the pallets use".into(),
                        "ink's off-chain environment stores and transfers as the contracts pallet does; a refused call leaves no trace, as the pallet guarantees".into(),
                        "proof of work is declared by the simulated miner, not searched for".into(),
                    ],
                },
                tier,
                seed,
                vec![part],
            ))
        },
        |doc| Some(replay_part::<Swap>(doc)),
    )
}
