mod chain;
mod num;
mod rt;
mod sim;
mod spec;
mod world;
use sim_core::*;

const PROPS: &[(&str, &str)] = &[
    ("V01", "each case is a simulated run of vaults, users, oracles and relayers on the bridge; non-trivial when a call took effect, distinct by event digest"),
    ("V02", "each case is a simulated run of vaults, users, oracles and relayers on the bridge; non-trivial when a call took effect, distinct by event digest"),
    ("V03", "each case is a simulated run of the bridge rich in issue requests; non-trivial when an issue call took effect, distinct by event digest"),
    ("V04", "each case is a simulated run of the bridge rich in redeem requests; non-trivial when a redeem call took effect, distinct by event digest"),
    ("V05", "each case is a simulated run of the bridge rich in replace requests; non-trivial when a replace call took effect, distinct by event digest"),
    ("V06", "each case is a simulated run of the bridge with falling prices, threshold changes and reports; non-trivial when a call took effect, distinct by event digest"),
    ("V07", "each case is a simulated run of vaults and their nominators; non-trivial when a nomination call took effect, distinct by event digest"),
    ("V08", "each case is a simulated run of oracles, some stalled or off the mark, with clock jumps; non-trivial when a value was fed, distinct by event digest"),
    ("V09", "each case is a simulated run of the bridge rich in fees and claims; non-trivial when rewards were withdrawn, distinct by event digest"),
];

fn main() {
    main_with(
        |p, seed, tier| {
            let (_, rule) = PROPS.iter().find(|x| x.0 == p)?;
            let (runs, secs) = if tier == "thorough" { (20_000_000, 600.0) } else { (20_000, 30.0) };
            let part = run_part::<sim::Sim>(p, seed, Budget { runs, secs });
            Some(conclude(
                Plan {
                    property: p,
                    level: "exploration",
                    rule,
                    assumptions: vec![
                        "the FRAME stand-ins in ws/shim behave as FRAME does for the parts the pallets use".into(),
                        "what the relay takes in and counts as included is as R01 to R08 say".into(),
                    ],
                },
                tier,
                seed,
                vec![part],
            ))
        },
        |doc| Some(replay_part::<sim::Sim>(doc)),
    )
}
