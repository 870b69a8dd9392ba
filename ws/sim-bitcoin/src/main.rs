use sim_ref as refm;
mod wire;
use sim_core::*;
use wire::Wire;

const PROPS: &[(&str, &str)] = &[
    ("B01", "each case is a simulated run in which wallets send transactions over a faulty transport; non-trivial when at least one message was delivered and judged, distinct by event digest"),
    ("B02", "each case is a simulated run delivering damaged messages of every kind; non-trivial when at least one message was delivered, distinct by event digest"),
    ("B03", "each case is a simulated run relaying block headers over a faulty transport; non-trivial when at least one header was delivered, distinct by event digest"),
    ("B04", "each case is a simulated run in which provers, honest and forging, submit inclusion proofs over a faulty transport; non-trivial when at least one proof was judged, distinct by event digest"),
    ("B05", "each case is a simulated run of difficulty periods on skewed miner clocks; non-trivial when at least one adjustment was judged, distinct by event digest"),
    ("B06", "each case is a simulated run exchanging scripts and OP_RETURN payloads over a faulty transport; non-trivial when at least one was judged, distinct by event digest"),
    ("B07", "each case is a simulated run of deposit requests over a faulty transport; non-trivial when at least one derivation was judged, distinct by event digest"),
];

fn main() {
    main_with(
        |p, seed, tier| {
            let (_, rule) = PROPS.iter().find(|x| x.0 == p)?;
            let (runs, secs) = if tier == "thorough" { (2_000_000, 600.0) } else { (60_000, 15.0) };
            let part = run_part::<Wire>(p, seed, Budget { runs, secs });
            Some(conclude(Plan { property: p, level: "exploration", rule, assumptions: vec!["rust-bitcoin 0.30.1 and the reference model state Bitcoin's rules correctly".into()] }, tier, seed, vec![part]))
        },
        |doc| Some(replay_part::<Wire>(doc)),
    )
}
