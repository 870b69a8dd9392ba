mod records;
use records::Records;
use sim_core::*;

const PROPS: &[(&str, &str)] = &[
    ("P01", "each case is a simulated run in which nodes persist and serve request records over failing disks and links; non-trivial when at least one record was read back or received and judged, distinct by event digest"),
    ("P02", "each case is a simulated run in which clients name currencies and pools in their own ways; non-trivial when at least one name was judged, distinct by event digest"),
];

fn main() {
    main_with(
        |p, seed, tier| {
            let (_, rule) = PROPS.iter().find(|x| x.0 == p)?;
            let (runs, secs) = if tier == "thorough" { (3_000_000, 300.0) } else { (600_000, 15.0) };
            let part = run_part::<Records>(p, seed, Budget { runs, secs });
            Some(conclude(
                Plan { property: p, level: "exploration", rule, assumptions: vec!["the reference encodings state the formats the network has stored and served so far".into()] },
                tier,
                seed,
                vec![part],
            ))
        },
        |doc| Some(replay_part::<Records>(doc)),
    )
}
