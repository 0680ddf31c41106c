//! The simulated scenarios, one function per property.

pub mod alone;
pub mod ask;
pub mod books;
pub mod fates;
pub mod graph;
pub mod index;
pub mod paper;
pub mod place;
pub mod process;
pub mod said;
pub mod same;
pub mod views;

use crate::sim::Cx;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Cx),
    /// runs of the quick and of the thorough check
    pub quick: u64,
    pub thorough: u64,
    /// whether it is also run with the `targets` feature
    pub both: bool,
    pub rule: &'static str,
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        run: process::c01,
        quick: 30_000,
        thorough: 1_000_000,
        both: false,
        rule: "a run counts if a process was asked for and at least one fault struck, or its output was surrounded, split or damaged",
    },
    Prop {
        id: "C02",
        run: process::c02,
        quick: 30_000,
        thorough: 1_000_000,
        both: false,
        rule: "a run counts if a pipe was full, a call was interrupted or cut short, or setting up or reaping the process failed",
    },
    Prop {
        id: "C03",
        run: ask::c03,
        quick: 30_000,
        thorough: 1_000_000,
        both: false,
        rule: "a run counts if at least one process was started, and so what it was asked was compared",
    },
    Prop {
        id: "C04",
        run: same::c04,
        quick: 20_000,
        thorough: 700_000,
        both: false,
        rule: "a run counts if at least one graph was built from a shuffled document and compared",
    },
    Prop {
        id: "C05",
        run: books::c05,
        quick: 30_000,
        thorough: 1_000_000,
        both: false,
        rule: "a run counts if at least one graph was built, or a callback panicked in a build",
    },
    Prop {
        id: "C06",
        run: graph::c06,
        quick: 30_000,
        thorough: 1_000_000,
        both: true,
        rule: "a run counts if at least one graph was built and compared with the model",
    },
    Prop {
        id: "C07",
        run: graph::c07,
        quick: 30_000,
        thorough: 1_000_000,
        both: true,
        rule: "a run counts if at least one graph was built and its features compared with the model",
    },
    Prop {
        id: "C08",
        run: index::c08,
        quick: 25_000,
        thorough: 900_000,
        both: false,
        rule: "a run counts if at least one graph was built from a document cargo left features out of",
    },
    Prop {
        id: "C09",
        run: place::c09,
        quick: 30_000,
        thorough: 1_000_000,
        both: false,
        rule: "a run counts if at least one selection of workspace crates by paths was compared",
    },
    Prop {
        id: "C10",
        run: paper::c10,
        quick: 20_000,
        thorough: 600_000,
        both: false,
        rule: "a run counts if at least one text was decoded or refused",
    },
    Prop {
        id: "C11",
        run: paper::c11,
        quick: 30_000,
        thorough: 1_000_000,
        both: false,
        rule: "a run counts if at least one file was loaded",
    },
    Prop {
        id: "C12",
        run: views::c12,
        quick: 25_000,
        thorough: 900_000,
        both: false,
        rule: "a run counts if at least one question was asked and its answer compared",
    },
    Prop {
        id: "C13",
        run: alone::c13,
        quick: 12_000,
        thorough: 350_000,
        both: true,
        rule: "a run counts if at least two builds were made, and compared with the same builds made alone",
    },
    Prop {
        id: "C14",
        run: fates::c14,
        quick: 30_000,
        thorough: 1_000_000,
        both: false,
        rule: "a run counts if at least one build could not give a graph",
    },
    Prop {
        id: "C15",
        run: same::c15,
        quick: 20_000,
        thorough: 700_000,
        both: true,
        rule: "a run counts if at least one graph was built and compared with that of today's cargo",
    },
    Prop {
        id: "C16",
        run: graph::c16,
        quick: 30_000,
        thorough: 1_000_000,
        both: true,
        rule: "a run counts if at least one graph was built and the links of its features compared with the model",
    },
    Prop {
        id: "C17",
        run: said::c17,
        quick: 30_000,
        thorough: 1_000_000,
        both: false,
        rule: "a run counts if a document was acquired and its answers compared",
    },
];
