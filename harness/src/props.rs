//! The properties, and the families that decide each.
use crate::orch::{Part, Prop};

const COMMON: &[&str] = &["a crash is the death of the process: file operations issued before it are durable in order, the one in progress may be cut at any sector, later ones do not exist"];

const SQL_THREADS: &str = "one evaluation = one simulated history: of statements of several sessions, every answer compared with the reference model (sql), or of several client threads under one seeded schedule, explained by snapshot isolation over the model (threads); nontrivial when it changed data; distinct by plan and observations";

const CRASHES: &str = "one evaluation = one simulated workload, of one client (crash) or of several client threads under one seeded schedule (threads), killed at several points of its stream of file operations, between and within them, and recovered, and in the crash family killed again during recovery and during the work after it; nontrivial when a database was recovered and compared";

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        level: "exploration",
        parts: &[Part { family: "crash", quick: 3000, thorough: 20000 }, Part { family: "threads", quick: 2500, thorough: 15000 }],
        rule: CRASHES,
        assumptions: COMMON,
    },
    Prop {
        id: "C02",
        level: "exploration",
        parts: &[Part { family: "crash", quick: 3000, thorough: 20000 }, Part { family: "threads", quick: 2500, thorough: 15000 }],
        rule: CRASHES,
        assumptions: COMMON,
    },
    Prop {
        id: "C08",
        level: "exploration",
        parts: &[Part { family: "crash", quick: 3000, thorough: 20000 }, Part { family: "threads", quick: 2500, thorough: 15000 }],
        rule: CRASHES,
        assumptions: COMMON,
    },
    Prop {
        id: "C10",
        level: "exploration",
        parts: &[Part { family: "btree", quick: 6000, thorough: 30000 }, Part { family: "sql", quick: 2000, thorough: 15000 }, Part { family: "crash", quick: 600, thorough: 5000 }],
        rule: "one evaluation = one simulated history of tree operations; nontrivial when the tree grew beyond one page; distinct by plan and observations",
        assumptions: COMMON,
    },
    Prop {
        id: "C11",
        level: "exploration",
        parts: &[Part { family: "btree", quick: 5000, thorough: 20000 }, Part { family: "sql", quick: 3000, thorough: 20000 }, Part { family: "crash", quick: 800, thorough: 6000 }, Part { family: "threads", quick: 1000, thorough: 8000 }],
        rule: "one evaluation = one simulated history; nontrivial when the file grew beyond three pages; distinct by plan and observations",
        assumptions: COMMON,
    },
    Prop {
        id: "C17",
        level: "exploration",
        parts: &[Part { family: "wal", quick: 12000, thorough: 100000 }],
        rule: "one evaluation = one simulated history of appends, forces, reopens, truncations, faults and process deaths, between file operations and within writes; nontrivial when records were appended",
        assumptions: COMMON,
    },
    Prop {
        id: "C18",
        level: "exploration",
        parts: &[Part { family: "tuple", quick: 25000, thorough: 300000 }, Part { family: "sql", quick: 3000, thorough: 20000 }],
        rule: "one evaluation = one simulated history of transactions over one row; nontrivial when the row was updated or deleted",
        assumptions: COMMON,
    },
    Prop {
        id: "C03",
        level: "exploration",
        parts: &[Part { family: "sql", quick: 7000, thorough: 30000 }, Part { family: "threads", quick: 2500, thorough: 20000 }],
        rule: SQL_THREADS,
        assumptions: COMMON,
    },
    Prop {
        id: "C04",
        level: "exploration",
        parts: &[Part { family: "sql", quick: 7000, thorough: 30000 }, Part { family: "threads", quick: 4000, thorough: 20000 }],
        rule: SQL_THREADS,
        assumptions: COMMON,
    },
    Prop {
        id: "C06",
        level: "exploration",
        parts: &[Part { family: "sql", quick: 8000, thorough: 40000 }, Part { family: "crash", quick: 600, thorough: 5000 }],
        rule: "one evaluation = one simulated history of statements of several sessions, every answer compared with the reference model; nontrivial when it changed data; distinct by plan and observations",
        assumptions: COMMON,
    },
    Prop {
        id: "C07",
        level: "exploration",
        parts: &[Part { family: "sql", quick: 7000, thorough: 30000 }, Part { family: "threads", quick: 3000, thorough: 20000 }, Part { family: "crash", quick: 800, thorough: 6000 }],
        rule: SQL_THREADS,
        assumptions: COMMON,
    },
    Prop {
        id: "C09",
        level: "exploration",
        parts: &[Part { family: "sql", quick: 8000, thorough: 30000 }],
        rule: "one evaluation = one simulated history of statements of several sessions, every answer compared with the reference model; nontrivial when it changed data; distinct by plan and observations",
        assumptions: COMMON,
    },
    Prop {
        id: "C12",
        level: "exploration",
        parts: &[Part { family: "sql", quick: 5000, thorough: 30000 }],
        rule: "one evaluation = one simulated history of statements of several sessions, every answer compared with the reference model; nontrivial when it changed data; distinct by plan and observations",
        assumptions: COMMON,
    },
    Prop {
        id: "C13",
        level: "exploration",
        parts: &[Part { family: "sql", quick: 7000, thorough: 30000 }, Part { family: "threads", quick: 1500, thorough: 15000 }],
        rule: "one evaluation = one simulated history of statements of several sessions, every answer compared with the reference model; nontrivial when it changed data; distinct by plan and observations",
        assumptions: COMMON,
    },
    Prop {
        id: "C14",
        level: "exploration",
        parts: &[Part { family: "threads", quick: 12000, thorough: 60000 }],
        rule: "one evaluation = one simulated execution of several client threads under one seeded schedule, its history explained by snapshot isolation over the reference model, then audited and reopened; nontrivial when there were several transactions; distinct by plan and observations",
        assumptions: COMMON,
    },
    Prop {
        id: "C15",
        level: "exploration",
        parts: &[Part { family: "sql", quick: 7000, thorough: 30000 }, Part { family: "threads", quick: 2000, thorough: 20000 }, Part { family: "crash", quick: 1000, thorough: 8000 }],
        rule: SQL_THREADS,
        assumptions: COMMON,
    },
    Prop {
        id: "C16",
        level: "exploration",
        parts: &[Part { family: "sql", quick: 9000, thorough: 40000 }],
        rule: "one evaluation = one simulated history of statements of several sessions, every answer compared with the reference model; nontrivial when it changed data; distinct by plan and observations",
        assumptions: COMMON,
    },
    Prop {
        id: "C20",
        level: "exploration",
        parts: &[Part { family: "wire", quick: 15000, thorough: 300000 }],
        rule: "one evaluation = one simulated series of conversations, damaged frames and broken connections; nontrivial when messages were exchanged",
        assumptions: &["a connection delivers bytes in order, in any pieces, until it breaks"],
    },
];
