//! The properties and the parts that decide them.
use crate::backends::*;
use crate::bulk::{Great, How, Large, Much};
use crate::cli;
use crate::crash::Crash;
use crate::disk;
use crate::front::Front;
use crate::fw::*;
use crate::hist::*;
use crate::http::*;
use crate::pure;
use crate::sched::{Place, Threads};
use crate::store;
use crate::timer;
use crate::whole;
use crate::world::*;

const SLED: &[Combo] = &[SS, ST, TS];
const STAND_IN: &str = "the TiKV cluster is an in-memory stand-in with the semantics of the raw key-value API";
const FLUSHED: &str = "reopening is judged on what sled has flushed: the harness flushes the trees and opens a copy of the directory";
const SWAP: &str = "rollovers are triggered through the guarded hook verif_swap, which calls the function the timer thread calls";

fn h(name: &'static str, mode: Mode, combos: &'static [Combo], odd: bool, quick: (usize, usize), thorough: (usize, usize), ops: (usize, usize)) -> Box<dyn DynPart> {
    Box::new(HistPart { name, mode, combos, odd, quick, thorough, ops })
}

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29"];

pub fn property(id: &str) -> Option<Property> {
    Some(match id {
        "C01" => Property {
            id: "C01",
            level: "exploration",
            rule: "random histories of batches, single writes and queries over 1..9 related label sets, all four backend pairs; and large databases: up to hundreds of series, thousands of samples in a series, long and many labels, tens of thousands of series in a chunk, or of samples in a series; non-trivial: a query with a non-empty answer, and one that has to leave out samples or whole series",
            assumptions: &[STAND_IN],
            parts: vec![
                h("tikv", Mode::Plain, &[TT], false, (16, 400), (64, 600), (1, 40)),
                h("sled", Mode::Plain, SLED, false, (32, 15), (64, 20), (1, 40)),
                Box::new(Large { name: "large", combos: &[TT], how: How::Plain, quick: (8, 30), thorough: (64, 60) }),
                Box::new(Large { name: "large, sled", combos: SLED, how: How::Plain, quick: (8, 12), thorough: (64, 10) }),
                Box::new(Great { name: "many series", much: Much::Series, quick: (4, 1), thorough: (16, 2) }),
                Box::new(Great { name: "many samples", much: Much::Samples, quick: (4, 1), thorough: (16, 3) }),
            ],
        },
        "C04" => Property {
            id: "C04",
            level: "exploration",
            rule: "histories as for C01 over label sets whose values hold separators, escapes and arbitrary Unicode and which differ in single places; and large databases: up to hundreds of series, thousands of samples in a series, long and many labels; non-trivial: a query with a non-empty answer, and one that has to leave out samples or whole series",
            assumptions: &[STAND_IN, "label names of the Prometheus form, unique within a set"],
            parts: vec![
                h("tikv", Mode::Plain, &[TT], true, (16, 250), (64, 600), (1, 40)),
                h("sled", Mode::Plain, SLED, true, (16, 12), (64, 20), (1, 30)),
                Box::new(store::Index { name: "tikv indexer", kinds: &[Kind::Tikv], odd: true, quick: (8, 1000), thorough: (32, 6000) }),
                Box::new(store::Index { name: "sled indexer", kinds: &[Kind::Sled], odd: true, quick: (8, 40), thorough: (64, 100) }),
                Box::new(Large { name: "large", combos: &[TT], how: How::Plain, quick: (8, 20), thorough: (64, 60) }),
                Box::new(Large { name: "large, sled", combos: SLED, how: How::Plain, quick: (8, 8), thorough: (64, 10) }),
            ],
        },
        "C02" => Property {
            id: "C02",
            level: "exploration",
            rule: "increasing series under related ids, written in turns, read over ranges around their samples, opened again in between, up to thousands of samples in a series; non-trivial: a read of a proper part of a series and one of a known series that finds nothing",
            assumptions: &[STAND_IN],
            parts: vec![
                Box::new(store::Ranges { name: "tikv", kinds: &[Kind::Tikv], late: false, quick: (8, 4000), thorough: (32, 20000), ops: 60 }),
                Box::new(store::Ranges { name: "sled", kinds: &[Kind::Sled], late: false, quick: (8, 60), thorough: (64, 120), ops: 120 }),
            ],
        },
        "C03" => Property {
            id: "C03",
            level: "exploration",
            rule: "up to 16 related label sets created in any order, selected by known and unknown labels, looked up by themselves, subsets, supersets and near misses; and large databases: up to hundreds of series, thousands of samples in a series, long and many labels; non-trivial: at least two series and a selection of some but not all",
            assumptions: &[STAND_IN],
            parts: vec![
                Box::new(store::Index { name: "tikv", kinds: &[Kind::Tikv], odd: false, quick: (8, 1500), thorough: (32, 6000) }),
                Box::new(store::Index { name: "sled", kinds: &[Kind::Sled], odd: false, quick: (8, 50), thorough: (64, 100) }),
                Box::new(Large { name: "large", combos: &[TT], how: How::Plain, quick: (8, 20), thorough: (64, 60) }),
                Box::new(Large { name: "large, sled", combos: SLED, how: How::Plain, quick: (8, 8), thorough: (64, 10) }),
            ],
        },
        "C05" => Property {
            id: "C05",
            level: "exploration",
            rule: "histories of writes, queries and rollovers; and large databases: up to hundreds of series, thousands of samples in a series, long and many labels, hundreds of chunks; non-trivial: at least one rollover and one query answered from more than one chunk",
            assumptions: &[STAND_IN, SWAP],
            parts: vec![
                h("tikv", Mode::Roll, &[TT], false, (16, 400), (64, 500), (4, 40)),
                h("sled", Mode::Roll, SLED, false, (24, 7), (64, 12), (4, 25)),
                Box::new(Large { name: "large", combos: &[TT], how: How::Swap, quick: (8, 30), thorough: (64, 60) }),
                Box::new(Large { name: "large, sled", combos: SLED, how: How::Swap, quick: (16, 6), thorough: (64, 8) }),
            ],
        },
        "C06" => Property {
            id: "C06",
            level: "exploration",
            rule: "histories of writes, queries, rollovers and reopenings under changing directory names and clock steps, lives of the program itself; and large databases: up to hundreds of series, thousands of samples in a series, long and many labels; non-trivial: at least one reopening after at least one write",
            assumptions: &[STAND_IN, SWAP, FLUSHED],
            parts: vec![
                h("tikv", Mode::Reopen, &[TT], false, (8, 600), (64, 1500), (4, 30)),
                h("sled", Mode::Reopen, SLED, false, (16, 6), (64, 12), (4, 16)),
                Box::new(whole::Lives { dirs: 6, quick: (8, 1), thorough: (64, 3) }),
                Box::new(Large { name: "large", combos: &[TT], how: How::Reopen, quick: (8, 15), thorough: (64, 60) }),
                Box::new(Large { name: "large, sled", combos: SLED, how: How::Reopen, quick: (8, 6), thorough: (64, 8) }),
            ],
        },
        "C07" => Property {
            id: "C07",
            level: "exploration",
            rule: "up to three lives of a database in a process of its own, each ended at a chosen file operation (before, after or within it) or request to the store, in opening, writing, rolling over or flushing, followed by two that nothing disturbs; non-trivial: a life that was cut short and an attempted write",
            assumptions: &[STAND_IN, SWAP, "a crash is the end of the process: what the kernel was given stays, what the process held is gone", "what has to be there is what sled was told to flush, and what the TiKV stand-in was given"],
            parts: vec![
                Box::new(Crash { name: "tikv", combos: &[TT], quick: (8, 150), thorough: (64, 600) }),
                Box::new(Crash { name: "sled", combos: SLED, quick: (8, 80), thorough: (64, 400) }),
            ],
        },
        "C08" => Property {
            id: "C08",
            level: "exploration",
            rule: "histories of writes, rollovers and reopenings with attempts of the other three pairs in between, and directories of made-up backends with related names opened by others; non-trivial: a refused attempt and stored samples (with made-up names: a refused attempt)",
            assumptions: &[STAND_IN, SWAP, FLUSHED],
            parts: vec![
                Box::new(Backends { name: "tikv", combos: &[TT], quick: (16, 150), thorough: (64, 300), ops: 14 }),
                Box::new(Backends { name: "sled", combos: SLED, quick: (32, 7), thorough: (128, 10), ops: 8 }),
                Box::new(Names { quick: (8, 60), thorough: (32, 300) }),
            ],
        },
        "C09" => Property {
            id: "C09",
            level: "exploration",
            rule: "two to four threads that write to overlapping series of one database or chunk; either a generated sequence decides at every request to the store who goes on, or the threads run freely with jitter; non-trivial: writes of different threads overlap",
            assumptions: &[STAND_IN, "under the scheduler, threads change only at requests to the store, around calls of the sled backends, and between operations"],
            parts: vec![
                Box::new(Threads { name: "scheduled", places: &[Place::DbTikv, Place::ChunkTikv], mixed: false, free: false, quick: (8, 200), thorough: (64, 800) }),
                Box::new(Threads { name: "free", places: &[Place::DbTikv, Place::ChunkTikv], mixed: false, free: true, quick: (8, 100), thorough: (64, 400) }),
                Box::new(Threads { name: "sled scheduled", places: &[Place::DbSled, Place::ChunkSled], mixed: false, free: false, quick: (16, 8), thorough: (128, 20) }),
                Box::new(Threads { name: "sled free", places: &[Place::DbSled, Place::ChunkSled], mixed: false, free: true, quick: (8, 8), thorough: (128, 20) }),
            ],
        },
        "C10" => Property {
            id: "C10",
            level: "exploration",
            rule: "threads that write, query and roll over one database, batches beside rollovers included, under a generated schedule or free with jitter; every query is judged by what had been acknowledged before it began and what had been begun before it ended; non-trivial: a query with an answer while a write was in progress, or an answer in a history with more than three switches",
            assumptions: &[STAND_IN, SWAP, "under the scheduler, threads change only at requests to the store, around calls of the sled backends, between operations and at three named points in query and rollover"],
            parts: vec![
                Box::new(Threads { name: "scheduled", places: &[Place::DbTikv], mixed: true, free: false, quick: (8, 250), thorough: (64, 800) }),
                Box::new(Threads { name: "free", places: &[Place::DbTikv], mixed: true, free: true, quick: (8, 120), thorough: (64, 400) }),
                Box::new(Threads { name: "sled scheduled", places: &[Place::DbSled], mixed: true, free: false, quick: (16, 6), thorough: (128, 12) }),
                Box::new(Threads { name: "sled free", places: &[Place::DbSled], mixed: true, free: true, quick: (8, 6), thorough: (128, 12) }),
                Box::new(Front { name: "new series", combos: &[TT], quick: (4, 40), thorough: (32, 200) }),
                Box::new(Front { name: "new series, sled", combos: &[SS, ST, TS], quick: (4, 10), thorough: (32, 40) }),
            ],
        },
        "C11" => Property {
            id: "C11",
            level: "exploration",
            rule: "histories in which chosen requests to the shared store fail, with or without having taken effect, during writes, rollovers and openings; the same with chosen calls of any storage and indexer that fail with one of seven kinds of error; failed operations are repeated later; and large databases: up to hundreds of series, thousands of samples in a series, long and many labels; non-trivial: an operation that reported an error because of a fault",
            assumptions: &[STAND_IN, SWAP, FLUSHED],
            parts: vec![
                h("tikv", Mode::WriteFaults, &[TT], false, (16, 400), (64, 600), (4, 30)),
                h("calls", Mode::WriteCalls, &[TT], false, (16, 300), (64, 600), (4, 30)),
                h("calls, sled", Mode::WriteCalls, &[SS, ST, TS], false, (24, 4), (64, 10), (4, 16)),
                h("sled", Mode::WriteFaults, &[ST, TS], false, (24, 8), (64, 14), (4, 16)),
                Box::new(Http { name: "server", mode: HMode::Faults, combos: &[TT], quick: (8, 120), thorough: (64, 120) }),
                Box::new(Http { name: "server, calls", mode: HMode::Calls, combos: &[TT], quick: (8, 80), thorough: (64, 80) }),
                Box::new(Large { name: "large", combos: &[TT], how: How::WriteFaults, quick: (8, 25), thorough: (64, 60) }),
                Box::new(Large { name: "large, sled", combos: &[ST, TS], how: How::WriteFaults, quick: (8, 6), thorough: (64, 10) }),
            ],
        },
        "C12" => Property {
            id: "C12",
            level: "exploration",
            rule: "histories in which chosen requests of queries fail, or chosen calls of any storage and indexer with one of seven kinds of error; the answer must be complete or an error, and complete when asked again; and large databases: up to hundreds of series, thousands of samples in a series, long and many labels; non-trivial: a query that reported an error because of a fault",
            assumptions: &[STAND_IN, SWAP],
            parts: vec![
                h("tikv", Mode::ReadFaults, &[TT], false, (32, 500), (64, 600), (4, 30)),
                h("calls", Mode::ReadCalls, &[TT], false, (16, 400), (64, 600), (4, 30)),
                h("calls, sled", Mode::ReadCalls, &[SS, ST, TS], false, (24, 4), (64, 10), (4, 20)),
                h("sled", Mode::ReadFaults, &[ST, TS], false, (32, 8), (64, 14), (4, 20)),
                Box::new(Http { name: "server", mode: HMode::Faults, combos: &[TT], quick: (16, 150), thorough: (64, 120) }),
                Box::new(Http { name: "server, calls", mode: HMode::Calls, combos: &[TT], quick: (16, 80), thorough: (64, 80) }),
                Box::new(Large { name: "large", combos: &[TT], how: How::ReadFaults, quick: (8, 25), thorough: (64, 60) }),
                Box::new(Large { name: "large, sled", combos: &[ST, TS], how: How::ReadFaults, quick: (8, 6), thorough: (64, 10) }),
            ],
        },
        "C13" => Property {
            id: "C13",
            level: "exploration",
            rule: "sequences of remote writes and reads over TCP, encoded by an independent encoder in varying forms, against the reference model, by one client and by several at once; and large databases: up to hundreds of series, thousands of samples in a series, long and many labels, requests of megabytes, tens of thousands of samples in a series; servers that answer up to 80000 requests; non-trivial: at least one write and one result with samples",
            assumptions: &[STAND_IN, SWAP],
            parts: vec![
                Box::new(Http { name: "tikv", mode: HMode::Plain, combos: &[TT], quick: (16, 150), thorough: (64, 120) }),
                Box::new(Http { name: "sled", mode: HMode::Plain, combos: SLED, quick: (16, 8), thorough: (64, 12) }),
                Box::new(whole::Clients { name: "clients", combos: &[TT], steps: 14, quick: (8, 100), thorough: (64, 80) }),
                Box::new(whole::Clients { name: "clients, sled", combos: SLED, steps: 10, quick: (16, 4), thorough: (64, 8) }),
                Box::new(Large { name: "large", combos: &[TT], how: How::Http, quick: (8, 30), thorough: (64, 40) }),
                Box::new(Great { name: "many samples", much: Much::Served, quick: (4, 1), thorough: (16, 3) }),
                Box::new(whole::Long { name: "long life", combos: &[TT], requests: 40000..80000, attacks: false, quick: (6, 1), thorough: (32, 4) }),
            ],
        },
        "C14" => Property {
            id: "C14",
            level: "exploration",
            rule: "raw bytes, damaged bodies at each layer, cut and stalled connections, other paths and methods, broken transfer encodings and extreme numbers, each followed by well-formed requests; tens of thousands of refused requests or broken connections between well-formed ones; non-trivial: at least one undecodable request refused or one connection attacked",
            assumptions: &[STAND_IN, "bodies that protobuf decoders are free to differ about are left out", "no answer within twice 20 seconds counts as none"],
            parts: vec![
                Box::new(Http { name: "tikv", mode: HMode::Attacks, combos: &[TT], quick: (8, 90), thorough: (96, 120) }),
                Box::new(cli::Announced { quick: (8, 6), thorough: (64, 25) }),
                Box::new(Large { name: "large", combos: &[TT], how: How::Http, quick: (8, 6), thorough: (64, 20) }),
                Box::new(whole::Long { name: "long life", combos: &[TT], requests: 20000..80000, attacks: true, quick: (4, 1), thorough: (32, 4) }),
            ],
        },
        "C15" => Property {
            id: "C15",
            level: "exploration",
            rule: "sample sequences with time steps around every width the encoding uses and values that differ from the one before in chosen stretches of bits, up to tens of thousands of samples, compacted whole, in batches and singly, with bytes taken in between; non-trivial: at least three samples and at least three kinds of steps and value changes",
            assumptions: &[],
            parts: vec![Box::new(pure::Compaction), Box::new(pure::LongCompaction)],
        },
        "C16" => Property {
            id: "C16",
            level: "exploration",
            rule: "compacted sequences with bits flipped, bytes set, cut, replaced or inserted, and random bytes; non-trivial: something was damaged or samples lie before the damage, the tag is wrong, or random bytes beyond the tag",
            assumptions: &[],
            parts: vec![Box::new(pure::DamagedCompaction)],
        },
        "C17" => Property {
            id: "C17",
            level: "exploration",
            rule: "two to four chunks, and two or three databases, in one store, used in turns with the same ids and labels, components opened in any order and again; thousands of chunks in one store; non-trivial: at least two of them hold data",
            assumptions: &[STAND_IN],
            parts: vec![
                Box::new(store::Neighbours),
                Box::new(store::Databases { name: "databases", combos: &[TT], quick: (16, 200), thorough: (32, 300) }),
                Box::new(store::Databases { name: "mixed databases", combos: &[TT, ST, TS], quick: (16, 5), thorough: (64, 8) }),
                Box::new(Great { name: "many chunks", much: Much::Chunks, quick: (8, 1), thorough: (32, 2) }),
            ],
        },
        "C18" => Property {
            id: "C18",
            level: "exploration",
            rule: "pairs of 64-bit times around powers of two and everywhere, names that are not of the form, options written, rewritten, removed, cut and replaced; non-trivial: two different pairs, or options damaged or rewritten",
            assumptions: &["names with an explicit plus sign, capital or fewer digits are not judged"],
            parts: vec![Box::new(pure::Names), Box::new(pure::Opts)],
        },
        "C19" => Property {
            id: "C19",
            level: "exploration",
            rule: "0 to 70, rarely up to 520, ascending lists with a drawn common part, of uneven length, or of ids missing in one or two of them, each intersected twice, against sets; non-trivial: two or more lists, a non-empty intersection, and a list with more than that",
            assumptions: &[],
            parts: vec![Box::new(pure::Intersect)],
        },
        "C20" => Property {
            id: "C20",
            level: "exploration",
            rule: "sequences of entries and flushes under each policy onto a writer that takes a few bytes at a time, is interrupted and may fail once, compared byte by byte after every operation with an independent encoding; non-trivial: at least two entries, and some left in the buffer where the policy has one",
            assumptions: &["nothing is asked of a segment after its writer has failed, but that the failure was reported", "the time-based policy has no flushing yet and is left out", "the module is reached through a guarded re-export"],
            parts: vec![Box::new(pure::Wal)],
        },
        "C21" => Property {
            id: "C21",
            level: "exploration",
            rule: "label lists and their prefixes, permutations and single changes, compared pairwise and as map keys, and samples close to and far from each other; non-trivial: both an equal and an unequal pair",
            assumptions: &[],
            parts: vec![Box::new(pure::Equality)],
        },
        "C22" => Property {
            id: "C22",
            level: "exploration",
            rule: "windows of any place and length on single chunks, and of databases before and after rollovers; samples at, next to and far from their ends, singly and in batches of up to 700; non-trivial: a sample at an end of a window and one outside",
            assumptions: &[STAND_IN, SWAP],
            parts: vec![
                Box::new(store::Window { name: "chunk", combos: &[TT], lone: true, quick: (8, 3000), thorough: (32, 10000) }),
                Box::new(store::Window { name: "sled chunk", combos: &[SS], lone: true, quick: (8, 30), thorough: (64, 60) }),
                Box::new(store::Window { name: "database", combos: &[TT], lone: false, quick: (16, 300), thorough: (32, 600) }),
                Box::new(store::Window { name: "sled database", combos: SLED, lone: false, quick: (16, 6), thorough: (64, 10) }),
            ],
        },
        "C23" => Property {
            id: "C23",
            level: "exploration",
            rule: "histories in which samples are sent again, singly and in batches, with equal or other values, mixed with late and fresh ones; and large databases: up to hundreds of series, thousands of samples in a series, long and many labels; non-trivial: a write with a sample not later than the newest of its series",
            assumptions: &[STAND_IN, SWAP],
            parts: vec![
                h("tikv", Mode::Resend, &[TT], false, (8, 200), (64, 600), (2, 30)),
                h("sled", Mode::Resend, SLED, false, (8, 12), (64, 18), (2, 25)),
                Box::new(store::Ranges { name: "tikv storage", kinds: &[Kind::Tikv], late: true, quick: (8, 2000), thorough: (32, 20000), ops: 60 }),
                Box::new(store::Ranges { name: "sled storage", kinds: &[Kind::Sled], late: true, quick: (8, 40), thorough: (64, 120), ops: 120 }),
                Box::new(Large { name: "large", combos: &[TT], how: How::Resend, quick: (8, 20), thorough: (64, 60) }),
                Box::new(Large { name: "large, sled", combos: SLED, how: How::Resend, quick: (8, 6), thorough: (64, 10) }),
            ],
        },
        "C24" => Property {
            id: "C24",
            level: "exploration",
            rule: "reads with all four operators, empty values and operators that do not exist, mixed and alone, over stored series; an answer has to be what the operators select; non-trivial: a write and a read with an operator other than equality",
            assumptions: &[STAND_IN],
            parts: vec![
                Box::new(Http { name: "tikv", mode: HMode::Operators, combos: &[TT], quick: (32, 300), thorough: (64, 120) }),
            ],
        },
        "C25" => Property {
            id: "C25",
            level: "exploration",
            rule: "histories with rollovers in which opening the storage or the indexer of the next chunk fails, before or after it took effect, and reopenings afterwards; non-trivial: a failed rollover and a write",
            assumptions: &[STAND_IN, SWAP, FLUSHED, "failures are injected in the storage and indexer builders handed to the database"],
            parts: vec![
                h("tikv", Mode::BrokenRoll, &[TT], false, (16, 250), (64, 500), (4, 30)),
                h("sled", Mode::BrokenRoll, SLED, false, (24, 6), (64, 10), (4, 18)),
                Box::new(timer::Broken { name: "by the timer", combos: &[TT], quick: (8, 150), thorough: (64, 200) }),
                Box::new(timer::Broken { name: "by the timer, sled", combos: SLED, quick: (16, 3), thorough: (64, 8) }),
            ],
        },
        "C26" => Property {
            id: "C26",
            level: "exploration",
            rule: "databases whose timer is moved through generated numbers of windows on virtual time, with writes everywhere in the windows, oversleeping and writes beside the rollover, and databases left running on the real clock; non-trivial: more than one rollover with samples",
            assumptions: &[STAND_IN, "the wall clock is not set back", "sleeps of a minute and more run on virtual time, which stands still while the database works"],
            parts: vec![
                Box::new(timer::Real { name: "real time", dbs: 8, quick: (8, 1), thorough: (64, 3) }),
                Box::new(timer::Virtual { name: "virtual time", combos: &[TT], turns: 12, quick: (8, 100), thorough: (64, 150) }),
                Box::new(timer::Virtual { name: "virtual time sled", combos: SLED, turns: 4, quick: (16, 5), thorough: (64, 10) }),
            ],
        },
        "C27" => Property {
            id: "C27",
            level: "exploration",
            rule: "command lines with any of the options, numbers around the limits, beyond what integers hold and not of the form, read by the functions the program uses, and the program itself started with such lines and talked to; non-trivial: options refused, or taken and compared",
            assumptions: &["the program runs with the in-memory TiKV of its dry-run mode or the stand-in", "numbers with a plus sign may be taken or refused"],
            parts: vec![
                Box::new(cli::Options { quick: (8, 10000), thorough: (32, 30000) }),
                Box::new(cli::Program { quick: (32, 20), thorough: (64, 30) }),
            ],
        },
        "C28" => Property {
            id: "C28",
            level: "exploration",
            rule: "config files with one to five, or hundreds of, endpoints in the forms YAML has for them, under either of the two names of the key, dry_run given or not, and files with values of the wrong kind, cut, not text, missing; the backend they lead to is used and the stand-in's clusters are looked at; non-trivial: a file refused, or one with dry_run given",
            assumptions: &[STAND_IN, "without dry_run either mode is right (the README and the code differ)"],
            parts: vec![Box::new(cli::ConfigFile { quick: (8, 10000), thorough: (32, 40000) })],
        },
        "C29" => Property {
            id: "C29",
            level: "exploration",
            rule: "histories of writes, rollovers, openings with the same and with other backends, in which the nth and following file operations of the database itself (open, read, list, create, write, rename) fail with one of eight errors while it is created, opened or rolled over; non-trivial: an opening with a failed operation, and stored samples",
            assumptions: &[STAND_IN, SWAP, FLUSHED, "file operations inside the key-value stores, and those that only look whether a file is there, do not fail"],
            parts: vec![
                Box::new(disk::Disk { name: "tikv", combos: &[TT], ops: 14, quick: (16, 400), thorough: (64, 800) }),
                Box::new(disk::Disk { name: "sled", combos: SLED, ops: 6, quick: (24, 8), thorough: (64, 20) }),
            ],
        },
        _ => return None,
    })
}
