//! What a simulated history consists of. A `Scenario` is also the replay file.
use crate::rng::mix;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Kind {
    Cycle,
    Partial,
    Group,
}

/// What a closure answers, as a function of the ids of the element only
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Sel {
    pub seed: u64,
    /// Selects about `dens` of 8 elements
    pub dens: u8,
}
impl Sel {
    pub fn hit(&self, l: Option<u32>, r: Option<u32>) -> bool {
        let a = l.map(|x| x as u64 + 1).unwrap_or(0);
        let b = r.map(|x| x as u64 + 1).unwrap_or(0);
        mix(mix(self.seed ^ a << 32) ^ b) % 8 < self.dens as u64
    }
}

/// How an owning iterator ends
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum End {
    Exhaust,
    Drop,
    Leak,
    Panic,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Swap {
    Plain,
    Checked,
    OrInsert,
    /// Only for the right side of the group map
    Remove,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fmt {
    Json,
    Bin,
}

/// A fault plan for the simulated storage
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct Disk {
    pub seed: u64,
    /// Writes and reads move at most this many bytes at once (0: no limit)
    pub chunk: u32,
    /// One in this many calls is interrupted (0: never)
    pub eintr: u32,
    /// The write that passes this offset fails
    pub werr_at: Option<(u32, WErr)>,
    /// The machine crashes: only a prefix of this length survives
    pub crash_at: Option<u32>,
    /// That write error goes away by itself
    #[serde(default)]
    pub once: bool,
    /// The read that passes this offset fails
    pub rerr_at: Option<u32>,
    /// After saving, write this many bytes too few because flush fails
    pub buffered: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum WErr {
    Full,
    Io,
    Zero,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Insert { l: u32, r: u32 },
    /// The right item is only used by the group map
    InsertLeft { l: u32, r: u32 },
    InsertRight { r: u32 },
    InsertRemove { l: u32, r: u32 },
    Pair { l: u32, r: u32 },
    PairForced { l: u32, r: u32 },
    PairForcedRemove { l: u32, r: u32 },
    Unpair { l: u32, r: u32 },
    Remove { l: u32, r: u32 },
    RemoveLeft { l: u32 },
    RemoveRight { r: u32 },
    RemoveViaLeft { l: u32 },
    RemoveViaRight { r: u32 },
    SwapLeft { how: Swap, old: u32, new: u32, other: u32 },
    SwapRight { how: Swap, old: u32, new: u32, other: u32 },
    Retain { sel: Sel },
    RetainPaired { sel: Sel },
    RetainUnpaired { sel: Sel },
    Drain { take: u32, end: End },
    DrainFilter { sel: Sel, take: u32, end: End },
    Clear,
    Reserve { side: u8, n: u32 },
    TryReserve { side: u8, n: u64, fail: u32 },
    ShrinkTo { side: u8, n: u32 },
    ShrinkFit,
    /// Uses up (at most `max` of) the advertised capacity, which must not allocate
    Fill { max: u32 },
    /// `hint` is what the source announces: 0 the truth, otherwise a lie. The source panics after `abort` elements
    Extend { items: Vec<(Option<u32>, Option<u32>)>, typed: bool, hint: u64, abort: Option<u32> },
    /// Like `Extend`, but replaces the map by a new one
    Collect { items: Vec<(Option<u32>, Option<u32>)>, typed: bool, hint: u64, abort: Option<u32> },
    /// `assign`: through `clone_from`
    CloneTo { dst: u8, assign: bool },
    Renew { cap: u32, hash: u64 },
    Eq { other: u8 },
    Cursors { seed: u64, len: u32 },
    Churn { l: u32, r: u32, n: u32, what: u8 },
    SaveLoad { fmt: Fmt, disk: Disk, hash: u64 },
    /// The elements come from a simulated peer
    LoadStream { items: Vec<(u32, u32)>, hint: u64, err_at: Option<u32>, hash: u64 },
    LoadBytes { fmt: Fmt, bytes: Vec<u8>, chunk: u32, rerr_at: Option<u32>, hash: u64 },
    Readers { seed: u64, n: u32, ops: u32, panics: u32, other: u8 },
    /// A short history over maps of other item types
    Types { combo: u32, seed: u64, len: u32 },
    /// Conversions of the two-sided optional value
    Options { seed: u64, len: u32 },
    /// Calls of `Eq` and `Hash` with this many items
    Cost { seed: u64, n: u32, len: u32 },
    /// The memory that maps of about `n` items occupy in a history of `len` operations
    Memory { seed: u64, n: u32, len: u32 },
    /// A history with items that break the contracts of `Eq` and `Hash`
    Lawless { seed: u64, n: u32, len: u32 },
    Drop,
}

impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::Insert { .. } => "insert",
            Op::InsertLeft { .. } => "insert_left",
            Op::InsertRight { .. } => "insert_right",
            Op::InsertRemove { .. } => "insert_remove",
            Op::Pair { .. } => "pair",
            Op::PairForced { .. } => "pair_forced",
            Op::PairForcedRemove { .. } => "pair_forced_remove",
            Op::Unpair { .. } => "unpair",
            Op::Remove { .. } => "remove",
            Op::RemoveLeft { .. } => "remove_left",
            Op::RemoveRight { .. } => "remove_right",
            Op::RemoveViaLeft { .. } => "remove_via_left",
            Op::RemoveViaRight { .. } => "remove_via_right",
            Op::SwapLeft { how: Swap::Plain | Swap::Remove, .. } => "swap_left",
            Op::SwapLeft { how: Swap::Checked, .. } => "swap_left_checked",
            Op::SwapLeft { how: Swap::OrInsert, .. } => "swap_left_or_insert",
            Op::SwapRight { how: Swap::Plain, .. } => "swap_right",
            Op::SwapRight { how: Swap::Checked, .. } => "swap_right_checked",
            Op::SwapRight { how: Swap::OrInsert, .. } => "swap_right_or_insert",
            Op::SwapRight { how: Swap::Remove, .. } => "swap_right_remove",
            Op::Retain { .. } => "retain",
            Op::RetainPaired { .. } => "retain_paired",
            Op::RetainUnpaired { .. } => "retain_unpaired",
            Op::Drain { .. } => "drain",
            Op::DrainFilter { .. } => "drain_filter",
            Op::Clear => "clear",
            Op::Reserve { .. } => "reserve",
            Op::TryReserve { .. } => "try_reserve",
            Op::ShrinkTo { .. } => "shrink_to",
            Op::ShrinkFit => "shrink_to_fit",
            Op::Fill { .. } => "fill",
            Op::Extend { .. } => "extend",
            Op::Collect { .. } => "collect",
            Op::CloneTo { .. } => "clone",
            Op::Renew { .. } => "renew",
            Op::Eq { .. } => "eq",
            Op::Cursors { .. } => "cursors",
            Op::Churn { .. } => "churn",
            Op::SaveLoad { .. } => "save_load",
            Op::LoadStream { .. } => "load_stream",
            Op::LoadBytes { .. } => "load_bytes",
            Op::Readers { .. } => "readers",
            Op::Types { .. } => "types",
            Op::Options { .. } => "options",
            Op::Cost { .. } => "cost",
            Op::Memory { .. } => "memory",
            Op::Lawless { .. } => "lawless",
            Op::Drop => "drop",
        }
    }
    /// Ids of left and right items among the arguments
    pub fn ids(&self) -> (Vec<u32>, Vec<u32>) {
        match *self {
            Op::Insert { l, r }
            | Op::InsertLeft { l, r }
            | Op::InsertRemove { l, r }
            | Op::Pair { l, r }
            | Op::PairForced { l, r }
            | Op::PairForcedRemove { l, r }
            | Op::Unpair { l, r }
            | Op::Remove { l, r } => (vec![l], vec![r]),
            Op::InsertRight { r } | Op::RemoveRight { r } | Op::RemoveViaRight { r } => (vec![], vec![r]),
            Op::RemoveLeft { l } | Op::RemoveViaLeft { l } => (vec![l], vec![]),
            Op::SwapLeft { how: Swap::Plain | Swap::Remove, old, new, .. } => (vec![old, new], vec![]),
            Op::SwapLeft { old, new, other, .. } => (vec![old, new], vec![other]),
            Op::SwapRight { how: Swap::Plain | Swap::Remove, old, new, .. } => (vec![], vec![old, new]),
            Op::SwapRight { old, new, other, .. } => (vec![other], vec![old, new]),
            _ => (vec![], vec![]),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Step {
    pub slot: u8,
    pub op: Op,
    /// Panic in the n-th call into user code of the masked kinds
    #[serde(default)]
    pub panic: Option<(u32, u8)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct HashPlan {
    pub mode: u8,
    pub param: u32,
    pub seed: u64,
}
impl HashPlan {
    pub fn cfg(&self) -> ahash::HashCfg {
        ahash::HashCfg { mode: self.mode, param: self.param, seed: self.seed }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Scenario {
    pub property: String,
    /// The seed that generated this history (before it was minimised)
    pub seed: u64,
    pub kind: Kind,
    /// One hash plan, or several to be compared (C18)
    pub hash: Vec<HashPlan>,
    pub salt: bool,
    /// Ids are below this
    pub universe: u32,
    pub slots: u8,
    pub cap: u32,
    pub steps: Vec<Step>,
    /// Also make the calls that are known to fail (see KNOWN_FINDINGS)
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub strict: bool,
}
