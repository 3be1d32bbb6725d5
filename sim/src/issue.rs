//! What a check can find, and which properties it speaks about (bit n: property Cn).
use crate::op::Kind;

pub type Tags = u32;
pub const fn t(n: u32) -> Tags {
    1 << n
}
/// The property about the contents of a kind of map
pub fn content(k: Kind) -> Tags {
    match k {
        Kind::Cycle => t(1),
        Kind::Partial => t(2),
        Kind::Group => t(3),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    /// A lookup, a length or a pairing is wrong
    Content,
    /// The right item, but not the object that was stored
    Object,
    /// An iteration is wrong
    Iter,
    /// Anything else; the tags say it all
    Other,
}

#[derive(Clone, Debug)]
pub struct Issue {
    pub class: Class,
    pub tags: Tags,
    pub what: String,
}

pub fn issue(class: Class, tags: Tags, what: impl Into<String>) -> Issue {
    let mut what: String = what.into();
    if what.len() > 4000 {
        what = what.chars().take(4000).chain("...".chars()).collect();
    }
    Issue { class, tags, what }
}
