//! std, but with a model of the hash collections (see map.rs).
#![allow(clippy::all)]
pub use ::std::*;
mod map;
pub use map::{in_order, map_with};
pub mod collections {
    pub use ::std::collections::*;
    pub use crate::map::{HashMap, HashSet};
    pub mod hash_map {
        pub use crate::map::{Drain, Entry, HashMap, IntoIter, IntoKeys, IntoValues, Iter, IterMut, Keys, OccupiedEntry, RandomState, VacantEntry, Values, ValuesMut};
        pub use ::std::collections::hash_map::DefaultHasher;
    }
    pub mod hash_set {
        pub use crate::map::{HashSet, SetIntoIter as IntoIter, SetIter as Iter};
    }
}
pub mod hash {
    pub use ::std::hash::*;
    pub use crate::map::RandomState;
}
#[cfg(feature = "vecs")]
pub mod vecs;
#[cfg(feature = "vecs")]
pub mod vec {
    pub use ::std::vec::*;
    pub use crate::vecs::{IntoIter, Vec};
}
#[cfg(feature = "vecs")]
pub mod prelude {
    pub use ::std::prelude::*;
    pub mod v1 { pub use ::std::prelude::v1::*; pub use crate::vecs::Vec; }
    pub mod rust_2015 { pub use ::std::prelude::rust_2015::*; pub use crate::vecs::Vec; }
    pub mod rust_2018 { pub use ::std::prelude::rust_2018::*; pub use crate::vecs::Vec; }
    pub mod rust_2021 { pub use ::std::prelude::rust_2021::*; pub use crate::vecs::Vec; }
}
