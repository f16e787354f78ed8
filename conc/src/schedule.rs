//! Generated schedules

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use shim::sched;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Schedule { pub preemptions: Vec<(u8, u8)>, pub spurious: Vec<u8>, #[serde(default)] pub stale: Vec<(u8, u8)> }
impl Schedule { pub fn get(&self) -> sched::Schedule { sched::Schedule { preemptions: self.preemptions.clone(), spurious: self.spurious.clone(), stale: self.stale.clone(), weak: vec![] } } }

/// from "runs mostly sequentially, with a few well placed preemptions" to "switches all the time"
pub fn schedules(max: usize) -> BoxedStrategy<Schedule> {
    let spurious = || prop_oneof![3 => Just(vec![]), 2 => prop::collection::vec(0u8..6, 0..8)];
    let with = move |gap: BoxedStrategy<u8>, n: usize| (prop::collection::vec((gap, any::<u8>()), 0..n), spurious()).prop_map(|(preemptions, spurious)| Schedule { preemptions, spurious, stale: vec![] });
    prop_oneof![
        2 => with((0u8..40).boxed(), 6),
        3 => with(prop_oneof![3 => 0u8..5, 2 => 0u8..30].boxed(), max / 4 + 6),
        3 => with((0u8..5).boxed(), max / 2 + 6),
        3 => with((0u8..2).boxed(), max + 6),
        1 => with(Just(0u8).boxed(), max + 6),
    ].boxed()
}
