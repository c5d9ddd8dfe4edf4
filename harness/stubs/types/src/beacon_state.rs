use crate::{Checkpoint, ChainSpec, Epoch, EthSpec, Fork, ForkName, Hash256, Slot};
use std::ops::Range;
#[derive(Debug, PartialEq, Clone)]
pub enum Error {
    InsufficientValidators,
    IncorrectStateVariant,
    SlotOutOfBounds,
    ArithError(safe_arith::ArithError),
}
impl From<safe_arith::ArithError> for Error {
    fn from(e: safe_arith::ArithError) -> Self { Error::ArithError(e) }
}
pub fn compute_committee_index_in_epoch(slot: Slot, slots_per_epoch: usize, committees_per_slot: usize, committee_index: usize) -> usize {
    (slot.as_usize() % slots_per_epoch) * committees_per_slot + committee_index
}
pub fn compute_committee_range_in_epoch(epoch_committee_count: usize, index_in_epoch: usize, shuffling_len: usize) -> Option<Range<usize>> {
    if epoch_committee_count == 0 || index_in_epoch >= epoch_committee_count {
        return None;
    }
    let start = shuffling_len * index_in_epoch / epoch_committee_count;
    let end = shuffling_len * (index_in_epoch + 1) / epoch_committee_count;
    Some(start..end)
}
pub fn epoch_committee_count(committees_per_slot: usize, slots_per_epoch: usize) -> usize {
    committees_per_slot * slots_per_epoch
}
/// Only what the repository's test utilities read.
#[derive(Debug, Clone)]
pub struct BeaconState<E: EthSpec> {
    pub slot: Slot,
    pub fork_name: ForkName,
    pub fork: Fork,
    pub current_justified: Checkpoint,
    pub previous_justified: Checkpoint,
    pub finalized: Checkpoint,
    pub genesis_validators_root: Hash256,
    pub _p: std::marker::PhantomData<E>,
}
impl<E: EthSpec> BeaconState<E> {
    pub fn slot(&self) -> Slot { self.slot }
    pub fn current_epoch(&self) -> Epoch { self.slot.epoch(E::slots_per_epoch()) }
    pub fn fork_name_unchecked(&self) -> ForkName { self.fork_name }
    pub fn fork(&self) -> Fork { self.fork }
    pub fn fork_name(&self, _: &ChainSpec) -> Result<ForkName, Error> { Ok(self.fork_name) }
    pub fn current_justified_checkpoint(&self) -> Checkpoint { self.current_justified }
    pub fn previous_justified_checkpoint(&self) -> Checkpoint { self.previous_justified }
    pub fn finalized_checkpoint(&self) -> Checkpoint { self.finalized }
    pub fn genesis_validators_root(&self) -> Hash256 { self.genesis_validators_root }
}
impl<E: EthSpec> serde::Serialize for BeaconState<E> {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { Err(serde::ser::Error::custom("not a full state")) }
}
