//! Signatures only: the repository's own test harness over lighthouse is compiled, never run.
use beacon_types::*;
use std::{marker::PhantomData, sync::Arc};
pub trait BeaconChainTypes: Send + Sync + 'static {
    type EthSpec: EthSpec;
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum StateSkipConfig {
    WithStateRoots,
    WithoutStateRoots,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WhenSlotSkipped {
    None,
    Prev,
}
#[derive(Default)]
pub struct ChainConfig {
    pub reconstruct_historic_states: bool,
    pub archive: bool,
}
#[derive(Debug)]
pub struct BeaconChainError;
#[derive(serde::Serialize)]
pub struct Json;
pub struct Block;
impl Block {
    pub fn signed_block_header(&self) -> Json { todo!() }
    pub fn deconstruct(self) -> (BeaconBlock, Signature) { todo!() }
}
pub struct BeaconBlock;
impl BeaconBlock {
    pub fn as_electra(&self) -> Result<Json, BeaconChainError> { todo!() }
}
pub struct Head;
impl Head {
    pub fn head_slot(&self) -> Slot { todo!() }
}
pub struct BeaconChain<T: BeaconChainTypes> {
    pub genesis_validators_root: Hash256,
    _p: PhantomData<T>,
}
impl<T: BeaconChainTypes> BeaconChain<T> {
    pub fn state_at_slot(&self, _: Slot, _: StateSkipConfig) -> Result<BeaconState<T::EthSpec>, BeaconChainError> { todo!() }
    pub fn block_at_slot(&self, _: Slot, _: WhenSlotSkipped) -> Result<Option<Block>, BeaconChainError> { todo!() }
    pub fn get_blinded_block(&self, _: &Hash256) -> Result<Option<Block>, BeaconChainError> { todo!() }
    pub fn block_root_at_slot(&self, _: Slot, _: WhenSlotSkipped) -> Result<Option<Hash256>, BeaconChainError> { todo!() }
    pub async fn get_block(&self, _: &Hash256) -> Result<Option<Block>, BeaconChainError> { todo!() }
    pub fn head(&self) -> Head { todo!() }
    pub fn get_state(&self, _: &Hash256, _: Option<Slot>, _: bool) -> Result<Option<BeaconState<T::EthSpec>>, BeaconChainError> { todo!() }
}
pub mod test_utils {
    use super::*;
    pub struct EphemeralHarnessType<E>(PhantomData<fn() -> E>);
    impl<E: EthSpec> BeaconChainTypes for EphemeralHarnessType<E> {
        type EthSpec = E;
    }
    pub struct BeaconChainHarness<T: BeaconChainTypes> {
        pub chain: Arc<BeaconChain<T>>,
    }
    pub struct Builder<T>(PhantomData<T>);
    impl<E: EthSpec> Builder<EphemeralHarnessType<E>> {
        pub fn spec(self, _: Arc<ChainSpec>) -> Self { todo!() }
        pub fn chain_config(self, _: ChainConfig) -> Self { todo!() }
        pub fn keypairs(self, _: Vec<Keypair>) -> Self { todo!() }
        pub fn fresh_ephemeral_store(self) -> Self { todo!() }
        pub fn mock_execution_layer(self) -> Self { todo!() }
        pub fn build(self) -> BeaconChainHarness<EphemeralHarnessType<E>> { todo!() }
    }
    pub struct ExecutionBlockGenerator;
    impl ExecutionBlockGenerator {
        pub fn move_to_terminal_block(&mut self) -> Result<(), String> { todo!() }
    }
    impl<E: EthSpec> BeaconChainHarness<EphemeralHarnessType<E>> {
        pub fn builder(_: E) -> Builder<EphemeralHarnessType<E>> { todo!() }
    }
    impl<T: BeaconChainTypes> BeaconChainHarness<T> {
        pub fn slots_per_epoch(&self) -> u64 { todo!() }
        pub async fn extend_to_slot(&self, _: Slot) -> Hash256 { todo!() }
        pub fn execution_block_generator(&self) -> ExecutionBlockGenerator { todo!() }
        pub fn advance_slot(&self) { todo!() }
        pub fn get_current_slot(&self) -> Slot { todo!() }
        pub fn get_current_state(&self) -> BeaconState<T::EthSpec> { todo!() }
        pub async fn add_attested_blocks_at_slots(&self, _: BeaconState<T::EthSpec>, _: Hash256, _: &[Slot], _: &[usize]) -> (Hash256, BeaconState<T::EthSpec>) { todo!() }
    }
}
