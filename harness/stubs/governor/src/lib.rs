//! Stand-in: a limiter that is always ready.
pub mod clock {
    #[derive(Default)]
    pub struct DefaultClock;
}
pub mod state {
    pub struct InMemoryState;
    pub struct NotKeyed;
}
pub struct Quota;
impl Quota {
    pub fn per_second(_n: std::num::NonZeroU32) -> Quota { Quota }
}
pub struct RateLimiter<K, S, C>(std::marker::PhantomData<fn() -> (K, S, C)>);
impl RateLimiter<state::NotKeyed, state::InMemoryState, clock::DefaultClock> {
    pub fn direct(_q: Quota) -> Self { RateLimiter(std::marker::PhantomData) }
    pub async fn until_ready(&self) {}
}
