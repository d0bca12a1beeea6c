//! The node's surroundings as block authoring sees them: every Substrate crate named in block_sealing.rs is this module.
//! Nothing here decides anything; it records what the code under verification asks for and feeds it a schedule of events.
use std::sync::Arc; use std::future::Future; use std::pin::Pin; use std::task::{Context, Poll};
pub type Hash = u64;
pub static mut FAIL: u8 = 0; pub static mut LOG: Vec<Did> = Vec::new(); pub static mut READY: usize = 0; pub static mut TICKS: usize = 0; pub static mut IMPORTED: usize = 0; pub static mut PERIOD: Option<u64> = None;
pub static mut AUTHOR: Vec<(bool, Pin<Box<dyn Future<Output = ()> + Send>>)> = Vec::new(); pub static mut OCW: usize = 0; pub static mut OCW_VALIDATOR: bool = false;
pub static mut STARTED: usize = 0; pub static mut SPAWNED: usize = 0; pub static mut RPC: Option<(bool, bool, Option<futures::channel::mpsc::Sender<EngineCommand<Hash>>>)> = None; pub static mut LISTENED: bool = false;
#[derive(Clone, PartialEq, Debug)] pub enum Did { Seal { create_empty: bool, finalize: bool, parent: Option<Hash>, asked: bool }, Finalize { hash: Hash, justification: Option<([u8; 4], Vec<u8>)>, asked: bool } }
fn fails(n: u8) -> Result<(), error::Error> { if unsafe { FAIL } == n { Err(error::Error) } else { Ok(()) } }
pub mod traits { pub trait Block { type Hash: Copy + PartialEq + super::Known + Send + Sync + 'static; } }
pub trait Encode {} impl Encode for () {}
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct B; impl traits::Block for B { type Hash = Hash; }
pub trait ProvideRuntimeApi<B> {} pub trait HeaderBackend<B> {}
pub mod backend { pub trait Backend<B> {} pub trait Finalizer<B, CB: Backend<B>> {} }
pub mod block_import { pub trait BlockImport<B> { type Error; } }
pub trait Proposer<B> { type Proof; } pub trait Environment<B> { type Proposer: Proposer<B>; } pub trait SelectChain<B> {} pub trait CreateInherentDataProviders<B, X> {}
#[derive(Debug)] pub struct ConsensusError; pub use ConsensusError as Error;
pub mod error { #[derive(Debug, PartialEq)] pub struct Error; impl From<Box<dyn std::error::Error + Send + Sync>> for Error { fn from(_: Box<dyn std::error::Error + Send + Sync>) -> Self { Error } } impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } } impl std::error::Error for Error {} }
// ---- client, backend, pool
pub struct Client; pub struct Backend; pub struct Select; pub struct Chain;
impl ProvideRuntimeApi<B> for Client {} impl HeaderBackend<B> for Client {} impl backend::Backend<B> for Backend {} impl backend::Finalizer<B, Backend> for Client {} impl SelectChain<B> for Select {}
impl block_import::BlockImport<B> for Arc<Client> { type Error = Error; }
#[derive(Clone)] pub struct OffchainDb; impl Backend { pub fn offchain_storage(&self) -> Option<OffchainDb> { Some(OffchainDb) } }
pub struct PoolStatus { pub ready: usize, pub ready_bytes: usize, pub future: usize, pub future_bytes: usize }
pub trait TransactionPool: Send + Sync { type Block; fn ready(&self) -> Box<dyn Iterator<Item = Arc<u8>> + Send>; fn status(&self) -> PoolStatus; }
pub struct Pool(Arc<Inner>); pub struct Inner; pub struct Validated;
impl TransactionPool for Pool { type Block = B; fn ready(&self) -> Box<dyn Iterator<Item = Arc<u8>> + Send> { Box::new(vec![Arc::new(0u8); unsafe { READY }].into_iter()) } fn status(&self) -> PoolStatus { PoolStatus { ready: unsafe { READY }, ready_bytes: unsafe { READY } * 100, future: 0, future_bytes: 0 } } }
impl Pool { pub fn pool(&self) -> &Arc<Inner> { &self.0 } }
impl Inner { pub fn validated_pool(&self) -> &Validated { &Validated } }
pub struct Imports; impl futures::Stream for Imports { type Item = Hash; fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Hash>> { unsafe { if IMPORTED > 0 { IMPORTED -= 1; Poll::Ready(Some(5)) } else { Poll::Pending } } } }
impl Validated { pub fn import_notification_stream(&self) -> Imports { unsafe { LISTENED = true } Imports } }
pub struct OffchainTransactionPoolFactory; impl OffchainTransactionPoolFactory { pub fn new<T>(_: T) -> Self { Self } }
// ---- the timer
pub mod time { use super::*; pub struct Interval; #[derive(Clone, Copy)] pub struct Instant;
    pub fn interval(d: std::time::Duration) -> Interval { unsafe { if d.is_zero() { panic!("a timer needs a period") } PERIOD = Some(d.as_millis() as u64) } Interval }
    impl Interval { pub fn poll_tick(&mut self, _: &mut Context<'_>) -> Poll<Instant> { unsafe { if TICKS > 0 { TICKS -= 1; Poll::Ready(Instant) } else { Poll::Pending } } } pub async fn tick(&mut self) -> Instant { std::future::poll_fn(|cx| self.poll_tick(cx)).await } } }
pub struct InherentDataProvider; impl InherentDataProvider { pub fn from_system_time() -> Self { Self } }
impl<F, Fut> CreateInherentDataProviders<B, ()> for F where F: Fn(Hash, ()) -> Fut + Sync + Send, Fut: Future<Output = Result<(InherentDataProvider,), Box<dyn std::error::Error + Send + Sync>>> + Send + 'static {}
pub struct ProposerFactory; impl ProposerFactory { pub fn new<A, C, P>(_: A, _: C, _: P, _: Option<&Registry>, _: Option<TelemetryHandle>) -> Self { Self } pub fn with_proof_recording<A, C, P>(_: A, _: C, _: P, _: Option<&Registry>, _: Option<TelemetryHandle>) -> Self { Self } }
pub struct Prop; impl Proposer<B> for Prop { type Proof = (); } impl Environment<B> for ProposerFactory { type Proposer = Prop; }
// ---- manual seal
pub const MANUAL_SEAL_ENGINE_ID: [u8; 4] = *b"manl";
pub type Sender<T> = Option<futures::channel::oneshot::Sender<Result<T, Error>>>; #[derive(Debug, PartialEq)] pub struct CreatedBlock<H> { pub hash: H }
pub enum EngineCommand<H> { SealNewBlock { create_empty: bool, finalize: bool, parent_hash: Option<H>, sender: Sender<CreatedBlock<H>> }, FinalizeBlock { hash: H, sender: Sender<()>, justification: Option<Vec<u8>> } }
pub trait ConsensusDataProvider<B>: Send + Sync { type Proof; }
pub struct ManualSealParams<Blk: traits::Block, BI, E, C, TP, SC, CS, CIDP, P> { pub block_import: BI, pub env: E, pub client: Arc<C>, pub pool: Arc<TP>, pub commands_stream: CS, pub select_chain: SC, pub consensus_data_provider: Option<Box<dyn ConsensusDataProvider<Blk, Proof = P>>>, pub create_inherent_data_providers: CIDP }
pub struct SealBlockParams<'a, Blk: traits::Block, BI, SC, C, E, TP, CIDP, P> { pub create_empty: bool, pub finalize: bool, pub parent_hash: Option<Blk::Hash>, pub sender: Sender<CreatedBlock<Blk::Hash>>, pub pool: Arc<TP>, pub env: &'a mut E, pub client: Arc<C>, pub select_chain: &'a SC, pub consensus_data_provider: Option<&'a dyn ConsensusDataProvider<Blk, Proof = P>>, pub block_import: &'a mut BI, pub create_inherent_data_providers: &'a CIDP }
/// as a block author does: no block without transactions unless an empty one is asked for
pub async fn seal_block<Blk: traits::Block, BI, SC, C, E, TP: TransactionPool, CIDP, P>(p: SealBlockParams<'_, Blk, BI, SC, C, E, TP, CIDP, P>) {
    if !p.create_empty && p.pool.status().ready == 0 { if let Some(s) = p.sender { let _ = s.send(Err(ConsensusError)); } return }
    unsafe { LOG.push(Did::Seal { create_empty: p.create_empty, finalize: p.finalize, parent: p.parent_hash.map(Known::get), asked: p.sender.is_some() }) }
    if let Some(s) = p.sender { let _ = s.send(Ok(CreatedBlock { hash: Known::put(77) })); }
}
pub trait Known: Sized { fn get(self) -> Hash; fn put(h: Hash) -> Self; } impl Known for Hash { fn get(self) -> Hash { self } fn put(h: Hash) -> Hash { h } }
pub struct FinalizeBlockParams<Blk: traits::Block, F, CB> { pub hash: Blk::Hash, pub sender: Sender<()>, pub justification: Option<([u8; 4], Vec<u8>)>, pub finalizer: Arc<F>, pub _phantom: std::marker::PhantomData<CB> }
pub async fn finalize_block<Blk: traits::Block, F: backend::Finalizer<Blk, CB>, CB: backend::Backend<Blk>>(p: FinalizeBlockParams<Blk, F, CB>) {
    unsafe { LOG.push(Did::Finalize { hash: p.hash.get(), justification: p.justification, asked: p.sender.is_some() }) }
    if let Some(s) = p.sender { let _ = s.send(Ok(())); }
}
// ---- the service
#[derive(Clone)] pub struct Role(pub bool); impl Role { pub fn is_authority(&self) -> bool { self.0 } }
pub struct Registry; pub struct Ocw { pub enabled: bool } pub struct Network; pub struct Configuration { pub network: Network, pub offchain_worker: Ocw, pub role: Role }
impl Clone for Registry { fn clone(&self) -> Self { Registry } }
impl Configuration { pub fn prometheus_registry(&self) -> Option<&Registry> { None } }
pub mod config { pub struct FullNetworkConfiguration; impl FullNetworkConfiguration { pub fn new(_: &super::Network) -> Self { Self } } }
pub struct Telemetry; pub struct TelemetryHandle; impl Telemetry { pub fn handle(&self) -> TelemetryHandle { TelemetryHandle } }
pub struct TaskManager; pub struct SpawnHandle; pub struct EssentialHandle; pub struct Queue; pub struct Keys; pub struct Sync_; pub struct Tx; impl Clone for Sync_ { fn clone(&self) -> Self { Sync_ } }
pub trait Group {} impl Group for &'static str {} impl Group for Option<&'static str> {}
impl TaskManager { pub fn spawn_handle(&self) -> SpawnHandle { SpawnHandle } pub fn spawn_essential_handle(&self) -> EssentialHandle { EssentialHandle } }
fn spawned(essential: bool, f: impl Future<Output = ()> + Send + 'static) { unsafe { AUTHOR.push((essential, Box::pin(f))) } }
impl SpawnHandle { pub fn spawn(&self, _: &'static str, _: impl Group, f: impl Future<Output = ()> + Send + 'static) { spawned(false, f) } pub fn spawn_blocking(&self, _: &'static str, _: impl Group, f: impl Future<Output = ()> + Send + 'static) { spawned(false, f) } }
impl EssentialHandle { pub fn spawn(&self, _: &'static str, _: impl Group, f: impl Future<Output = ()> + Send + 'static) { spawned(true, f) } pub fn spawn_blocking(&self, _: &'static str, _: impl Group, f: impl Future<Output = ()> + Send + 'static) { spawned(true, f) } }
impl Keys { pub fn keystore(&self) -> u8 { 0 } }
pub struct PartialComponents<O> { pub client: Arc<Client>, pub backend: Arc<Backend>, pub task_manager: TaskManager, pub import_queue: Queue, pub keystore_container: Keys, pub select_chain: Option<Select>, pub transaction_pool: Arc<Pool>, pub other: O }
pub static mut DEV: bool = false;
pub mod service { use super::*; pub fn new_partial(_: &Configuration, dev: bool) -> Result<PartialComponents<((), Option<Telemetry>, ())>, error::Error> { unsafe { DEV = dev } fails(1)?; Ok(PartialComponents { client: Arc::new(Client), backend: Arc::new(Backend), task_manager: TaskManager, import_queue: Queue, keystore_container: Keys, select_chain: if dev { Some(Select) } else { None }, transaction_pool: Arc::new(Pool(Arc::new(Inner))), other: ((), Some(Telemetry), ()) }) } }
pub struct Starter; impl Starter { pub fn start_network(self) { unsafe { STARTED += 1 } } }
pub struct BuildNetworkParams<'a> { pub config: &'a Configuration, pub net_config: config::FullNetworkConfiguration, pub client: Arc<Client>, pub transaction_pool: Arc<Pool>, pub spawn_handle: SpawnHandle, pub import_queue: Queue, pub block_announce_validator_builder: Option<u8>, pub warp_sync_params: Option<u8>, pub block_relay: Option<u8> }
pub fn build_network(_: BuildNetworkParams<'_>) -> Result<(Arc<Network>, Tx, Tx, Starter, Arc<Sync_>), error::Error> { fails(2)?; Ok((Arc::new(Network), Tx, Tx, Starter, Arc::new(Sync_))) }
pub struct OffchainWorkerOptions<F> { pub runtime_api_provider: Arc<Client>, pub is_validator: bool, pub keystore: Option<u8>, pub offchain_db: Option<OffchainDb>, pub transaction_pool: Option<OffchainTransactionPoolFactory>, pub network_provider: Arc<Network>, pub enable_http_requests: bool, pub custom_extensions: F }
pub struct OffchainWorkers; impl OffchainWorkers { pub fn new<F: Fn(Hash) -> Vec<u8>>(o: OffchainWorkerOptions<F>) -> Self { unsafe { OCW += 1; OCW_VALIDATOR = o.is_validator; } Self } pub async fn run(self, _: Arc<Client>, _: SpawnHandle) { } }
#[derive(Clone, Copy, PartialEq)] pub enum DenyUnsafe { Yes, No } pub struct RpcModule;
pub struct SpawnTasksParams<'a> { pub rpc_builder: Box<dyn Fn(DenyUnsafe, u8) -> Result<RpcModule, error::Error>>, pub client: Arc<Client>, pub transaction_pool: Arc<Pool>, pub task_manager: &'a mut TaskManager, pub config: Configuration, pub keystore: u8, pub backend: Arc<Backend>, pub network: Arc<Network>, pub sync_service: Arc<Sync_>, pub system_rpc_tx: Tx, pub tx_handler_controller: Tx, pub telemetry: Option<&'a mut Telemetry> }
pub static mut DENY: DenyUnsafe = DenyUnsafe::Yes;
pub fn spawn_tasks(p: SpawnTasksParams<'_>) -> Result<(), error::Error> { fails(3)?; unsafe { SPAWNED += 1; (p.rpc_builder)(DENY, 0)?; } Ok(()) }
pub mod rpc { use super::*;
    pub struct FullDeps<C, P> { pub client: Arc<C>, pub pool: Arc<P>, pub deny_unsafe: DenyUnsafe, pub command_sink: Option<futures::channel::mpsc::Sender<EngineCommand<Hash>>> }
    pub fn create_full<O, C, P>(d: FullDeps<C, P>, o: Option<O>) -> Result<RpcModule, Box<dyn std::error::Error + Send + Sync>> { if fails(4).is_err() { return Err(Box::new(error::Error)) } unsafe { RPC = Some((d.deny_unsafe == DenyUnsafe::Yes, o.is_some(), d.command_sink)) } Ok(RpcModule) } }
