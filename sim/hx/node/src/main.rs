//! O02: a development node seals blocks as it was asked to. The real block_sealing.rs and run_as_localchain.rs, with the real
//! futures crates, run in surroundings (stubs.rs) that record every seal and finalization and feed a symbolic schedule of events.
#![allow(dead_code, static_mut_refs)]
extern crate self as sc_service; extern crate self as sc_network; extern crate self as sc_consensus; extern crate self as sc_client_api; extern crate self as sc_consensus_manual_seal; extern crate self as sc_offchain; extern crate self as sc_basic_authorship; extern crate self as sc_transaction_pool_api;
extern crate self as sp_api; extern crate self as sp_blockchain; extern crate self as sp_consensus; extern crate self as sp_inherents; extern crate self as sp_runtime; extern crate self as sp_timestamp; extern crate self as parity_scale_codec; extern crate self as tokio; extern crate self as sc_cli; extern crate self as frequency_service;
mod stubs; pub use stubs::*;
#[path = "/repo/node/service/src/block_sealing.rs"] pub mod block_sealing;
#[path = "/repo/node/cli/src/run_as_localchain.rs"] mod run_as_localchain;
use cli_opt::SealingMode; use std::future::Future; use std::task::{Context, Poll}; use stubs::Did::*; use futures::channel::oneshot;
// ---- the command line's side
pub type Result<T, E> = std::result::Result<T, E>; pub type CliError = error::Error;
pub mod cli { pub use super::stubs::error::Error; pub struct Run; impl Run { pub fn normalize(&self) -> Run { Run } } pub struct Cli { pub run: Run, pub instant_sealing: bool, pub manual_sealing: bool, pub sealing: cli_opt::SealingMode, pub sealing_interval: std::num::NonZeroU16, pub sealing_create_empty_blocks: bool } impl super::SubstrateCli for Cli {} }
pub struct Runner; pub trait SubstrateCli { fn create_runner(&self, _: &cli::Run) -> Result<Runner, error::Error> { Ok(Runner) } }
pub static mut CONFIG: Option<(bool, bool)> = None;
impl Runner { pub fn run_node_until_exit<F: Future<Output = Result<TaskManager, error::Error>>>(self, f: impl FnOnce(Configuration) -> F) -> Result<(), Error> { let c = unsafe { CONFIG.take().unwrap() }; match poll_once(&mut Box::pin(f(config_of(c.0, c.1)))) { Poll::Ready(r) => r.map(|_| ()).map_err(|_| ConsensusError), Poll::Pending => panic!("starting a node never waits") } } }
impl From<error::Error> for Error { fn from(_: error::Error) -> Self { ConsensusError } }
fn poll_once<F: Future + ?Sized>(f: &mut std::pin::Pin<Box<F>>) -> Poll<F::Output> { let w = futures::task::noop_waker(); f.as_mut().poll(&mut Context::from_waker(&w)) }
fn config_of(authority: bool, ocw: bool) -> Configuration { Configuration { network: Network, offchain_worker: Ocw { enabled: ocw }, role: Role(authority) } }
fn mode() -> SealingMode { match sym::choose("mode", 0, 2) { 0 => SealingMode::Instant, 1 => SealingMode::Manual, _ => SealingMode::Interval } }
fn start(m: SealingMode, secs: u16, empty: bool) -> Option<futures::channel::mpsc::Sender<EngineCommand<Hash>>> {
    let r = block_sealing::frequency_dev_sealing(config_of(true, false), m, secs, empty); sym::check(r.is_ok(), "the node starts");
    unsafe { sym::check(AUTHOR.len() == 1 && AUTHOR[0].0, "one essential task authors blocks"); RPC.take().unwrap().2 }
}
fn turn() { unsafe { let r = poll_once(&mut AUTHOR[0].1); sym::check(r.is_pending(), "authoring goes on"); } }
fn log() -> Vec<Did> { unsafe { std::mem::take(&mut LOG) } }
fn send(sink: &mut futures::channel::mpsc::Sender<EngineCommand<Hash>>, c: EngineCommand<Hash>) { sym::check(sink.try_send(c).is_ok(), "the author listens for commands"); }
/// one event; the author must do exactly what follows from it
fn step(m: SealingMode, empty: bool, sink: &mut futures::channel::mpsc::Sender<EngineCommand<Hash>>) {
    unsafe { READY = sym::choose("ready", 0, 1) as usize; }
    let ready = unsafe { READY } > 0;
    match sym::choose("event", 0, 4) {
        0 => { turn(); sym::check(log().is_empty(), "nothing is sealed unasked"); }
        1 => { unsafe { TICKS = 1; } turn(); let l = log(); unsafe { sym::check((TICKS == 0) == (m == SealingMode::Interval), "only an interval author waits for its timer"); TICKS = 0; }
            if m == SealingMode::Interval && (empty || ready) { sym::check(l == vec![Seal { create_empty: empty, finalize: true, parent: None, asked: false }], "a tick seals a final block on the best chain"); sym::cover("tick"); } else { sym::check(l.is_empty(), "no tick seals an empty block unasked"); } }
        2 => { unsafe { IMPORTED = 1; } turn(); let l = log(); unsafe { IMPORTED = 0; }
            if m == SealingMode::Instant { sym::check(l.len() == 1 && matches!(l[0], Seal { finalize: true, parent: None, asked: false, .. }), "a transaction is sealed at once, in a final block"); sym::cover("tx"); } else { sym::check(l.is_empty(), "transactions wait for the timer or a command"); } }
        3 => { let (ce, fi, ps, p) = (sym::bool("create empty"), sym::bool("finalize"), sym::bool("parent given"), sym::u64("parent")); let p = if ps { Some(p) } else { None }; let (tx, mut rx) = oneshot::channel();
            send(sink, EngineCommand::SealNewBlock { create_empty: ce, finalize: fi, parent_hash: p, sender: Some(tx) }); turn(); let l = log();
            if ce || ready { sym::check(l == vec![Seal { create_empty: ce, finalize: fi, parent: p, asked: true }], "a command seals exactly the block it asks for"); sym::check(matches!(rx.try_recv(), Ok(Some(Ok(CreatedBlock { hash: 77 })))), "who asked for a block learns of it"); sym::cover("sealed"); } else { sym::check(l.is_empty(), "no empty block unless asked"); sym::check(!matches!(rx.try_recv(), Ok(Some(Ok(_))) | Ok(None)), "who asked learns there is no block"); sym::cover("no block"); } }
        _ => { let (h, js) = (sym::u64("hash"), sym::bool("justified")); let j = if js { { let n = sym::choose("length", 0, 2) as usize; Some(sym::byte_vec("j", n)) } } else { None }; let (tx, mut rx) = oneshot::channel();
            send(sink, EngineCommand::FinalizeBlock { hash: h, sender: Some(tx), justification: j.clone() }); turn();
            sym::check(log() == vec![Finalize { hash: h, justification: j.map(|j| (*b"manl", j)), asked: true }], "exactly the block named is finalized, with the justification given"); sym::check(matches!(rx.try_recv(), Ok(Some(Ok(())))), "who asked learns of it"); sym::cover("final"); }
    }
}
fn seal(sink: &mut futures::channel::mpsc::Sender<EngineCommand<Hash>>, p: u64) { send(sink, EngineCommand::SealNewBlock { create_empty: true, finalize: false, parent_hash: Some(p), sender: None }) }
fn bursts(max: u64) {
    // events that gather between two turns of the author: none is lost, none is taken twice, whatever their order
    let m = mode(); let empty = sym::bool("empty blocks"); let mut sink = start(m, 6, empty).unwrap();
    unsafe { READY = sym::choose("ready", 0, 1) as usize; let (t, i, c) = (sym::choose("ticks", 0, max), sym::choose("imports", 0, max), sym::choose("commands", 0, max)); TICKS = t as usize; IMPORTED = i as usize; for k in 0..c { seal(&mut sink, 100 + k) }
        turn(); let l = log();
        let own = l.iter().filter(|d| matches!(d, Seal { parent: None, finalize: true, asked: false, .. })).count() as u64; let asked: Vec<u64> = l.iter().filter_map(|d| match d { Seal { parent: Some(p), finalize: false, .. } => Some(*p), _ => None }).collect();
        sym::check(l.len() as u64 == own + asked.len() as u64, "nothing else is sealed"); sym::check(asked == (0..c).map(|k| 100 + k).collect::<Vec<_>>(), "every command is carried out, in order");
        let want = match m { SealingMode::Instant => i, SealingMode::Manual => 0, SealingMode::Interval => if empty || READY > 0 { t } else { 0 } }; sym::check(own == want, "one block for each transaction or tick"); sym::cover("burst"); }
}
sym::harnesses! {
fn o02_step() { let m = mode(); let empty = sym::bool("empty blocks"); let mut sink = start(m, 6, empty).unwrap(); step(m, empty, &mut sink); }
fn o02_steps() { let m = mode(); let empty = sym::bool("empty blocks"); let mut sink = start(m, 6, empty).unwrap(); for _ in 0..3 { step(m, empty, &mut sink); } sym::cover("three events"); }
fn o02_burst() { bursts(4) }
fn o02_t_burst() { bursts(9) }
fn o02_t_steps() { let m = mode(); let empty = sym::bool("empty blocks"); let mut sink = start(m, 6, empty).unwrap(); for _ in 0..4 { step(m, empty, &mut sink); } sym::cover("four events"); }
fn o02_start() {
    // what the node's role, off-chain setting and failures make of it
    let (authority, ocw, deny) = (sym::bool("authority"), sym::bool("off-chain worker"), sym::bool("deny unsafe")); let f = sym::choose("failure", 0, 4) as u8; let (m, secs, empty) = (mode(), sym::u64("interval") as u16, sym::bool("empty blocks")); sym::assume(secs > 0);
    unsafe { FAIL = f; DENY = if deny { DenyUnsafe::Yes } else { DenyUnsafe::No };
        let r = block_sealing::frequency_dev_sealing(config_of(authority, ocw), m, secs, empty); sym::check(r.is_ok() == (f == 0), "the node starts unless one of its parts fails");
        if f > 0 { sym::check(STARTED == 0, "a failed node opens no network"); sym::cover("failed"); return }
        sym::check(DEV, "a development node needs no relay chain"); sym::check(STARTED == 1 && SPAWNED == 1, "the node's services and network run");
        sym::check(OCW == ocw as usize && (!ocw || OCW_VALIDATOR == authority), "off-chain workers run if enabled");
        let (d, db, sink) = RPC.take().unwrap(); sym::check(d == deny && db == ocw && sink.is_some() == authority, "only an authority takes sealing commands; unsafe calls are denied as asked");
        sym::check(AUTHOR.iter().filter(|a| a.0).count() == authority as usize && AUTHOR.len() == authority as usize + ocw as usize, "only an authority authors blocks");
        sym::check(LISTENED == (authority && m == SealingMode::Instant), "only an instant author watches the pool"); sym::check(PERIOD == if authority && m == SealingMode::Interval { Some(secs as u64 * 1000) } else { None }, "the timer runs at the interval given"); sym::cover("started");
    }
}
fn o02_closed() {
    // a manual author whose commands have ended stops; the others carry on
    let m = mode(); let sink = start(m, 6, false); drop(sink); unsafe { let r = poll_once(&mut AUTHOR[0].1); sym::check(r.is_ready() == (m == SealingMode::Manual), "authoring lasts as long as there can be work"); sym::check(log().is_empty(), "nothing is sealed unasked"); } sym::cover("closed");
}
fn o02_local() {
    // the command line's choices reach the author
    let (authority, ocw) = (sym::bool("authority"), sym::bool("ocw")); let m = mode(); let secs = sym::u64("interval") as u16; sym::assume(secs > 0); let empty = sym::bool("empty blocks"); unsafe { CONFIG = Some((authority, ocw)); FAIL = sym::choose("failure", 0, 1) as u8; }
    let c = cli::Cli { run: cli::Run, instant_sealing: false, manual_sealing: false, sealing: m, sealing_interval: std::num::NonZeroU16::new(secs).unwrap(), sealing_create_empty_blocks: empty };
    let r = run_as_localchain::run_as_localchain(c); unsafe { sym::check(r.is_ok() == (FAIL == 0), "failures are reported"); if FAIL > 0 { sym::cover("failed"); return }
        sym::check(PERIOD == if authority && m == SealingMode::Interval { Some(secs as u64 * 1000) } else { None }, "the interval given"); sym::check(LISTENED == (authority && m == SealingMode::Instant), "the mode given");
        if authority { READY = 0; TICKS = 1; let a = AUTHOR.iter().position(|a| a.0).unwrap(); let _ = poll_once(&mut AUTHOR[a].1); sym::check((log().len() == 1) == (m == SealingMode::Interval && empty), "empty blocks as asked"); } sym::cover("local"); }
}
}
