//! O03: the chain a node runs is the one it was told to run. The choice is taken from the real sources by build.rs, once per kind of node.
#![allow(dead_code, static_mut_refs, unused)]
use std::path::PathBuf;
/// what was loaded: a built-in chain by its loader's name, or the file
#[derive(Clone, Copy, PartialEq, Debug)] pub enum Loaded { Builtin(&'static str), File, Relay(&'static str), RelayOther }
pub struct Spec { id: Vec<u8>, what: Loaded }
pub static mut FILE: Option<Vec<u8>> = None; pub static mut ASKED: Vec<Vec<u8>> = Vec::new(); pub static mut RAN: &str = ""; pub static mut PARENT: Vec<u8> = Vec::new();
fn text(b: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(b) } }
impl Spec { pub fn from_json_file(p: PathBuf) -> Result<Spec, String> { use std::os::unix::ffi::OsStrExt; unsafe { ASKED.push(p.as_os_str().as_bytes().to_vec()); match &FILE { Some(id) => Ok(Spec { id: id.clone(), what: Loaded::File }), None => Err("no such file".into()) } } } }
pub mod sc_service { pub trait ChainSpec { fn id(&self) -> &str; fn what(&self) -> super::Loaded; } pub type Result<T, E> = std::result::Result<T, E>; pub struct BasePath(pub std::path::PathBuf); impl BasePath { pub fn path(&self) -> &std::path::Path { &self.0 } } pub struct Configuration { pub chain_spec: Box<dyn ChainSpec>, pub base_path: BasePath } }
impl sc_service::ChainSpec for Spec { fn id(&self) -> &str { unsafe { std::str::from_utf8_unchecked(&self.id) } } fn what(&self) -> Loaded { self.what } }
pub mod sc_cli { #[derive(Debug, PartialEq)] pub struct Error; impl From<String> for Error { fn from(_: String) -> Self { Error } } impl From<&str> for Error { fn from(_: &str) -> Self { Error } } pub type Result<T> = std::result::Result<T, Error>;
    pub trait SubstrateCli: Sized { fn executable_name() -> String { "frequency".into() } fn load_spec(&self, id: &str) -> std::result::Result<Box<dyn super::sc_service::ChainSpec>, String>; } pub trait CliConfiguration<D> { fn chain_id(&self, is_dev: bool) -> Result<String>; } pub use super::sc_service::ChainSpec; }
pub mod polkadot_cli { pub use super::sc_cli::Error; pub struct RunCmd { pub base: Base } pub struct Base { pub chain: Option<Vec<u8>>, pub fails: bool } impl Base { pub fn chain_id(&self, dev: bool) -> super::sc_cli::Result<String> { if self.fails { return Err(super::sc_cli::Error) } Ok(match &self.chain { Some(c) => super::text(c.clone()), None if dev => "dev".into(), None => "".into() }) } }
    pub struct Cli; impl Cli { pub fn from_iter<I>(_: I) -> Self { Cli } } impl super::sc_cli::SubstrateCli for Cli { fn load_spec(&self, id: &str) -> std::result::Result<Box<dyn super::sc_service::ChainSpec>, String> { Ok(Box::new(super::Spec { id: id.as_bytes().to_vec(), what: super::Loaded::RelayOther })) } } }
pub mod clap { pub trait Parser: Sized { fn parse_from<I>(_: I) -> Self; } impl Parser for super::polkadot_cli::RunCmd { fn parse_from<I>(_: I) -> Self { super::polkadot_cli::RunCmd { base: super::polkadot_cli::Base { chain: None, fails: false } } } } }
pub mod frequency_service { pub mod chain_spec {
    pub struct Extensions { pub relay_chain: String, pub para_id: u32 } impl Extensions { pub fn try_get(_: &dyn crate::sc_service::ChainSpec) -> Option<&'static Extensions> { unsafe { if crate::PARENT.is_empty() { None } else { Some(Box::leak(Box::new(Extensions { relay_chain: crate::text(crate::PARENT.clone()), para_id: 2091 }))) } } } }
    pub type DummyChainSpec = crate::Spec; fn built(n: &'static str) -> crate::Spec { crate::Spec { id: n.as_bytes().to_vec(), what: crate::Loaded::Builtin(n) } }
    pub mod frequency { pub type ChainSpec = crate::Spec; pub fn benchmark_mainnet_config() -> crate::Spec { super::built("benchmark") } pub fn load_frequency_spec() -> crate::Spec { super::built("mainnet") } }
    pub mod frequency_dev { pub type ChainSpec = crate::Spec; pub fn development_config() -> crate::Spec { super::built("dev") } }
    pub mod frequency_paseo { pub type ChainSpec = crate::Spec; pub fn local_paseo_testnet_config() -> crate::Spec { super::built("paseo-local") } pub fn load_frequency_paseo_spec() -> crate::Spec { super::built("paseo") } pub fn load_paseo_spec() -> crate::Spec { crate::Spec { id: b"paseo".to_vec(), what: crate::Loaded::Relay("paseo") } } pub fn load_paseo_local_spec() -> crate::Spec { crate::Spec { id: b"paseo-local".to_vec(), what: crate::Loaded::Relay("paseo-local") } } }
    pub mod frequency_rococo { pub type ChainSpec = crate::Spec; pub fn local_rococo_testnet_config() -> crate::Spec { super::built("rococo-local") } pub fn load_frequency_rococo_spec() -> crate::Spec { super::built("rococo") } }
} }
pub mod run_as_localchain { pub fn run_as_localchain<C>(_: C) -> Result<(), crate::sc_cli::Error> { unsafe { crate::RAN = "alone" } if unsafe { crate::FAILS } { Err(crate::sc_cli::Error) } else { Ok(()) } } }
pub mod run_as_parachain { pub fn run_as_parachain<C>(_: C) -> Result<(), crate::sc_cli::Error> { unsafe { crate::RAN = "parachain" } if unsafe { crate::FAILS } { Err(crate::sc_cli::Error) } else { Ok(()) } } }
pub static mut FAILS: bool = false;
macro_rules! kind { ($m:ident, $f:literal) => { pub mod $m { use crate::{sc_service, sc_cli, polkadot_cli, clap, frequency_service}; use std::path::PathBuf; use sc_cli::{ChainSpec, CliConfiguration, Result, SubstrateCli}; use frequency_service::chain_spec;
    pub struct Cli; pub struct RelayChainCli { pub base: polkadot_cli::RunCmd, pub chain_id: Option<String>, pub base_path: Option<PathBuf> }
    include!(concat!(env!("OUT_DIR"), "/", $f, ".rs"));
    pub fn own(id: &str) -> std::result::Result<Box<dyn ChainSpec>, String> { Cli.load_spec(id) } pub fn start() -> std::result::Result<(), sc_cli::Error> { run_chain(Cli) }
    pub fn relay(c: &sc_service::Configuration, said: Option<Vec<u8>>, fails: bool, dev: bool) -> (std::result::Result<String, sc_cli::Error>, Option<PathBuf>) { let mut r = RelayChainCli::new(c, Vec::<String>::new().iter()); r.base.base.chain = said; r.base.base.fails = fails; (r.chain_id(dev), r.base_path) }
    pub fn relay_spec(id: &str) -> std::result::Result<Box<dyn ChainSpec>, String> { RelayChainCli { base: polkadot_cli::RunCmd { base: polkadot_cli::Base { chain: None, fails: false } }, chain_id: None, base_path: None }.load_spec(id) }
} } }
kind!(mainnet, "frequency"); kind!(testnet, "frequency-testnet"); kind!(local, "frequency-local"); kind!(alone, "frequency-no-relay");
// ---- what each kind of node is documented to run
type Names = &'static [(&'static str, &'static str)];
const BUILTIN: [Names; 4] = [
    &[("", "mainnet"), ("frequency", "mainnet"), ("frequency-bench", "benchmark")],
    &[("", "paseo"), ("frequency-testnet", "paseo"), ("frequency-paseo", "paseo"), ("paseo", "paseo"), ("testnet", "paseo"), ("frequency-rococo", "rococo"), ("rococo", "rococo")],
    &[("", "paseo-local"), ("frequency-paseo-local", "paseo-local"), ("frequency-rococo-local", "rococo-local")],
    &[("", "dev"), ("dev", "dev"), ("frequency-no-relay", "dev")]];
/// the chains whose specification files each kind of node takes
const FILES: [&[&str]; 4] = [&["frequency"], &["frequency-rococo", "frequency-paseo"], &["frequency-local"], &["dev"]];
const ALL: [&str; 16] = ["", "frequency", "frequency-bench", "frequency-testnet", "frequency-paseo", "paseo", "testnet", "frequency-rococo", "rococo", "frequency-paseo-local", "frequency-rococo-local", "dev", "frequency-no-relay", "frequency-local", "paseo-local", "local"];
fn same(a: &[u8], b: &str) -> bool { sym::same_bytes(a, b.as_bytes()) }
fn kind() -> usize { sym::choose("kind", 0, 3) as usize }
/// any of the known names, or any text up to the length of the longest
fn name(what: &'static str) -> Vec<u8> { let k = sym::choose(what, 0, ALL.len() as u64) as usize; if k < ALL.len() { ALL[k].as_bytes().to_vec() } else { let n = sym::choose("len", 1, 22) as usize; sym::byte_vec(what, n).into_iter().map(|b| { sym::assume(b >= 0x20 && b < 0x7f); b }).collect() } }
fn load(k: usize, id: &str) -> Result<Box<dyn sc_service::ChainSpec>, String> { match k { 0 => mainnet::own(id), 1 => testnet::own(id), 2 => local::own(id), _ => alone::own(id) } }
sym::harnesses! {
fn o03_builtin() {
    // a name runs the chain it names, on a node that has that chain; any other text names a file
    let k = kind(); let id = name("chain"); let r = load(k, &text(id.clone()));
    let mut want = None; for (n, w) in BUILTIN[k] { if same(&id, n) { want = Some(*w) } }
    match want {
        Some(w) => { sym::check(matches!(&r, Ok(s) if s.what() == Loaded::Builtin(w)), "a chain's name runs that chain"); unsafe { sym::check(ASKED.is_empty(), "a built-in chain needs no file"); } sym::cover("builtin"); }
        None => { sym::check(r.is_err(), "a file that is not there runs nothing"); unsafe { sym::check(ASKED.len() == 1 && ASKED[0] == id, "any other text is the path of a file"); } sym::cover("file"); }
    }
}
fn o03_file() {
    // a file's chain is run by the kind of node it is for; no other chain is run in its stead
    let k = kind(); let id = name("id"); unsafe { FILE = Some(id.clone()); } let r = load(k, "./spec.json");
    let mine = FILES[k].iter().any(|n| same(&id, n));
    sym::check(r.is_ok() == mine, "a file's chain runs exactly on the node it is for");
    if let Ok(s) = r { sym::check(s.what() == Loaded::File && s.id().as_bytes() == &id[..], "what runs is the chain of the file"); sym::cover("taken"); } else { sym::cover("refused"); }
    unsafe { sym::check(ASKED.iter().all(|p| &p[..] == b"./spec.json"), "only that file is read"); }
}
fn o03_relay() {
    // the relay chain: the one asked for, else the one the parachain names; kept apart from the parachain's own files
    let k = kind(); let said = if sym::bool("relay chain asked for") { Some(name("relay")) } else { None }; let (fails, dev) = (sym::bool("fails"), sym::bool("dev"));
    let parent = if sym::bool("has parent") { let n = sym::choose("plen", 1, 6) as usize; let p = sym::byte_vec("parent", n); for b in &p { sym::assume(*b >= 0x20 && *b < 0x7f) } p } else { vec![] }; unsafe { PARENT = parent.clone(); }
    let c = sc_service::Configuration { chain_spec: Box::new(Spec { id: b"x".to_vec(), what: Loaded::File }), base_path: sc_service::BasePath("/data".into()) };
    let (r, base) = match k { 0 => mainnet::relay(&c, said.clone(), fails, dev), 1 => testnet::relay(&c, said.clone(), fails, dev), 2 => local::relay(&c, said.clone(), fails, dev), _ => alone::relay(&c, said.clone(), fails, dev) };
    let want = match &said { Some(s) if !s.is_empty() => s.clone(), None if dev => b"dev".to_vec(), _ => parent.clone() };
    if fails { sym::check(r.is_err(), "a mistake on the command line is reported"); } else { sym::check(r.map(|s| s.into_bytes()) == Ok(want), "the relay chain asked for, else the parachain's own"); }
    sym::check(base == Some(PathBuf::from("/data/polkadot")), "the relay chain's data has a place of its own"); sym::cover("relay");
}
fn o03_relay_spec() {
    let k = kind(); let id = name("relay chain"); let t = text(id.clone());
    let r = match k { 0 => mainnet::relay_spec(&t), 1 => testnet::relay_spec(&t), 2 => local::relay_spec(&t), _ => alone::relay_spec(&t) };
    let want = if k == 1 && same(&id, "paseo") { Loaded::Relay("paseo") } else if k == 2 && same(&id, "paseo-local") { Loaded::Relay("paseo-local") } else { Loaded::RelayOther };
    sym::check(matches!(&r, Ok(s) if s.what() == want && s.id().as_bytes() == &id[..]), "the relay chain named, Paseo's from the node itself"); sym::cover("relay spec");
}
fn o03_kind() {
    // only a node without relay chain runs alone
    let k = kind(); unsafe { FAILS = sym::bool("fails"); } let r = match k { 0 => mainnet::start(), 1 => testnet::start(), 2 => local::start(), _ => alone::start() };
    unsafe { sym::check(RAN == if k == 3 { "alone" } else { "parachain" }, "only a node without relay chain runs alone"); sym::check(r.is_err() == FAILS, "failures are reported"); } sym::cover("start");
}
}
