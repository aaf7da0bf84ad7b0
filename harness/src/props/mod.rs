//! The properties: for each, how cases are made and the monitor that judges them.
pub mod api;
#[cfg(feature = "capi")]
pub mod capi;
pub mod gen;
pub mod mem;
pub mod meta;
pub mod model;

use crate::case::Case;
use crate::drive::{Obs, Tier};
use crate::rng::Rng;

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, usize, Tier) -> Case,
    pub check: fn(&Case, &mut Obs) -> Result<(), String>,
    pub quick: usize,
    pub thorough: usize,
    /// one worker only
    pub serial: bool,
    /// case `i` plays processor `i` modulo their number, and a worker plays only one
    pub per_model: bool,
    pub rule: &'static str,
    pub init: Option<fn()>,
    pub fini: Option<fn(&mut Obs) -> Result<(), String>>,
}

pub const PROPS: &[Prop] = &[
    mem::C01, mem::C02, api::C03, meta::C04, mem::C05, model::C06, model::C07, model::C08, meta::C09, mem::C10,
    meta::C11, meta::C12, meta::C13, meta::C14, meta::C15, meta::C16, model::C17, meta::C18, meta::C19, model::C20,
    model::C21, model::C28, api::C22, meta::C23, mem::C24, meta::C25, api::C26,
    #[cfg(feature = "capi")]
    capi::C27,
];
