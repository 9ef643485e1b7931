//! The properties. Each `run` is one simulated execution: it draws operations,
//! data, faults and schedule from the tape, drives the real library through
//! its public API and judges what it observes.

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c23;
pub mod util;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    /// Everything must be freed when the run is over.
    pub leaks: bool,
    pub quick_runs: u64,
    pub rule: &'static str,
    pub state_measure: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub static ALL: &[&Prop] = &[&c01::PROP, &c02::PROP, &c03::PROP, &c04::PROP, &c05::PROP, &c06::PROP, &c07::PROP, &c08::PROP, &c09::PROP, &c10::PROP, &c11::PROP, &c12::PROP, &c13::PROP, &c23::PROP];
