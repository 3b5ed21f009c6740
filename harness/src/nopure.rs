//! Stands in for pure.rs when only histories of trees are wanted (feature "few").
use crate::configs::Config;
use serde_json::Value;
pub fn run(_: &Config, _: &Value) -> Option<Value> { None }
pub fn all_params() -> Vec<()> { vec![] }
pub fn prims() -> Vec<(&'static str, char, usize, ())> { vec![] }
pub fn boxes() -> Vec<(&'static str, usize, ())> { vec![] }
pub fn bigs() -> Vec<(&'static str, usize)> { vec![] }
