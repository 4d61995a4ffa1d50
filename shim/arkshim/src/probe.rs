//! Recording points of the shim, read by the conformance drivers: they log the calls the code
//! under test makes into its (trusted) algebra library.
use std::cell::RefCell;
thread_local! { static MSM: RefCell<Option<Vec<Vec<Vec<u64>>>>> = RefCell::new(None); }
pub fn msm_start() { MSM.with(|m| *m.borrow_mut() = Some(vec![])) }
pub fn msm_take() -> Vec<Vec<Vec<u64>>> { MSM.with(|m| m.borrow_mut().take().unwrap_or_default()) }
pub(crate) fn msm(s: Vec<Vec<u64>>) { MSM.with(|m| if let Some(v) = m.borrow_mut().as_mut() { v.push(s) }) }
pub(crate) fn scalar(s: &[u64]) { MSM.with(|m| if let Some(v) = m.borrow_mut().as_mut() { v.push(vec![s.to_vec()]) }) }
