//! A controlled scheduler: under `run`, every `join` of the calling thread is executed on that
//! thread, and an explorer decides at each join which half runs first and whether the second
//! half counts as stolen (which makes rayon split more finely). The number of threads rayon
//! believes in is chosen too. Every parallel iterator of rayon is built on `join_context` and
//! `current_num_threads`, so the choices determine how work is cut, in which order the pieces
//! run and in which shape their results are combined.
use std::cell::RefCell;

/// Which operations (outermost joins, numbered in program order) are explored.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Target {
    /// none: every join follows `base`
    Nothing,
    /// only the k-th parallel operation
    Op(usize),
    /// all of them
    All,
}
#[derive(Clone, Debug)]
pub struct Plan {
    pub threads: usize,
    /// decision at joins that are not explored: bit 0 second half first, bit 1 stolen
    pub base: u8,
    pub target: Target,
    /// decisions at the explored joins, in order; beyond its end decision 0 is taken
    pub script: Vec<u8>,
}
#[derive(Clone, Debug, Default)]
pub struct Report {
    /// decisions taken at explored joins
    pub taken: Vec<u8>,
    pub ops: usize,
    pub joins: usize,
}
struct Ctl {
    plan: Plan,
    depth: usize,
    report: Report,
}
thread_local! {
    static CTL: RefCell<Option<Ctl>> = const { RefCell::new(None) };
}
pub(crate) fn threads() -> Option<usize> {
    CTL.with(|c| c.borrow().as_ref().map(|c| c.plan.threads))
}
pub(crate) fn enter() -> Option<(bool, bool)> {
    CTL.with(|c| {
        let mut c = c.borrow_mut();
        let c = c.as_mut()?;
        if c.depth == 0 {
            c.report.ops += 1;
        }
        c.depth += 1;
        c.report.joins += 1;
        let explored = match c.plan.target {
            Target::Nothing => false,
            Target::All => true,
            Target::Op(k) => k + 1 == c.report.ops,
        };
        let d = if explored {
            let d = c.plan.script.get(c.report.taken.len()).copied().unwrap_or(0);
            c.report.taken.push(d);
            d
        } else {
            c.plan.base
        };
        Some((d & 1 == 1, d & 2 == 2))
    })
}
pub(crate) struct Leave;
impl Drop for Leave {
    fn drop(&mut self) {
        CTL.with(|c| {
            if let Some(c) = c.borrow_mut().as_mut() {
                c.depth -= 1;
            }
        })
    }
}
struct Off;
impl Drop for Off {
    fn drop(&mut self) {
        CTL.with(|c| *c.borrow_mut() = None);
    }
}
/// Execute `f` on this thread under `plan`.
pub fn run<R>(plan: Plan, f: impl FnOnce() -> R) -> (R, Report) {
    CTL.with(|c| *c.borrow_mut() = Some(Ctl { plan, depth: 0, report: Report::default() }));
    let _off = Off;
    let r = f();
    let rep = CTL.with(|c| c.borrow_mut().take().unwrap().report);
    (r, rep)
}
/// The next script in depth-first order over 4 decisions per join, or None when exhausted.
pub fn next_script(taken: &[u8]) -> Option<Vec<u8>> {
    let mut t = taken.to_vec();
    while let Some(d) = t.pop() {
        if d < 3 {
            t.push(d + 1);
            return Some(t);
        }
    }
    None
}
