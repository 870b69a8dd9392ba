//! The world state one simulated node works on: an ordered key-value map with a stack of undo
//! journals (storage transactions), a log of deposited events, and the simulator's fault hooks.
//! Everything is per thread, so that many simulations can run side by side; nothing here reads a
//! clock or a source of randomness.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ops::Bound;
use std::rc::Rc;

pub type Map = BTreeMap<Vec<u8>, Rc<[u8]>>;

/// Panic payload of an injected crash.
pub struct SimCrash;

#[derive(Default)]
struct State {
    map: Map,
    journal: Vec<Vec<(Vec<u8>, Option<Rc<[u8]>>)>>,
    reads: u64,
    writes: u64,
    /// crash when this many further storage writes have been done
    crash_in: Option<u64>,
    crashed: u64,
    rollbacks: u64,
}

thread_local! {
    static S: RefCell<State> = RefCell::new(State::default());
}

pub fn get(k: &[u8]) -> Option<Vec<u8>> {
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.reads += 1;
        s.map.get(k).map(|v| v.to_vec())
    })
}

fn tick() {
    let crash = S.with(|s| {
        let mut s = s.borrow_mut();
        s.writes += 1;
        match s.crash_in {
            Some(0) => {
                s.crash_in = None;
                s.crashed += 1;
                true
            }
            Some(n) => {
                s.crash_in = Some(n - 1);
                false
            }
            None => false,
        }
    });
    if crash {
        // not `panic!`: no hook runs, the simulator alone sees it
        std::panic::resume_unwind(Box::new(SimCrash));
    }
}

pub fn put(k: Vec<u8>, v: Vec<u8>) {
    tick();
    S.with(|s| {
        let mut s = s.borrow_mut();
        let old = s.map.insert(k.clone(), v.into());
        if let Some(j) = s.journal.last_mut() {
            j.push((k, old));
        }
    })
}

pub fn del(k: &[u8]) {
    tick();
    S.with(|s| {
        let mut s = s.borrow_mut();
        let old = s.map.remove(k);
        if let (Some(o), Some(j)) = (old, s.journal.last_mut()) {
            j.push((k.to_vec(), Some(o)));
        }
    })
}

/// The first entry at (`inclusive`) or after `from` that still starts with `prefix`.
pub fn next(from: &[u8], inclusive: bool, prefix: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    S.with(|s| {
        let s = s.borrow();
        let lo = if inclusive {
            Bound::Included(from)
        } else {
            Bound::Excluded(from)
        };
        s.map
            .range::<[u8], _>((lo, Bound::Unbounded))
            .next()
            .filter(|(k, _)| k.starts_with(prefix))
            .map(|(k, v)| (k.clone(), v.to_vec()))
    })
}

pub fn depth() -> usize {
    S.with(|s| s.borrow().journal.len())
}
pub fn start_transaction() {
    S.with(|s| s.borrow_mut().journal.push(vec![]))
}
pub fn commit_transaction() {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let j = s.journal.pop().expect("open transaction");
        if let Some(p) = s.journal.last_mut() {
            p.extend(j);
        }
    })
}
pub fn rollback_transaction() {
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.rollbacks += 1;
        let j = s.journal.pop().expect("open transaction");
        for (k, old) in j.into_iter().rev() {
            match old {
                Some(v) => {
                    s.map.insert(k, v);
                }
                None => {
                    s.map.remove(&k);
                }
            }
        }
    })
}
pub fn with_transaction<R>(commit: impl FnOnce(&R) -> bool, f: impl FnOnce() -> R) -> R {
    start_transaction();
    let r = f();
    if commit(&r) {
        commit_transaction()
    } else {
        rollback_transaction()
    }
    r
}

// ---------------------------------------------------------------- simulator interface

/// A copy of the whole state (values are shared).
#[derive(Clone, Default)]
pub struct Snapshot(pub Map);

pub fn snapshot() -> Snapshot {
    S.with(|s| {
        let s = s.borrow();
        assert!(s.journal.is_empty(), "snapshot inside a transaction");
        Snapshot(s.map.clone())
    })
}
pub fn restore(snap: &Snapshot) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.map = snap.0.clone();
        s.journal.clear();
        s.crash_in = None;
    })
}
/// Number of changes recorded since the outermost open transaction began.
pub fn changes() -> usize {
    S.with(|s| s.borrow().journal.iter().map(|j| j.len()).sum())
}
/// Rolls every open transaction above `depth` back.
pub fn unwind_to(depth: usize) {
    while self::depth() > depth {
        rollback_transaction();
    }
}
/// Commits every open transaction above `depth`.
pub fn commit_to(depth: usize) {
    while self::depth() > depth {
        commit_transaction();
    }
}
/// Deletes every entry (a chain started over); undone by rolling back.
pub fn wipe() {
    let keys: Vec<Vec<u8>> = S.with(|s| s.borrow().map.keys().cloned().collect());
    for k in keys {
        del(&k);
    }
}
pub fn reset() {
    S.with(|s| *s.borrow_mut() = State::default())
}
/// Crash (unwind with `SimCrash`) at the n-th storage write from now.
pub fn arm_crash(n: u64) {
    S.with(|s| s.borrow_mut().crash_in = Some(n))
}
pub fn disarm_crash() -> bool {
    S.with(|s| s.borrow_mut().crash_in.take().is_some())
}
pub fn counters() -> (u64, u64, u64, u64) {
    S.with(|s| {
        let s = s.borrow();
        (s.reads, s.writes, s.crashed, s.rollbacks)
    })
}
/// 64-bit FNV over all entries.
pub fn hash() -> u64 {
    S.with(|s| {
        let s = s.borrow();
        let mut h: u64 = 0xcbf29ce484222325;
        let mut f = |b: &[u8]| {
            for c in b.chunks(8) {
                let mut x = [0u8; 8];
                x[..c.len()].copy_from_slice(c);
                h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0x100000001b3).rotate_left(23);
            }
            h = (h ^ b.len() as u64).wrapping_mul(0x100000001b3);
        };
        for (k, v) in &s.map {
            f(k);
            f(v);
        }
        h
    })
}
pub fn diff(a: &Snapshot, b: &Snapshot) -> Vec<String> {
    let mut out = vec![];
    let show = |k: &[u8]| -> String {
        let p = k.iter().position(|x| *x == 0).unwrap_or(k.len());
        format!(
            "{}[{}]",
            String::from_utf8_lossy(&k[..p]),
            k[p..].iter().skip(1).map(|b| format!("{:02x}", b)).collect::<String>()
        )
    };
    for (k, v) in &a.0 {
        match b.0.get(k) {
            None => out.push(format!("- {}", show(k))),
            Some(w) if w != v => out.push(format!("~ {}", show(k))),
            _ => {}
        }
    }
    for k in b.0.keys() {
        if !a.0.contains_key(k) {
            out.push(format!("+ {}", show(k)));
        }
    }
    out
}
