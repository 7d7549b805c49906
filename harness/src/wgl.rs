//! Linearizability of one key's history (Wing & Gong search with memoisation).
use std::collections::{BTreeSet, HashSet};

pub type St = Option<u64>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Sop {
    /// Read this value (or nothing).
    R(St),
    /// Containment test.
    Has(bool),
    /// Stored this value.
    W(u64),
    /// Removed and returned this value (or nothing).
    D(St),
    /// Removed whatever was there.
    Dx,
    /// Atomically saw the first and left the second.
    Rmw(St, St),
    /// May have stored this value, or may not have happened.
    MaybeW(u64),
    /// May have removed what was there.
    MaybeD,
    /// May have replaced, atomically, the first with the second.
    MaybeRmw(St, St),
}

#[derive(Clone, Debug)]
pub struct Sub {
    pub inv: u64,
    pub resp: u64,
    pub op: Sop,
    /// The operation it belongs to, for reports.
    pub who: u32,
}

pub enum Lin {
    Yes,
    No(String),
    TooBig,
}

/// Possible states after `op` from `s`.
fn step(op: &Sop, s: St, vanish: bool, out: &mut Vec<St>) {
    match op {
        Sop::R(x) => {
            if *x == s {
                out.push(s)
            } else if vanish && x.is_none() {
                out.push(None)
            }
        }
        Sop::Has(b) => {
            if *b == s.is_some() {
                out.push(s)
            } else if vanish && !*b {
                out.push(None)
            }
        }
        Sop::W(v) => out.push(Some(*v)),
        Sop::D(x) => {
            if *x == s || (vanish && x.is_none()) {
                out.push(None)
            }
        }
        Sop::Dx => out.push(None),
        Sop::Rmw(a, b) => {
            if *a == s || (vanish && a.is_none()) {
                out.push(*b)
            }
        }
        Sop::MaybeW(v) => {
            out.push(Some(*v));
            out.push(s)
        }
        Sop::MaybeRmw(a, b) => {
            if *a == s || (vanish && a.is_none()) {
                out.push(*b)
            }
            out.push(s)
        }
        Sop::MaybeD => {
            out.push(None);
            if s.is_some() {
                out.push(s)
            }
        }
    }
}

/// Judges one key's history from the state `init`; `last` is a value read at rest.
pub fn check(subs: &mut [Sub], init: St, vanish: bool) -> Lin {
    subs.sort_by_key(|s| (s.inv, s.resp));
    let mut states: BTreeSet<St> = [init].into();
    let mut i = 0;
    while i < subs.len() {
        // A segment ends where no operation is pending.
        let mut end = subs[i].resp;
        let mut j = i + 1;
        while j < subs.len() && subs[j].inv < end {
            end = end.max(subs[j].resp);
            j += 1;
        }
        let seg = &subs[i..j];
        if seg.len() > 128 {
            return Lin::TooBig;
        }
        let mut next = BTreeSet::new();
        let mut budget = 400_000usize;
        for s in &states {
            if !dfs(seg, *s, vanish, &mut next, &mut budget) {
                return Lin::TooBig;
            }
        }
        if next.is_empty() {
            let mut m = format!("no order explains (from {states:?}):");
            for s in seg {
                m += &format!(" [{}..{} {:?} by op {}]", s.inv, s.resp, s.op, s.who);
            }
            return Lin::No(m);
        }
        states = next;
        i = j;
    }
    Lin::Yes
}

fn dfs(seg: &[Sub], s0: St, vanish: bool, ends: &mut BTreeSet<St>, budget: &mut usize) -> bool {
    let n = seg.len();
    let full: u128 = if n == 128 { !0 } else { (1u128 << n) - 1 };
    let mut seen: HashSet<(u128, St)> = HashSet::new();
    let mut stack = vec![(0u128, s0)];
    let mut tmp = vec![];
    while let Some((mask, s)) = stack.pop() {
        if !seen.insert((mask, s)) {
            continue;
        }
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        if mask == full {
            ends.insert(s);
            continue;
        }
        // The earliest response among those still to come bounds the candidates.
        let mut lim = u64::MAX;
        for (i, x) in seg.iter().enumerate() {
            if mask & (1 << i) == 0 {
                if x.inv > lim {
                    break;
                }
                lim = lim.min(x.resp);
            }
        }
        for (i, x) in seg.iter().enumerate() {
            if mask & (1 << i) == 0 {
                if x.inv > lim {
                    break;
                }
                tmp.clear();
                step(&x.op, s, vanish, &mut tmp);
                for t in &tmp {
                    stack.push((mask | (1 << i), *t));
                }
            }
        }
    }
    true
}

#[cfg(test)]
mod tests {
    use super::*;
    fn s(inv: u64, resp: u64, op: Sop) -> Sub {
        Sub {
            inv,
            resp,
            op,
            who: 0,
        }
    }
    #[test]
    fn basics() {
        let mut h = vec![
            s(1, 4, Sop::W(1)),
            s(2, 3, Sop::R(Some(1))),
            s(5, 6, Sop::R(Some(1))),
        ];
        assert!(matches!(check(&mut h, None, false), Lin::Yes));
        let mut h = vec![s(1, 2, Sop::W(1)), s(3, 4, Sop::R(None))];
        assert!(matches!(check(&mut h, None, false), Lin::No(_)));
        assert!(matches!(check(&mut h, None, true), Lin::Yes));
        let mut h = vec![
            s(1, 2, Sop::W(1)),
            s(3, 4, Sop::W(2)),
            s(5, 6, Sop::R(Some(1))),
        ];
        assert!(matches!(check(&mut h, None, true), Lin::No(_)));
    }
}
