//! C05: the list of records that changed, against a model.
use crate::nd::{Choices, Nd, R};
use crate::sim::caught;
use std::cell::Cell;
use std::rc::Rc;
use std::sync::Arc;
use wasmtimer::verif::timer::{ArcList, Node};

struct Rec {
    id: usize,
    drops: Rc<Cell<u32>>,
}

impl Drop for Rec {
    fn drop(&mut self) {
        self.drops.set(self.drops.get() + 1)
    }
}

struct M {
    node: Option<Arc<Node<Rec>>>,
    drops: Rc<Cell<u32>>,
    /// References held by this test, beside `node`.
    held: Vec<Arc<Node<Rec>>>,
    /// The list it is in.
    list: Option<usize>,
    /// Refused by a sealed list: whether a later change is refused again is not specified.
    refused: bool,
}

pub fn list(nd: &mut Choices) -> R {
    let main: ArcList<Rec> = ArcList::new();
    let mut sealed = false;
    let mut taken: Vec<(usize, ArcList<Rec>)> = Vec::new();
    let mut next_list = 1;
    let n = 1 + nd.below(8) as usize;
    let mut all: Vec<M> = (0..n)
        .map(|id| {
            let drops = Rc::new(Cell::new(0));
            M { node: Some(Arc::new(Node::new(Rec { id, drops: drops.clone() }))), drops, held: vec![], list: None, refused: false }
        })
        .collect();
    for _ in 0..4 + nd.below(80) {
        match nd.below(12) {
            0..=4 => {
                let k = nd.below(n as u64) as usize;
                let m = &mut all[k];
                if m.node.is_none() || m.refused {
                    continue;
                }
                let r = caught(|| main.push(m.node.as_ref().unwrap()));
                nd.note(|| format!("push of record {k} is {r:?}"));
                check!(r.is_ok(), "push panics: {}", r.as_ref().err().unwrap());
                let r = r.unwrap();
                if m.list.is_some() {
                    check!(r.is_ok(), "push of record {k}, which is queued already, is refused");
                } else if sealed {
                    check!(r.is_err(), "push of record {k} onto a sealed list is not refused");
                    m.refused = true;
                } else {
                    check!(r.is_ok(), "push of record {k} is refused");
                    m.list = Some(0);
                }
            }
            5 | 6 => {
                let l = caught(|| main.take());
                nd.note(|| "take".into());
                check!(l.is_ok(), "take panics");
                for m in &mut all {
                    if m.list == Some(0) {
                        m.list = Some(next_list)
                    }
                }
                taken.push((next_list, l.unwrap()));
                next_list += 1;
            }
            7..=9 if !taken.is_empty() => {
                let i = nd.below(taken.len() as u64) as usize;
                let (id, l) = &mut taken[i];
                let r = caught(|| l.pop());
                check!(r.is_ok(), "pop panics: {}", r.as_ref().err().unwrap());
                let r = r.unwrap();
                nd.note(|| format!("pop from list {id} is {:?}", r.as_ref().map(|n| n.id)));
                let left = all.iter().filter(|m| m.list == Some(*id)).count();
                match r {
                    None => check!(left == 0, "pop returns nothing, but {left} records are queued"),
                    Some(r) => {
                        nd.reached();
                        let m = &mut all[r.id];
                        check!(m.list == Some(*id), "pop returns record {}, which is not in the list", r.id);
                        if let Some(own) = &m.node {
                            check!(Arc::ptr_eq(own, &r), "pop returns something else than the record pushed");
                        }
                        m.list = None;
                        if nd.bool() {
                            m.held.push(r)
                        }
                    }
                }
            }
            10 => match nd.below(5) {
                0 if !sealed => {
                    nd.note(|| "take and seal".into());
                    let l = caught(|| main.take_and_seal());
                    check!(l.is_ok(), "take_and_seal panics");
                    for m in &mut all {
                        if m.list == Some(0) {
                            m.list = Some(next_list)
                        }
                    }
                    taken.push((next_list, l.unwrap()));
                    next_list += 1;
                    sealed = true;
                }
                1 | 2 if !taken.is_empty() => {
                    let (id, l) = taken.remove(nd.below(taken.len() as u64) as usize);
                    nd.note(|| format!("list {id} is dropped"));
                    drop(l);
                    for m in &mut all {
                        if m.list == Some(id) {
                            m.list = None
                        }
                    }
                }
                _ => {}
            },
            _ => {
                let k = nd.below(n as u64) as usize;
                let m = &mut all[k];
                if m.held.pop().is_none() && nd.below(4) == 0 {
                    nd.note(|| format!("record {k} is let go of"));
                    m.node = None;
                }
            }
        }
        for (k, m) in all.iter().enumerate() {
            let want = m.node.is_some() as usize + m.held.len() + m.list.is_some() as usize;
            check!(m.drops.get() == (want == 0) as u32, "record {k} was dropped {} times, with {want} references", m.drops.get());
            if let Some(a) = m.node.as_ref().or(m.held.first()) {
                let got = Arc::strong_count(a);
                check!(got == want, "record {k} has {got} references, not {want}");
            }
        }
    }
    drop(main);
    drop(taken);
    for (k, m) in all.iter().enumerate() {
        let want = m.node.is_some() as usize + m.held.len();
        check!(m.drops.get() == (want == 0) as u32, "in the end record {k} was dropped {} times, with {want} references", m.drops.get());
        if let Some(a) = m.node.as_ref().or(m.held.first()) {
            let got = Arc::strong_count(a);
            check!(got == want, "in the end record {k} has {got} references, not {want}");
        }
    }
    Ok(())
}
