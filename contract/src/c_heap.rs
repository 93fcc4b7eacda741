//! C04: the heap itself, with slots held and given back in any order, against a map.
use crate::nd::{Choices, Nd, Stop, R};
use crate::sim::caught;
use wasmtimer::verif::timer::{Heap, Slot};

/// A deadline that may tie with others; the number is not compared.
struct Item(u64, u64);

impl PartialEq for Item {
    fn eq(&self, o: &Item) -> bool {
        self.0 == o.0
    }
}
impl Eq for Item {}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Item) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Item) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}

pub fn heap(nd: &mut Choices) -> R {
    let mut h: Heap<Item> = Heap::new();
    // (deadline, number, slot)
    let mut all: Vec<(u64, u64, Slot)> = Vec::new();
    let mut id = 0;
    let range = 1 + nd.below(12);
    let full = 3 + nd.below(60) as usize;
    for _ in 0..4 + nd.below(150) {
        match nd.below(8) {
            0..=3 if all.len() < full => {
                let d = if nd.below(8) == 0 { nd.u64() } else { nd.below(range) };
                nd.note(|| format!("push {id} with {d}"));
                let slot = caught(|| h.push(Item(d, id)));
                check!(slot.is_ok(), "push panics: {}", slot.as_ref().err().unwrap());
                all.push((d, id, slot.unwrap()));
                id += 1;
            }
            4 | 5 if !all.is_empty() => {
                let (d, n, slot) = all.remove(nd.below(all.len() as u64) as usize);
                nd.note(|| format!("remove {n}"));
                let got = caught(|| h.remove(slot));
                match got {
                    Ok(i) => check!((i.0, i.1) == (d, n), "removing {n} takes out {}", i.1),
                    Err(e) => check!(false, "remove panics: {e}"),
                }
                nd.reached();
            }
            6 => {
                let min = all.iter().map(|x| x.0).min();
                let got = caught(|| h.pop());
                match got {
                    Ok(None) => check!(min.is_none(), "pop returns nothing out of {}", all.len()),
                    Ok(Some(i)) => {
                        nd.note(|| format!("pop takes {}", i.1));
                        check!(Some(i.0) == min, "pop takes out {}, the least is {min:?}", i.0);
                        let k = all.iter().position(|x| x.1 == i.1);
                        check!(k.is_some(), "pop takes out {}, which is not in the heap", i.1);
                        all.remove(k.unwrap());
                    }
                    Err(e) => check!(false, "pop panics: {e}"),
                }
            }
            _ => {
                let min = all.iter().map(|x| x.0).min();
                let got = caught(|| h.peek().map(|i| i.0));
                check!(got == Ok(min), "peek says {got:?}, the least is {min:?}");
            }
        }
    }
    while !all.is_empty() {
        let min = all.iter().map(|x| x.0).min();
        let i = h.pop();
        check!(i.is_some(), "pop returns nothing out of {}", all.len());
        let i = i.unwrap();
        check!(Some(i.0) == min, "pop takes out {}, the least is {min:?}", i.0);
        let k = all.iter().position(|x| x.1 == i.1 && x.0 == i.0);
        check!(k.is_some(), "pop takes out {}, which is not in the heap", i.1);
        all.remove(k.unwrap());
    }
    check!(h.pop().is_none(), "pop takes something out of an empty heap");
    Ok(())
}

fn _unused(_: Stop) {}
