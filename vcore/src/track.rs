//! A value that knows whether it is alive: every construction and drop is recorded.
use crate::val::*;
use nanoserde::*;
use std::cell::RefCell;
use std::collections::HashSet;
use std::str::Chars;

#[derive(Default)]
struct Book {
    next: u64,
    alive: HashSet<u64>,
    bad: Option<String>,
    made: u64,
}
thread_local! {
    static BOOK: RefCell<Book> = RefCell::new(Book::default());
}
const MAGIC: u64 = 0x5afe_c0de_0000_0000;

pub struct Tracked {
    id: u64,
    val: u8,
}
impl Tracked {
    pub fn new(val: u8) -> Tracked {
        BOOK.with(|b| {
            let mut b = b.borrow_mut();
            b.next += 1;
            b.made += 1;
            let id = MAGIC | b.next;
            b.alive.insert(id);
            Tracked { id, val }
        })
    }
    fn check(&self) {
        BOOK.with(|b| {
            let mut b = b.borrow_mut();
            if !b.alive.contains(&self.id) {
                b.bad = Some(format!("a value that was never made or already dropped is in use (id {:x})", self.id))
            }
        })
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        BOOK.with(|b| {
            let mut b = b.borrow_mut();
            if !b.alive.remove(&self.id) {
                b.bad = Some(if self.id >> 32 == MAGIC >> 32 {
                    "a value was dropped twice".to_string()
                } else {
                    "something uninitialised was dropped".to_string()
                })
            }
        })
    }
}
/// Forgets everything recorded; call before a case.
pub fn reset() {
    BOOK.with(|b| {
        let next = b.borrow().next;
        *b.borrow_mut() = Book { next, ..Book::default() }
    })
}
/// (values made, values still alive, first misuse)
pub fn report() -> (u64, usize, Option<String>) {
    BOOK.with(|b| {
        let b = b.borrow();
        (b.made, b.alive.len(), b.bad.clone())
    })
}
impl PartialEq for Tracked {
    fn eq(&self, o: &Tracked) -> bool {
        self.val == o.val
    }
}
impl Eq for Tracked {}
impl PartialOrd for Tracked {
    fn partial_cmp(&self, o: &Tracked) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tracked {
    fn cmp(&self, o: &Tracked) -> std::cmp::Ordering {
        self.val.cmp(&o.val)
    }
}
impl std::hash::Hash for Tracked {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.val.hash(h)
    }
}
impl Default for Tracked {
    fn default() -> Self {
        Tracked::new(0)
    }
}
impl Subject for Tracked {
    const TY: TyRef = &Ty::U(8);
    fn from_val(v: &Val) -> Self {
        Tracked::new(u8::from_val(v))
    }
    fn to_val(&self) -> Val {
        self.check();
        self.val.to_val()
    }
}
impl SerBin for Tracked {
    fn ser_bin(&self, o: &mut Vec<u8>) {
        self.check();
        self.val.ser_bin(o)
    }
}
impl DeBin for Tracked {
    fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
        Ok(Tracked::new(u8::de_bin(o, d)?))
    }
}
impl SerJson for Tracked {
    fn ser_json(&self, d: usize, s: &mut SerJsonState) {
        self.check();
        self.val.ser_json(d, s)
    }
}
impl DeJson for Tracked {
    fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<Self, DeJsonErr> {
        Ok(Tracked::new(u8::de_json(s, i)?))
    }
}
impl SerRon for Tracked {
    fn ser_ron(&self, d: usize, s: &mut SerRonState) {
        self.check();
        self.val.ser_ron(d, s)
    }
}
impl DeRon for Tracked {
    fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<Self, DeRonErr> {
        Ok(Tracked::new(u8::de_ron(s, i)?))
    }
}
