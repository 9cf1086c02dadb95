//! User values whose every copy is accounted for.
use crate::seam::{harness, seam, Kind};
use std::cell::RefCell;

const MAGIC: u64 = 0x70CE_17A6_0DD0_600D;
thread_local! {
    /// Per arena: state of each copy (1 live, 0 dropped).
    static ARENAS: RefCell<Vec<Arena>> = const { RefCell::new(Vec::new()) };
}
#[derive(Default, Clone)]
struct Arena {
    state: Vec<u8>,
    error: Option<String>,
}

/// An instance of a user value; `id` is its identity to the user.
pub struct Tok {
    magic: u64,
    arena: u32,
    inst: u32,
    pub id: i64,
}

fn with<R>(arena: u32, f: impl FnOnce(&mut Arena) -> R) -> R {
    harness(|| {
        ARENAS.with(|a| {
            let mut a = a.borrow_mut();
            while a.len() <= arena as usize {
                a.push(Arena::default());
            }
            f(&mut a[arena as usize])
        })
    })
}

pub fn reset(arena: u32) {
    with(arena, |a| {
        a.state.clear();
        a.error = None;
    })
}
/// First misuse noticed in this arena.
pub fn error(arena: u32) -> Option<String> {
    with(arena, |a| a.error.clone())
}
/// Number of copies not dropped yet.
pub fn live(arena: u32) -> usize {
    with(arena, |a| a.state.iter().filter(|&&s| s == 1).count())
}
pub fn copies(arena: u32) -> usize {
    with(arena, |a| a.state.len())
}

impl Tok {
    pub fn new(arena: u32, id: i64) -> Tok {
        let inst = with(arena, |a| {
            a.state.push(1);
            a.state.len() as u32 - 1
        });
        Tok { magic: MAGIC, arena, inst, id }
    }
    /// Checks that this instance is alive.
    pub fn check(&self, what: &str) {
        let (m, ar, i) = (self.magic, self.arena, self.inst);
        if m != MAGIC || ar > 64 {
            harness(|| GARBAGE.with(|g| *g.borrow_mut() = Some(format!("{what} on memory that holds no value"))));
            return;
        }
        with(ar, |a| match a.state.get(i as usize) {
            Some(1) => {}
            Some(_) => a.error = a.error.take().or_else(|| Some(format!("{what} on a value already dropped"))),
            None => a.error = a.error.take().or_else(|| Some(format!("{what} on a value never made"))),
        })
    }
}
thread_local! {
    static GARBAGE: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub fn garbage() -> Option<String> {
    harness(|| GARBAGE.with(|g| g.borrow_mut().take()))
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        self.check("clone");
        seam(Kind::Clone);
        Tok::new(self.arena, self.id)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.check("drop");
        seam(Kind::Drop);
        if self.magic == MAGIC && self.arena <= 64 {
            let i = self.inst as usize;
            with(self.arena, |a| {
                if let Some(s) = a.state.get_mut(i) {
                    *s = 0;
                }
            });
        }
        self.magic = 0;
        crate::seam::dropped();
    }
}
impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.check("format");
        seam(Kind::Debug);
        write!(f, "#{}", self.id)
    }
}
