//! A value which knows when it is alive, and callbacks which panic on demand.
use std::cell::RefCell;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};

const ALIVE: u32 = 0x600D_F00D;
const DEAD: u32 = 0xDEAD_DEAD;

/// The payload which is not equal to itself, like a NaN.
pub const NAN: u32 = u32::MAX;

#[derive(Default)]
struct Reg {
    next: u64,
    // live[id - base]
    live: Vec<bool>,
    nlive: usize,
    drops: u64,
    clones: u64,
    defaults: u64,
    errors: Vec<String>,
    // Countdown for panics in callbacks of values; 0 is disarmed.
    fuse: u64,
    fired: u64,
}

thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
}

/// The panic payload used for injected faults.
pub struct Injected;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Snapshot {
    pub live: usize,
    pub drops: u64,
    pub clones: u64,
    pub defaults: u64,
}

/// Forget everything about earlier cases.
pub fn reset() {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.next = 0;
        r.live.clear();
        r.nlive = 0;
        r.drops = 0;
        r.clones = 0;
        r.defaults = 0;
        r.errors.clear();
        r.fuse = 0;
        r.fired = 0;
    });
}

pub fn snapshot() -> Snapshot {
    REG.with(|r| {
        let r = r.borrow();
        Snapshot { live: r.nlive, drops: r.drops, clones: r.clones, defaults: r.defaults }
    })
}

pub fn errors() -> Vec<String> {
    REG.with(|r| r.borrow().errors.clone())
}

pub fn is_live(id: u64) -> bool {
    REG.with(|r| r.borrow().live.get(id as usize).copied().unwrap_or(false))
}

/// Arm the fuse: the n-th callback from now panics (1 is the next one).
pub fn arm(n: u64) {
    REG.with(|r| r.borrow_mut().fuse = n);
}

/// Disarm, returning whether the fuse fired since it was armed last.
pub fn disarm() -> bool {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.fuse = 0;
        std::mem::take(&mut r.fired) > 0
    })
}

/// A point at which a user callback may panic.
pub fn tick() {
    let fire = REG.with(|r| {
        let mut r = r.borrow_mut();
        if r.fuse > 0 {
            r.fuse -= 1;
            if r.fuse == 0 {
                r.fired += 1;
                return true;
            }
        }
        false
    });
    if fire {
        std::panic::panic_any(Injected);
    }
}

pub struct Val {
    magic: u32,
    pub p: u32,
    id: u64,
}

impl Val {
    pub fn new(p: u32) -> Val {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            let id = r.next;
            r.next += 1;
            r.live.push(true);
            r.nlive += 1;
            Val { magic: ALIVE, p, id }
        })
    }

    /// The identity of this instance.
    pub fn id(&self) -> u64 {
        self.check();
        self.id
    }

    /// Note uses of values which are not alive.
    pub fn check(&self) {
        if self.magic != ALIVE || !is_live(self.id) {
            let m = format!("use of a value which is not alive (payload {}, magic {:x})", self.p, self.magic);
            REG.with(|r| {
                let mut r = r.borrow_mut();
                if r.errors.len() < 10 {
                    r.errors.push(m)
                }
            });
        }
    }
}

impl Default for Val {
    fn default() -> Self {
        REG.with(|r| r.borrow_mut().defaults += 1);
        tick();
        Val::new(0)
    }
}

impl Clone for Val {
    fn clone(&self) -> Self {
        self.check();
        tick();
        REG.with(|r| r.borrow_mut().clones += 1);
        Val::new(self.p)
    }
}

impl Drop for Val {
    fn drop(&mut self) {
        let (magic, id, p) = (self.magic, self.id, self.p);
        REG.with(|r| {
            let mut r = r.borrow_mut();
            let ok = magic == ALIVE && r.live.get(id as usize).copied().unwrap_or(false);
            if ok {
                r.live[id as usize] = false;
                r.nlive -= 1;
                r.drops += 1;
            } else if r.errors.len() < 10 {
                let m = if magic == DEAD || magic == ALIVE { "dropped twice" } else { "garbage dropped" };
                r.errors.push(format!("{m}: value with payload {p}"));
            }
        });
        self.magic = DEAD;
    }
}

impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        self.check();
        o.check();
        tick();
        self.p == o.p && self.p != NAN
    }
}

impl Eq for Val {}

impl PartialOrd for Val {
    #[allow(clippy::non_canonical_partial_ord_impl)]
    fn partial_cmp(&self, o: &Val) -> Option<Ordering> {
        self.check();
        o.check();
        tick();
        if self.p == NAN || o.p == NAN {
            None
        } else {
            Some(self.p.cmp(&o.p))
        }
    }
}

impl Ord for Val {
    fn cmp(&self, o: &Val) -> Ordering {
        self.check();
        o.check();
        tick();
        self.p.cmp(&o.p)
    }
}

impl Hash for Val {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.check();
        tick();
        self.p.hash(h)
    }
}

impl fmt::Debug for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.check();
        tick();
        fmt::Debug::fmt(&self.p, f)
    }
}

impl serde::Serialize for Val {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.check();
        s.serialize_u32(self.p)
    }
}

impl<'de> serde::Deserialize<'de> for Val {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        <u32 as serde::Deserialize>::deserialize(d).map(|p| Val::new(p % NAN))
    }
}
