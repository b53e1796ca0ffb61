//! parking_lot's interface over the controlled scheduler's model of its locks
use lock_api as la;
pub use lock_api;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use vsched::{point, release_point, LockState, Op};

pub struct RawRwLock {
    s: LockState,
}
unsafe impl la::RawRwLock for RawRwLock {
    const INIT: RawRwLock = RawRwLock { s: LockState::new() };
    type GuardMarker = la::GuardNoSend;
    fn lock_shared(&self) {
        point(Op::Read(&self.s));
        self.s.readers.fetch_add(1, SeqCst);
    }
    fn try_lock_shared(&self) -> bool {
        point(Op::Go);
        if !self.s.can_read() {
            return false;
        }
        self.s.readers.fetch_add(1, SeqCst);
        true
    }
    unsafe fn unlock_shared(&self) {
        self.s.readers.fetch_sub(1, SeqCst);
        release_point();
    }
    fn lock_exclusive(&self) {
        point(Op::Claim(&self.s));
        self.s.writer.store(true, SeqCst);
        if !self.s.drained() {
            point(Op::Drain(&self.s));
        }
    }
    fn try_lock_exclusive(&self) -> bool {
        point(Op::Go);
        if !self.s.can_claim() || !self.s.drained() {
            return false;
        }
        self.s.writer.store(true, SeqCst);
        true
    }
    unsafe fn unlock_exclusive(&self) {
        self.s.writer.store(false, SeqCst);
        release_point();
    }
    fn is_locked(&self) -> bool {
        self.s.writer.load(SeqCst) || self.s.upgradable.load(SeqCst) || !self.s.drained()
    }
}
unsafe impl la::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        la::RawRwLock::unlock_shared(self)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        la::RawRwLock::unlock_exclusive(self)
    }
}
unsafe impl la::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.s.readers.fetch_add(1, SeqCst);
        self.s.writer.store(false, SeqCst);
        release_point();
    }
}
unsafe impl la::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        la::RawRwLock::lock_shared(self)
    }
    fn try_lock_shared_recursive(&self) -> bool {
        la::RawRwLock::try_lock_shared(self)
    }
}
unsafe impl la::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        point(Op::Claim(&self.s));
        self.s.upgradable.store(true, SeqCst);
    }
    fn try_lock_upgradable(&self) -> bool {
        point(Op::Go);
        if !self.s.can_claim() {
            return false;
        }
        self.s.upgradable.store(true, SeqCst);
        true
    }
    unsafe fn unlock_upgradable(&self) {
        self.s.upgradable.store(false, SeqCst);
        release_point();
    }
    unsafe fn upgrade(&self) {
        point(Op::Go);
        self.s.writer.store(true, SeqCst);
        self.s.upgradable.store(false, SeqCst);
        if !self.s.drained() {
            point(Op::Drain(&self.s));
        }
    }
    unsafe fn try_upgrade(&self) -> bool {
        point(Op::Go);
        if !self.s.drained() {
            return false;
        }
        self.s.writer.store(true, SeqCst);
        self.s.upgradable.store(false, SeqCst);
        true
    }
}
unsafe impl la::RawRwLockUpgradeFair for RawRwLock {
    unsafe fn unlock_upgradable_fair(&self) {
        la::RawRwLockUpgrade::unlock_upgradable(self)
    }
}
unsafe impl la::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.s.readers.fetch_add(1, SeqCst);
        self.s.upgradable.store(false, SeqCst);
        release_point();
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.s.upgradable.store(true, SeqCst);
        self.s.writer.store(false, SeqCst);
        release_point();
    }
}

pub type RwLock<T> = la::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = la::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = la::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = la::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = la::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = la::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as la::RawRwLock>::INIT, val)
}

pub struct RawMutex {
    held: AtomicBool,
}
unsafe impl la::RawMutex for RawMutex {
    const INIT: RawMutex = RawMutex { held: AtomicBool::new(false) };
    type GuardMarker = la::GuardNoSend;
    fn lock(&self) {
        point(Op::Flag(&self.held));
        self.held.store(true, SeqCst);
    }
    fn try_lock(&self) -> bool {
        point(Op::Go);
        !self.held.swap(true, SeqCst)
    }
    unsafe fn unlock(&self) {
        self.held.store(false, SeqCst);
        release_point();
    }
}
unsafe impl la::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        la::RawMutex::unlock(self)
    }
}
pub type Mutex<T> = la::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = la::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = la::MappedMutexGuard<'a, RawMutex, T>;
pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as la::RawMutex>::INIT, val)
}
