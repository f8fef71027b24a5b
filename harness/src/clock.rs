//! The wall clock as seen by this process: `clock_gettime` is interposed so
//! that a case can set it.  (0 nanoseconds and no seconds: the real one.)

use std::os::raw::{c_int, c_long};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};
use std::time::{SystemTime, UNIX_EPOCH};

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
}

static FAKE: AtomicBool = AtomicBool::new(false);
/// Whether all clocks are set, the monotonic ones too.
static ALL: AtomicBool = AtomicBool::new(false);
static SEC: AtomicI64 = AtomicI64::new(0);
static NSEC: AtomicI64 = AtomicI64::new(0);

#[cfg(target_arch = "x86_64")]
const SYS_CLOCK_GETTIME: c_long = 228;
#[cfg(target_arch = "aarch64")]
const SYS_CLOCK_GETTIME: c_long = 113;

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, t: *mut Timespec) -> c_int {
    if FAKE.load(SeqCst) && (id == 0 || ALL.load(SeqCst)) {
        (*t).sec = SEC.load(SeqCst);
        (*t).nsec = NSEC.load(SeqCst);
        return 0;
    }
    syscall(SYS_CLOCK_GETTIME, id, t) as c_int
}

pub fn fake(sec: i64, nsec: i64) {
    SEC.store(sec, SeqCst);
    NSEC.store(nsec, SeqCst);
    FAKE.store(true, SeqCst);
}

/// Stops all clocks.
pub fn still(sec: i64, nsec: i64) {
    ALL.store(true, SeqCst);
    fake(sec, nsec);
}

pub fn real() {
    ALL.store(false, SeqCst);
    FAKE.store(false, SeqCst);
}

/// Sets the clock to [seconds, nanoseconds], or to the real time; says the time.
pub fn set(v: &serde_json::Value) -> String {
    match v.as_array() {
        Some(c) => fake(c[0].as_i64().unwrap(), c[1].as_i64().unwrap()),
        None => real(),
    }
    now()
}

pub fn now() -> String {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs().to_string()
}
