//! Stand-ins for the network: symbols of libc that this binary defines itself, so that the code under test
//! resolves names and connects inside a table owned by the harness, and accept/getpeername can be made to fail.
//! Only 127.77.0.0/16, 127.78.0.0/16 and names below `.test` are redirected.
use std::collections::{HashMap, VecDeque};
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_long, c_void};
use std::sync::Mutex;

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
    fn __errno_location() -> *mut c_int;
    fn getsockname(fd: c_int, a: *mut c_void, l: *mut u32) -> c_int;
    fn setsockopt(fd: c_int, level: c_int, name: c_int, v: *const c_void, l: u32) -> c_int;
    fn setrlimit(r: c_int, l: *const [u64; 2]) -> c_int;
    fn getrlimit(r: c_int, l: *mut [u64; 2]) -> c_int;
}
const SYS_CONNECT: c_long = 42;
const SYS_GETPEERNAME: c_long = 52;
const SYS_ACCEPT4: c_long = 288;
pub const ECONNREFUSED: i32 = 111;
pub const ECONNABORTED: i32 = 103;
pub const EMFILE: i32 = 24;
pub const ENOTCONN: i32 = 107;

#[derive(Default)]
struct Net {
    /// (address, port) -> real loopback port
    routes: HashMap<(u32, u16), u16>,
    /// connection attempts by address
    log: HashMap<u32, Vec<u16>>,
    dns: HashMap<String, u32>,
    /// addresses which cannot be reached, and why
    faults: HashMap<u32, i32>,
    /// by local port of the listener: outcomes of coming calls (0 = as usual)
    accepts: HashMap<u16, VecDeque<i32>>,
    peers: HashMap<u16, VecDeque<i32>>,
}
static NET: Mutex<Option<Net>> = Mutex::new(None);
fn net<T>(f: impl FnOnce(&mut Net) -> T) -> T {
    let mut g = NET.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Default::default))
}
pub fn route(ip: u32, port: u16, real: u16) {
    net(|n| n.routes.insert((ip, port), real));
}
pub fn unroute(ip: u32, port: u16) {
    net(|n| n.routes.remove(&(ip, port)));
}
pub fn name(host: &str, ip: u32) {
    net(|n| n.dns.insert(host.to_string(), ip));
}
pub fn forget(host: &str, ip: u32) {
    net(|n| {
        n.dns.remove(host);
        n.log.remove(&ip);
    });
}
/// from now on (0: not any more) connecting to this address fails
pub fn unreachable(ip: u32, errno: i32) {
    net(|n| if errno == 0 { n.faults.remove(&ip) } else { n.faults.insert(ip, errno) });
}
pub fn forget_port(ip: u32, port: u16) {
    net(|n| {
        if let Some(l) = n.log.get_mut(&ip) {
            l.retain(|p| *p != port)
        }
    });
}
pub fn attempts(ip: u32) -> Vec<u16> {
    net(|n| n.log.get(&ip).cloned().unwrap_or_default())
}
pub fn script_accepts(port: u16, s: Vec<i32>) {
    net(|n| n.accepts.insert(port, s.into_iter().collect()));
}
pub fn accepts_left(port: u16) -> usize {
    net(|n| n.accepts.get(&port).map_or(0, |q| q.len()))
}
pub fn script_peers(port: u16, s: Vec<i32>) {
    net(|n| n.peers.insert(port, s.into_iter().collect()));
}
pub fn clear_scripts(port: u16) {
    net(|n| {
        n.accepts.remove(&port);
        n.peers.remove(&port);
    });
}
fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}
fn local_port(fd: c_int) -> u16 {
    let mut a = [0u8; 128];
    let mut l = 128u32;
    unsafe {
        if getsockname(fd, a.as_mut_ptr() as *mut c_void, &mut l) != 0 {
            return 0;
        }
    }
    u16::from_be_bytes([a[2], a[3]])
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const c_void, len: u32) -> c_int {
    let b = addr as *const u8;
    if len >= 16 && u16::from_ne_bytes([*b, *b.add(1)]) == 2 && {
        let b = std::slice::from_raw_parts(b, 16);
        // the harness's own networks, and any address a case has a server for
        b[4] == 127 && (b[5] == 77 || b[5] == 78) || net(|n| n.routes.contains_key(&(u32::from_be_bytes([b[4], b[5], b[6], b[7]]), u16::from_be_bytes([b[2], b[3]]))))
    } {
        let mut a = [0u8; 16];
        std::ptr::copy_nonoverlapping(b, a.as_mut_ptr(), 16);
        let port = u16::from_be_bytes([a[2], a[3]]);
        let ip = u32::from_be_bytes([a[4], a[5], a[6], a[7]]);
        let r = net(|n| {
            n.log.entry(ip).or_default().push(port);
            n.faults.get(&ip).cloned().map_or(n.routes.get(&(ip, port)).cloned().ok_or(ECONNREFUSED), Err)
        });
        return match r {
            Err(e) => {
                set_errno(e);
                -1
            }
            Ok(p) => {
                a[2..4].copy_from_slice(&p.to_be_bytes());
                a[4..8].copy_from_slice(&[127, 0, 0, 1]);
                syscall(SYS_CONNECT, fd as c_long, a.as_ptr(), 16 as c_long) as c_int
            }
        };
    }
    syscall(SYS_CONNECT, fd as c_long, addr, len as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, addr: *mut c_void, len: *mut u32, flags: c_int) -> c_int {
    let p = local_port(fd);
    let e = net(|n| n.accepts.get_mut(&p).and_then(|q| q.pop_front())).unwrap_or(0);
    if e != 0 {
        set_errno(e);
        return -1;
    }
    syscall(SYS_ACCEPT4, fd as c_long, addr, len, flags as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, addr: *mut c_void, len: *mut u32) -> c_int {
    let p = local_port(fd);
    let e = net(|n| n.peers.get_mut(&p).and_then(|q| q.pop_front())).unwrap_or(0);
    if e != 0 {
        set_errno(e);
        return -1;
    }
    syscall(SYS_GETPEERNAME, fd as c_long, addr, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(node: *const c_char, service: *const c_char, hints: *const c_void, res: *mut *mut c_void) -> c_int {
    type F = unsafe extern "C" fn(*const c_char, *const c_char, *const c_void, *mut *mut c_void) -> c_int;
    let real: F = std::mem::transmute(dlsym(-1isize as *mut c_void, b"getaddrinfo\0".as_ptr() as *const c_char));
    if !node.is_null() {
        let h = CStr::from_ptr(node).to_string_lossy().to_string();
        if h.ends_with(".test") || net(|n| n.dns.contains_key(&h)) {
            return match net(|n| n.dns.get(&h).cloned()) {
                None => -2,
                Some(ip) => {
                    let s = CString::new(std::net::Ipv4Addr::from(ip).to_string()).unwrap();
                    real(s.as_ptr(), service, hints, res)
                }
            };
        }
    }
    real(node, service, hints, res)
}
/// closing this socket sends a reset
pub fn reset_on_close(fd: i32) {
    let v: [c_int; 2] = [1, 0];
    unsafe {
        setsockopt(fd, 1, 13, v.as_ptr() as *const c_void, 8);
    }
}
/// raise the number of open files; the limit in effect
pub fn more_files() -> u64 {
    let mut l = [0u64; 2];
    unsafe {
        if getrlimit(7, &mut l) != 0 {
            return 1024;
        }
        let want = [l[1], l[1]];
        if setrlimit(7, &want) == 0 {
            return l[1];
        }
    }
    l[0]
}
/// The stand-ins are in effect (they must be: otherwise nothing here is checked)
pub fn selftest() {
    let ip = u32::from(std::net::Ipv4Addr::new(127, 77, 255, 254));
    name("selftest.mc.test", ip);
    let r = std::net::TcpStream::connect("selftest.mc.test:9");
    assert!(r.is_err() && attempts(ip) == vec![9], "network stand-ins are not in effect: {:?} {:?}", r, attempts(ip));
    forget("selftest.mc.test", ip);
}
