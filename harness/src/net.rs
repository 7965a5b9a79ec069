//! Opening the library's connections and the raw client end of each.
use bsp_server::{Connection, IoThreads};
use std::io::{self, Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::{Duration, Instant};

pub const HANG: Duration = Duration::from_secs(20);

static NEXT: AtomicU32 = AtomicU32::new(0);

/// A loopback address nobody else in this process (and hardly anybody outside) uses.
pub fn fresh_addr() -> SocketAddr {
    let n = NEXT.fetch_add(1, Ordering::SeqCst);
    let pid = std::process::id();
    let port = 20_000 + ((pid.wrapping_mul(31) + n / 60_000 * 7) % 10_000) as u16;
    let n = n % 60_000;
    SocketAddr::from(([127, 1 + (pid % 200) as u8, (n / 250) as u8, (n % 250) as u8 + 1], port))
}

pub enum Client {
    Tcp(TcpStream),
    Child(std::process::Child),
}

/// Runs `server` in a thread with a connection opened by `Connection::connect`; the raw end is accepted here.
pub fn tcp_pair(listen: bool, server: impl FnOnce(Connection, IoThreads) + Send + 'static) -> io::Result<TcpStream> {
    if listen {
        let addr = fresh_addr();
        std::thread::spawn(move || match listen_on(addr) {
            Ok((c, t)) => server(c, t),
            Err(e) => eprintln!("listen {addr}: {e}"),
        });
        let s = connect_to(|| TcpStream::connect(addr))?;
        s.set_nodelay(true)?;
        Ok(s)
    } else {
        // Not always the same address: closed connections hold their ports for a while.
        let mut tries = 0;
        let l = loop {
            match TcpListener::bind(fresh_addr()) {
                Err(_) if tries < 50 => tries += 1,
                l => break l?,
            }
        };
        let addr = l.local_addr()?;
        std::thread::spawn(move || match Connection::connect(addr) {
            Ok((c, t)) => server(c, t),
            Err(e) => eprintln!("connect {addr}: {e}"),
        });
        let (s, _) = l.accept()?;
        s.set_nodelay(true)?;
        Ok(s)
    }
}

/// `Connection::listen`; the address may be held for a moment by a child about to exec.
fn listen_on(addr: SocketAddr) -> io::Result<(Connection, IoThreads)> {
    let start = Instant::now();
    loop {
        match Connection::listen(addr) {
            Err(e) if e.kind() == io::ErrorKind::AddrInUse && start.elapsed() < HANG => std::thread::sleep(Duration::from_millis(1)),
            r => return r,
        }
    }
}

fn connect_to<T>(f: impl Fn() -> io::Result<T>) -> io::Result<T> {
    let start = Instant::now();
    loop {
        match f() {
            Err(e) if start.elapsed() > HANG => return Err(e),
            Err(_) => std::thread::sleep(Duration::from_micros(200)),
            ok => return ok,
        }
    }
}

/// Two connections of the library, one listening and one connecting.
pub fn library_pair() -> io::Result<((Connection, IoThreads), (Connection, IoThreads))> {
    let addr = fresh_addr();
    let t = std::thread::spawn(move || listen_on(addr));
    let c = connect_to(|| Connection::connect(addr))?;
    Ok((t.join().unwrap()?, c))
}

pub fn half_close(s: &TcpStream) {
    let _ = s.shutdown(Shutdown::Write);
}

pub trait ReadWrite: Read + Write {}
impl<T: Read + Write> ReadWrite for T {}

/// Two connections over channels of a given capacity.
pub fn bounded_pair(cap: usize) -> (Connection, Connection) {
    let ((s1, r1), (s2, r2)) = (crossbeam_channel::bounded(cap), crossbeam_channel::bounded(cap));
    (Connection { sender: s1, receiver: r2 }, Connection { sender: s2, receiver: r1 })
}
