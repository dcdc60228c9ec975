//! Request line (tab separated):
//!   timeout_ms  stdin-hex|"-"|"@path"  outfile|"-"  KEY=VAL;KEY=VAL|"-"  program  arg...
//! Response line: rc|"sig"N|"timeout"  stdout-hex  stderr-hex(shortened)  file-hex|"-"
use std::io::{BufRead, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
    fn setrlimit(what: i32, limits: *const u64) -> i32;
    fn pipe2(fds: *mut i32, flags: i32) -> i32;
    fn setsockopt(fd: i32, level: i32, name: i32, val: *const i32, len: u32) -> i32;
}

fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    (0..b.len() / 2)
        .map(|i| u8::from_str_radix(std::str::from_utf8(&b[2 * i..2 * i + 2]).unwrap(), 16).unwrap())
        .collect()
}
fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}

type Slot = Mutex<Option<(i32, Instant, bool)>>;

fn feed<W: Write>(mut w: W, d: &[u8], piece: usize, delay: Duration) {
    if piece == 0 {
        let _ = w.write_all(d);
        return;
    }
    for c in d.chunks(piece) {
        if w.write_all(c).is_err() || w.flush().is_err() {
            return;
        }
        std::thread::sleep(delay);
    }
}

/// sets up the limits of the child: file size, with the signal ignored so that writing fails
fn limit(cmd: &mut Command, fsize: u64) {
    use std::os::unix::process::CommandExt;
    unsafe {
        cmd.pre_exec(move || {
            signal(25, 1); // SIGXFSZ, SIG_IGN
            let r = [fsize, fsize];
            if setrlimit(1, r.as_ptr()) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
}

/// More output than this is never expected: the process is ended ("flood")
const MOST: usize = 1 << 27;

struct Collected {
    status: std::process::ExitStatus,
    stdout: Vec<u8>,
    stderr: Vec<u8>,
    flood: bool,
}

/// of a very long log the beginning and the end
fn ends<R: std::io::Read>(mut r: R) -> Vec<u8> {
    const K: usize = 200000;
    let (mut head, mut tail, mut more) = (Vec::new(), Vec::new(), false);
    let mut b = vec![0u8; 65536];
    loop {
        let n = match r.read(&mut b) {
            Ok(0) => break,
            Ok(n) => n,
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
            Err(_) => break,
        };
        let k = n.min(K - head.len());
        head.extend_from_slice(&b[..k]);
        tail.extend_from_slice(&b[k..n]);
        if tail.len() > 8 * K {
            more = true;
            tail.drain(..tail.len() - K);
        }
    }
    if tail.len() > K {
        more = true;
        tail.drain(..tail.len() - K);
    }
    if more {
        head.extend_from_slice(b"\n...\n");
    }
    head.extend_from_slice(&tail);
    head
}

fn collect(child: &mut std::process::Child) -> Collected {
    use std::io::Read;
    drop(child.stdin.take());
    let (so, se) = (child.stdout.take(), child.stderr.take());
    let pid = child.id() as i32;
    let mut stdout = Vec::new();
    let mut flood = false;
    let stderr = std::thread::scope(|s| {
        let h = s.spawn(move || se.map(ends).unwrap_or_default());
        if let Some(so) = so {
            let _ = so.take(MOST as u64 + 1).read_to_end(&mut stdout);
            if stdout.len() > MOST {
                flood = true;
                unsafe { kill(pid, 9) };
            }
        }
        h.join().unwrap()
    });
    Collected { status: child.wait().expect("wait"), stdout, stderr, flood }
}

/// Source of standard input:
///   -            nothing        @path        that file        x<hex>      a pipe
///   p<n>,<us>:<hex>  a pipe fed in pieces of n bytes with a pause
///   e<hex>       a non-blocking pipe that delivers these bytes and then stalls
///   r<hex>       a connection that delivers these bytes and is then reset
///   w            a descriptor that cannot be read
///   s<n>:<path>  that file, of which n bytes have been read already
/// Environment entries that start with @:
///   @stdout=<path>  standard output goes to this (new or device) file
///   @stdout=closed  to a pipe nobody reads      @stdout=read:<m>  that is closed after m bytes
///   @fsize=<m>      no file may grow beyond m bytes
///   @cwd=<path>  working directory      @uid=<n>  user and group      @unset=<name>
///   @fifo=<path>,<n>:<hex>  feeds the named pipe
fn one(line: &str, slot: &Slot) -> String {
    use std::os::fd::OwnedFd;
    use std::os::unix::process::ExitStatusExt;
    let f: Vec<&str> = line.split('\t').collect();
    let timeout = Duration::from_millis(f[0].parse().unwrap());
    let outfile = f[2];
    let mut cmd = Command::new(f[4]);
    cmd.args(&f[5..]).env("RUST_BACKTRACE", "0").env_remove("RUST_LOG");
    let mut sink: Option<&str> = None;
    let mut fifo: Option<(String, usize, Vec<u8>)> = None;
    if f[3] != "-" {
        for kv in f[3].split(';') {
            let (k, v) = kv.split_once('=').unwrap();
            match k {
                "@stdout" => sink = Some(v),
                "@fsize" => limit(&mut cmd, v.parse().unwrap()),
                "@fifo" => {
                    let (p, r) = v.split_once(',').unwrap();
                    let (n, h) = r.split_once(':').unwrap();
                    fifo = Some((p.to_string(), n.parse().unwrap(), unhex(h)));
                }
                "@cwd" => {
                    cmd.current_dir(v);
                }
                "@uid" => {
                    use std::os::unix::process::CommandExt;
                    let n: u32 = v.parse().unwrap();
                    cmd.uid(n).gid(n);
                }
                "@unset" => {
                    cmd.env_remove(v);
                }
                _ => {
                    cmd.env(k, v);
                }
            }
        }
    }
    let mut data: Option<(Vec<u8>, usize, u64)> = None;
    let mut hold: Vec<OwnedFd> = Vec::new(); // kept open until the child has ended
    let mut peer: Option<std::net::TcpStream> = None;
    match f[1].as_bytes()[0] {
        b'-' => {
            cmd.stdin(Stdio::null());
        }
        b'@' => {
            cmd.stdin(std::fs::File::open(&f[1][1..]).unwrap());
        }
        b's' => {
            use std::io::Seek;
            let (n, p) = f[1][1..].split_once(':').unwrap();
            let mut h = std::fs::File::open(p).unwrap();
            h.seek(std::io::SeekFrom::Start(n.parse().unwrap())).unwrap();
            cmd.stdin(h);
        }
        b'w' => {
            cmd.stdin(std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap());
        }
        b'p' => {
            let (h, d) = f[1][1..].split_once(':').unwrap();
            let (n, us) = h.split_once(',').unwrap();
            data = Some((unhex(d), n.parse().unwrap(), us.parse().unwrap()));
            cmd.stdin(Stdio::piped());
        }
        b'e' => {
            use std::os::fd::FromRawFd;
            let mut fds = [0i32; 2];
            assert_eq!(unsafe { pipe2(fds.as_mut_ptr(), 0o2000000 | 0o4000) }, 0); // O_CLOEXEC | O_NONBLOCK
            let (r, w) = unsafe { (OwnedFd::from_raw_fd(fds[0]), OwnedFd::from_raw_fd(fds[1])) };
            let mut w = std::fs::File::from(w);
            w.write_all(&unhex(&f[1][1..])).unwrap();
            hold.push(w.into());
            cmd.stdin(r);
        }
        b'r' => {
            let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
            let mut c = std::net::TcpStream::connect(l.local_addr().unwrap()).unwrap();
            let (s, _) = l.accept().unwrap();
            c.write_all(&unhex(&f[1][1..])).unwrap();
            // wait until everything has arrived at the other side
            let want = f[1][1..].len() / 2;
            let mut b = vec![0u8; want + 1];
            while want > 0 && s.peek(&mut b).unwrap() < want {
                std::thread::sleep(Duration::from_millis(1));
            }
            peer = Some(c);
            cmd.stdin(OwnedFd::from(s));
        }
        _ => {
            data = Some((unhex(&f[1][1..]), 0, 0));
            cmd.stdin(Stdio::piped());
        }
    }
    let mut readmax: Option<usize> = None;
    match sink {
        None => {
            cmd.stdout(Stdio::piped());
        }
        Some("closed") => {
            let (r, w) = std::io::pipe().unwrap();
            drop(r);
            cmd.stdout(w);
        }
        Some(x) if x.starts_with("read:") => {
            readmax = Some(x[5..].parse().unwrap());
            cmd.stdout(Stdio::piped());
        }
        Some(p) => {
            cmd.stdout(std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(p).unwrap());
        }
    }
    cmd.stderr(Stdio::piped());
    if outfile != "-" && !outfile.starts_with("keep:") && !outfile.starts_with("/dev/") {
        let _ = std::fs::remove_file(outfile);
    }
    let outfile = outfile.strip_prefix("keep:").unwrap_or(outfile);
    let mut child = cmd.spawn().expect("spawn");
    drop(cmd); // closes our copies of the child's descriptors
    *slot.lock().unwrap() = Some((child.id() as i32, Instant::now() + timeout, false));
    let stdin = child.stdin.take();
    let mut early: Option<Vec<u8>> = None;
    let out = std::thread::scope(|s| {
        if let Some(c) = peer.take() {
            // SO_LINGER with a timeout of zero: closing resets the connection
            use std::os::fd::AsRawFd;
            let l = [1i32, 0i32];
            assert_eq!(unsafe { setsockopt(c.as_raw_fd(), 1, 13, l.as_ptr(), 8) }, 0);
            drop(c);
        }
        if let Some((p, n, d)) = &fifo {
            s.spawn(move || {
                if let Ok(w) = std::fs::OpenOptions::new().write(true).open(p) {
                    feed(w, d, *n, Duration::from_micros(200));
                }
            });
        }
        if let (Some(si), Some((d, n, us))) = (stdin, data) {
            if d.len() <= 32768 && n == 0 {
                feed(si, &d, n, Duration::ZERO);
            } else {
                s.spawn(move || feed(si, &d, n, Duration::from_micros(us)));
            }
        }
        if let Some(m) = readmax {
            use std::io::Read;
            let so = child.stdout.take().unwrap();
            let mut b = Vec::new();
            so.take(m as u64).read_to_end(&mut b).unwrap(); // closes the pipe
            early = Some(b);
        }
        let out = collect(&mut child);
        if let Some((p, _, _)) = &fifo {
            // a writer may still wait for a reader
            use std::os::unix::fs::OpenOptionsExt;
            let r = std::fs::OpenOptions::new().read(true).custom_flags(0o4000).open(p);
            std::thread::sleep(Duration::from_millis(2));
            drop(r);
        }
        out
    });
    drop(hold);
    let killed = slot.lock().unwrap().take().map(|x| x.2).unwrap_or(false);
    let st = if out.flood {
        "flood".to_string()
    } else if killed {
        "timeout".to_string()
    } else if let Some(c) = out.status.code() {
        c.to_string()
    } else {
        format!("sig{}", out.status.signal().unwrap_or(0))
    };
    let stdout = match (sink, early) {
        (_, Some(b)) => b,
        (Some(p), _) if p.starts_with('/') && !p.starts_with("/dev/") => {
            let d = std::fs::read(p).unwrap_or_default();
            let _ = std::fs::remove_file(p);
            d
        }
        _ => out.stdout,
    };
    let file = if outfile == "-" || outfile.starts_with("/dev/") {
        "-".to_string()
    } else {
        match std::fs::read(outfile) {
            Ok(mut d) => {
                let _ = std::fs::remove_file(outfile);
                d.truncate(MOST);
                format!("x{}", hex(&d))
            }
            Err(_) => "-".to_string(),
        }
    };
    let e: &[u8] = &out.stderr;
    format!("{}\tx{}\tx{}\t{}", st, hex(&stdout), hex(e), file)
}

pub fn run(threads: usize) {
    let lines: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
    let n = lines.len();
    let next = AtomicUsize::new(0);
    let results: Vec<Mutex<String>> = (0..n).map(|_| Mutex::new(String::new())).collect();
    let slots: Vec<Slot> = (0..threads).map(|_| Mutex::new(None)).collect();
    let done = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (lines, next, results, slots, done) = (&lines, &next, &results, &slots, &done);
            s.spawn(move || {
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    let r = one(&lines[i], &slots[t]);
                    *results[i].lock().unwrap() = r;
                }
                done.fetch_add(1, Ordering::SeqCst);
            });
        }
        // watchdog
        while done.load(Ordering::SeqCst) < threads {
            std::thread::sleep(Duration::from_millis(3));
            let now = Instant::now();
            for sl in &slots {
                let mut g = sl.lock().unwrap();
                if let Some((pid, dl, k)) = g.as_mut() {
                    if now > *dl && !*k {
                        *k = true;
                        unsafe { kill(*pid, 9) };
                    }
                }
            }
        }
    });
    let so = std::io::stdout();
    let mut w = std::io::BufWriter::new(so.lock());
    for r in &results {
        writeln!(w, "{}", r.lock().unwrap()).unwrap();
    }
    w.flush().unwrap();
}
