//! Request line (tab separated):  function[@type]  arg...
//! Arrays are comma separated integers ("-" is the empty array).
//! Response line: "ok\t<json>" or "panic\t<message>".
use std::collections::VecDeque;
use std::io::{BufRead, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use stringology::{core, io, word};

fn arr(s: &str) -> Vec<i64> {
    if s == "-" {
        return vec![];
    }
    s.split(',').map(|x| x.parse().unwrap()).collect()
}
trait Sym: Ord + Copy + Clone {
    fn from(x: i64) -> Self;
    fn to(self) -> i64;
}
macro_rules! sym {
    ($($t:ty),*) => { $(impl Sym for $t { fn from(x: i64) -> Self { x as $t } fn to(self) -> i64 { self as i64 } })* };
}
sym!(u8, u16, u32, usize, i64, i32);
fn v<T: Sym>(s: &str) -> Vec<T> {
    arr(s).into_iter().map(T::from).collect()
}
fn us(s: &str) -> Vec<usize> {
    arr(s).into_iter().map(|x| x as usize).collect()
}
trait J {
    fn j(&self) -> String;
}
macro_rules! jint {
    ($($t:ty),*) => { $(impl J for $t { fn j(&self) -> String { self.to_string() } })* };
}
jint!(u8, u16, u32, u64, usize, i32, i64, bool);
impl<T: J> J for Vec<T> {
    fn j(&self) -> String {
        let mut s = String::from("[");
        for (i, x) in self.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&x.j());
        }
        s.push(']');
        s
    }
}
impl<A: J, B: J> J for (A, B) {
    fn j(&self) -> String {
        format!("[{},{}]", self.0.j(), self.1.j())
    }
}
fn o<T: Sym>(x: Vec<T>) -> Vec<i64> {
    x.into_iter().map(|c| c.to()).collect()
}

/// A reader that follows a script: a number >= 0 is a byte, -1 an interruption,
/// -2 a hard error, -4 a would-block error, -5 .. -16 an error of another kind that does
/// not come again; `piece` bytes at most per call.
struct Scripted {
    s: VecDeque<i64>,
    piece: usize,
}
impl Read for Scripted {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        match self.s.front() {
            Some(-1) => {
                self.s.pop_front();
                return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "interrupted"));
            }
            Some(-2) => {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "device error"));
            }
            Some(-4) => {
                return Err(std::io::Error::new(std::io::ErrorKind::WouldBlock, "would block"));
            }
            Some(&c) if c < -4 => {
                use std::io::ErrorKind::*;
                let kinds = [
                    TimedOut, BrokenPipe, ConnectionReset, ConnectionAborted, NotConnected, PermissionDenied,
                    InvalidData, InvalidInput, NotFound, OutOfMemory, WriteZero, Other,
                ];
                self.s.pop_front();
                return Err(std::io::Error::new(kinds[(-5 - c) as usize], "not readable"));
            }
            _ => (),
        }
        let mut n = 0;
        while n < buf.len() && n < self.piece {
            match self.s.front() {
                Some(&c) if c >= 0 => {
                    buf[n] = c as u8;
                    n += 1;
                    self.s.pop_front();
                }
                _ => break,
            }
        }
        Ok(n)
    }
}

fn generic<T: Sym>(f: &str, a: &[&str]) -> Option<String> {
    Some(match f {
        "duval" => core::duval(&v::<T>(a[0])).j(),
        "bbwt" => o(core::bbwt_naive(&v::<T>(a[0]))).j(),
        "bwt_naive" => o(core::bwt_by_matrix_naive(&v::<T>(a[0]))).j(),
        "lconj" => core::lyndon_conjugate(&v::<T>(a[0])).j(),
        "primitive" => core::is_primitive(&v::<T>(a[0])).j(),
        "border" => core::border_array(&v::<T>(a[0])).j(),
        "period" => core::smallest_period(&core::border_array(&v::<T>(a[0]))).j(),
        "sa_naive" => core::suffixarray_naive(&v::<T>(a[0])).j(),
        "bwt_from_sa" => o(core::bwt_from_sa(&v::<T>(a[0]), &us(a[1]))).j(),
        "psv" => core::compute_psv(&v::<T>(a[0])).j(),
        "nsv" => core::compute_nsv(&v::<T>(a[0])).j(),
        "conj" => {
            let t = v::<T>(a[0]);
            let mut it = core::ConjugateIterator::new(&t);
            let mut r: Vec<Vec<i64>> = Vec::new();
            let limit = 2 * t.len() + 8;
            while let Some(c) = it.next() {
                r.push(o(c));
                if r.len() >= limit {
                    break;
                }
            }
            let after = it.next().is_none();
            (r, after).j()
        }
        // many rotations: how many, all of the text's length?, and the characters at some positions of some of them
        "conjsel" => {
            let t = v::<T>(a[0]);
            let (which, pos) = (us(a[1]), us(a[2]));
            let mut it = core::ConjugateIterator::new(&t);
            let (mut n, mut full, mut k) = (0usize, true, 0);
            let mut r: Vec<Vec<i64>> = Vec::new();
            while let Some(c) = it.next() {
                full = full && c.len() == t.len();
                if k < which.len() && which[k] == n {
                    let c = o(c);
                    r.push(pos.iter().map(|&i| if i < c.len() { c[i] } else { -1 }).collect());
                    k += 1;
                }
                n += 1;
                if n > 2 * t.len() {
                    break;
                }
            }
            (n, (full, r)).j()
        }
        _ => return None,
    })
}

fn indices<T>(f: &str, a: &[&str]) -> Option<String>
where
    T: Sym + J + num_like::P,
{
    Some(match f {
        "inv" => core::inverse_permutation(&v::<T>(a[0])).j(),
        "phi" => core::compute_phi(&v::<T>(a[0])).j(),
        "lcp" => core::compute_lcp(&v::<u32>(a[0]), &v::<T>(a[1])).j(),
        _ => return None,
    })
}
mod num_like {
    pub trait P: num::cast::AsPrimitive<usize> + num::cast::FromPrimitive {}
    impl<T: num::cast::AsPrimitive<usize> + num::cast::FromPrimitive> P for T {}
}

fn call(f: &str, ty: &str, a: &[&str]) -> String {
    let g = match ty {
        "u8" => generic::<u8>(f, a),
        "u16" => generic::<u16>(f, a),
        "u32" => generic::<u32>(f, a),
        "i32" => generic::<i32>(f, a),
        _ => generic::<i64>(f, a),
    };
    if let Some(s) = g {
        return s;
    }
    let g = match ty {
        "u8" => indices::<u8>(f, a),
        "u16" => indices::<u16>(f, a),
        "usize" => indices::<usize>(f, a),
        "u32" => indices::<u32>(f, a),
        "i64" => indices::<i64>(f, a),
        _ => indices::<i32>(f, a),
    };
    if let Some(s) = g {
        return s;
    }
    let num = |i: usize| -> usize { a[i].parse::<i64>().unwrap() as usize };
    match f {
        "bwt_sa" => core::bwt_from_text_by_sa(&v::<u8>(a[0])).j(),
        "bwt_matrix" => core::bwt_by_matrix(&v::<u8>(a[0])).j(),
        "plcp" => core::compute_plcp(&v::<u8>(a[0]), &v::<i32>(a[1])).j(),
        "isa_lyndon" => core::isa_lyndon_factorization(&v::<i32>(a[0])).j(),
        "divsufsort" => {
            let t = v::<u8>(a[0]);
            let mut sa = vec![0; t.len()];
            cdivsufsort::sort_in_place(&t, sa.as_mut_slice());
            sa.j()
        }
        "bit_size" => core::bit_size(num(0)).j(),
        "runs" => {
            let mut r = Scripted { s: arr(a[0]).into(), piece: num(1) };
            core::number_of_runs(&mut r).j()
        }
        "read_chars" => {
            // reads until the first error; reports what was read and how it ended
            let mut r = Scripted { s: arr(a[0]).into(), piece: num(1) };
            let mut got: Vec<u8> = Vec::new();
            let limit = r.s.len() + 2;
            let mut end = 3usize;
            while got.len() < limit {
                match catch_unwind(AssertUnwindSafe(|| io::read_char(&mut r))) {
                    Ok(Ok(c)) => got.push(c),
                    Ok(Err(e)) => {
                        end = if e.kind() == std::io::ErrorKind::UnexpectedEof { 0 } else { 1 };
                        break;
                    }
                    Err(_) => {
                        end = 2;
                        break;
                    }
                }
            }
            (got, end).j()
        }
        "file2vec" => io::file2byte_vector(a[0], num(1)).j(),
        "rsg" => {
            let mut it = core::RandomStringGenerator::new(num(0)..num(1), num(2) as u8);
            let limit = num(3);
            let mut r = Vec::new();
            let mut ended = false;
            for _ in 0..limit {
                match it.next() {
                    Some(x) => r.push(x),
                    None => {
                        ended = true;
                        break;
                    }
                }
            }
            let stays = !ended || it.next().is_none();
            (r, (ended, stays)).j()
        }
        "lwg" => {
            let mut it = core::LyndonWordGenerator::new(num(0), num(1));
            take(&mut it, num(2))
        }
        "bsg" => {
            let mut it = core::BinaryStringGenerator::new(num(0) as u8);
            take(&mut it, num(1))
        }
        "necklace" => {
            let t = v::<u8>(a[0]);
            word::is_necklace(t.as_slice(), t.len()).j()
        }
        "necklace_prefix" => {
            let t = v::<u8>(a[0]);
            word::is_necklace(t.as_slice(), num(1)).j()
        }
        "necklace_deque" => {
            let t: VecDeque<u8> = v::<u8>(a[0]).into();
            word::is_necklace(&t, t.len()).j()
        }
        "fibonacci_number" => word::fibonacci_number(num(0) as u8).j(),
        "tribonacci_number" => word::tribonacci_number(num(0) as u8).j(),
        "morph" => {
            let c = num(0) as u8;
            vec![
                word::fibonacci_morphism(c).to_vec(),
                word::tribonacci_morphism(c).to_vec(),
                word::thuemorse_morphism(c).to_vec(),
                word::vtm_morphism(c).to_vec(),
                word::fibonacci_lyndonfactor_morphism(c).to_vec(),
            ]
            .j()
        }
        "word" => wordf(a[0], num(1) as u8).j(),
        // length, and the characters at given positions (0-based)
        "wordat" => {
            let w = wordf(a[0], num(1) as u8);
            let p: Vec<i64> = us(a[2])
                .into_iter()
                .map(|i| if i < w.len() { w[i] as i64 } else { -1 })
                .collect();
            (w.len(), p).j()
        }
        "history" => history(a),
        _ => panic!("harness: unknown function {}", f),
    }
}
/// A program that uses the library: a[0] the generators, a[1] the steps, a[2] the calls,
/// a[3] the file, a[4] its contents; see spec/Calls.tla.
fn history(a: &[&str]) -> String {
    type G = Box<dyn FnMut() -> Option<Vec<i64>>>;
    let list = |s: &str| -> Vec<String> { if s == "-" { vec![] } else { s.split(';').map(|x| x.to_string()).collect() } };
    let make = |d: &str| -> G {
        let p: Vec<&str> = d.split(':').collect();
        let num = |i: usize| -> usize { p[i].parse().unwrap() };
        match p[0] {
            "lwg" => {
                let mut it = core::LyndonWordGenerator::new(num(1), num(2));
                Box::new(move || it.next().map(o))
            }
            "bsg" => {
                let mut it = core::BinaryStringGenerator::new(num(1) as u8);
                Box::new(move || it.next().map(o))
            }
            "rsg" => {
                let mut it = core::RandomStringGenerator::new(num(1)..num(2), num(3) as u8);
                Box::new(move || it.next().map(o))
            }
            "conj" => {
                let t: &'static [u8] = Box::leak(v::<u8>(p[1]).into_boxed_slice());
                let mut it = core::ConjugateIterator::new(t);
                Box::new(move || it.next().map(o))
            }
            _ => panic!("harness: unknown generator {}", d),
        }
    };
    let ds = list(a[0]);
    let mut gs: Vec<Option<G>> = ds.iter().map(|d| Some(make(d))).collect();
    let calls = list(a[2]);
    let contents = list(a[4]);
    let mut out: Vec<String> = Vec::new();
    for st in list(a[1]) {
        let i: usize = st[1..].parse().unwrap();
        out.push(match &st[..1] {
            "n" => match gs[i].as_mut().unwrap()() {
                Some(w) => format!("[1,{}]", w.j()),
                None => "[0,[]]".to_string(),
            },
            "r" => {
                gs[i] = None;
                gs[i] = Some(make(&ds[i]));
                "[0,[]]".to_string()
            }
            "c" => {
                let p: Vec<&str> = calls[i].split('/').collect();
                let (f, ty) = p[0].split_once('@').unwrap_or((p[0], "u8"));
                match catch_unwind(AssertUnwindSafe(|| call(f, ty, &p[1..]))) {
                    Ok(s) => s,
                    Err(_) => "-99".to_string(),
                }
            }
            "p" => {
                std::fs::write(a[3], v::<u8>(&contents[i])).unwrap();
                "[0,[]]".to_string()
            }
            "g" => io::file2byte_vector(a[3], i).j(),
            _ => panic!("harness: unknown step {}", st),
        });
    }
    format!("[{}]", out.join(","))
}
fn take<I: Iterator<Item = Vec<u8>>>(it: &mut I, limit: usize) -> String {
    let mut r = Vec::new();
    let mut ended = false;
    for _ in 0..limit {
        match it.next() {
            Some(x) => r.push(x),
            None => {
                ended = true;
                break;
            }
        }
    }
    let stays = !ended || (it.next().is_none() && it.next().is_none());
    (r, (ended, stays)).j()
}
fn wordf(name: &str, k: u8) -> Vec<u8> {
    match name {
        "fibonacci" => word::fibonacci_word(k),
        "fibonacci-lyndon-factor" => word::fibonacci_lyndonfactor(k),
        "tribonacci" => word::tribonacci_word(k),
        "kolakoski" => word::kolakoski_word(k),
        "thue-morse" => word::thuemorse_word(k),
        "period-doubling" => word::period_doubling_word(k),
        "paper-folding" => word::paperfolding_word(k),
        "quaternary-paper-folding" => word::quaternary_paperfolding_word(k),
        "binary-de-brujin" => word::binary_debruijn_word(k),
        "power2" => word::power2_sequence(k),
        "vtm" => word::vtm_word(k),
        _ => panic!("harness: unknown word {}", name),
    }
}

fn one(line: &str) -> String {
    let p: Vec<&str> = line.split('\t').collect();
    let (f, ty) = match p[0].split_once('@') {
        Some((f, t)) => (f, t),
        None => (p[0], "u8"),
    };
    match catch_unwind(AssertUnwindSafe(|| call(f, ty, &p[1..]))) {
        Ok(s) => format!("ok\t{}", s),
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            format!("panic\t{}", m.replace(['\n', '\t'], " "))
        }
    }
}

/// Every request by every one of `n` threads at the same time, each in an order of its own;
/// the answers, thread by thread in the order of the requests.
pub fn threads(n: usize) {
    std::panic::set_hook(Box::new(|_| {}));
    let lines: Vec<String> = std::io::stdin().lock().lines().map(|x| x.unwrap()).collect();
    let lines = std::sync::Arc::new(lines);
    let barrier = std::sync::Arc::new(std::sync::Barrier::new(n));
    let hs: Vec<_> = (0..n)
        .map(|k| {
            let (lines, barrier) = (lines.clone(), barrier.clone());
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let m = lines.len();
                    let mut r = vec![String::new(); m];
                    barrier.wait();
                    for i in 0..m {
                        let j = if k % 2 == 0 { (i + k * m / n) % m } else { (2 * m - 1 - i - k * m / n) % m };
                        r[j] = one(&lines[j]);
                    }
                    r
                })
                .unwrap()
        })
        .collect();
    let so = std::io::stdout();
    let mut w = std::io::BufWriter::new(so.lock());
    for h in hs {
        for x in h.join().unwrap() {
            writeln!(w, "{}", x).unwrap();
        }
    }
}

/// Request i by thread i % n; the threads begin their k-th request at the same time.
pub fn blocks(n: usize) {
    std::panic::set_hook(Box::new(|_| {}));
    let lines: Vec<String> = std::io::stdin().lock().lines().map(|x| x.unwrap()).collect();
    let lines = std::sync::Arc::new(lines);
    let barrier = std::sync::Arc::new(std::sync::Barrier::new(n));
    let hs: Vec<_> = (0..n)
        .map(|k| {
            let (lines, barrier) = (lines.clone(), barrier.clone());
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let mut r = Vec::new();
                    for i in 0..lines.len() / n {
                        barrier.wait();
                        r.push(one(&lines[i * n + k]));
                    }
                    r
                })
                .unwrap()
        })
        .collect();
    let rs: Vec<Vec<String>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    let so = std::io::stdout();
    let mut w = std::io::BufWriter::new(so.lock());
    for i in 0..lines.len() / n {
        for r in &rs {
            writeln!(w, "{}", r[i]).unwrap();
        }
    }
}

pub fn run() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let so = std::io::stdout();
    let mut w = std::io::BufWriter::new(so.lock());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        writeln!(w, "{}", one(&line)).unwrap();
        w.flush().unwrap();
    }
}
