// Real programs for the interpreter: compiled by rustc with the whole standard library.
// argv[1] selects the program, the rest are its arguments; input comes from stdin.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, VecDeque};
use std::fmt::{self, Write as _};
use std::hash::{BuildHasherDefault, Hasher};
use std::io::{self, BufRead, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Default)]
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3); } }
}
type Map<K, V> = HashMap<K, V, BuildHasherDefault<Fnv>>;

struct Rng(u64);
impl Rng { fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 } }

fn queens(n: u32) -> u32 {
    fn go(n: u32, cols: u32, d1: u32, d2: u32) -> u32 {
        let full = (1 << n) - 1; if cols == full { return 1; }
        let mut c = 0; let mut free = full & !(cols | d1 | d2);
        while free != 0 { let b = free & free.wrapping_neg(); free ^= b; c += go(n, cols | b, ((d1 | b) << 1) & full, (d2 | b) >> 1); }
        c
    }
    go(n, 0, 0, 0)
}
fn sorts(n: usize, seed: u64) {
    let mut r = Rng(seed | 1); let v: Vec<i64> = (0..n).map(|_| r.next() as i64 >> 40).collect();
    let mut a = v.clone(); a.sort(); let mut b = v.clone(); b.sort_unstable_by(|x, y| y.cmp(x)); let h: BinaryHeap<_> = v.iter().collect();
    let s: BTreeSet<_> = v.iter().map(|x| x & 63).collect(); let mut f: Vec<f64> = v.iter().map(|&x| x as f64 / 7.0).collect(); f.sort_by(|x, y| x.partial_cmp(y).unwrap());
    println!("{:?} {:?} {:?} {:?}", &a[..n.min(5)], &b[..n.min(5)], h.peek(), s.len());
    println!("{:?} {:?}", f.first(), f.iter().sum::<f64>());
    assert!(a.windows(2).all(|w| w[0] <= w[1])); assert!(b.iter().rev().eq(a.iter()));
}
fn words() {
    let mut s = String::new(); io::stdin().read_to_string(&mut s).unwrap();
    let mut m: Map<String, usize> = Map::default(); for w in s.split_whitespace() { *m.entry(w.to_lowercase()).or_default() += 1; }
    let mut v: Vec<_> = m.into_iter().collect(); v.sort_by(|a, b| b.1.cmp(&a.1).then(a.0.cmp(&b.0))); for (w, c) in v { println!("{w:>8} {c:03}"); }
}
fn lines() { for (i, l) in io::stdin().lock().lines().enumerate() { let l = l.unwrap(); println!("{i}: {:?} {}", l, l.chars().rev().collect::<String>()); eprintln!("{}", l.len()); } }

#[derive(Debug, Clone, PartialEq)]
enum Tok { Num(f64), Op(char), Open, Close }
#[derive(Debug)]
enum Bad { Char(char), End, Extra(Tok) }
impl fmt::Display for Bad { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { match self { Bad::Char(c) => write!(f, "unexpected {c:?}"), Bad::End => f.write_str("unexpected end"), Bad::Extra(t) => write!(f, "extra {t:?}") } } }
impl std::error::Error for Bad {}
fn lex(s: &str) -> Result<VecDeque<Tok>, Box<dyn std::error::Error>> {
    let mut q = VecDeque::new(); let mut it = s.chars().peekable();
    while let Some(&c) = it.peek() {
        match c {
            ' ' => { it.next(); }
            '0'..='9' | '.' => { let mut n = String::new(); while let Some(&d) = it.peek() { if d.is_ascii_digit() || d == '.' || d == 'e' { n.push(d); it.next(); } else { break; } } q.push_back(Tok::Num(n.parse()?)); }
            '+' | '-' | '*' | '/' | '^' => { q.push_back(Tok::Op(c)); it.next(); }
            '(' => { q.push_back(Tok::Open); it.next(); }
            ')' => { q.push_back(Tok::Close); it.next(); }
            c => return Err(Box::new(Bad::Char(c))),
        }
    }
    Ok(q)
}
fn expr(q: &mut VecDeque<Tok>, min: u8) -> Result<f64, Bad> {
    let mut l = match q.pop_front() { Some(Tok::Num(n)) => n, Some(Tok::Op('-')) => -expr(q, 9)?, Some(Tok::Open) => { let v = expr(q, 0)?; match q.pop_front() { Some(Tok::Close) => v, Some(t) => return Err(Bad::Extra(t)), None => return Err(Bad::End) } } Some(t) => return Err(Bad::Extra(t)), None => return Err(Bad::End) };
    while let Some(Tok::Op(c)) = q.front().cloned() {
        let (lb, rb) = match c { '+' | '-' => (1, 2), '*' | '/' => (3, 4), _ => (6, 5) }; if lb < min { break; } q.pop_front(); let r = expr(q, rb)?;
        l = match c { '+' => l + r, '-' => l - r, '*' => l * r, '/' => l / r, _ => l.powf(r) };
    }
    Ok(l)
}
fn calc(s: &str) -> Result<(), Box<dyn std::error::Error>> { let mut q = lex(s)?; let v = expr(&mut q, 0)?; if let Some(t) = q.pop_front() { return Err(Box::new(Bad::Extra(t))); } println!("{v} {v:e} {v:.3} {:?} {:x} {}", v, v.to_bits(), v as i32); Ok(()) }

trait Shape { fn area(&self) -> f32; fn name(&self) -> String { "shape".into() } }
struct Sq(f32); struct Ci(f32); struct Po(Vec<(f32, f32)>);
impl Shape for Sq { fn area(&self) -> f32 { self.0 * self.0 } }
impl Shape for Ci { fn area(&self) -> f32 { std::f32::consts::PI * self.0.powi(2) } fn name(&self) -> String { format!("circle {}", self.0) } }
impl Shape for Po { fn area(&self) -> f32 { let p = &self.0; (0..p.len()).map(|i| { let (a, b) = (p[i], p[(i + 1) % p.len()]); a.0 * b.1 - b.0 * a.1 }).sum::<f32>().abs() / 2.0 } fn name(&self) -> String { format!("{}-gon", self.0.len()) } }
struct Noisy(&'static str, Rc<RefCell<String>>);
impl Drop for Noisy { fn drop(&mut self) { write!(self.1.borrow_mut(), "{}-", self.0).unwrap(); } }
fn dynamic(n: usize) {
    let v: Vec<Box<dyn Shape>> = (0..n).map(|i| -> Box<dyn Shape> { match i % 3 { 0 => Box::new(Sq(i as f32 + 0.5)), 1 => Box::new(Ci(i as f32 / 3.0)), _ => Box::new(Po((0..i + 1).map(|k| ((k as f32).sin(), (k as f32).cos() * 2.0)).collect())) } }).collect();
    for s in &v { println!("{:<10}|{:>12.5}|{:+e}", s.name(), s.area(), s.area()); }
    let c = Cell::new(0u64); let fs: Vec<Box<dyn Fn(u64) -> u64 + '_>> = vec![Box::new(|x| { c.set(c.get() + 1); x * 3 }), Box::new(|x| x.rotate_left(7) ^ c.get()), Box::new(|x| x / 5 + 1)];
    let mut x = n as u64; for i in 0..n * 3 { x = fs[i % 3](x); } println!("{x} {}", c.get());
    let log = Rc::new(RefCell::new(String::new())); { let _a = Noisy("a", log.clone()); let b = Noisy("b", log.clone()); let _c = vec![Noisy("c", log.clone()), Noisy("d", log.clone())]; drop(b); } println!("{} {}", log.borrow(), Rc::strong_count(&log));
}
fn wide(n: u32) {
    let mut a: u128 = 1; for i in 1..=n as u128 { a = a.wrapping_mul(i * i + 1); } println!("{a} {} {:x}", a % 1_000_000_007, a / 12345678901234567);
    let b = a as i128; println!("{} {} {}", b, b >> 65, (b as f64)); println!("{} {} {}", a.leading_zeros(), a.count_ones(), (a as u64).trailing_zeros());
    for k in [0.1f32, 1e-40, 3.4e38, -0.0, f32::NAN, f32::INFINITY] { println!("{k} {k:?} {:e} {} {} {}", k, k as f64, k as i32, k as u64); }
    for k in ["1e400", "-1e-400", "4.9e-324", "0.30000000000000004", "123456789012345678901234567890"] { let v: f64 = k.parse().unwrap(); println!("{v:?} {} {}", v as u8, v.sqrt().mul_add(2.0, 1.0)); }
}
fn files(dir: &str) -> io::Result<()> {
    let p = format!("{dir}/a.txt"); std::fs::write(&p, "hello\nworld\n")?; let mut f = std::fs::OpenOptions::new().read(true).append(true).open(&p)?; writeln!(f, "more {}", 1.5)?; f.seek(SeekFrom::Start(3))?; let mut s = String::new(); f.read_to_string(&mut s)?; println!("{s:?} {}", f.stream_position()?); drop(f);
    let mut f = std::fs::File::create(format!("{dir}/b.bin"))?; for i in 0..40u8 { f.write_all(&[i; 7])?; } f.seek(SeekFrom::End(-3))?; f.write_all(b"xyz12")?; println!("{}", f.metadata()?.len()); drop(f);
    let b = std::fs::read(format!("{dir}/b.bin"))?; println!("{} {:?}", b.iter().map(|&x| x as u64).sum::<u64>(), &b[275..]); std::fs::rename(format!("{dir}/b.bin"), format!("{dir}/c.bin"))?; println!("{:?}", std::fs::read(format!("{dir}/b.bin")).map_err(|e| e.kind())); println!("{:?}", std::fs::metadata(format!("{dir}/c.bin"))?.is_file()); std::fs::remove_file(&p)?; println!("{}", std::path::Path::new(&p).exists()); Ok(())
}
fn life(n: usize, steps: usize) {
    let mut g: Vec<Vec<bool>> = (0..n).map(|y| (0..n).map(|x| (x * 7 + y * 13) % 5 < 2).collect()).collect();
    for _ in 0..steps { g = (0..n).map(|y| (0..n).map(|x| { let c = (0..9).filter(|&k| k != 4 && g[(y + n + k / 3 - 1) % n][(x + n + k % 3 - 1) % n]).count(); c == 3 || g[y][x] && c == 2 }).collect()).collect(); }
    for r in &g { println!("{}", r.iter().map(|&b| if b { '#' } else { '.' }).collect::<String>()); }
}
fn tree(n: u32) {
    let mut m = BTreeMap::new(); let mut r = Rng(99); for _ in 0..n { let k = r.next() % 50; *m.entry(k).or_insert(0u32) += 1; if k % 7 == 0 { m.pop_first(); } if k % 11 == 0 { let x = m.split_off(&25); for (k, v) in x { m.insert(k ^ 1, v); } } } println!("{m:?} {:?}", m.range(10..20).collect::<Vec<_>>());
}
fn text(s: &str) {
    println!("{} {} {:?} {:?}", s.to_uppercase(), s.chars().count(), s.char_indices().collect::<Vec<_>>(), s.bytes().rev().collect::<Vec<_>>()); println!("{:?} {:?}", s.split(|c: char| !c.is_alphanumeric()).collect::<Vec<_>>(), s.find("é"));
    println!("{:?} {:?} {:?}", s.parse::<i8>().map_err(|e| e.to_string()), s.parse::<u64>().ok(), i64::from_str_radix(s, 16).map_err(|e| e.kind().clone())); println!("{:>+08.2}|{:^#12x}|{:<#b}|{:e}", 3.14159, 255, 5, 1234.5f32);
}
fn crash(how: &str) {
    let v = vec![1u32, 2, 3]; let i: usize = how.len();
    match how { "panic" => panic!("wanted {}", i), "index" => println!("{}", v[i]), "unwrap" => println!("{}", "x".parse::<i32>().unwrap()), "exit" => { print!("partial"); std::process::exit(42) } "abort" => std::process::abort(), "overflow" => { fn f(n: u64) -> u64 { if n == 0 { 0 } else { 1 + f(n - 1).rotate_left(1) } } println!("{}", f(2000)); } "alloc" => { let mut v: Vec<Vec<u8>> = vec![]; for k in 0..20 { v.push(vec![k; 10000]); } println!("{}", v.iter().map(|x| x[9999] as u32).sum::<u32>()); } "div" => println!("{}", 10 / (i - 3)), _ => println!("{:?}", std::env::vars().collect::<Vec<_>>()) }
}
fn clock() { let a = std::time::Instant::now(); let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap(); println!("{:?} {}", t, a.elapsed().as_nanos()); }

fn main() {
    let a: Vec<String> = std::env::args().collect(); let n = |i: usize| a.get(i).and_then(|s| s.parse().ok()).unwrap_or(0u64);
    match a.get(1).map(|s| s.as_str()) {
        Some("queens") => println!("{}", queens(n(2) as u32)), Some("sorts") => sorts(n(2) as usize, n(3)), Some("words") => words(), Some("lines") => lines(), Some("calc") => { if let Err(e) = calc(&a[2]) { eprintln!("error: {e}"); std::process::exit(3); } }
        Some("dynamic") => dynamic(n(2) as usize), Some("wide") => wide(n(2) as u32), Some("files") => { if let Err(e) = files(&a[2]) { eprintln!("{e:?}"); std::process::exit(4); } } Some("life") => life(n(2) as usize, n(3) as usize), Some("tree") => tree(n(2) as u32), Some("text") => text(&a[2]), Some("crash") => crash(&a[2]), Some("clock") => clock(),
        // every string of n characters over an alphabet, starting with the given prefix, through the calculator and the parsers of the library
        Some("every") => { let al: Vec<char> = a[2].chars().collect(); let len = n(4) as u32; for k in 0..al.len().pow(len) { let mut t = a[3].clone(); let mut k = k; for _ in 0..len { t.push(al[k % al.len()]); k /= al.len(); } let v = lex(&t).map_err(|e| e.to_string()).and_then(|mut q| expr(&mut q, 0).map_err(|e| e.to_string()).and_then(|v| match q.pop_front() { Some(x) => Err(format!("{x:?}")), None => Ok(v) })); match v { Ok(v) => println!("{t} {v} {:?} {}", v as f32, v as i64), Err(e) => println!("{t} {e} {:?} {:?}", t.parse::<i16>().ok(), t.parse::<f32>().ok().map(f32::to_bits)) } } }
        x => { eprintln!("no program {x:?}"); std::process::exit(2) }
    }
}
