//! C19: reading and writing image files (all files live in a scratch directory created and removed here)
use crate::util::*;
use imgproc_rs::image::*;
use imgproc_rs::io;
use std::sync::atomic::{AtomicU64, Ordering};

static NEXT: AtomicU64 = AtomicU64::new(0);
struct Dir(std::path::PathBuf);
impl Dir {
    fn new() -> Dir { let p = std::env::temp_dir().join(format!("vp-witness-io-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::SeqCst))); std::fs::create_dir_all(&p).unwrap(); Dir(p) }
    fn file(&self, n: &str) -> String { self.0.join(n).to_str().unwrap().to_string() }
}
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

fn roundtrip(r: &mut Rng, it: u64) -> Res {
    let d = Dir::new();
    let (w, h) = dims1(r, it, 20);
    let mut n = 0;
    for (c, a) in [(1u8, false), (2, true), (3, false), (4, true), (1, true), (2, false), (3, true), (4, false), (5, false), (5, true), (0, false)] {
        let valid = matches!((c, a), (1, false) | (2, true) | (3, false) | (4, true));
        let rf = R::build(w, h, c, a, |_, _, _| r.byte());
        for ext in ["png", "bmp"] {
            // bmp does not store alpha or gray+alpha losslessly
            if ext == "bmp" && (a || c != 3) { continue; }
            let path = d.file(&format!("t{}_{}.{}", c, a, ext));
            let din = || format!("write as {} then read: {}", ext, desc(&rf));
            let im = rf.img();
            n += must_err(din, !valid, || io::write(&im, &path))?;
            n += eq(|| format!("{} (file exists after write)", din()), &valid, &std::path::Path::new(&path).exists())?;
            n += eq_img(din, &rf, &R::of(&im))?;
            if valid { n += eq_img(din, &rf, &R::of(&run(din, || io::read(&path))?))?; }
        }
    }
    // too little data for the stated dimensions
    let short_img = Image::<u8>::from_vec(w + 1, h, 3, false, vec![7; (w * h * 3) as usize]);
    let p = d.file("short.png");
    n += must_err(|| format!("write of {}x{}x3 with {} bytes", w + 1, h, w * h * 3), true, || io::write(&short_img, &p))?;
    n += eq(|| "file exists after a failed write".into(), &false, &std::path::Path::new(&p).exists())?;
    n += must_err(|| "read of a missing file".into(), true, || io::read(&d.file("missing.png")))?;
    n += must_err(|| "write to an unknown format".into(), true, || io::write(&Image::<u8>::from_vec(1, 1, 1, false, vec![3]), &d.file("x.unknown")))?;
    // 16-bit PNGs are not an 8-bit colour type
    for (ct, ch) in [(0u8, 1usize), (2, 3), (4, 2), (6, 4)] {
        for bits in [8u8, 16] {
            let q = d.file(&format!("raw{}_{}.png", ct, bits));
            let bytes = ch * bits as usize / 8;
            let row: Vec<u8> = (0..bytes * 2).map(|i| i as u8 * 9 + 1).collect();
            std::fs::write(&q, png(2, 1, bits, ct, &row)).unwrap();
            let din = || format!("read a {}-bit PNG of colour type {}", bits, ct);
            if bits == 16 { n += must_err(din, true, || io::read(&q))?; }
            else { n += eq_img(din, &R { w: 2, h: 1, c: ch as u8, a: ct >= 4, d: row.clone() }, &R::of(&run(din, || io::read(&q))?))?; }
        }
    }
    Ok(n)
}
fn crc(d: &[u8]) -> u32 { let mut c = !0u32; for b in d { c ^= *b as u32; for _ in 0..8 { c = if c & 1 == 1 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 }; } } !c }
fn adler(d: &[u8]) -> u32 { let (mut a, mut b) = (1u32, 0u32); for x in d { a = (a + *x as u32) % 65521; b = (b + a) % 65521; } b << 16 | a }
/// a one-row PNG with a stored (uncompressed) deflate block
fn png(w: u32, h: u32, bits: u8, ct: u8, row: &[u8]) -> Vec<u8> {
    let mut o = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
    let mut chunk = |t: &[u8], d: &[u8]| { o.extend((d.len() as u32).to_be_bytes()); let mut b = t.to_vec(); b.extend(d); o.extend(&b); o.extend(crc(&b).to_be_bytes()); };
    let mut hd = vec![]; hd.extend(w.to_be_bytes()); hd.extend(h.to_be_bytes()); hd.extend([bits, ct, 0, 0, 0]);
    chunk(b"IHDR", &hd);
    let mut raw = vec![0u8]; raw.extend(row);
    let mut z = vec![0x78, 1, 1]; z.extend((raw.len() as u16).to_le_bytes()); z.extend((!(raw.len() as u16)).to_le_bytes()); z.extend(&raw); z.extend(adler(&raw).to_be_bytes());
    chunk(b"IDAT", &z); chunk(b"IEND", &[]);
    o
}
pub const SUBS: &[Sub] = &[Sub { prop: "C19", name: "roundtrip", quick: 120, thorough: 1500, run: roundtrip }];
