//! C05, work: run under callgrind, which dumps the instructions executed by each operation.
//! usage: c05w SHAPE N
use cbored::validate::Validator;
use cbored::*;
use mon::gen::Rng;
use mon::shapes;
use mon::typ::*;
use std::hint::black_box;

/// valgrind client request
#[cfg(target_arch = "x86_64")]
fn vg(req: u64, arg: u64) {
    let a: [u64; 6] = [req, arg, 0, 0, 0, 0];
    let mut _r: u64 = 0;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            inout("rdx") _r, in("rax") a.as_ptr(), inout("rdi") 0u64 => _,
        );
    }
}
const DUMP_AT: u64 = 0x4354_0003;
const ZERO: u64 = 0x4354_0001;

fn op(name: &str, f: impl FnOnce() -> usize) {
    let c = format!("op={}\0", name);
    vg(ZERO, 0);
    let r = black_box(f());
    vg(DUMP_AT, c.as_ptr() as u64);
    println!("{} {}", name.replace(' ', "_"), r);
}

/// where the content of the first item starts
fn content(b: &[u8]) -> usize {
    match b[0] & 31 {
        n @ 24..=27 => 1 + (1 << (n - 24)),
        _ => 1,
    }
}

fn main() {
    let a: Vec<usize> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    let (k, n) = (a[0], a[1]);
    let b = shapes::shape(k, n);
    let b = &b[..];
    println!("bytes {}", b.len());
    // warm up
    let _ = Reader::new(&[0x82, 1, 2]).data();
    let _ = Rng::new(1, 1, 1);
    op("validate", || Validator::new(b).next().is_ok() as usize);
    op("generic read", || Reader::new(b).data().is_ok() as usize);
    op("skip as element", || {
        let mut v = vec![0x81u8];
        v.extend_from_slice(b);
        Reader::new(&v).array().map(|a| a.len()).unwrap_or(0)
    });
    op("exact slice", || Reader::new(b).exact_decodable_slice::<DataOwned>().is_ok() as usize);
    op("exact data", || Reader::new(b).exact_decodable_data::<DataOwned>().map(|d| encode_to_bytes(&d).len()).unwrap_or(0));
    op("decode owned", || decode_from_bytes::<DataOwned>(b).is_ok() as usize);
    op("owned and written", || Reader::new(b).data().map(|d| encode_to_bytes(&d.owned().clone()).len()).unwrap_or(0));
    op("content", || match Reader::new(b).data() {
        Ok(Data::Bytes(x)) => x.to_vec().len() + x.len(),
        Ok(Data::Text(x)) => x.to_string().len() + x.to_str_chunks().len(),
        Ok(Data::Array(x)) => x.iter().map(|r| r.remaining_bytes()).sum::<usize>() + (0..x.len()).map(|i| x[i].as_ref().len()).sum::<usize>(),
        Ok(Data::Map(x)) => x.iter().map(|(k, v)| k.remaining_bytes() + v.remaining_bytes()).sum::<usize>() + x.keys().count() + x.values().count(),
        Ok(Data::Tag(x)) => x.data().as_ref().len(),
        _ => 0,
    });
    op("elements read", || match Reader::new(b).data() {
        Ok(Data::Array(x)) => x.iter().filter(|_| true).map(|mut r| r.data().is_ok() as usize).sum::<usize>(),
        Ok(Data::Map(x)) => x.iter().map(|(mut k, mut v)| k.data().is_ok() as usize + v.data().is_ok() as usize).sum::<usize>(),
        Ok(Data::Tag(x)) => x.decode_data::<DataOwned>().is_ok() as usize,
        _ => 0,
    });
    op("vec of data", || decode_from_bytes::<VecOf<DataOwned>>(b).map(|v| v.0.len()).unwrap_or(0));
    op("vec of u64", || decode_from_bytes::<VecOf<u64>>(b).map(|v| v.0.len()).unwrap_or(0));
    op("vec of vec", || decode_from_bytes::<VecOf<VecOf<u64>>>(b).map(|v| v.0.len()).unwrap_or(0));
    op("bytes", || decode_from_bytes::<Vec<u8>>(b).map(|v| v.len()).unwrap_or(0));
    op("string", || decode_from_bytes::<String>(b).map(|v| v.len()).unwrap_or(0));
    op("fixed bytes", || decode_from_bytes::<[u8; 4]>(b).is_ok() as usize);
    op("cut validate", || Validator::new(&b[..b.len() - 1]).next().is_ok() as usize);
    op("cut read", || Reader::new(&b[..b.len() - 1]).data().is_ok() as usize);
    op("validate contents", || {
        // the elements as a sequence
        let mut v = Validator::new(&b[content(b)..]);
        let mut n = 0;
        while v.next().is_ok() {
            n += 1
        }
        n
    });
    op("read contents", || {
        let mut r = Reader::new(&b[content(b)..]);
        let mut n = 0;
        // in steps that are single items: nothing is read twice
        while r.scalar().is_ok() || r.bytes().is_ok() || r.text().is_ok() {
            n += 1
        }
        n
    });
}
