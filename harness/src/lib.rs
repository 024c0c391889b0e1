//! Runtime monitors for cbored: reference model, generators and process monitors.
pub mod drv;
pub mod ex;
pub mod gen;
pub mod nest;
pub mod obs;
pub mod paths;
pub mod refc;
pub mod rt;
pub mod sch;
pub mod shapes;
pub mod typ;

/// return an error from a case when the condition is false
#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => {
        if !($c) {
            return Err(format!($($a)*));
        }
    };
}

/// compare two values, and return an error with both from a case if they differ
#[macro_export]
macro_rules! ckeq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b));
        }
    }};
}

pub fn unhex(h: &str) -> Vec<u8> {
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i >= 160 {
            s.push_str(&format!("...({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{:02x}", x));
    }
    s
}
