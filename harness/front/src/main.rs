//! The WebAssembly entry point as a native function: texts in, what it shows out.
use std::io::{Read, Write};
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    std::thread::Builder::new().stack_size(1 << 28).spawn(|| {
        let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
        let mut l = [0u8; 8];
        while i.read_exact(&mut l).is_ok() {
            let mut b = vec![0u8; u64::from_le_bytes(l) as usize];
            i.read_exact(&mut b).unwrap();
            let text = String::from_utf8(b).unwrap();
            let out = match std::panic::catch_unwind(|| postgresql_cst_parser_wasm::parse_sql(&text)) {
                Ok(s) => format!("S{s}").into_bytes(),
                Err(_) => b"P".to_vec(),
            };
            o.write_all(&(out.len() as u64).to_le_bytes()).unwrap();
            o.write_all(&out).unwrap();
            o.flush().unwrap();
        }
    }).unwrap().join().unwrap();
}
