//! A build of the parser with other features: texts in on stdin, results out on stdout, each with a length prefix.
use postgresql_cst_parser::{parse, NodeOrToken, ResolvedNode};
use std::io::{Read, Write};

fn rec(n: &ResolvedNode, out: &mut Vec<u8>) {
    let r = n.text_range();
    out.push(b'(');
    out.extend((n.kind() as u32).to_le_bytes());
    out.extend(u32::from(r.start()).to_le_bytes());
    out.extend(u32::from(r.end()).to_le_bytes());
    for c in n.children_with_tokens() {
        match c {
            NodeOrToken::Node(n) => rec(n, out),
            NodeOrToken::Token(t) => {
                let r = t.text_range();
                out.push(b't');
                out.extend((t.kind() as u32).to_le_bytes());
                out.extend(u32::from(r.start()).to_le_bytes());
                out.extend(u32::from(r.end()).to_le_bytes());
                out.extend((t.text().len() as u32).to_le_bytes());
                out.extend(t.text().as_bytes());
            }
        }
    }
    out.push(b')');
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    std::thread::Builder::new().stack_size(1 << 28).spawn(|| {
        let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
        let mut l = [0u8; 8];
        while i.read_exact(&mut l).is_ok() {
            let mut b = vec![0u8; u64::from_le_bytes(l) as usize];
            i.read_exact(&mut b).unwrap();
            let text = String::from_utf8(b).unwrap();
            let out = match std::panic::catch_unwind(|| parse(&text)) {
                Ok(Ok(t)) => { let mut v = vec![b'T']; rec(&t, &mut v); v }
                Ok(Err(e)) => format!("E{e:?}").into_bytes(),
                Err(_) => b"P".to_vec(),
            };
            o.write_all(&(out.len() as u64).to_le_bytes()).unwrap();
            o.write_all(&out).unwrap();
            o.flush().unwrap();
        }
    }).unwrap().join().unwrap();
}
