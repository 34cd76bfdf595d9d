// Drives the Rust library line by line: every request line is answered by one
// line starting with '@' (the library itself prints to stdout as well).
use qnip::query::QueryDb;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    (0..b.len() / 2)
        .map(|i| u8::from_str_radix(std::str::from_utf8(&b[2 * i..2 * i + 2]).unwrap(), 16).unwrap())
        .collect()
}

fn answer(r: std::io::Result<qnip::data::IpInfo>) -> String {
    match r {
        Ok(i) => {
            let f = [&i.country, &i.province, &i.city, &i.district, &i.isp, &i.asn, &i.continent, &i.line];
            let h: Vec<String> = f.iter().map(|x| hex(x.as_bytes())).collect();
            format!("I {}", h.join(","))
        }
        Err(e) => format!("E {}", hex(e.to_string().as_bytes())),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut db: Option<QueryDb> = None;
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let (op, arg) = (&line[..1], if line.len() > 2 { &line[2..] } else { "" });
        let r = catch_unwind(AssertUnwindSafe(|| match op {
            "O" | "F" => {
                db = None;
                let r = if op == "O" {
                    QueryDb::from_bytes(&unhex(arg))
                } else {
                    QueryDb::from_file(std::str::from_utf8(&unhex(arg)).unwrap())
                };
                match r {
                    Ok(d) => {
                        db = Some(d);
                        "K".to_string()
                    }
                    Err(e) => format!("E {}", hex(e.to_string().as_bytes())),
                }
            }
            "V" => {
                let v = db.as_ref().unwrap().version();
                let l: Vec<String> = v.languages.iter().map(|x| hex(x.as_bytes())).collect();
                let x: Vec<String> = v.extra_info.clone().unwrap_or_default().iter().map(|x| hex(x.as_bytes())).collect();
                format!("V {} {} {} [{}] [{}] [{}] {} {}", v.ip_type, v.count, v.build, hex(v.version.as_bytes()), l.join(","), x.join(","), v.has_ipv4(), v.has_ipv6())
            }
            "Q" => answer(db.as_ref().unwrap().query(&unhex(arg))),
            "S" => answer(db.as_ref().unwrap().query_str(std::str::from_utf8(&unhex(arg)).unwrap())),
            "U" => answer(db.as_ref().unwrap().query_u32(arg.parse().unwrap())),
            // L <n> <seed> <4|16>: n queries of pseudo-random addresses
            "L" => {
                let f: Vec<u64> = arg.split(' ').map(|x| x.parse().unwrap()).collect();
                let mut x = f[1] | 1;
                let mut next = || {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    x
                };
                let mut ok = 0;
                for _ in 0..f[0] {
                    let mut ip = next().to_be_bytes().to_vec();
                    ip.extend(next().to_be_bytes());
                    let r = if f[2] == 4 { db.as_ref().unwrap().query(&ip[..4]) } else { db.as_ref().unwrap().query(&ip) };
                    ok += r.is_ok() as u32;
                }
                format!("K {}", ok)
            }
            _ => "X unknown request".to_string(),
        }));
        let s = match r {
            Ok(s) => s,
            Err(p) => {
                let m = if let Some(s) = p.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = p.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "?".to_string()
                };
                format!("P {}", hex(m.as_bytes()))
            }
        };
        let mut o = std::io::stdout();
        writeln!(o, "\n@{}", s).unwrap();
        o.flush().unwrap();
    }
}
