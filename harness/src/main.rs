mod obs;
mod pkg;
mod scen;
mod sym;
mod xml;

use std::io::Write;

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

/// vh SCENARIO TAPEFILE SCRATCHDIR : run one scenario natively on the recorded inputs.
/// A tape file may hold many tapes separated by lines "---"; each prints one result line.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        for (n, _) in scen::ALL {
            println!("{}", n);
        }
        return;
    }
    let f = match scen::ALL.iter().find(|x| x.0 == a[1]) {
        Some(x) => x.1,
        None => {
            println!("NOSCENARIO");
            std::process::exit(2);
        }
    };
    std::panic::set_hook(Box::new(|_| {}));
    let text = std::fs::read_to_string(&a[2]).expect("tape");
    let mut tapes: Vec<Vec<sym::In>> = vec![vec![]];
    for l in text.lines() {
        if l == "---" {
            tapes.push(vec![]);
        } else if let Some(v) = l.strip_prefix("i ") {
            tapes.last_mut().unwrap().push(sym::In::Int(v.parse().unwrap()));
        } else if let Some(v) = l.strip_prefix("b ") {
            tapes.last_mut().unwrap().push(sym::In::Bytes(unhex(v)));
        } else if l == "b" {
            tapes.last_mut().unwrap().push(sym::In::Bytes(vec![]));
        }
    }
    let mut n = 0;
    for t in tapes {
        n += 1;
        let dir = format!("{}/t{}", a[3], n);
        let _ = std::fs::create_dir_all(&dir);
        pkg::set_dir(&dir);
        sym::load(t);
        let r = std::panic::catch_unwind(f);
        pkg::disk_limit(None);
        let mut out = String::new();
        match r {
            Ok(()) => out.push_str("END"),
            Err(e) => {
                if e.downcast_ref::<sym::AssumeFailed>().is_some() {
                    out.push_str("ASSUME");
                } else {
                    let m = if let Some(s) = e.downcast_ref::<String>() {
                        s.clone()
                    } else if let Some(s) = e.downcast_ref::<&str>() {
                        s.to_string()
                    } else {
                        "?".to_string()
                    };
                    out.push_str(&format!("PANIC {}", m.replace('\n', " ")));
                }
            }
        }
        for x in sym::fails() {
            out.push_str(&format!("\x1fFAIL {}", x.replace('\n', "\\n")));
        }
        for x in sym::observations() {
            out.push_str(&format!("\x1fOBS {}", x.replace('\n', "\\n")));
        }
        println!("{}", out);
        let _ = std::io::stdout().flush();
        if std::env::var_os("VH_KEEP").is_none() {
            let _ = std::fs::remove_dir_all(&dir);
        }
    }
}
