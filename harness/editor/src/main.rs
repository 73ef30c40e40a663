//! Conformance harness for the editor (caret, autocomplete, serialization).
//!   heditor replay <cases.ndjson> <from> <to>        replays cases printed by TLC
//!   heditor histories <cases.ndjson> <from> <to> <log> <twin>
//!                                   executes histories printed by TLC, recording them
//!   heditor drive <profile[:twin]> <seed> <count> <log>
//!                                   records random histories
mod replay;
mod run;
mod serial;

use hcommon::*;
use run::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    quiet_panics();
    watchdog(20);
    big_stack(move || match a[1].as_str() {
        "replay" => hcommon::replay(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), replay::case),
        "histories" => {
            use std::io::BufRead;
            let mut log = Log::new(&a[5]);
            let (from, to): (usize, usize) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            for line in std::io::BufReader::new(std::fs::File::open(&a[2]).expect("HARNESS: cases")).lines().skip(from).take(to - from) {
                let v: Value = serde_json::from_str(&line.unwrap()).expect("HARNESS: case is not JSON");
                // "shipped": with the rules of the page
                let own = a[6] == "shipped";
                let rules = if own { shipped() } else { v["rules"].clone() };
                let mut h = History::start(&v["tree"], &rules, if own { "none" } else { &a[6] }, &mut log);
                for c in arr(&v["cmds"]) {
                    if !h.step(c) {
                        break;
                    }
                }
            }
            println!("LOGGED {}", log.done());
        }
        "drive" => {
            let mut log = Log::new(&a[5]);
            let mut what = a[2].split(':');
            let profile = what.next().unwrap().to_string();
            let twin = what.next().unwrap_or("none").to_string();
            if profile == "serial" {
                serial::drive(a[3].parse().unwrap(), a[4].parse().unwrap(), &mut log);
                println!("LOGGED {}", log.done());
                return;
            }
            drive(&profile, &twin, a[3].parse().unwrap(), a[4].parse().unwrap(), &mut log);
            println!("LOGGED {}", log.done());
        }
        x => panic!("HARNESS: {x}"),
    });
}
