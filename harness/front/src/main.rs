//! The frontend's other half.
//!   hfront serve                              an editor behind a pipe
//!   hfront rows <profile> <seed> <count> <out>   random documents
mod serve;

use hcommon::*;
use hlang::rows::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    quiet_panics();
    big_stack(move || match a[1].as_str() {
        "serve" => serve::serve(),
        "rows" => {
            let mut r = Rng::new(a[3].parse().unwrap());
            let mut log = Log::new(&a[5]);
            for _ in 0..a[4].parse().unwrap() {
                let row = random_row(&mut r, &a[2], "std");
                log.put(json!({"op":"parse","lang":"std","row":named(row)}));
            }
            println!("LOGGED {}", log.done());
        }
        x => panic!("HARNESS: {x}"),
    });
}
