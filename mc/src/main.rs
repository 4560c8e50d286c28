#![feature(once_cell, backtrace)]
mod infra;
mod c01;
mod c02;
mod snap;
mod docs;
mod c05;
mod edits;
mod c03;
mod c06;
mod c07;
mod c13;
mod hist;
mod c11;
mod c12;
mod c08;
mod c09;
mod c17;
mod c19;
mod c23;
mod c24;
mod c25;
mod c26;
mod fsi;
mod proc;
mod rich;
mod sched;
mod srcref;

use infra::*;

fn checks() -> Vec<Check> {
    vec![c01::check(), c02::check(), c03::check(), c03::check4(), c05::check(), c06::check(), c07::check(), c13::check(), c13::check14(), c13::check15(), c13::check16(), c11::check(), c12::check(), c12::check21(), c12::check22(), c08::check(), c09::check(), c09::check10(), c17::check(), c17::check18(),
        c24::check(),
        c25::check(),
        c26::check(),
        c19::check(),
        c19::check20(), c23::check()]
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let list = checks();
    let find = |id: &str| list.iter().find(|c| c.id == id);
    let usage = "mc run|worker|cases|case|count|replay|list ...";
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in &list {
                println!("{}", c.id);
            }
            0
        }
        Some("replay") => replay_main(&list, &a[2]),
        Some(cmd) if a.len() >= 4 => match find(&a[2]) {
            None => {
                eprintln!("no check {}", a[2]);
                2
            }
            Some(c) => {
                let tier = Tier::parse(&a[3]);
                match cmd {
                    "run" => run_main(c, tier),
                    "worker" => worker_main(c, tier, std::path::Path::new(&a[4]), a[5].parse().unwrap()),
                    "cases" => {
                        let l: Vec<usize> = std::fs::read_to_string(&a[4])
                            .unwrap()
                            .lines()
                            .filter_map(|s| s.parse().ok())
                            .collect();
                        cases_main(c, tier, &l)
                    }
                    "case" => case_text_main(c, tier, &a[4]),
                    "count" => {
                        let v = (c.cases)(tier);
                        println!("{}", v.len());
                        for s in v.iter().take(5) {
                            println!("{}", s);
                        }
                        0
                    }
                    _ => {
                        eprintln!("{}", usage);
                        2
                    }
                }
            }
        },
        _ => {
            eprintln!("{}", usage);
            2
        }
    };
    std::process::exit(code);
}
