mod c01;
mod c02;
mod c03;
mod c04;
mod c08;
mod c09;
mod c11;
mod c05;
mod c06;
mod c13;
mod c15;
mod c16;
mod c17;
mod c21;
mod c22;
mod common;
mod vs;

fn main() {
    replay::run();
}

mod replay {
    type Entry = (&'static str, extern "C" fn());
    pub fn run() {
        let name = std::env::args().nth(1).unwrap_or_default();
        let tables: &[&[Entry]] = &[crate::c01::ENTRIES, crate::c02::ENTRIES, crate::c03::ENTRIES, crate::c04::ENTRIES, crate::c08::ENTRIES, crate::c09::ENTRIES, crate::c11::ENTRIES, crate::c05::ENTRIES, crate::c06::ENTRIES, crate::c13::ENTRIES, crate::c15::ENTRIES, crate::c16::ENTRIES, crate::c17::ENTRIES, crate::c21::ENTRIES, crate::c22::ENTRIES];
        for t in tables {
            for (n, f) in t.iter() {
                if *n == name {
                    f();
                    return;
                }
            }
        }
        eprintln!("no harness {name}");
        std::process::exit(3);
    }
}
