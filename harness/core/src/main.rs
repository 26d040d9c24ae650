#![allow(unexpected_cfgs)]

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c07;
mod c08;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c19;
mod c20;
mod c21;
mod common;
mod far;

use mcx::Prop;

#[global_allocator]
static HEAP: c21::Counting = c21::Counting;

static PROPS: &[Prop] = &[
    Prop { id: "C01", level: "model_checking", enumerate: c01::enumerate, check: c01::check },
    Prop { id: "C02", level: "model_checking", enumerate: c02::enumerate, check: c02::check },
    Prop { id: "C03", level: "model_checking", enumerate: c03::enumerate, check: c03::check },
    Prop { id: "C04", level: "model_checking", enumerate: c04::enumerate, check: c04::check },
    Prop { id: "C05", level: "model_checking", enumerate: c05::enumerate, check: c05::check },
    Prop { id: "C07", level: "model_checking", enumerate: c07::enumerate, check: c07::check },
    Prop { id: "C08", level: "model_checking", enumerate: c08::enumerate, check: c08::check },
    Prop { id: "C13R", level: "model_checking", enumerate: c13::enumerate, check: c13::check },
    Prop { id: "C14", level: "model_checking", enumerate: c14::enumerate, check: c14::check },
    Prop { id: "C15", level: "model_checking", enumerate: c15::enumerate, check: c15::check },
    Prop { id: "C16", level: "model_checking", enumerate: c16::enumerate, check: c16::check },
    Prop { id: "C17", level: "model_checking", enumerate: c17::enumerate, check: c17::check },
    Prop { id: "C19", level: "model_checking", enumerate: c19::enumerate, check: c19::check },
    Prop { id: "C20", level: "model_checking", enumerate: c20::enumerate, check: c20::check },
    Prop { id: "C21", level: "model_checking", enumerate: c21::enumerate, check: c21::check },
    Prop { id: "C01M", level: "model_checking", enumerate: far::c01, check: far::check },
    Prop { id: "C02M", level: "model_checking", enumerate: far::c02, check: far::check },
    Prop { id: "C03M", level: "model_checking", enumerate: far::c03, check: far::check },
    Prop { id: "C05M", level: "model_checking", enumerate: far::c05, check: far::check },
    Prop { id: "C07M", level: "model_checking", enumerate: far::c07, check: far::check },
    Prop { id: "C08M", level: "model_checking", enumerate: far::c08, check: far::check },
    Prop { id: "C13M", level: "model_checking", enumerate: far::c13, check: far::check },
    Prop { id: "C14M", level: "model_checking", enumerate: far::c14, check: far::check },
    Prop { id: "C15M", level: "model_checking", enumerate: far::c15, check: far::check },
    Prop { id: "C17M", level: "model_checking", enumerate: far::c17, check: far::check },
];

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 2 && args[1] == "--processor" {
        c20::child_main(&args[2..]);
    }
    mcx::main(PROPS)
}
