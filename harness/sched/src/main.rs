#![allow(unexpected_cfgs)]

mod c06;
mod explore;
mod ops;
mod pool;
mod relay;
mod step;

use mcx::Prop;

static PROPS: &[Prop] =
    &[Prop { id: "C06", level: "model_checking", enumerate: c06::enumerate, check: c06::check }];

fn main() {
    mcx::main(PROPS)
}
