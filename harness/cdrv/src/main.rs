mod c07;
mod c11;
mod c14;
mod c16;
mod c21;
mod clib;
mod kernels;
mod m32;

use mcx::Prop;

static PROPS: &[Prop] = &[
    Prop { id: "C07C", level: "model_checking", enumerate: c07::enumerate, check: c07::check },
    Prop { id: "C11", level: "model_checking", enumerate: c11::enumerate, check: c11::check },
    Prop { id: "C12", level: "model_checking", enumerate: kernels::enumerate32, check: kernels::check32 },
    Prop { id: "C13C", level: "model_checking", enumerate: kernels::enumerate64, check: kernels::check64 },
    Prop { id: "C14C", level: "model_checking", enumerate: c14::enumerate, check: c14::check },
    Prop { id: "C16C", level: "model_checking", enumerate: c16::enumerate, check: c16::check },
    Prop { id: "C21C", level: "model_checking", enumerate: c21::enumerate, check: c21::check },
];

fn main() {
    mcx::main(PROPS)
}
