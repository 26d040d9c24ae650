mod c09;
mod c10;
mod c18;
mod c21;
mod run;

use mcx::Prop;

static PROPS: &[Prop] = &[
    Prop { id: "C09", level: "model_checking", enumerate: c09::enumerate, check: c09::check },
    Prop { id: "C10", level: "model_checking", enumerate: c10::enumerate, check: c10::check },
    Prop { id: "C18", level: "model_checking", enumerate: c18::enumerate, check: c18::check },
    Prop { id: "C21T", level: "model_checking", enumerate: c21::enumerate, check: c21::check },
];

fn main() {
    mcx::main(PROPS)
}
