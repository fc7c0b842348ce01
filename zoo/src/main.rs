mod gen;
mod hand;
mod mat;

fn main() -> std::process::ExitCode {
    let mut v = vcore::stdtypes::all();
    v.extend(gen::reg());
    v.extend(hand::reg());
    v.extend(mat::reg());
    vcore::cli::main(Box::leak(v.into_boxed_slice()))
}
