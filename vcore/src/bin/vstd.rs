fn main() -> std::process::ExitCode {
    vcore::cli::main(Box::leak(vcore::stdtypes::all().into_boxed_slice()))
}
