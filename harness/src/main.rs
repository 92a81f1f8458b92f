fn main() {
    lsim::proc::no_aslr();
    lsim::run::main();
}
