fn main() {
    std::process::exit(vsim_oracle::driver::main(vsim_dst::exec));
}
