fn main() { ndsim_gen::build_script() }
