fn main() {
    brec::build_setup();
}
