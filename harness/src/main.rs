fn main() {
    harness::main()
}
