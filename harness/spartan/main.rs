fn main() {
    libspartan::verif_driver::main();
}
