fn main() {
    vfh::vf::native_main()
}
