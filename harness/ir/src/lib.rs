#[no_mangle]
pub extern "C" fn vh_main(h: u32, job: u32) {
    vcore::run(h, job);
}
