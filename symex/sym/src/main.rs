#![no_main]

#[unsafe(no_mangle)]
pub extern "C" fn sx_main(job: u64) -> u64 {
    vprops::run(job)
}

#[unsafe(no_mangle)]
pub extern "C" fn main(argc: i32, _argv: *const *const u8) -> i32 {
    sx_main(argc as u64) as i32
}
