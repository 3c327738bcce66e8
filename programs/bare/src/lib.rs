#![no_std]

pub use stylish::Style;

#[cfg(not(feature = "std"))]
#[panic_handler]
fn panic(_: &core::panic::PanicInfo<'_>) -> ! {
    loop {}
}

#[cfg(feature = "alloc")]
mod heap {
    struct None;
    unsafe impl core::alloc::GlobalAlloc for None {
        unsafe fn alloc(&self, _: core::alloc::Layout) -> *mut u8 {
            core::ptr::null_mut()
        }
        unsafe fn dealloc(&self, _: *mut u8, _: core::alloc::Layout) {}
    }
    #[global_allocator]
    static HEAP: None = None;
}
