// A token stand-in for gtest that can hold transfer requests back and answer them in any order.
// Control messages: [1, hold]; [2, n, kind, payload..]: answer held request n (kind 0 reply, 1 trap).
#![no_std]
#![no_main]
#![allow(static_mut_refs)]
#[link(wasm_import_module = "env")]
extern "C" {
    fn gr_size(n: *mut u32);
    fn gr_read(at: u32, len: u32, buf: *mut u8, err: *mut u32);
    fn gr_message_id(id: *mut [u8; 32]);
    fn gr_reply(payload: *const u8, len: u32, value: *const u8, err_mid: *mut [u8; 36]);
    fn gr_wait() -> !;
    fn gr_wake(id: *const [u8; 32], delay: u32, err: *mut u32);
}
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! { core::arch::wasm32::unreachable() }

#[derive(Clone, Copy)]
struct Slot { id: [u8; 32], state: u8, kind: u8, len: u32, data: [u8; 96] }
static mut SLOTS: [Slot; 64] = [Slot { id: [0; 32], state: 0, kind: 0, len: 0, data: [0; 96] }; 64];
static mut USED: usize = 0;
static mut HOLD: bool = false;
static mut BUF: [u8; 256] = [0; 256];

unsafe fn reply(p: *const u8, n: u32) { let mut e = [0u8; 36]; gr_reply(p, n, u32::MAX as *const u8, &mut e); }
#[no_mangle]
extern "C" fn init() {}
#[no_mangle]
unsafe extern "C" fn handle() {
    let (mut n, mut e) = (0u32, 0u32);
    gr_size(&mut n);
    if n > 256 { core::arch::wasm32::unreachable() }
    gr_read(0, n, BUF.as_mut_ptr(), &mut e);
    if BUF[0] == 0x0c {
        let mut id = [0u8; 32];
        gr_message_id(&mut id);
        let mut i = 0;
        while i < USED {
            if SLOTS[i].id == id {
                if SLOTS[i].state == 0 { gr_wait() }
                SLOTS[i].state = 2;
                if SLOTS[i].kind == 1 { core::arch::wasm32::unreachable() }
                reply(SLOTS[i].data.as_ptr(), SLOTS[i].len);
                return;
            }
            i += 1;
        }
        if HOLD { SLOTS[USED].id = id; USED += 1; gr_wait() }
        // Vft, TransferFrom, true
        let mut k = 0;
        while k < 17 { BUF[200 + k] = BUF[k]; k += 1; }
        BUF[217] = 1;
        reply(BUF.as_ptr().add(200), 18);
    } else if BUF[0] == 1 {
        HOLD = BUF[1] != 0;
    } else {
        let s = &mut SLOTS[BUF[1] as usize];
        s.state = 1;
        s.kind = BUF[2];
        s.len = n - 3;
        let mut k = 0;
        while k < (n - 3) as usize { s.data[k] = BUF[3 + k]; k += 1; }
        gr_wake(&s.id, 0, &mut e);
    }
}
