//! Coroutines: stacks of their own and a switch between them.

use std::cell::{Cell, RefCell};

/// A saved stack pointer.
pub type Context = *mut u8;

#[cfg(not(target_arch = "x86_64"))]
compile_error!("the coroutines are written for x86-64");

// Saves the callee-saved registers, exchanges the stack pointers and returns
// on the other stack.
std::arch::global_asm!(
    ".text",
    ".p2align 4",
    ".globl mccore_switch",
    "mccore_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    ".p2align 4",
    ".globl mccore_enter",
    "mccore_enter:",
    "mov rdi, r12",
    "xor ebp, ebp",
    "call r13",
    "ud2",
);

extern "C" {
    fn mccore_switch(from: *mut Context, to: Context);
    fn mccore_enter();
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}

/// # Safety
/// `to` is the context of a suspended coroutine (or the driver) of this OS
/// thread, `from` the slot of the running one.
pub unsafe fn switch(from: *mut Context, to: Context) {
    unsafe { mccore_switch(from, to) }
}

thread_local! {
    static DRIVER: Cell<Context> = const { Cell::new(std::ptr::null_mut()) };
    static POOL: RefCell<Vec<Stack>> = const { RefCell::new(vec![]) };
}

/// Where the driver of the coroutines waits.
pub fn driver() -> Context {
    DRIVER.with(|d| d.get())
}

pub fn driver_slot() -> *mut Context {
    DRIVER.with(|d| d.as_ptr())
}

const SIZE: usize = 1 << 20;
const GUARD: usize = 1 << 14;

struct Stack(*mut u8);

impl Stack {
    fn new() -> Stack {
        if let Some(s) = POOL.with(|p| p.borrow_mut().pop()) {
            return s;
        }
        // PROT_READ | PROT_WRITE; MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
        unsafe {
            let p = mmap(std::ptr::null_mut(), SIZE, 3, 0x2 | 0x20 | 0x4000, -1, 0);
            assert!(p as isize != -1, "no memory for a stack");
            mprotect(p, GUARD, 0);
            Stack(p)
        }
    }
}

impl Drop for Stack {
    fn drop(&mut self) {
        unsafe { munmap(self.0, SIZE) };
    }
}

type Body = Box<dyn FnOnce() -> Context>;

/// A coroutine. Its body ends with the context to go on with.
pub struct Fiber {
    stack: Option<Stack>,
    // Boxed, for its address.
    ctx: Box<Context>,
    body: *mut Option<Body>,
}

// A coroutine never leaves its OS thread; executions hold them in mutexes
// that threads share in name only.
unsafe impl Send for Fiber {}

extern "C" fn enter(body: *mut Option<Body>) -> ! {
    // SAFETY: `Fiber` owns the box until the coroutine has ended.
    let b = unsafe { (*body).take() }.expect("a fresh coroutine");
    let to = b();
    let mut scrap: Context = std::ptr::null_mut();
    unsafe { mccore_switch(&mut scrap, to) };
    unreachable!("an ended coroutine was resumed")
}

impl Fiber {
    pub fn new(body: Body) -> Fiber {
        let stack = Stack::new();
        let body = Box::into_raw(Box::new(Some(body)));
        // SAFETY: the top of a fresh stack.
        let ctx = unsafe {
            let top = stack.0.add(SIZE - 64) as *mut usize;
            // After the six pops and the return, the stack pointer is `top`,
            // which is aligned to 16, as a call needs it.
            let sp = top.sub(7);
            *sp.add(0) = 0; // r15
            *sp.add(1) = 0; // r14
            *sp.add(2) = enter as *const () as usize; // r13
            *sp.add(3) = body as usize; // r12
            *sp.add(4) = 0; // rbx
            *sp.add(5) = 0; // rbp
            *sp.add(6) = mccore_enter as *const () as usize;
            sp as Context
        };
        Fiber { stack: Some(stack), ctx: Box::new(ctx), body }
    }

    pub fn slot(&mut self) -> *mut Context {
        &mut *self.ctx
    }

    pub fn context(&self) -> Context {
        *self.ctx
    }
}

impl Drop for Fiber {
    fn drop(&mut self) {
        if let Some(s) = self.stack.take() {
            POOL.with(|p| {
                let mut p = p.borrow_mut();
                if p.len() < 64 {
                    p.push(s)
                }
            });
        }
        drop(unsafe { Box::from_raw(self.body) });
    }
}
