//! Finds the word of a structure that counts something, by watching it, so that any value can be put there.

pub struct Watch {
    live: [[bool; 256]; 3],
}
#[derive(Clone, Copy)]
pub struct Place {
    offset: usize,
    pub width: usize,
}
pub fn get<T>(t: &T, p: Place) -> u64 {
    let a = unsafe { (t as *const T as *const u8).add(p.offset) };
    unsafe {
        match p.width {
            8 => core::ptr::read_volatile(a as *const u64),
            4 => core::ptr::read_volatile(a as *const u32) as u64,
            _ => core::ptr::read_volatile(a as *const u16) as u64,
        }
    }
}
const WIDTHS: [usize; 3] = [8, 4, 2];
impl Watch {
    pub fn new() -> Watch {
        Watch { live: [[true; 256]; 3] }
    }
    /// the count is n now
    pub fn see<T>(&mut self, t: &T, n: u64) {
        for (k, width) in WIDTHS.iter().enumerate() {
            let width = *width;
            for i in 0..256 {
                if i * width + width > core::mem::size_of::<T>() || width > core::mem::align_of::<T>() {
                    self.live[k][i] = false;
                } else if self.live[k][i] && get(t, Place { offset: i * width, width }) != n {
                    self.live[k][i] = false;
                }
            }
        }
    }
    /// the one widest word that counts
    pub fn place(&self) -> Option<Place> {
        for (k, width) in WIDTHS.iter().enumerate() {
            let mut hit = None;
            let mut n = 0;
            for i in 0..256 {
                if self.live[k][i] {
                    hit = Some(Place { offset: i * width, width: *width });
                    n += 1;
                }
            }
            if n > 0 {
                return if n == 1 { hit } else { None };
            }
        }
        None
    }
}
pub fn put<T>(t: &mut T, p: Place, x: u64) {
    let a = unsafe { (t as *mut T as *mut u8).add(p.offset) };
    unsafe {
        match p.width {
            8 => core::ptr::write_volatile(a as *mut u64, x),
            4 => core::ptr::write_volatile(a as *mut u32, x as u32),
            _ => core::ptr::write_volatile(a as *mut u16, x as u16),
        }
    }
}
