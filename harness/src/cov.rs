//! Edge counters of the instrumented build (feature `cov`, LLVM's inline 8-bit counters).
//! Only the fuzzing stage reads them, from one thread.
#[cfg(feature = "cov")]
mod imp {
    static mut REGIONS: Vec<(*mut u8, usize)> = vec![];
    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, end: *mut u8) {
        #[allow(static_mut_refs)]
        unsafe {
            let n = end as usize - start as usize;
            if n > 0 && !REGIONS.iter().any(|r| r.0 == start) {
                REGIONS.push((start, n));
            }
        }
    }
    #[allow(static_mut_refs)]
    pub fn regions() -> &'static [(*mut u8, usize)] {
        unsafe { &REGIONS }
    }
}
#[cfg(not(feature = "cov"))]
mod imp {
    pub fn regions() -> &'static [(*mut u8, usize)] {
        &[]
    }
}

/// which buckets of hit counts each edge has been seen in
pub struct Seen {
    map: Vec<u8>,
    pub edges: usize,
}
fn bucket(n: u8) -> u8 {
    match n {
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}
impl Seen {
    pub fn new() -> Self {
        Seen { map: vec![0; imp::regions().iter().map(|r| r.1).sum()], edges: 0 }
    }
    pub fn instrumented(&self) -> bool {
        !self.map.is_empty()
    }
    pub fn clear() {
        for (p, n) in imp::regions() {
            unsafe { std::ptr::write_bytes(*p, 0, *n) }
        }
    }
    /// take the counters in (and clear them); is there something new?
    pub fn take(&mut self) -> bool {
        let mut new = false;
        let mut o = 0;
        for &(p, n) in imp::regions() {
            let mut k = 0;
            while k < n {
                unsafe {
                    if k + 8 <= n && (p.add(k) as *const u64).read_unaligned() == 0 {
                        k += 8;
                        continue;
                    }
                    let c = *p.add(k);
                    if c != 0 {
                        *p.add(k) = 0;
                        let m = &mut self.map[o + k];
                        let b = bucket(c);
                        if *m & b == 0 {
                            if *m == 0 {
                                self.edges += 1;
                            }
                            *m |= b;
                            new = true;
                        }
                    }
                }
                k += 1;
            }
            o += n;
        }
        new
    }
}
