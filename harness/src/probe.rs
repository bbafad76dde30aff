//! Programs that show the recorded findings: exit 0 if the crate behaves as
//! the property says, 3 if it does not (or die by a signal).
use indexing::algorithms::*;
use indexing::scope;

pub fn run(name: &str) -> i32 {
    let (f, x): (fn(&mut [u32]), &str) = match name {
        "qs_range-sorted" => (quicksort_range, "sorted"), "qs_range-equal" => (quicksort_range, "equal"),
        "qs_bounds-sorted" => (quicksort_bounds, "sorted"), "qs_bounds-equal" => (quicksort_bounds, "equal"),
        #[cfg(feature = "ptr")] "qs_prange-sorted" => (quicksort_prange, "sorted"),
        #[cfg(feature = "ptr")] "qs_prange-equal" => (quicksort_prange, "equal"),
        "qs_range-random" => (quicksort_range, "random"), "qs_bounds-random" => (quicksort_bounds, "random"),
        #[cfg(feature = "ptr")] "zst-len" => return bad(|| scope(&[(); 3][..], |v| v.pointer_range().len() == 3)),
        #[cfg(feature = "ptr")] "zst-nonempty" => return bad(|| scope(&[(); 3][..], |v| v.pointer_range().nonempty().is_ok())),
        #[cfg(feature = "ptr")] "zst-zip" => return bad(|| { let mut k = 0; scope(&[(); 3][..], |v| indexing::pointer::zip(v.pointer_range(), &v, v.pointer_range(), &v, |_, _| k += 1)); k == 3 }),
        _ => panic!("probe"),
    };
    // 20000 elements in 512 KiB of stack: plenty for logarithmic recursion
    let n = 20000u32;
    let mut v: Vec<u32> = (0..n).map(|i| match x { "sorted" => i, "equal" => 7, _ => i.wrapping_mul(2654435761) >> 7 }).collect();
    std::thread::Builder::new().stack_size(512 << 10).spawn(move || { f(&mut v); if v.windows(2).all(|w| w[0] <= w[1]) { 0 } else { 3 } }).unwrap().join().unwrap_or(3)
}
#[cfg(feature = "ptr")]
fn bad<F: FnOnce() -> bool>(f: F) -> i32 { match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(true) => 0, _ => 3 } }
