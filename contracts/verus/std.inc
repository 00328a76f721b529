// Assumed contracts of library functions that vstd does not specify
pub assume_specification<T, A: std::alloc::Allocator> [std::collections::VecDeque::<T, A>::front] (d: &std::collections::VecDeque<T, A>) -> (r: Option<&T>)
    ensures d@.len() == 0 ==> r is None, d@.len() > 0 ==> r == Some(&d@[0]);
pub assume_specification<T, A: std::alloc::Allocator> [std::collections::VecDeque::<T, A>::back] (d: &std::collections::VecDeque<T, A>) -> (r: Option<&T>)
    ensures d@.len() == 0 ==> r is None, d@.len() > 0 ==> r == Some(&d@[d@.len() - 1]);
pub assume_specification<T, A: std::alloc::Allocator> [std::collections::VecDeque::<T, A>::back_mut] (d: &mut std::collections::VecDeque<T, A>) -> (r: Option<&mut T>)
    ensures old(d)@.len() == 0 ==> r is None && final(d)@ == old(d)@,
        old(d)@.len() > 0 ==> (r matches Some(x) && *x == old(d)@[old(d)@.len() - 1] && final(d)@ == old(d)@.update(old(d)@.len() - 1, *final(x)));
// debug_assert!(e) is checked as an obligation
pub fn vassert(e: bool) requires e {}
pub assume_specification<T, A: std::alloc::Allocator> [std::vec::Vec::<T, A>::into_boxed_slice] (v: std::vec::Vec<T, A>) -> (r: std::boxed::Box<[T], A>)
    ensures r@ == v@;
// stands for `dst[from .. to].copy_from_slice(src)`
#[verifier::external_body]
pub fn copy_into(dst: &mut Box<[u8]>, from: usize, to: usize, src: &[u8])
    requires from <= to <= old(dst)@.len(), to - from == src@.len(),
    ensures final(dst)@ == old(dst)@.subrange(0, from as int) + src@ + old(dst)@.subrange(to as int, old(dst)@.len() as int),
{ dst[from .. to].copy_from_slice(src); }
pub assume_specification<T> [std::mem::replace] (dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src;
