pub open spec fn bit(f: Seq<u64>, i: int) -> bool { (f[i / 64] >> ((i % 64) as u64)) & 1 != 0 }
pub open spec fn nfrags(len: int) -> int { if len == 0 { 1 } else { (len + MAX_FRAGMENT_SIZE - 1) / (MAX_FRAGMENT_SIZE as int) } }
pub open spec fn flen(len: int, i: int) -> int { if i == nfrags(len) - 1 { len - i * MAX_FRAGMENT_SIZE } else { MAX_FRAGMENT_SIZE as int } }
// fragment i of a packet with contents p
pub open spec fn frag(p: Seq<u8>, i: int) -> Seq<u8> { p.subrange(i * MAX_FRAGMENT_SIZE, i * MAX_FRAGMENT_SIZE + flen(p.len() as int, i)) }
// a fragment which the receiver accepts: only the last one may be short
pub open spec fn frag_ok(n: int, i: int, len: int) -> bool { 0 <= i < n && len <= MAX_FRAGMENT_SIZE && (i == n - 1 || len == MAX_FRAGMENT_SIZE) }
// setting one bit
pub proof fn bit_set(f: Seq<u64>, k: int, n: int) requires 0 <= k < 64 * f.len(), n <= 64 * f.len()
    ensures forall|i: int| 0 <= i < n ==> #[trigger] bit(f.update(k / 64, f[k / 64] | (1u64 << ((k % 64) as u64))), i) == (i == k || bit(f, i)),
{
    let s = (k % 64) as u64;
    let w = f[k / 64];
    let g = f.update(k / 64, w | (1u64 << s));
    assert forall|i: int| 0 <= i < n implies #[trigger] bit(g, i) == (i == k || bit(f, i)) by {
        let t = (i % 64) as u64;
        if i / 64 == k / 64 {
            assert(((w | (1u64 << s)) >> t) & 1 != 0 <==> (s == t || (w >> t) & 1 != 0)) by (bit_vector) requires s < 64, t < 64;
        }
    }
}
// stands for `vec![0u64; n].into_boxed_slice()`
pub fn zero_flags(n: usize) -> (r: Box<[u64]>) ensures r@.len() == n, forall|i: int| 0 <= i < 64 * n ==> !#[trigger] bit(r@, i)
{
    let v = vec![0u64; n]; let r = v.into_boxed_slice();
    assert forall|i: int| 0 <= i < 64 * n implies !#[trigger] bit(r@, i) by { let s = (i % 64) as u64; assert((0u64 >> s) & 1 == 0) by (bit_vector); }
    r
}
