// Window slots: an id occupies the slot given by its low bits; ids of one window have different slots
pub open spec fn pow2(size: u32) -> bool { 0 < size <= 4096 && size & ((size - 1) as u32) == 0 }
pub open spec fn slot(id: u32, size: u32) -> int { (id & ((size - 1) as u32)) as int }
pub proof fn slot_range(id: u32, size: u32) requires pow2(size) ensures 0 <= slot(id, size) < size
{ assert(id & sub(size, 1) < size) by (bit_vector) requires 0 < size; }
pub proof fn add_mask(a: u32, b: u32) requires a <= 0xFFFFF, b <= 0xFFFFF ensures spec_add(a, b) == add(a, b) & 0xFFFFF
{ lemma_mask(); }
pub proof fn slot_distinct(base: u32, a: u32, b: u32, size: u32) requires pow2(size), base <= 0xFFFFF, a < size, b < size, a != b
    ensures slot(spec_add(base, a), size) != slot(spec_add(base, b), size)
{
    add_mask(base, a); add_mask(base, b);
    assert((add(base, a) & 0xFFFFF) & sub(size, 1) != (add(base, b) & 0xFFFFF) & sub(size, 1)) by (bit_vector)
        requires 0 < size, size <= 4096, size & sub(size, 1) == 0, base <= 0xFFFFF, a < size, b < size, a != b;
}
// the slot of the id which leaves the window is the slot of the one which enters it
pub proof fn slot_reuse(base: u32, size: u32) requires pow2(size), base <= 0xFFFFF
    ensures slot(spec_add(base, size), size) == slot(base, size)
{
    add_mask(base, size);
    assert((add(base, size) & 0xFFFFF) & sub(size, 1) == base & sub(size, 1)) by (bit_vector)
        requires 0 < size, size <= 4096, size & sub(size, 1) == 0, base <= 0xFFFFF;
}
pub proof fn add_add(base: u32, a: u32, b: u32) requires base <= 0xFFFFF, a <= 0xFFFFF, b <= 0xFFFFF, a + b <= 0xFFFFF
    ensures spec_add(spec_add(base, a), b) == spec_add(base, (a + b) as u32), spec_add(base, 0) == base, spec_sub(spec_add(base, a), base) == a
{}
// position of a slot in the window that starts with base
pub open spec fn kof(base: u32, j: int, size: u32) -> int { (spec_sub(j as u32, base) & ((size - 1) as u32)) as int }
pub proof fn kof_slot(base: u32, j: int, size: u32) requires pow2(size), base <= 0xFFFFF, 0 <= j < size
    ensures 0 <= kof(base, j, size) < size, slot(spec_add(base, kof(base, j, size) as u32), size) == j
{
    let d = spec_sub(j as u32, base);
    let x = j as u32;
    add_mask(base, d);
    assert(spec_add(base, d) == x);
    assert(d & sub(size, 1) < size) by (bit_vector) requires 0 < size;
    let k = (d & ((size - 1) as u32)) as u32;
    add_mask(base, k);
    assert((add(base, d & sub(size, 1)) & 0xFFFFF) & sub(size, 1) == x) by (bit_vector)
        requires 0 < size, size <= 4096, size & sub(size, 1) == 0, base <= 0xFFFFF, d <= 0xFFFFF, x < size, add(base, d) & 0xFFFFF == x;
}
pub proof fn slot_kof(base: u32, k: u32, size: u32) requires pow2(size), base <= 0xFFFFF, k < size
    ensures kof(base, slot(spec_add(base, k), size), size) == k, 0 <= slot(spec_add(base, k), size) < size
{
    let j = slot(spec_add(base, k), size);
    slot_range(spec_add(base, k), size);
    kof_slot(base, j, size);
    let k2 = kof(base, j, size) as u32;
    if k2 != k { slot_distinct(base, k2, k, size); }
}
// moving the window by m
pub proof fn kof_shift(base: u32, m: u32, j: int, size: u32) requires pow2(size), base <= 0xFFFFF, 0 <= j < size, m <= size
    ensures kof(spec_add(base, m), j, size) == (if kof(base, j, size) >= m { kof(base, j, size) - m } else { kof(base, j, size) - m + size })
{
    let b2 = spec_add(base, m);
    kof_slot(b2, j, size); kof_slot(base, j, size);
    let k2 = kof(b2, j, size) as u32;
    add_add(base, m, k2);
    let t = (m + k2) as u32;
    if t < size { slot_kof(base, t, size); }
    else {
        let u = (t - size) as u32;
        add_add(base, u, size); slot_reuse(spec_add(base, u), size);
        if u < size { slot_kof(base, u, size); } else { assert(m == size && k2 == size); }
    }
}
// an id of the window has the position of its distance
pub proof fn id_pos(base: u32, id: u32, size: u32) requires pow2(size), base <= 0xFFFFF, id <= 0xFFFFF, spec_sub(id, base) < size
    ensures kof(base, slot(id, size), size) == spec_sub(id, base), 0 <= slot(id, size) < size
{ slot_kof(base, spec_sub(id, base), size); assert(spec_add(base, spec_sub(id, base)) == id); }
