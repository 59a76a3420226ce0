//@ canary laws
proof fn canary_laws<B: BlockType>(a: B, b: B) {
    B::laws(); B::law_nb(); B::law_shr(); B::law_ord(); a.law_rank(0); a.law_rank(1); a.law_rank(B::nb() as int); a.law_le_mask(b, 3); B::law_ext(a, b);
    assert(false);
}
//@ canary phys
proof fn canary_phys(v: &Vec<u64>, w: &Vec<u8>) { axiom_phys(v); axiom_phys(w); assert(false); }
//@ canary panics_no
proof fn canary_panics_no() { assert(!panics_allowed()); }
//@ canary panics_yes
proof fn canary_panics_yes() { assert(panics_allowed()); }
//@ canary vector
fn canary_vector(v: &mut crate::internal::vector_base::VectorBase<u64>)
    requires old(v).wf(1), old(v).len == 100
{ v.push_bit(true); let x = v.pop_bit(); v.push_bits(1, 1); v.truncate(1, 5); assert(false); }
