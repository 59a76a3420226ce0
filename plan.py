"""What each property's check is made of: the functions under contract it depends on (regular expressions over the names
of the extracted functions, spaces removed), the Kani harness groups, and the scale of the executable-contract runs."""

VBASE = [r'^internal::vector_base::<VectorBase<', r'^internal::vector_base::VectorBase::', r'^internal::vector_base::\w+$', r'^storage::(?!<)', r'^vx', r'^internal::vector_base$']
VITER = [r'^internal::vector_base::Iter::', r'^internal::vector_base::<Iter<']
BTRAIT = [r'^bit_vec::traits::', r'^bit_vec::traits$', r'^storage::(?!<)']
BVEC = [r'^bit_vec::bit_vector::BitVector::', r'^bit_vec::bit_vector::<BitVector<', r'^bit_vec::bit_vector::\w+$']
BVITER = [r'^bit_vec::bit_vector::Iter::', r'^bit_vec::bit_vector::<Iter<', r"^bit_vec::bit_vector::<&'aBitVector"]
IVEC = [r'^int_vec::int_vector::IntVector::', r'^int_vec::int_vector::<IntVector<', r'^int_vec::']
IVITER = [r'^int_vec::int_vector::Iter::', r'^int_vec::int_vector::<Iter<', r"^int_vec::int_vector::<&'aIntVector"]
SLICE = [r'^bit_vec::bit_slice']
PRIM = [r'^bit_vec::prim::', r'^rank::prim::']
RANK = [r'^rank::traits', r'^rank::prim']
JAC = [r'^rank::jacobson']
R9 = [r'^rank::rank9']
SEL = [r'^select::', r'^internal::search']
BWORD = [r'^broadword']
STREAM = [r'^stream::', r'^internal::errors']
CODING = [r'^coding::']
SPACE = [r'^space_usage']

TRUSTED = [
 'rustc (macro expansion -Zunpretty=expanded), the extraction rules R1-R24 of extract/ and vxasm.py (DESIGN.md lists each)',
 'Verus and Z3',
 'the specifications vstd gives to Vec, Option, Result and the primitive integer operations',
 'axiom_phys: a Vec of blocks occupies less than 2^60 bits of memory',
]
ASSUME = [
 'usize and u64 are 64 bits wide',
 'allocation failure aborts the process and is outside the properties',
]

def P(scale, fns, level='proof', **kw): return dict(scale=scale, fns=fns, level=level, **kw)

PROPS = {
 'C01': P(8, VBASE + BTRAIT + BVEC),
 'C02': P(8, VBASE + BTRAIT + IVEC),
 'C03': P(8, VBASE + BTRAIT + BVEC + IVEC),
 'C04': P(8, VBASE + BTRAIT + BVEC + IVEC + SLICE + PRIM),
 'C05': P(8, BTRAIT + SLICE),
 'C06': P(8, JAC + RANK + BTRAIT + IVEC, kani=['laws::']),
 'C07': P(8, R9 + RANK + BTRAIT, kani=['laws::']),
 'C08': P(8, SEL + BWORD + RANK + JAC + R9, kani=['bw::']),
 'C09': P(8, BWORD, kani=['bw::']),
 'C10': P(8, [r'^storage::(?!.*(read|write)_block)'] + PRIM, kani=['laws::', 'blk::', 'prim::']),
 'C11': P(8, CODING + STREAM),
 'C12': P(8, CODING + STREAM),
 'C13': P(8, CODING + STREAM),
 'C14': P(8, CODING + STREAM),
 'C15': P(8, CODING + STREAM),
 'C16': P(8, STREAM),
 'C17': P(8, STREAM + BTRAIT + BVEC),
 'C18': P(8, VBASE + BTRAIT + BVEC + IVEC + SLICE + PRIM + RANK + JAC + R9 + [r'^broadword::<Broadwordas(Bit)?RankSupport>']),
 'C19': P(8, VITER + BVITER + IVITER),
 'C20': P(8, VBASE + BVEC + IVEC),
 'C21': P(8, SPACE + [r'SpaceUsage>::']),
 'C22': P(8, [r'read_block', r'write_block'], kani=['io::']),
 'C23': P(4, VBASE + BTRAIT + BVEC + IVEC + SLICE),
}

ENGINES = {
 'C01': 'bvresize bvhist access',
 'C02': 'ivgrid ivhist',
 'C03': 'bvresize bvhist ivgrid ivhist',
 'C04': 'access bvhist slice ivhist',
 'C05': 'slicegrid slice',
 'C06': 'jac access',
 'C07': 'r9 access',
 'C08': 'sel jac r9 access',
 'C09': 'bw sel',
 'C10': 'blkword blkidx access',
 'C11': 'codert coderef',
 'C12': 'codert coderef',
 'C13': 'codert coderef',
 'C14': 'codert coderef',
 'C15': 'decany ints15 ints',
 'C16': 'ints',
 'C17': 'bbuf',
 'C18': 'access slice bvhist ivgrid ivhist jac r9 bw blkword blkidx slicegrid',
 'C19': 'bvhist ivgrid ivhist',
 'C20': 'bvhist ivgrid ivhist refuse bvresize',
 'C21': 'spaceflags space',
 'C22': 'bio',
 'C23': 'refuse ivgrid ivhist access slice',
}
