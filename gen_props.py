#!/usr/bin/env python3
# Writes properties.jsonl. (Kept so the list stays reviewable; not used by any check.)
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    d['anchors']['observe_at']=observe or []
    d['anchors']['hook_needed']=None
    P.append(d)

VB='src/internal/vector_base.rs'; BV='src/bit_vec/bit_vector.rs'; IV='src/int_vec/int_vector.rs'; TR='src/bit_vec/traits.rs'
ST='src/storage.rs'
prop('C01','A bit vector behaves as a growable sequence of bits',
 'Whatever sequence of constructions, pushes, pops, sets, resizes, truncations, clears, block pushes and block resizes is applied to a bit vector, its length and every bit read back are exactly those of the mathematical sequence of bits the same operations describe: no operation changes a bit or a length it was not asked to change, and bits gained by growing have the requested fill value.',
 ['inputs','histories'],'all bit vectors reachable by any history of operations, all arguments, all supported block types',
 'The unit and quickcheck tests sample short histories of pushes/pops and a few resizes over one block type; a wrong bit near a block boundary after resize/truncate/pop needs a particular length and history.',
 [BV,VB,TR],[('VectorBase push_bit/pop_bit/truncate/block_resize maintain len and blocks',VB),('BitVector::resize/with_fill fill trailing bits then whole blocks then truncate',BV)],
 [('VectorBase { len, vec }','element count and the blocks that hold them',VB)],['BitVec::bit_len','BitVec::get_bit','BitVec::get_block'])
prop('C02','An integer vector behaves as a growable sequence of k-bit integers',
 'For every element width k from 1 to the block width, whatever sequence of constructions, pushes, pops, sets, resizes, truncations and clears (with values that fit in k bits) is applied to an integer vector, its length and every element read back are exactly those of the mathematical sequence of integers the same operations describe. No operation disturbs an element it does not name, including elements that straddle two blocks.',
 ['inputs','histories'],'all element widths, lengths, values and operation histories, all block types',
 'Tests use a handful of widths and indices; width/offset combinations at which an element straddles blocks are sampled only.',
 [IV,VB,TR],[('compute_address and VectorBase::{get_bits,set_bits,push_bits,pop_bits}',IV+', '+VB)],
 [('IntVector { element_bits, base }','element width and packed elements',IV)],['IntVec::get','IntVec::len','IntVector::pop'])
prop('C03','Packed vectors stay in canonical form',
 'After every operation on a bit vector or integer vector, it holds exactly as many blocks as its elements need and every unused bit of the last block is zero. Consequently two vectors (of the same element width) compare equal, and feed equal data to a hasher, exactly when they hold the same elements in the same order, however they were built.',
 ['inputs','histories'],'all histories, all lengths and widths',
 'Tests compare a few vectors built one way; a stale bit past the end or a spare block only shows for particular histories.',
 [VB,BV,IV],[('clear_extra_bits / set_len_from_blocks / pop of emptied blocks',VB),('derived Eq, Ord, Hash',VB)],
 [('unused bits of the last block','zero',VB)],['PartialEq','Hash','BitVec::get_block','BitVec::block_len'])
prop('C04','Bit-span and block access agree with single-bit access',
 'On every bit vector — slices and vectors of blocks, vectors of bool, the packed vectors, and any user type that supplies only bit access or only block access — reading a span of up to one block of bits, or a whole block, yields exactly the bits that single-bit reads yield, in little-endian order. Writing a bit, a span or a block changes exactly the named bits to the given values, and nothing else, wherever block boundaries fall.',
 ['inputs'],'all start positions, counts up to the block width, values and vector contents, all block types and implementers of the bit vector traits',
 'Tests check a few hand-picked spans; straddling spans depend on the offset/count/block width combination.',
 [TR,VB,'src/bit_vec/prim.rs'],[('default get_bit/get_block/get_bits/set_bit/set_block/set_bits',TR)],None,['BitVec::get_bits','BitVecMut::set_bits','BitVec::get_block','BitVecMut::set_block'])
prop('C05','Bit slices are windows onto their base',
 'A bit slice over a range start..end within its base (given by any kind of range, or by slicing a slice again) has length end-start, and reading bit i, a span or a block of it yields the corresponding bits of the base from start+i on, a partial last block included. Writing through a mutable slice changes exactly the corresponding bits of the base and no bit outside the range or outside the written span; asking for a range that ends past its base panics.',
 ['inputs'],'all bases, ranges with start<=end, nested slicing, positions and values',
 'Tests slice a few fixed vectors at a few offsets.',
 ['src/bit_vec/bit_slice.rs',TR],[('BitSlice/BitSliceMut offset arithmetic; IntoRange','src/bit_vec/bit_slice.rs')],
 [('BitSlice { data, start, len }','window start..start+len of data','src/bit_vec/bit_slice.rs')],['BitSlice::{get_bit,get_bits,get_block,slice}','BitSliceMut::{set_bit,set_bits,set_block,slice,slice_mut}'])
prop('C06','Jacobson rank counts exactly',
 "For every bit vector and every position within it, the rank of 1 (of 0) reported by Jacobson's structure is the number of one (zero) bits up to and including that position. Construction succeeds for every length, and reading bits through the structure, or taking the store back, gives the original vector.",
 ['inputs'],'all bit vectors of all lengths and block types, all positions',
 'Tests query one small vector; large-block and small-block boundaries depend on (log n)^2 and are reached only for particular lengths.',
 ['src/rank/jacobson.rs','src/rank/traits.rs','src/rank/prim.rs'],[('two-level directory built in new, combined in rank1','src/rank/jacobson.rs')],
 [('large_block_ranks, small_block_ranks','cumulative counts','src/rank/jacobson.rs')],['BitRankSupport::rank1','BitRankSupport::rank0','RankSupport::rank'])
prop('C07','Rank9 counts exactly',
 "For every vector of 64-bit blocks and every position within it, the rank of 1 (of 0) reported by the rank9 structure is the number of one (zero) bits up to and including that position. Reading bits through the structure, or taking the store back, gives the original vector.",
 ['inputs'],'all bit vectors over u64 blocks of all lengths, all positions',
 'Tests query short vectors; second-level 9-bit counters matter only for specific word offsets and densities.',
 ['src/rank/rank9.rs','src/rank/traits.rs','src/rank/prim.rs'],[('Level2 9-bit fields get/set; store_counts; rank1','src/rank/rank9.rs')],
 [('counts: Vec<Rank9Cell>','cumulative and in-block counts','src/rank/rank9.rs')],['BitRankSupport::rank1','BitRankSupport::rank0','RankSupport::rank'])
prop('C08','Select inverts rank',
 'Select for the i-th one (or zero, or given symbol), on any correct rank structure, returns the unique position that holds that symbol and is preceded by exactly i of them, and returns nothing exactly when there are no more than i of them — for every index up to the largest integer. It also passes bit and rank queries through to the underlying structure unchanged.',
 ['inputs'],'all rank structures, all indices',
 'Tests use short vectors; the binary search boundary cases (first, last, absent, index at the integer limit) are sampled.',
 ['src/select/bin_search.rs','src/internal/search.rs','src/select/traits.rs'],[('binary_search_function over rank','src/internal/search.rs')],None,['Select1Support::select1','Select0Support::select0','SelectSupport::select'])
prop('C09','Broadword operations match their bit-by-bit definitions',
 'For all 64-bit words: the ones count is the number of one bits, select finds the position of the r-th one bit or reports its absence (for every r), rank counts the ones up to a position, and the parallel byte comparisons (unsigned and signed less-or-equal, non-zero) set the top bit of exactly those bytes for which the comparison holds and no other bit.',
 ['inputs'],'all u64 words and pairs of words, all r and positions',
 '2^64 words (2^128 pairs) against a few samples and quickcheck runs.',
 ['src/broadword.rs'],[("Vigna's broadword algorithms",'src/broadword.rs')],None,['broadword::*'])
prop('C10','Block arithmetic, masks and addresses are exact',
 'For every block type and every in-range argument, block-level bit and span get/update, masks, block/bit size conversions (division, remainder, multiplication, rounding up, bits in last block), floor and ceiling base-2 logarithms and ceiling division equal their mathematical definitions, without overflow. Converting a bit index to an address and back is the identity, and primitives used as bit vectors or rank structures agree with their binary representation.',
 ['inputs'],'all five block types, all argument values',
 'Tests sample values; overflow and full-width cases (mask of the whole word, numbers near the maximum) are corner cases.',
 [ST,'src/bit_vec/prim.rs','src/rank/prim.rs'],[('BlockType default methods and the branch-free low_mask',ST)],None,['BlockType::*','Address::{new,bit_index}'])
prop('C11','Unary, gamma, delta and lifted codes round-trip and self-delimit',
 'Encoding any value the code accepts (0 included for unary and lifted codes, 1 up for Elias codes) and decoding from the resulting bits, followed by anything whatever, returns exactly that value and consumes exactly the bits that were written. Hence a concatenation of codes decodes to the same list of values, and then reports a clean end of input.',
 ['inputs','histories'],'all values, any number of codes in sequence, any following bits, any bit source and sink',
 'Quickcheck samples small values; large widths (near 64 bits) and what follows the code are not sampled.',
 ['src/coding/unary.rs','src/coding/elias.rs','src/coding/trans.rs','src/stream/traits.rs'],[('encode/decode pairs','src/coding/')],None,['UniversalCode::encode','UniversalCode::decode'])
prop('C12','The Elias omega code round-trips and self-delimits',
 'Encoding any positive 64-bit value in the omega code and decoding from the resulting bits, followed by anything whatever, returns exactly that value and consumes exactly the bits that were written; zero is refused.',
 ['inputs'],'all values in 1..2^64-1, any following bits',
 'Quickcheck samples small values only; group lengths up to 64 bits are not reached.',
 ['src/coding/elias.rs','src/stream/traits.rs'],[('recursive length groups, big-endian','src/coding/elias.rs')],None,['Omega::encode','Omega::decode'])
prop('C13','The Fibonacci code round-trips and self-delimits',
 'Encoding a positive value either reports an error (only for values too big to handle) or writes bits from which decoding, whatever follows, returns exactly that value and consumes exactly those bits; every value below the largest 64-bit Fibonacci number is accepted, and zero is refused.',
 ['inputs'],'all positive u64 values, any following bits',
 'Quickcheck samples small values; the Zeckendorf greedy choice near Fibonacci numbers and near the type limit is not reached.',
 ['src/coding/fib.rs'],[('greedy Zeckendorf decomposition with a 11 terminator','src/coding/fib.rs')],None,['Fibonacci::encode','Fibonacci::decode'])
prop('C14','Comma codes round-trip and self-delimit',
 'For every digit width n from 2 to 63, encoding any value in the comma code and decoding from the resulting bits, followed by anything whatever, returns exactly that value and consumes exactly the bits that were written.',
 ['inputs','configurations'],'all u64 values, all digit widths 2..63, any following bits',
 'Tests use n=2 and small values.',
 ['src/coding/comma.rs','src/stream/traits.rs'],[('base 2^n-1 digits and an all-ones comma','src/coding/comma.rs')],None,['Comma::encode','Comma::decode'])
prop('C15','Decoders are total on arbitrary bits',
 'Given any finite sequence of bits whatever, valid or not, each decoder and integer reader stops without panicking or overflowing, never reads past the end, and passes on an error of its source. It reports a clean end of input only if no bit was consumed by the call; input that stops in the middle of a code, or encodes a value that does not fit, is reported as an error and never as a value.',
 ['inputs','fault_sequences'],'all finite bit sequences, all codes, sources that fail at any point',
 'Tests only decode what the encoders wrote.',
 ['src/coding/','src/stream/traits.rs','src/internal/errors.rs'],[('consumed flags, checked arithmetic, too_many_bits/out_of_bits','src/coding/')],None,['UniversalCode::decode','BitRead::{read_int,read_int_be}'])
prop('C16','Fixed-width integers round-trip through bit streams in both bit orders',
 'Writing the low n bits of a value (n up to its width, signed or unsigned) produces exactly those n bits, least-significant-first or most-significant-first as requested, and nothing else; reading n bits in the same order from the stream returns the value those bits denote and consumes exactly n bits. Reading reports a clean end only if nothing was left and an error if fewer than n bits remained.',
 ['inputs'],'all widths n from 0 to the type width, all values, all primitive integer types',
 'Tests write a few u32/u64 values with small n.',
 ['src/stream/traits.rs'],[('mask/shift loops in read_int, read_int_be, write_int, write_int_be','src/stream/traits.rs')],None,['BitRead::{read_int,read_int_be}','BitWrite::{write_int,write_int_be}'])
prop('C17','A bit buffer is a cursor over its bit vector',
 'Reading returns the bit at the cursor and advances it by one, or reports end exactly at the end of the data and leaves the cursor; writing stores the bit at the cursor, overwriting or extending the data by exactly one bit, changes no other bit, and advances the cursor by one. Seeking to any position within the data (its end included) moves the cursor and anything else is refused without effect; reads after a seek see what was written.',
 ['inputs','histories'],'all histories of reads, writes and seeks over any bit vector',
 'Tests perform a short scripted sequence.',
 ['src/stream/bit_buffer.rs'],[('pos cursor in BitBuffer','src/stream/bit_buffer.rs')],[('BitBuffer { data, pos }','cursor position','src/stream/bit_buffer.rs')],['BitBuffer::{read_bit,write_bit,seek,position,inner,into_inner}'])
prop('C18','Out-of-bounds access always panics',
 'Reading or writing a bit, bit span, block or element whose position lies outside the vector (or slice), or asking for a rank at or past the limit, always panics — also for positions near the integer maximum, where index arithmetic could wrap, and also when spare bits of the last block or spare capacity exist beyond the end. It never returns a value and never modifies the vector.',
 ['inputs'],'all vectors, all out-of-range positions and spans',
 'A few should_panic tests at one position each.',
 [TR,VB,BV,IV,'src/bit_vec/bit_slice.rs','src/bit_vec/prim.rs','src/rank/'],[('assert! bounds checks and slice indexing','src/')],None,['get_bit','set_bit','get_bits','set_bits','get_block','set_block','IntVec::get','IntVecMut::set','rank'])
prop('C19','Iterators enumerate exactly the elements, from both ends',
 'At every point of any interleaving of next, next_back, nth and size queries, an iterator over a bit vector or integer vector yields exactly the elements of the vector not yet yielded or skipped, in order from each end, and its reported length (also its size hint and count) is exactly the number left. Once exhausted it stays exhausted.',
 ['inputs','histories'],'all vectors, all interleavings of iterator operations',
 'Tests iterate forwards a few short vectors.',
 [VB,BV,IV],[('start/limit window in vector_base::Iter',VB)],[('Iter { start, limit }','remaining window',VB)],['Iterator::{next,nth,last,count,size_hint}','DoubleEndedIterator::next_back','ExactSizeIterator::len'])
prop('C20','Reserved capacity is really available',
 'After reserving room for n more elements (or blocks), exactly or not, or creating a vector with capacity n, the capacity reported is at least the length plus n (at least n, respectively), so n further pushes need no reallocation; reserving, shrinking and clearing change no element that remains. A total that does not fit in the size types panics instead of reserving less.',
 ['inputs','histories'],'all vectors, lengths, spare capacities and requests',
 'Tests do not relate capacity to length plus request.',
 [VB,BV,IV],[('additional_blocks, len_to_block_len',VB)],None,['capacity','block_capacity','reserve','reserve_exact','with_capacity'])
prop('C21','Space usage accounts for every heap byte owned',
 'For every supported type the heap portion is the sum, over the memory the value owns, of the capacity in bytes of each buffer plus the heap portions of the elements or components, counted once each; a type declared stack-only has a heap portion of zero, a compound is stack-only only if all its parts are, and the total is the stack portion plus the heap portion.',
 ['inputs'],'all values, including nested vectors, boxes and tuples, and all structures of the library',
 'Tests check a few tuples and vectors.',
 ['src/space_usage.rs',VB,BV,IV,'src/rank/','src/select/bin_search.rs'],[('SpaceUsage::heap_bytes implementations','src/space_usage.rs')],None,['SpaceUsage::{heap_bytes,total_bytes,is_stack_only}'])
prop('C22','Block I/O round-trips in both byte orders',
 'Writing a block produces exactly as many bytes as the block is wide, in the requested byte order, and reading that many bytes in the same order returns the block, consuming exactly those bytes; this holds for every block type and value, and too few bytes is an error.',
 ['inputs'],'all block types, all values, both byte orders',
 'No test in the repository exercises block I/O.',
 [ST],[('read_block/write_block via byteorder',ST)],None,['BlockType::{read_block,write_block}'])
prop('C23','Oversized requests and ill-fitting values are refused',
 'Creating or resizing a vector to a length whose bit size or block count does not fit its size type panics rather than producing a smaller vector; element widths of zero or wider than a block are refused on creation; and pushing or setting an integer that does not fit the element width panics and leaves every element unchanged. Asking to read or write a span of more bits than fit in one block is refused too, and changes nothing.',
 ['inputs'],'all lengths up to u64::MAX, all widths and values',
 'Two should_panic tests at one value each.',
 [VB,BV,IV,ST],[('len_to_block_len checked arithmetic; check_element_bits; check_value',VB+', '+IV)],None,['with_capacity','with_fill','resize','IntVector::new','push','set'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in P))
import re
for p in P: assert len(p['title'])<=80,p['title']
print(len(P))
