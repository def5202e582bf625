WEIGHT = {'c15_ok_from_other': 9, 'c15_ok_into_other': 9, 'c25_ok_salted': 9, 'c25_ok_plain': 9, 'c25_ok_far': 9, 'c25_ok_far_salted': 9, 'c25_ok_from_seed': 8, 'c24_ok_g2_place': 5,
          'c15_ok_from_bigint': 5, 'c15_ok_from_bytes': 4, 'c15_ok_from_biguint': 4, 'c17_ok_deserialize': 5}
INFO = {
 'C15': dict(
  functions=['Num::from for bool, u32, u64, i32, i64, &BigUint, &BigInt', 'Into<u64>, Into<u32>, Into<bool>, Into<BigUint> for Num', 'Num::{is_even, iterbit_be, iterbit_le, into_binary_be, from_binary_be, into_other, from_other}', 'BitIteratorLE::next'],
  bounds=['the bn256 scalar field order over four 64-bit words (elements are their canonical representatives) and small fields of order 251, 4093 and 65521; integers of every listed byte length with every value'],
  outside=['byte strings longer than 33 bytes; the reduction of multi-word integers is decided against the exact big-integer stand-in, not against the num crate']),
 'C16': dict(
  functions=['BorshSerialize and BorshDeserialize for Num', 'Serialize and Deserialize for Num (decimal text)'],
  bounds=['four-word field of the bn256 order: every representative, every byte string of up to 32 bytes; text: every digit string of the listed lengths at GF(4093)'],
  outside=['texts longer than four characters']),
 'C17': dict(
  functions=['SizedVec: FromIterator, Deserialize, Serialize, iter, iter_mut, as_slice, as_mut_slice, Index, IndexMut, Clone'],
  bounds=['declared lengths 0, 2 and 3; every offered length 0..=5, every element value'],
  outside=['longer vectors (the code does not branch on the length beyond the comparison checked)']),
 'C24': dict(
  functions=['BorshSerialize/BorshDeserialize for G1PointData, G2PointData, ProofData, TruncatedVerifyingKeyData'],
  bounds=['every coordinate value at the stand-in field, every length of input up to one byte past the full size'],
  outside=['keys with more elements than listed']),
 'C25': dict(
  functions=['SeedboxBlake2::{new, new_with_salt, next_u32}', 'Num::from_seed (rejection loop, at most the listed number of draws)'],
  bounds=['every salt of the listed lengths, every block counter (through the guarded positioning hook), every position inside a block'],
  outside=['BLAKE2s itself (uninterpreted: any function of key, personalisation and input); salts longer than six bytes; more rejected draws than listed']),
}
