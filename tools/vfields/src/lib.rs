//! Instances of the library's field derive at every word width and at the top of the admissible
//! modulus range, so that the derive's own code can be expanded and verified.
use algebra::derive::{DecomposableField, FheField, Field, Prime, NTT};
#[derive(Field, DecomposableField, FheField, Prime, NTT)]
#[modulus = 17]
pub struct V8(u8);
#[derive(Field, DecomposableField, FheField, Prime, NTT)]
#[modulus = 15361]
pub struct V16(u16);
#[derive(Field, DecomposableField, FheField, Prime, NTT)]
#[modulus = 1073479681]
pub struct V32(u32);
#[derive(Field, DecomposableField, FheField, Prime, NTT)]
#[modulus = 4611686018427322369]
pub struct V64(u64);
