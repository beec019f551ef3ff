use crate::cx::Check;

pub mod codegen;
pub mod csharp;
pub mod dec;
pub mod log;
pub mod logger;
pub mod value;
pub mod wire;

pub fn all() -> Vec<Check> {
    let mut v = Vec::new();
    v.extend(wire::checks());
    v.extend(dec::checks());
    v.extend(log::checks());
    v.extend(logger::checks());
    v.extend(value::checks());
    v.extend(codegen::checks());
    v.extend(csharp::checks());
    v
}
