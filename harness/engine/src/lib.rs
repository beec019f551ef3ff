pub mod bind;
pub mod inst;
pub mod io;
pub mod live;
pub mod mem;
pub mod model;
pub mod ops;
pub mod src;
pub mod val;

pub mod prelude {
    pub use crate::{
        bind::{hash_of, is_with, make, prep, Bind, Nd, Node},
        inst::{lend, plain, plain_h, state, state_h, Lent, Meta, Shared, Target},
        model::{Op, Res, Step},
        val::{msg_ty, FieldDef, MsgDef, Ty, Val, VarDef},
    };
}
