use crate::engine::Prop;
pub mod expand;
pub mod exprs;
pub mod consts;
pub mod lits;
pub mod forms;
pub mod asm;
pub mod paste;
pub mod typed;
pub mod types;
pub mod compiled;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(expand::props());
    v.extend(lits::props());
    v.extend(exprs::props());
    v.extend(consts::props());
    v.extend(forms::props());
    v.extend(asm::props());
    v.extend(types::props());
    v.extend(typed::props());
    v.extend(paste::props());
    v.extend(compiled::props());
    v
}
