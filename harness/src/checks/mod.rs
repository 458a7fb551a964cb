pub mod a;
pub mod b;
pub mod c;
#[cfg(not(target_family = "wasm"))]
pub mod d;
use crate::ctx::{Check, Ctx};

pub fn find(id: &str, ctx: &Ctx) -> Option<Check> {
    let mk: fn(&Ctx) -> Check = match id {
        "C01" => a::c01,
        "C02" => a::c02,
        "C03" => a::c03,
        "C04" => a::c04,
        "C05" => b::c05,
        "C06" => b::c06,
        "C07" => b::c07,
        "C08" => b::c08,
        "C09" => c::c09,
        "C10" => c::c10,
        "C11" => c::c11,
        #[cfg(not(target_family = "wasm"))]
        "C12" => d::c12,
        "C13" => c::c13,
        "C15" => c::c15,
        "C17" => c::c17,
        "C18" => c::c18,
        "C20" => c::c20,
        "C21" => c::c21,
        "C23" => c::c23,
        _ => return None,
    };
    Some(mk(ctx))
}
