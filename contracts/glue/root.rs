pub trait ReferenceType {}
/// Names used by the contracts of every module.
pub mod vg {
    pub use crate::types::{ty, tyv, tys, Type};
    pub use crate::value::{vw, vws, pws, ow, lemma_vws, lemma_pws, psv, vsv, lemma_psv, lemma_vsv, lemma_psv0, lemma_vsv0, lemma_tyv, Value};
    pub use crate::obj::{rget, rsource, rfind, lemma_rget, lemma_rsource, lemma_rfind_at, lemma_rfind_none, Obj, Pair};
    pub use crate::arr::Arr;
    pub use crate::tup::Tup;
    pub use crate::error::OverError;
    pub use crate::parse::op_of;
    pub use crate::parse::error::{pe, ek};
    pub use crate::parse::format::{axiom_depth, Format};
}
