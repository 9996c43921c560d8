//! Property-based checks of rx509 (see /verif/DESIGN.md).
pub mod cmp;
pub mod corpus;
pub mod cov;
pub mod engine;
pub mod gen;
pub mod guided;
pub mod mine;
pub mod props_con;
pub mod props_der;
pub mod props_sys;
pub mod props_val;
pub mod props_x509;
pub mod refder;
pub mod refx509;
pub mod report;
pub mod sut;

pub fn all_props() -> Vec<engine::Prop> {
    let mut v = props_der::props();
    v.extend(props_x509::props());
    v.extend(props_sys::props());
    v.extend(props_val::props());
    v.extend(props_con::props());
    v.sort_by_key(|p| p.id);
    v
}

#[global_allocator]
static ALLOC: engine::CountingAlloc = engine::CountingAlloc;
