use crate::engine::Property;

pub mod format;
pub mod metadata;
pub mod parsing;
pub mod plan;
pub mod robust;
pub mod roundtrip;
pub mod values;

pub fn all() -> Vec<Property> {
    let mut v = Vec::new();
    v.extend(parsing::properties());
    v.extend(roundtrip::properties());
    v.extend(plan::properties());
    v.extend(format::properties());
    v.extend(values::properties());
    v.extend(metadata::properties());
    v.extend(robust::properties());
    v.sort_by_key(|p| p.id);
    v
}
