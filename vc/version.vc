@@module version src/vpx/version.rs
@@broadcast
@@item struct Version
@@fn Version::new
    ensures r == Version(version),
@@fn Version::u32
    ensures r == self.0,
@@fn u32::from@From<Version>
@@free version_to_u32 u32
    ensures r == val.0,
@@fn Version::partial_cmp@PartialOrd
@@rename version_cmp
    ensures r == Some(num_order(self.0, other.0)),
@@extra
pub use core::cmp::Ordering;
/// numeric order
pub open spec fn num_order(a: u32, b: u32) -> core::cmp::Ordering { if a < b { core::cmp::Ordering::Less } else if a > b { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal } }
