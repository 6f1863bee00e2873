//! The shapes every filter monitor runs on (compiled once here
//! rather than in every monitor). `lite` is the reduced set of the secondary build configurations.
use crate::num::Num;
use crate::rig::Make;
use crate::{rig_owned, rig_owned_ext, rig_slices};

pub trait Sets: Num {
    /// Hand-wired filters on slices; linear and extended steps.
    fn slices() -> Vec<Make<Self>>;
    /// Long-lived linear filters from the allocating builders.
    #[cfg(feature = "alloc")]
    fn owned() -> Vec<Make<Self>>;
    /// Long-lived extended filters from the allocating builders.
    #[cfg(feature = "alloc")]
    fn owned_ext() -> Vec<Make<Self>>;
    /// Far larger than the others, for a few cases each: beyond any size a special case could
    /// have been tuned for, and beyond what eight bits hold.
    fn wide() -> Vec<Make<Self>> {
        vec![]
    }
    /// Everything that can perform linear steps.
    fn linear() -> Vec<Make<Self>> {
        #[allow(unused_mut)]
        let mut v = Self::slices();
        #[cfg(feature = "alloc")]
        v.extend(Self::owned());
        v
    }
    /// Everything that can perform extended steps.
    fn extended() -> Vec<Make<Self>> {
        #[allow(unused_mut)]
        let mut v = Self::slices();
        #[cfg(feature = "alloc")]
        v.extend(Self::owned_ext());
        v
    }
}

impl Sets for f64 {
    #[cfg(not(feature = "lite"))]
    fn wide() -> Vec<Make<Self>> {
        #[allow(unused_mut)]
        let mut v = rig_slices!(f64; (40,1,1),(67,2,1),(130,1,1),(257,1,1),(1,257,1),(16,16,1),(3,87,1),(1,1,33),(2,1,70),(1,1,130),(1,1,257),(35,3,20),(18,40,19),(64,64,1));
        #[cfg(feature = "alloc")]
        {
            v.extend(rig_owned!(f64; (66,3,2),(2,1,66),(16,16,2),(2,66,1)));
            v.extend(rig_owned_ext!(f64; (66,2),(2,66)));
        }
        v
    }
    #[cfg(not(feature = "lite"))]
    fn slices() -> Vec<Make<Self>> {
        rig_slices!(f64; (1,3,1),(1,4,2),(1,5,3),(1,6,4),(1,1,5),(1,2,6),(2,4,1),(2,5,2),(2,6,3),(2,1,4),(2,2,5),(2,3,6),(3,5,1),(3,6,2),(3,1,3),(3,2,4),(3,3,5),(3,4,6),(4,6,1),(4,1,2),(4,2,3),(4,3,4),(4,4,5),(4,5,6),(5,1,1),(5,2,2),(5,3,3),(5,4,4),(5,5,5),(5,6,6),(6,2,1),(6,3,2),(6,4,3),(6,5,4),(6,6,5),(6,1,6),(1,0,1),(3,0,2),(7,2,3),(7,7,7),(8,3,2),(8,8,8),(2,8,8),(1,7,8),(8,1,1),(9,4,3),(3,12,10),(12,2,5),(5,10,13),(10,10,10),(16,4,4),(16,1,17),(4,16,16),(20,1,1),(24,3,2),(13,13,1),(32,2,3),(33,1,2),(7,11,15),(11,9,7),(14,7,11),(15,14,9),(17,15,14),(18,1,12),(9,17,2))
    }
    #[cfg(feature = "lite")]
    fn slices() -> Vec<Make<Self>> {
        rig_slices!(f64; (1,1,1),(2,1,3),(3,2,1),(3,0,2),(3,4,3),(4,2,5),(6,3,2),(9,2,4))
    }
    #[cfg(all(feature = "alloc", not(feature = "lite")))]
    fn owned() -> Vec<Make<Self>> {
        rig_owned!(f64; (1,1,1),(2,1,1),(1,3,2),(2,3,4),(3,2,1),(3,1,3),(3,4,5),(4,2,2),(4,5,3),(5,1,2),(5,5,5),(6,3,1),(6,2,6),(7,4,9),(8,2,3),(9,9,2),(12,3,4),(16,2,2))
    }
    #[cfg(all(feature = "alloc", feature = "lite"))]
    fn owned() -> Vec<Make<Self>> {
        rig_owned!(f64; (2,1,1),(3,2,4),(5,3,2))
    }
    #[cfg(all(feature = "alloc", not(feature = "lite")))]
    fn owned_ext() -> Vec<Make<Self>> {
        rig_owned_ext!(f64; (1,1),(2,1),(1,2),(2,4),(3,1),(3,3),(3,5),(4,2),(4,3),(5,2),(5,5),(6,1),(6,6),(7,9),(8,3),(9,2),(12,4),(16,2))
    }
    #[cfg(all(feature = "alloc", feature = "lite"))]
    fn owned_ext() -> Vec<Make<Self>> {
        rig_owned_ext!(f64; (2,1),(3,4),(5,2))
    }
}

impl Sets for f32 {
    #[cfg(not(feature = "lite"))]
    fn wide() -> Vec<Make<Self>> {
        rig_slices!(f32; (67,1,1),(2,67,1),(16,16,1),(2,1,67),(34,2,18))
    }
    #[cfg(not(feature = "lite"))]
    fn slices() -> Vec<Make<Self>> {
        rig_slices!(f32; (1,3,1),(1,4,2),(1,5,3),(1,1,4),(1,2,5),(2,4,1),(2,5,2),(2,1,3),(2,2,4),(2,3,5),(3,5,1),(3,1,2),(3,2,3),(3,3,4),(3,4,5),(4,1,1),(4,2,2),(4,3,3),(4,4,4),(4,5,5),(5,2,1),(5,3,2),(5,4,3),(5,5,4),(5,1,5),(1,0,1),(2,0,3),(6,2,3),(3,6,7),(8,8,8),(2,8,9),(9,4,2),(12,2,5),(16,4,4),(4,12,12),(7,9,6),(11,3,10),(6,7,13))
    }
    #[cfg(feature = "lite")]
    fn slices() -> Vec<Make<Self>> {
        rig_slices!(f32; (1,2,1),(2,1,1),(2,3,3),(4,1,2),(5,3,4),(8,2,3))
    }
    #[cfg(all(feature = "alloc", not(feature = "lite")))]
    fn owned() -> Vec<Make<Self>> {
        rig_owned!(f32; (1,1,1),(2,1,2),(3,2,1),(2,5,3),(4,3,4),(6,1,2),(5,4,7),(9,2,3))
    }
    #[cfg(all(feature = "alloc", feature = "lite"))]
    fn owned() -> Vec<Make<Self>> {
        rig_owned!(f32; (1,1,1),(3,2,2),(4,1,5))
    }
    #[cfg(all(feature = "alloc", not(feature = "lite")))]
    fn owned_ext() -> Vec<Make<Self>> {
        rig_owned_ext!(f32; (1,1),(2,2),(3,1),(2,3),(4,4),(6,2),(5,7),(9,3))
    }
    #[cfg(all(feature = "alloc", feature = "lite"))]
    fn owned_ext() -> Vec<Make<Self>> {
        rig_owned_ext!(f32; (1,1),(3,2),(4,5))
    }
}
#[cfg(feature = "fixed")]
impl Sets for fixed::types::I16F16 {
    #[cfg(not(feature = "lite"))]
    fn slices() -> Vec<Make<Self>> {
        rig_slices!(fixed::types::I16F16; (1,3,1),(1,4,2),(1,1,3),(1,2,4),(2,4,1),(2,1,2),(2,2,3),(2,3,4),(3,1,1),(3,2,2),(3,3,3),(3,4,4),(4,2,1),(4,3,2),(4,4,3),(4,1,4),(2,0,1),(6,2,3),(3,6,5),(8,3,2),(2,3,8))
    }
    #[cfg(feature = "lite")]
    fn slices() -> Vec<Make<Self>> {
        rig_slices!(fixed::types::I16F16; (1,1,1),(2,1,2),(3,2,1),(3,1,3))
    }
    #[cfg(all(feature = "alloc", not(feature = "lite")))]
    fn owned() -> Vec<Make<Self>> {
        rig_owned!(fixed::types::I16F16; (1,1,1),(2,2,1),(3,1,2),(4,2,3),(2,3,4))
    }
    #[cfg(all(feature = "alloc", feature = "lite"))]
    fn owned() -> Vec<Make<Self>> {
        rig_owned!(fixed::types::I16F16; (2,1,1),(3,2,2))
    }
    #[cfg(all(feature = "alloc", not(feature = "lite")))]
    fn owned_ext() -> Vec<Make<Self>> {
        rig_owned_ext!(fixed::types::I16F16; (1,1),(2,1),(3,2),(4,3),(2,4))
    }
    #[cfg(all(feature = "alloc", feature = "lite"))]
    fn owned_ext() -> Vec<Make<Self>> {
        rig_owned_ext!(fixed::types::I16F16; (2,1),(3,2))
    }
}
#[cfg(feature = "fixed")]
impl Sets for fixed::types::I32F32 {
    #[cfg(not(feature = "lite"))]
    fn slices() -> Vec<Make<Self>> {
        rig_slices!(fixed::types::I32F32; (1,3,1),(1,4,2),(1,1,3),(1,2,4),(2,4,1),(2,1,2),(2,2,3),(2,3,4),(3,1,1),(3,2,2),(3,3,3),(3,4,4),(4,2,1),(4,3,2),(4,4,3),(4,1,4),(2,0,1),(6,2,3),(3,6,5),(8,3,2),(2,3,8))
    }
    #[cfg(feature = "lite")]
    fn slices() -> Vec<Make<Self>> {
        rig_slices!(fixed::types::I32F32; (1,1,1),(2,1,2),(3,2,1),(3,1,3))
    }
    #[cfg(all(feature = "alloc", not(feature = "lite")))]
    fn owned() -> Vec<Make<Self>> {
        rig_owned!(fixed::types::I32F32; (1,1,1),(2,2,1),(3,1,2),(4,2,3),(2,3,4))
    }
    #[cfg(all(feature = "alloc", feature = "lite"))]
    fn owned() -> Vec<Make<Self>> {
        rig_owned!(fixed::types::I32F32; (2,1,1),(3,2,2))
    }
    #[cfg(all(feature = "alloc", not(feature = "lite")))]
    fn owned_ext() -> Vec<Make<Self>> {
        rig_owned_ext!(fixed::types::I32F32; (1,1),(2,1),(3,2),(4,3),(2,4))
    }
    #[cfg(all(feature = "alloc", feature = "lite"))]
    fn owned_ext() -> Vec<Make<Self>> {
        rig_owned_ext!(fixed::types::I32F32; (2,1),(3,2))
    }
}
