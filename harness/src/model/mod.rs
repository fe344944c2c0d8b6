//! Reference model of the patch rules: written from the documentation and the
//! properties, over plain svd-rs data, sharing no code with /repo.
pub mod common;
pub mod device;
pub mod block;
pub mod reg;

use crate::glob;
pub use common::*;
pub use svd_rs::{
    Access, AddressBlock, AddressBlockUsage, BitRange, Cluster, ClusterInfo, Cpu, Device,
    DimElement, Endian, EnumeratedValue, EnumeratedValues, Field, FieldInfo, Interrupt, MaybeArray,
    ModifiedWriteValues, Peripheral, PeripheralInfo, ReadAction, Register, RegisterCluster,
    RegisterInfo, RegisterProperties, Usage, ValidateLevel, WriteConstraint, WriteConstraintRange,
};
pub use svd_rs::{
    cluster::ClusterInfoBuilder, cpu::CpuBuilder, dimelement::DimElementBuilder,
    field::FieldInfoBuilder, peripheral::PeripheralInfoBuilder, register::RegisterInfoBuilder,
};
pub use yaml_rust::{yaml::Hash, Yaml};

pub const LVL: ValidateLevel = ValidateLevel::Weak;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EnumDerive {
    Enum,
    Field,
    None,
}

pub struct Ctx<'a> {
    pub derive: EnumDerive,
    /// other SVD files a copy rule may name: path text -> device
    pub others: &'a dyn Fn(&str) -> R<Device>,
}
