//! Enumerations of every shape the derive macros handle.  Only the expansion of
//! the macros is analysed; nothing here is ever run.
use serde::ser::SerializeTuple;
use serde_xdr::{XdrIndexer as _, XdrUnion as _};
use serde_xdr_derive::{XdrIndexer, XdrUnion};

pub type P = u32;
pub type Q = u64;

#[derive(XdrIndexer)]
pub enum IUnits {
    A,
    B,
    C,
}

impl serde_xdr::XdrIndexer for IUnits {
    type Error = serde_xdr::error::Error;
    fn name_by_index(_index: i32) -> Result<&'static str, Self::Error> {
        Err(serde_xdr::error::Error::Convert)
    }
    fn index(&self) -> i32 {
        0
    }
}

#[derive(XdrIndexer)]
pub enum IOne {
    A(P),
}

impl serde_xdr::XdrIndexer for IOne {
    type Error = serde_xdr::error::Error;
    fn name_by_index(_index: i32) -> Result<&'static str, Self::Error> {
        Err(serde_xdr::error::Error::Convert)
    }
    fn index(&self) -> i32 {
        0
    }
}

#[derive(XdrIndexer)]
pub enum IMixed {
    A,
    B(P),
    C(P, Q),
    D(P, Q, P),
    E,
    F(),
}

impl serde_xdr::XdrIndexer for IMixed {
    type Error = serde_xdr::error::Error;
    fn name_by_index(_index: i32) -> Result<&'static str, Self::Error> {
        Err(serde_xdr::error::Error::Convert)
    }
    fn index(&self) -> i32 {
        0
    }
}

#[derive(XdrIndexer)]
pub enum IWide {
    A(P),
    B(P, Q, P, Q, P, Q, P, Q, P, Q, P, Q),
    C(P, Q, P, Q, P, Q, P, Q, P, Q, P, Q, P, Q, P, Q, P, Q, P, Q),
}

impl serde_xdr::XdrIndexer for IWide {
    type Error = serde_xdr::error::Error;
    fn name_by_index(_index: i32) -> Result<&'static str, Self::Error> {
        Err(serde_xdr::error::Error::Convert)
    }
    fn index(&self) -> i32 {
        0
    }
}

#[derive(XdrUnion)]
pub enum UI32 {
    A(i32),
    B(i32, P),
    C(i32, P, Q),
    D(i32, P, Q, P),
}

impl serde_xdr::XdrUnion<i32> for UI32 {
    type Error = serde_xdr::error::Error;
    fn name_by_value(_value: &i32) -> Result<&'static str, Self::Error> {
        Err(serde_xdr::error::Error::Convert)
    }
}

#[derive(XdrUnion)]
pub enum UU32 {
    A(u32),
    B(u32, P),
}

impl serde_xdr::XdrUnion<u32> for UU32 {
    type Error = serde_xdr::error::Error;
    fn name_by_value(_value: &u32) -> Result<&'static str, Self::Error> {
        Err(serde_xdr::error::Error::Convert)
    }
}

#[derive(XdrUnion)]
pub enum UWide {
    A(i32, P, Q, P, Q, P, Q, P, Q, P, Q, P, Q),
    B(i32),
    C(i32, P, Q, P, Q, P, Q, P, Q, P, Q, P, Q, P, Q, P, Q, P, Q, P, Q),
}

impl serde_xdr::XdrUnion<i32> for UWide {
    type Error = serde_xdr::error::Error;
    fn name_by_value(_value: &i32) -> Result<&'static str, Self::Error> {
        Err(serde_xdr::error::Error::Convert)
    }
}
