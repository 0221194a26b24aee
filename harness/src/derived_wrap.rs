//! The same declarations over differently wrapped types.
use crate::probe_ser::NT;
use deser::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Debug)]
#[deser(skip_serializing_optionals)]
pub struct SO<T> {
    pub a: u8,
    pub b: T,
    pub c: Option<u8>,
}

#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct Inner {
    pub a: u8,
    pub b: Option<String>,
    #[deser(default)]
    pub c: Vec<u16>,
    #[deser(rename = "dd", alias = "d")]
    pub d: (bool, i8),
}

#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct Inner2 {
    pub e: u8,
    #[deser(flatten)]
    pub i: Inner,
    #[deser(default)]
    pub z: Vec<String>,
}

#[derive(Serialize, Deserialize, Debug)]
#[deser(rename = "Fl")]
pub struct Fl<T> {
    pub x: u8,
    #[deser(flatten)]
    pub i: T,
    pub y: Option<u8>,
}

#[derive(Serialize)]
#[deser(rename = "Fl")]
pub struct FlSer<T> {
    pub x: u8,
    #[deser(flatten)]
    pub i: T,
    pub y: Option<u8>,
}

pub type FlPlain = Fl<Inner2>;
pub type FlBox = Fl<Box<Inner2>>;
pub type FlNew = Fl<NT<Inner2>>;
pub type FlBoxNew = Fl<Box<NT<Inner2>>>;
pub type FlNewBox = Fl<NT<Box<Box<Inner2>>>>;
pub type FlOpt = Fl<Option<Inner2>>;
pub type FlOptBox = Fl<Option<Box<Inner2>>>;
