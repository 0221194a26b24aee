//! The input is changed under the reader.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    let mut text = b"[\"abc\\n\"]".to_vec();
    #[cfg(not(feature = "control"))]
    {
        let mut d = deser_json::Deserializer::new(&text);
        text.clear();
        text.shrink_to_fit();
        let v: Result<Vec<String>, _> = d.deserialize();
    }
    #[cfg(feature = "control")]
    {
        let mut d = deser_json::Deserializer::new(&text);
        let v: Result<Vec<String>, _> = d.deserialize();
        text.clear();
    }
}
