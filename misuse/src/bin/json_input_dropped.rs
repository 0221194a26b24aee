//! The input is gone before the reader.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    #[cfg(not(feature = "control"))]
    {
        let mut d = {
            let text = b"[1, 2, \"abc\\n\"]".to_vec();
            deser_json::Deserializer::new(&text)
        };
        let v: Result<Vec<String>, _> = d.deserialize();
    }
    #[cfg(feature = "control")]
    {
        let text = b"[\"abc\\n\"]".to_vec();
        let mut d = deser_json::Deserializer::new(&text);
        let v: Result<Vec<String>, _> = d.deserialize();
    }
}
