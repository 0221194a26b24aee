//! A type that borrows is deserialized and outlives what it borrows from.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

struct Text<'a>(Option<&'a str>);
struct TextSink<'b, 'a>(&'b mut Option<Text<'a>>);
impl<'b, 'a> Sink for TextSink<'b, 'a> {
    fn atom(&mut self, atom: Atom, _: &DeserializerState) -> Result<(), Error> {
        #[cfg(not(feature = "control"))]
        if let Atom::Str(Cow::Borrowed(s)) = atom {
            *self.0 = Some(Text(Some(s)));
        }
        Ok(())
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        Ok(())
    }
}
impl<'a> Deserialize for Text<'a> {
    fn deserialize_into<'s>(out: &'s mut Option<Text<'a>>) -> SinkHandle<'s> {
        SinkHandle::boxed(TextSink(out))
    }
}
fn main() {
    let mut out = None::<Text>;
    {
        let text = "text".repeat(3);
        let mut d = DeserializeDriver::new(&mut out);
        d.emit(&text[..]).unwrap();
    }
    println!("{:?}", out.and_then(|x| x.0));
    #[cfg(not(feature = "control"))]
    {
    }
    #[cfg(feature = "control")]
    {
    }
}
