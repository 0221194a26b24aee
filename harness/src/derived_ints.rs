//! Declarations around an integer.
use deser::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Debug)]
pub struct Field<T> {
    pub a: Option<bool>,
    pub n: T,
}

#[derive(Serialize, Deserialize, Debug)]
pub struct OptField<T> {
    pub n: Option<T>,
}

#[derive(Serialize, Deserialize, Debug)]
pub struct Outer<T> {
    #[deser(flatten)]
    pub f: Field<T>,
    #[deser(default)]
    pub s: String,
}

#[derive(Serialize, Deserialize, Debug)]
pub struct New<T>(pub T);

#[derive(Deserialize, Debug)]
#[deser(default)]
pub struct Def<T: Default> {
    #[deser(rename = "n", alias = "m")]
    pub x: T,
}

impl<T: Default> Default for Def<T> {
    fn default() -> Self {
        Def { x: T::default() }
    }
}
