// generated by tools/gen_types.py

use mon::gen::Gen;
use mon::model::{T as Tr, *};
use mon::skip::{hit, skip_half};
use mon::zoo::*;
use deser::{Deserialize, Serialize, ErrorKind::{Unexpected, MissingField}};
use std::collections::{BTreeMap, HashMap};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
#[allow(non_camel_case_types, clippy::upper_case_acronyms)]
#[deser(rename_all = "UPPERCASE")]
pub enum E0 {
    Unknown,
    #[deser(alias = "A_alias0", alias = "A_alias1", rename = "")]
    A,
    #[deser(alias = "Bb_alias0")]
    #[deser(alias = "Bb")]
    Bb,
    #[deser(rename = "q\"uote")]
    XAxis,
}
impl E0 {
    pub const NAMES: &'static [(E0, &'static [&'static str])] = &[(E0::Unknown, &["UNKNOWN"]), (E0::A, &["", "A_alias0", "A_alias1"]), (E0::Bb, &["BB", "Bb_alias0", "Bb"]), (E0::XAxis, &["q\"uote"])];
}
impl Default for E0 { fn default() -> Self { E0::Bb } }
impl Zoo for E0 {
    fn arb(g: &mut Gen) -> Self { g.r.pick(Self::NAMES).0 }
    fn model(&self) -> M { M::atom(A::Str(Self::NAMES.iter().find(|x| x.0 == *self).unwrap().1[0].into()), D::default()) }
    fn fit(g: &mut Gen) -> Tr { let n = g.r.pick(Self::NAMES).1; Tr::A(A::Str(g.r.pick(n).to_string())) }
    fn de(n: &N) -> Result<Self, Fail> {
        match atom_of(n)? {
            A::Str(s) => match Self::NAMES.iter().find(|x| x.1.contains(&s.as_str())) { Some(x) => Ok(x.0), None => fail(Unexpected, n.start) },
            _ => fail(Unexpected, n.start),
        }
    }
    fn eqv(&self, o: &Self) -> bool { self == o }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
#[allow(non_camel_case_types, clippy::upper_case_acronyms)]
#[deser(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum E1 {
    #[deser(alias = "Bb")]
    Bb,
    #[deser(alias = "Other_alias0")]
    Other,
    A,
    #[deser(rename = "q\"uote", alias = "HTTPServer_alias0", alias = "HTTPServer")]
    HTTPServer,
    #[deser(alias = "Done_alias0")]
    Done,
    XAxis,
}
impl E1 {
    pub const NAMES: &'static [(E1, &'static [&'static str])] = &[(E1::Bb, &["BB", "Bb"]), (E1::Other, &["OTHER", "Other_alias0"]), (E1::A, &["A"]), (E1::HTTPServer, &["q\"uote", "HTTPServer_alias0", "HTTPServer"]), (E1::Done, &["DONE", "Done_alias0"]), (E1::XAxis, &["X-AXIS"])];
}
impl Default for E1 { fn default() -> Self { E1::Done } }
impl Zoo for E1 {
    fn arb(g: &mut Gen) -> Self { g.r.pick(Self::NAMES).0 }
    fn model(&self) -> M { M::atom(A::Str(Self::NAMES.iter().find(|x| x.0 == *self).unwrap().1[0].into()), D::default()) }
    fn fit(g: &mut Gen) -> Tr { let n = g.r.pick(Self::NAMES).1; Tr::A(A::Str(g.r.pick(n).to_string())) }
    fn de(n: &N) -> Result<Self, Fail> {
        match atom_of(n)? {
            A::Str(s) => match Self::NAMES.iter().find(|x| x.1.contains(&s.as_str())) { Some(x) => Ok(x.0), None => fail(Unexpected, n.start) },
            _ => fail(Unexpected, n.start),
        }
    }
    fn eqv(&self, o: &Self) -> bool { self == o }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(default)]
pub struct S2 {
    #[deser(alias = "First_Name")]
    pub first_name: bool,
}
impl Default for S2 {
    fn default() -> Self { hit(0); S2 { first_name: true } }
}
impl S2 {
    pub fn make() -> Self { hit(1); S2 { first_name: true } }
}
impl Zoo for S2 {
    const RT: bool = true;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S2 { first_name: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "S2") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.first_name.eqv(&o.first_name) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.first_name.same(&o.first_name) }
    fn de_desc() -> D { D::named("S2") }
}
impl StructRef for S2 {
    type Slots = (Option<bool>, ());
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.push(Leaf { names: vec!["first_name", "First_Name"], fit: <bool as Zoo>::fit });
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        v.push(("first_name".to_string(), self.first_name.model(), self.first_name.is_opt()));
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if ["first_name", "First_Name"].contains(&k) { s.0 = Some(<bool as Zoo>::de(v)?); return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        if s.0.is_none() {
            let d = <S2 as Default>::default();
            if s.0.is_none() { s.0 = Some(d.first_name); }
        }
        let v0 = match s.0.take() { Some(x) => x, None => match <bool as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        Ok(S2 { first_name: v0 })
    }
}

#[derive(Debug, Serialize, Deserialize)]
pub struct N3(pub f64);
impl Default for N3 { fn default() -> Self { N3(1.21f64) } }
impl Zoo for N3 {
    const RT: bool = <f64 as Zoo>::RT;
    fn arb(g: &mut Gen) -> Self { N3(Zoo::arb(g)) }
    fn model(&self) -> M { self.0.model() }
    fn fit(g: &mut Gen) -> Tr { <f64 as Zoo>::fit(g) }
    fn de(n: &N) -> Result<Self, Fail> { <f64 as Zoo>::de(n).map(N3) }
    fn eqv(&self, o: &Self) -> bool { self.0.eqv(&o.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) }
    fn is_opt(&self) -> bool { self.0.is_opt() }
    fn de_desc() -> D { <f64 as Zoo>::de_desc() }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(skip_serializing_optionals)]
#[deser(default)]
pub struct S4 {
    #[deser(flatten, skip_serializing_if = "skip_half")]
    pub slot: S2,
    #[deser(default = "S4::dflt_data")]
    pub data: N3,
    #[deser(skip_serializing_if = "skip_half", alias = "alias 2")]
    #[deser(alias = "Self_")]
    pub self_: Option<Vec<i64>>,
    #[deser(default)]
    pub r#match: Vec<N3>,
    #[deser(default = "S4::dflt_is_active")]
    pub is_active: S2,
    #[deser(default)]
    pub r#async: S2,
}
impl Default for S4 {
    fn default() -> Self { hit(2); S4 { slot: S2 { first_name: false }, data: N3(19.36f64), self_: Some(vec![(-6i64)]), r#match: vec![N3(98.80f64), N3(95.50f64)], is_active: S2 { first_name: false }, r#async: S2 { first_name: true } } }
}
impl S4 {
    pub fn make() -> Self { hit(3); S4 { slot: S2 { first_name: true }, data: N3(10.22f64), self_: Some(vec![(-68i64)]), r#match: vec![N3(62.41f64)], is_active: S2 { first_name: true }, r#async: S2 { first_name: false } } }
    fn dflt_data() -> N3 { hit(4); N3(90.92f64) }
    fn dflt_is_active() -> S2 { hit(5); S2 { first_name: false } }
}
impl Zoo for S4 {
    const RT: bool = false;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S4 { slot: Zoo::arb(g), data: Zoo::arb(g), self_: Zoo::arb(g), r#match: Zoo::arb(g), is_active: Zoo::arb(g), r#async: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "S4") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.slot.eqv(&o.slot) && self.data.eqv(&o.data) && self.self_.eqv(&o.self_) && self.r#match.eqv(&o.r#match) && self.is_active.eqv(&o.is_active) && self.r#async.eqv(&o.r#async) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.slot.same(&o.slot) && self.data.same(&o.data) && self.self_.same(&o.self_) && self.r#match.same(&o.r#match) && self.is_active.same(&o.is_active) && self.r#async.same(&o.r#async) }
    fn de_desc() -> D { D::named("S4") }
}
impl StructRef for S4 {
    type Slots = (<S2 as StructRef>::Slots, (Option<N3>, (Option<Option<Vec<i64>>>, (Option<Vec<N3>>, (Option<S2>, (Option<S2>, ()))))));
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.extend(<S2 as StructRef>::leaves());
        v.push(Leaf { names: vec!["data"], fit: <N3 as Zoo>::fit });
        v.push(Leaf { names: vec!["self_", "Self_", "alias 2"], fit: <Option<Vec<i64>> as Zoo>::fit });
        v.push(Leaf { names: vec!["match"], fit: <Vec<N3> as Zoo>::fit });
        v.push(Leaf { names: vec!["is_active"], fit: <S2 as Zoo>::fit });
        v.push(Leaf { names: vec!["async"], fit: <S2 as Zoo>::fit });
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        if !skip_half(&self.slot) {
        v.extend(self.slot.fields());
        }
        v.push(("data".to_string(), self.data.model(), self.data.is_opt()));
        if !skip_half(&self.self_) {
        v.push(("self_".to_string(), self.self_.model(), self.self_.is_opt()));
        }
        v.push(("match".to_string(), self.r#match.model(), self.r#match.is_opt()));
        v.push(("is_active".to_string(), self.is_active.model(), self.is_active.is_opt()));
        v.push(("async".to_string(), self.r#async.model(), self.r#async.is_opt()));
        v.retain(|x| !x.2);
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if ["data"].contains(&k) { s.1.0 = Some(<N3 as Zoo>::de(v)?); return Ok(true); }
        if ["self_", "Self_", "alias 2"].contains(&k) { s.1.1.0 = Some(<Option<Vec<i64>> as Zoo>::de(v)?); return Ok(true); }
        if ["match"].contains(&k) { s.1.1.1.0 = Some(<Vec<N3> as Zoo>::de(v)?); return Ok(true); }
        if ["is_active"].contains(&k) { s.1.1.1.1.0 = Some(<S2 as Zoo>::de(v)?); return Ok(true); }
        if ["async"].contains(&k) { s.1.1.1.1.1.0 = Some(<S2 as Zoo>::de(v)?); return Ok(true); }
        if <S2 as StructRef>::offer(&mut s.0, k, v)? { return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        let v0 = <S2 as StructRef>::complete(std::mem::take(&mut s.0), end)?;
        if s.1.0.is_none() { s.1.0 = Some(S4::dflt_data()); }
        if s.1.1.1.0.is_none() { s.1.1.1.0 = Some(Default::default()); }
        if s.1.1.1.1.0.is_none() { s.1.1.1.1.0 = Some(S4::dflt_is_active()); }
        if s.1.1.1.1.1.0.is_none() { s.1.1.1.1.1.0 = Some(Default::default()); }
        if s.1.1.0.is_none() {
            let d = <S4 as Default>::default();
            if s.1.1.0.is_none() { s.1.1.0 = Some(d.self_); }
        }
        let v1 = match s.1.0.take() { Some(x) => x, None => match <N3 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v2 = match s.1.1.0.take() { Some(x) => x, None => match <Option<Vec<i64>> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v3 = match s.1.1.1.0.take() { Some(x) => x, None => match <Vec<N3> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v4 = match s.1.1.1.1.0.take() { Some(x) => x, None => match <S2 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v5 = match s.1.1.1.1.1.0.take() { Some(x) => x, None => match <S2 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        Ok(S4 { slot: v0, data: v1, self_: v2, r#match: v3, is_active: v4, r#async: v5 })
    }
}

#[derive(Debug, Serialize, Deserialize)]
pub struct N5(pub N3);
impl Default for N5 { fn default() -> Self { N5(N3(78.23f64)) } }
impl Zoo for N5 {
    const RT: bool = <N3 as Zoo>::RT;
    fn arb(g: &mut Gen) -> Self { N5(Zoo::arb(g)) }
    fn model(&self) -> M { self.0.model() }
    fn fit(g: &mut Gen) -> Tr { <N3 as Zoo>::fit(g) }
    fn de(n: &N) -> Result<Self, Fail> { <N3 as Zoo>::de(n).map(N5) }
    fn eqv(&self, o: &Self) -> bool { self.0.eqv(&o.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) }
    fn is_opt(&self) -> bool { self.0.is_opt() }
    fn de_desc() -> D { <N3 as Zoo>::de_desc() }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(rename_all = "snake_case")]
pub struct S6 {
    #[deser(flatten)]
    pub out: S2,
}
impl Default for S6 {
    fn default() -> Self { hit(6); S6 { out: S2 { first_name: false } } }
}
impl S6 {
    pub fn make() -> Self { hit(7); S6 { out: S2 { first_name: false } } }
}
impl Zoo for S6 {
    const RT: bool = true;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S6 { out: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "S6") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.out.eqv(&o.out) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.out.same(&o.out) }
    fn de_desc() -> D { D::named("S6") }
}
impl StructRef for S6 {
    type Slots = (<S2 as StructRef>::Slots, ());
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.extend(<S2 as StructRef>::leaves());
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        v.extend(self.out.fields());
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if <S2 as StructRef>::offer(&mut s.0, k, v)? { return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        let v0 = <S2 as StructRef>::complete(std::mem::take(&mut s.0), end)?;
        Ok(S6 { out: v0 })
    }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(rename_all = "SCREAMING_SNAKE_CASE")]
#[deser(default = "S7::make")]
pub struct S7 {
    #[deser(default = "S7::dflt_type")]
    pub r#type: E0,
    #[deser(default = "S7::dflt_kind")]
    pub kind: E1,
}
impl Default for S7 {
    fn default() -> Self { hit(8); S7 { r#type: E0::Unknown, kind: E1::HTTPServer } }
}
impl S7 {
    pub fn make() -> Self { hit(9); S7 { r#type: E0::XAxis, kind: E1::A } }
    fn dflt_type() -> E0 { hit(10); E0::Unknown }
    fn dflt_kind() -> E1 { hit(11); E1::XAxis }
}
impl Zoo for S7 {
    const RT: bool = true;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S7 { r#type: Zoo::arb(g), kind: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "S7") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.r#type.eqv(&o.r#type) && self.kind.eqv(&o.kind) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.r#type.same(&o.r#type) && self.kind.same(&o.kind) }
    fn de_desc() -> D { D::named("S7") }
}
impl StructRef for S7 {
    type Slots = (Option<E0>, (Option<E1>, ()));
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.push(Leaf { names: vec!["TYPE"], fit: <E0 as Zoo>::fit });
        v.push(Leaf { names: vec!["KIND"], fit: <E1 as Zoo>::fit });
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        v.push(("TYPE".to_string(), self.r#type.model(), self.r#type.is_opt()));
        v.push(("KIND".to_string(), self.kind.model(), self.kind.is_opt()));
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if ["TYPE"].contains(&k) { s.0 = Some(<E0 as Zoo>::de(v)?); return Ok(true); }
        if ["KIND"].contains(&k) { s.1.0 = Some(<E1 as Zoo>::de(v)?); return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        if s.0.is_none() { s.0 = Some(S7::dflt_type()); }
        if s.1.0.is_none() { s.1.0 = Some(S7::dflt_kind()); }
        let v0 = match s.0.take() { Some(x) => x, None => match <E0 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v1 = match s.1.0.take() { Some(x) => x, None => match <E1 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        Ok(S7 { r#type: v0, kind: v1 })
    }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(rename = "", rename_all = "camelCase")]
pub struct S8 {
    pub r#type: Option<Box<i16>>,
    #[deser(flatten)]
    pub a_b_c: S4,
    #[deser(skip_serializing_if = "skip_half")]
    pub index: (Option<String>, S7,),
}
impl Default for S8 {
    fn default() -> Self { hit(12); S8 { r#type: Some(Box::new((42i16))), a_b_c: S4 { slot: S2 { first_name: true }, data: N3(80.16f64), self_: None, r#match: vec![], is_active: S2 { first_name: true }, r#async: S2 { first_name: false } }, index: (Some(String::from("é")), S7 { r#type: E0::Unknown, kind: E1::A },) } }
}
impl S8 {
    pub fn make() -> Self { hit(13); S8 { r#type: Some(Box::new((-14i16))), a_b_c: S4 { slot: S2 { first_name: false }, data: N3(62.17f64), self_: None, r#match: vec![N3(23.84f64), N3(10.95f64)], is_active: S2 { first_name: true }, r#async: S2 { first_name: false } }, index: (None, S7 { r#type: E0::A, kind: E1::A },) } }
}
impl Zoo for S8 {
    const RT: bool = false;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S8 { r#type: Zoo::arb(g), a_b_c: Zoo::arb(g), index: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.r#type.eqv(&o.r#type) && self.a_b_c.eqv(&o.a_b_c) && self.index.eqv(&o.index) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.r#type.same(&o.r#type) && self.a_b_c.same(&o.a_b_c) && self.index.same(&o.index) }
    fn de_desc() -> D { D::named("") }
}
impl StructRef for S8 {
    type Slots = (Option<Option<Box<i16>>>, (<S4 as StructRef>::Slots, (Option<(Option<String>, S7,)>, ())));
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.push(Leaf { names: vec!["type"], fit: <Option<Box<i16>> as Zoo>::fit });
        v.extend(<S4 as StructRef>::leaves());
        v.push(Leaf { names: vec!["index"], fit: <(Option<String>, S7,) as Zoo>::fit });
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        v.push(("type".to_string(), self.r#type.model(), self.r#type.is_opt()));
        v.extend(self.a_b_c.fields());
        if !skip_half(&self.index) {
        v.push(("index".to_string(), self.index.model(), self.index.is_opt()));
        }
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if ["type"].contains(&k) { s.0 = Some(<Option<Box<i16>> as Zoo>::de(v)?); return Ok(true); }
        if ["index"].contains(&k) { s.1.1.0 = Some(<(Option<String>, S7,) as Zoo>::de(v)?); return Ok(true); }
        if <S4 as StructRef>::offer(&mut s.1.0, k, v)? { return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        let v1 = <S4 as StructRef>::complete(std::mem::take(&mut s.1.0), end)?;
        let v0 = match s.0.take() { Some(x) => x, None => match <Option<Box<i16>> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v2 = match s.1.1.0.take() { Some(x) => x, None => match <(Option<String>, S7,) as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        Ok(S8 { r#type: v0, a_b_c: v1, index: v2 })
    }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(default = "S9::make", rename_all = "SCREAMING_SNAKE_CASE")]
#[deser(skip_serializing_optionals)]
pub struct S9 {
    #[deser(skip_serializing_if = "skip_half")]
    pub big_int: [[bool; 3]; 2],
    #[deser(alias = "@value")]
    #[deser(default, alias = "alias 1")]
    pub value: Option<Option<u8>>,
}
impl Default for S9 {
    fn default() -> Self { hit(14); S9 { big_int: [[false, false, false], [true, true, false]], value: None } }
}
impl S9 {
    pub fn make() -> Self { hit(15); S9 { big_int: [[true, true, false], [false, true, false]], value: None } }
}
impl Zoo for S9 {
    const RT: bool = false;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S9 { big_int: Zoo::arb(g), value: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "S9") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.big_int.eqv(&o.big_int) && self.value.eqv(&o.value) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.big_int.same(&o.big_int) && self.value.same(&o.value) }
    fn de_desc() -> D { D::named("S9") }
}
impl StructRef for S9 {
    type Slots = (Option<[[bool; 3]; 2]>, (Option<Option<Option<u8>>>, ()));
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.push(Leaf { names: vec!["BIG_INT"], fit: <[[bool; 3]; 2] as Zoo>::fit });
        v.push(Leaf { names: vec!["VALUE", "@value", "alias 1"], fit: <Option<Option<u8>> as Zoo>::fit });
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        if !skip_half(&self.big_int) {
        v.push(("BIG_INT".to_string(), self.big_int.model(), self.big_int.is_opt()));
        }
        v.push(("VALUE".to_string(), self.value.model(), self.value.is_opt()));
        v.retain(|x| !x.2);
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if ["BIG_INT"].contains(&k) { s.0 = Some(<[[bool; 3]; 2] as Zoo>::de(v)?); return Ok(true); }
        if ["VALUE", "@value", "alias 1"].contains(&k) { s.1.0 = Some(<Option<Option<u8>> as Zoo>::de(v)?); return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        if s.1.0.is_none() { s.1.0 = Some(Default::default()); }
        if s.0.is_none() {
            let d = S9::make();
            if s.0.is_none() { s.0 = Some(d.big_int); }
        }
        let v0 = match s.0.take() { Some(x) => x, None => match <[[bool; 3]; 2] as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v1 = match s.1.0.take() { Some(x) => x, None => match <Option<Option<u8>> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        Ok(S9 { big_int: v0, value: v1 })
    }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(skip_serializing_optionals)]
#[deser(rename_all = "lowercase")]
pub struct S10 {
    #[deser(rename = "q\"t")]
    pub r#type: BTreeMap<String, E0>,
}
impl Default for S10 {
    fn default() -> Self { hit(16); S10 { r#type: Default::default() } }
}
impl S10 {
    pub fn make() -> Self { hit(17); S10 { r#type: Default::default() } }
}
impl Zoo for S10 {
    const RT: bool = true;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S10 { r#type: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "S10") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.r#type.eqv(&o.r#type) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.r#type.same(&o.r#type) }
    fn de_desc() -> D { D::named("S10") }
}
impl StructRef for S10 {
    type Slots = (Option<BTreeMap<String, E0>>, ());
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.push(Leaf { names: vec!["q\"t"], fit: <BTreeMap<String, E0> as Zoo>::fit });
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        v.push(("q\"t".to_string(), self.r#type.model(), self.r#type.is_opt()));
        v.retain(|x| !x.2);
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if ["q\"t"].contains(&k) { s.0 = Some(<BTreeMap<String, E0> as Zoo>::de(v)?); return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        let v0 = match s.0.take() { Some(x) => x, None => match <BTreeMap<String, E0> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        Ok(S10 { r#type: v0 })
    }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(skip_serializing_optionals, default = "S11::make")]
pub struct S11 {
    #[deser(skip_serializing_if = "skip_half")]
    #[deser(flatten)]
    pub x: S6,
    #[deser(default, skip_serializing_if = "skip_half")]
    pub longer_field_name_here: [Box<String>; 3],
    #[deser(rename = "KIND!")]
    #[deser(default)]
    pub kind: S7,
    #[deser(default = "S11::dflt_user_id", rename = "re name")]
    pub user_id: Option<Option<f64>>,
    #[deser(default = "S11::dflt_slot")]
    pub slot: String,
    pub state: S7,
}
impl Default for S11 {
    fn default() -> Self { hit(18); S11 { x: S6 { out: S2 { first_name: false } }, longer_field_name_here: [Box::new(String::from("")), Box::new(String::from("dflt")), Box::new(String::from(""))], kind: S7 { r#type: E0::Bb, kind: E1::A }, user_id: None, slot: String::from("é"), state: S7 { r#type: E0::XAxis, kind: E1::Done } } }
}
impl S11 {
    pub fn make() -> Self { hit(19); S11 { x: S6 { out: S2 { first_name: true } }, longer_field_name_here: [Box::new(String::from("x y")), Box::new(String::from("é")), Box::new(String::from("x y"))], kind: S7 { r#type: E0::Unknown, kind: E1::A }, user_id: None, slot: String::from("x y"), state: S7 { r#type: E0::A, kind: E1::Other } } }
    fn dflt_user_id() -> Option<Option<f64>> { hit(20); Some(Some(31.56f64)) }
    fn dflt_slot() -> String { hit(21); String::from("x y") }
}
impl Zoo for S11 {
    const RT: bool = false;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S11 { x: Zoo::arb(g), longer_field_name_here: Zoo::arb(g), kind: Zoo::arb(g), user_id: Zoo::arb(g), slot: Zoo::arb(g), state: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "S11") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.x.eqv(&o.x) && self.longer_field_name_here.eqv(&o.longer_field_name_here) && self.kind.eqv(&o.kind) && self.user_id.eqv(&o.user_id) && self.slot.eqv(&o.slot) && self.state.eqv(&o.state) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.x.same(&o.x) && self.longer_field_name_here.same(&o.longer_field_name_here) && self.kind.same(&o.kind) && self.user_id.same(&o.user_id) && self.slot.same(&o.slot) && self.state.same(&o.state) }
    fn de_desc() -> D { D::named("S11") }
}
impl StructRef for S11 {
    type Slots = (<S6 as StructRef>::Slots, (Option<[Box<String>; 3]>, (Option<S7>, (Option<Option<Option<f64>>>, (Option<String>, (Option<S7>, ()))))));
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.extend(<S6 as StructRef>::leaves());
        v.push(Leaf { names: vec!["longer_field_name_here"], fit: <[Box<String>; 3] as Zoo>::fit });
        v.push(Leaf { names: vec!["KIND!"], fit: <S7 as Zoo>::fit });
        v.push(Leaf { names: vec!["re name"], fit: <Option<Option<f64>> as Zoo>::fit });
        v.push(Leaf { names: vec!["slot"], fit: <String as Zoo>::fit });
        v.push(Leaf { names: vec!["state"], fit: <S7 as Zoo>::fit });
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        if !skip_half(&self.x) {
        v.extend(self.x.fields());
        }
        if !skip_half(&self.longer_field_name_here) {
        v.push(("longer_field_name_here".to_string(), self.longer_field_name_here.model(), self.longer_field_name_here.is_opt()));
        }
        v.push(("KIND!".to_string(), self.kind.model(), self.kind.is_opt()));
        v.push(("re name".to_string(), self.user_id.model(), self.user_id.is_opt()));
        v.push(("slot".to_string(), self.slot.model(), self.slot.is_opt()));
        v.push(("state".to_string(), self.state.model(), self.state.is_opt()));
        v.retain(|x| !x.2);
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if ["longer_field_name_here"].contains(&k) { s.1.0 = Some(<[Box<String>; 3] as Zoo>::de(v)?); return Ok(true); }
        if ["KIND!"].contains(&k) { s.1.1.0 = Some(<S7 as Zoo>::de(v)?); return Ok(true); }
        if ["re name"].contains(&k) { s.1.1.1.0 = Some(<Option<Option<f64>> as Zoo>::de(v)?); return Ok(true); }
        if ["slot"].contains(&k) { s.1.1.1.1.0 = Some(<String as Zoo>::de(v)?); return Ok(true); }
        if ["state"].contains(&k) { s.1.1.1.1.1.0 = Some(<S7 as Zoo>::de(v)?); return Ok(true); }
        if <S6 as StructRef>::offer(&mut s.0, k, v)? { return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        let v0 = <S6 as StructRef>::complete(std::mem::take(&mut s.0), end)?;
        if s.1.0.is_none() { s.1.0 = Some(Default::default()); }
        if s.1.1.0.is_none() { s.1.1.0 = Some(Default::default()); }
        if s.1.1.1.0.is_none() { s.1.1.1.0 = Some(S11::dflt_user_id()); }
        if s.1.1.1.1.0.is_none() { s.1.1.1.1.0 = Some(S11::dflt_slot()); }
        if s.1.1.1.1.1.0.is_none() {
            let d = S11::make();
            if s.1.1.1.1.1.0.is_none() { s.1.1.1.1.1.0 = Some(d.state); }
        }
        let v1 = match s.1.0.take() { Some(x) => x, None => match <[Box<String>; 3] as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v2 = match s.1.1.0.take() { Some(x) => x, None => match <S7 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v3 = match s.1.1.1.0.take() { Some(x) => x, None => match <Option<Option<f64>> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v4 = match s.1.1.1.1.0.take() { Some(x) => x, None => match <String as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v5 = match s.1.1.1.1.1.0.take() { Some(x) => x, None => match <S7 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        Ok(S11 { x: v0, longer_field_name_here: v1, kind: v2, user_id: v3, slot: v4, state: v5 })
    }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(default = "S12::make")]
pub struct S12 {
    #[deser(alias = "Two__Us")]
    #[deser(alias = "@two__us")]
    #[deser(alias = "two__us_alias")]
    pub two__us: f64,
    #[deser(rename = "re name")]
    pub slot: String,
    #[deser(default = "S12::dflt_user_id", alias = "User_Id")]
    pub user_id: Option<Option<f64>>,
    #[deser(default = "S12::dflt_name")]
    #[deser(alias = "name_alias")]
    pub name: Option<E0>,
    #[deser(alias = "Nested_Emitter")]
    #[deser(rename = "a.b")]
    pub nested_emitter: N3,
    #[deser(alias = "descriptor", alias = "@descriptor", rename = "back\\slash", alias = "Descriptor")]
    pub descriptor: N3,
}
impl Default for S12 {
    fn default() -> Self { hit(22); S12 { two__us: 69.86f64, slot: String::from(""), user_id: None, name: None, nested_emitter: N3(94.35f64), descriptor: N3(19.17f64) } }
}
impl S12 {
    pub fn make() -> Self { hit(23); S12 { two__us: 26.09f64, slot: String::from(""), user_id: None, name: None, nested_emitter: N3(46.07f64), descriptor: N3(95.89f64) } }
    fn dflt_user_id() -> Option<Option<f64>> { hit(24); Some(Some(47.53f64)) }
    fn dflt_name() -> Option<E0> { hit(25); None }
}
impl Zoo for S12 {
    const RT: bool = true;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S12 { two__us: Zoo::arb(g), slot: Zoo::arb(g), user_id: Zoo::arb(g), name: Zoo::arb(g), nested_emitter: Zoo::arb(g), descriptor: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "S12") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.two__us.eqv(&o.two__us) && self.slot.eqv(&o.slot) && self.user_id.eqv(&o.user_id) && self.name.eqv(&o.name) && self.nested_emitter.eqv(&o.nested_emitter) && self.descriptor.eqv(&o.descriptor) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.two__us.same(&o.two__us) && self.slot.same(&o.slot) && self.user_id.same(&o.user_id) && self.name.same(&o.name) && self.nested_emitter.same(&o.nested_emitter) && self.descriptor.same(&o.descriptor) }
    fn de_desc() -> D { D::named("S12") }
}
impl StructRef for S12 {
    type Slots = (Option<f64>, (Option<String>, (Option<Option<Option<f64>>>, (Option<Option<E0>>, (Option<N3>, (Option<N3>, ()))))));
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.push(Leaf { names: vec!["two__us", "@two__us", "two__us_alias", "Two__Us"], fit: <f64 as Zoo>::fit });
        v.push(Leaf { names: vec!["re name"], fit: <String as Zoo>::fit });
        v.push(Leaf { names: vec!["user_id", "User_Id"], fit: <Option<Option<f64>> as Zoo>::fit });
        v.push(Leaf { names: vec!["name", "name_alias"], fit: <Option<E0> as Zoo>::fit });
        v.push(Leaf { names: vec!["a.b", "Nested_Emitter"], fit: <N3 as Zoo>::fit });
        v.push(Leaf { names: vec!["back\\slash", "@descriptor", "Descriptor", "descriptor"], fit: <N3 as Zoo>::fit });
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        v.push(("two__us".to_string(), self.two__us.model(), self.two__us.is_opt()));
        v.push(("re name".to_string(), self.slot.model(), self.slot.is_opt()));
        v.push(("user_id".to_string(), self.user_id.model(), self.user_id.is_opt()));
        v.push(("name".to_string(), self.name.model(), self.name.is_opt()));
        v.push(("a.b".to_string(), self.nested_emitter.model(), self.nested_emitter.is_opt()));
        v.push(("back\\slash".to_string(), self.descriptor.model(), self.descriptor.is_opt()));
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if ["two__us", "@two__us", "two__us_alias", "Two__Us"].contains(&k) { s.0 = Some(<f64 as Zoo>::de(v)?); return Ok(true); }
        if ["re name"].contains(&k) { s.1.0 = Some(<String as Zoo>::de(v)?); return Ok(true); }
        if ["user_id", "User_Id"].contains(&k) { s.1.1.0 = Some(<Option<Option<f64>> as Zoo>::de(v)?); return Ok(true); }
        if ["name", "name_alias"].contains(&k) { s.1.1.1.0 = Some(<Option<E0> as Zoo>::de(v)?); return Ok(true); }
        if ["a.b", "Nested_Emitter"].contains(&k) { s.1.1.1.1.0 = Some(<N3 as Zoo>::de(v)?); return Ok(true); }
        if ["back\\slash", "@descriptor", "Descriptor", "descriptor"].contains(&k) { s.1.1.1.1.1.0 = Some(<N3 as Zoo>::de(v)?); return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        if s.1.1.0.is_none() { s.1.1.0 = Some(S12::dflt_user_id()); }
        if s.1.1.1.0.is_none() { s.1.1.1.0 = Some(S12::dflt_name()); }
        if s.0.is_none() || s.1.0.is_none() || s.1.1.1.1.0.is_none() || s.1.1.1.1.1.0.is_none() {
            let d = S12::make();
            if s.0.is_none() { s.0 = Some(d.two__us); }
            if s.1.0.is_none() { s.1.0 = Some(d.slot); }
            if s.1.1.1.1.0.is_none() { s.1.1.1.1.0 = Some(d.nested_emitter); }
            if s.1.1.1.1.1.0.is_none() { s.1.1.1.1.1.0 = Some(d.descriptor); }
        }
        let v0 = match s.0.take() { Some(x) => x, None => match <f64 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v1 = match s.1.0.take() { Some(x) => x, None => match <String as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v2 = match s.1.1.0.take() { Some(x) => x, None => match <Option<Option<f64>> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v3 = match s.1.1.1.0.take() { Some(x) => x, None => match <Option<E0> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v4 = match s.1.1.1.1.0.take() { Some(x) => x, None => match <N3 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v5 = match s.1.1.1.1.1.0.take() { Some(x) => x, None => match <N3 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        Ok(S12 { two__us: v0, slot: v1, user_id: v2, name: v3, nested_emitter: v4, descriptor: v5 })
    }
}

#[derive(Debug, Serialize, Deserialize)]
pub struct S13 {
}
impl Default for S13 {
    fn default() -> Self { hit(26); S13 {  } }
}
impl S13 {
    pub fn make() -> Self { hit(27); S13 {  } }
}
impl Zoo for S13 {
    const RT: bool = true;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S13 {  } }
    fn model(&self) -> M { struct_model(self, "S13") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true }
    fn same(&self, o: &Self) -> bool { let _ = o; true }
    fn de_desc() -> D { D::named("S13") }
}
impl StructRef for S13 {
    type Slots = ();
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        Ok(S13 {  })
    }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(skip_serializing_optionals)]
#[deser(rename_all = "lowercase")]
pub struct S14 {
    #[deser(flatten)]
    pub descriptor: S10,
}
impl Default for S14 {
    fn default() -> Self { hit(28); S14 { descriptor: S10 { r#type: Default::default() } } }
}
impl S14 {
    pub fn make() -> Self { hit(29); S14 { descriptor: S10 { r#type: Default::default() } } }
}
impl Zoo for S14 {
    const RT: bool = true;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S14 { descriptor: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "S14") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.descriptor.eqv(&o.descriptor) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.descriptor.same(&o.descriptor) }
    fn de_desc() -> D { D::named("S14") }
}
impl StructRef for S14 {
    type Slots = (<S10 as StructRef>::Slots, ());
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.extend(<S10 as StructRef>::leaves());
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        v.extend(self.descriptor.fields());
        v.retain(|x| !x.2);
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if <S10 as StructRef>::offer(&mut s.0, k, v)? { return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        let v0 = <S10 as StructRef>::complete(std::mem::take(&mut s.0), end)?;
        Ok(S14 { descriptor: v0 })
    }
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct N15(pub Option<Option<isize>>);
impl Default for N15 { fn default() -> Self { N15(None) } }
impl Zoo for N15 {
    const RT: bool = <Option<Option<isize>> as Zoo>::RT;
    fn arb(g: &mut Gen) -> Self { N15(Zoo::arb(g)) }
    fn model(&self) -> M { self.0.model() }
    fn fit(g: &mut Gen) -> Tr { <Option<Option<isize>> as Zoo>::fit(g) }
    fn de(n: &N) -> Result<Self, Fail> { <Option<Option<isize>> as Zoo>::de(n).map(N15) }
    fn eqv(&self, o: &Self) -> bool { self.0.eqv(&o.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) }
    fn is_opt(&self) -> bool { self.0.is_opt() }
    fn de_desc() -> D { <Option<Option<isize>> as Zoo>::de_desc() }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(rename_all = "UPPERCASE")]
pub struct S16 {
    pub trail_: Option<i8>,
    #[deser(skip_serializing_if = "skip_half", alias = "value_alias", alias = "Value")]
    pub value: E1,
    #[deser(alias = "Big_Int")]
    pub big_int: [Option<bool>; 1],
    #[deser(skip_serializing_if = "skip_half")]
    pub line2_col3: Box<String>,
    #[deser(flatten)]
    pub y1: S13,
}
impl Default for S16 {
    fn default() -> Self { hit(30); S16 { trail_: Some((61i8)), value: E1::HTTPServer, big_int: [None], line2_col3: Box::new(String::from("dflt")), y1: S13 {  } } }
}
impl S16 {
    pub fn make() -> Self { hit(31); S16 { trail_: Some((38i8)), value: E1::XAxis, big_int: [None], line2_col3: Box::new(String::from("")), y1: S13 {  } } }
}
impl Zoo for S16 {
    const RT: bool = false;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S16 { trail_: Zoo::arb(g), value: Zoo::arb(g), big_int: Zoo::arb(g), line2_col3: Zoo::arb(g), y1: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "S16") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.trail_.eqv(&o.trail_) && self.value.eqv(&o.value) && self.big_int.eqv(&o.big_int) && self.line2_col3.eqv(&o.line2_col3) && self.y1.eqv(&o.y1) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.trail_.same(&o.trail_) && self.value.same(&o.value) && self.big_int.same(&o.big_int) && self.line2_col3.same(&o.line2_col3) && self.y1.same(&o.y1) }
    fn de_desc() -> D { D::named("S16") }
}
impl StructRef for S16 {
    type Slots = (Option<Option<i8>>, (Option<E1>, (Option<[Option<bool>; 1]>, (Option<Box<String>>, (<S13 as StructRef>::Slots, ())))));
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.push(Leaf { names: vec!["TRAIL_"], fit: <Option<i8> as Zoo>::fit });
        v.push(Leaf { names: vec!["VALUE", "Value", "value_alias"], fit: <E1 as Zoo>::fit });
        v.push(Leaf { names: vec!["BIG_INT", "Big_Int"], fit: <[Option<bool>; 1] as Zoo>::fit });
        v.push(Leaf { names: vec!["LINE2_COL3"], fit: <Box<String> as Zoo>::fit });
        v.extend(<S13 as StructRef>::leaves());
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        v.push(("TRAIL_".to_string(), self.trail_.model(), self.trail_.is_opt()));
        if !skip_half(&self.value) {
        v.push(("VALUE".to_string(), self.value.model(), self.value.is_opt()));
        }
        v.push(("BIG_INT".to_string(), self.big_int.model(), self.big_int.is_opt()));
        if !skip_half(&self.line2_col3) {
        v.push(("LINE2_COL3".to_string(), self.line2_col3.model(), self.line2_col3.is_opt()));
        }
        v.extend(self.y1.fields());
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if ["TRAIL_"].contains(&k) { s.0 = Some(<Option<i8> as Zoo>::de(v)?); return Ok(true); }
        if ["VALUE", "Value", "value_alias"].contains(&k) { s.1.0 = Some(<E1 as Zoo>::de(v)?); return Ok(true); }
        if ["BIG_INT", "Big_Int"].contains(&k) { s.1.1.0 = Some(<[Option<bool>; 1] as Zoo>::de(v)?); return Ok(true); }
        if ["LINE2_COL3"].contains(&k) { s.1.1.1.0 = Some(<Box<String> as Zoo>::de(v)?); return Ok(true); }
        if <S13 as StructRef>::offer(&mut s.1.1.1.1.0, k, v)? { return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        let v4 = <S13 as StructRef>::complete(std::mem::take(&mut s.1.1.1.1.0), end)?;
        let v0 = match s.0.take() { Some(x) => x, None => match <Option<i8> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v1 = match s.1.0.take() { Some(x) => x, None => match <E1 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v2 = match s.1.1.0.take() { Some(x) => x, None => match <[Option<bool>; 1] as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v3 = match s.1.1.1.0.take() { Some(x) => x, None => match <Box<String> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        Ok(S16 { trail_: v0, value: v1, big_int: v2, line2_col3: v3, y1: v4 })
    }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(rename_all = "UPPERCASE")]
#[deser(skip_serializing_optionals)]
pub struct S17 {
    #[deser(flatten, skip_serializing_if = "Option::is_none")]
    pub trail_: Option<S2>,
    pub line2_col3: i32,
    #[deser(alias = "alias 0", skip_serializing_if = "skip_half")]
    pub max_len_of: ((),),
}
impl Default for S17 {
    fn default() -> Self { hit(32); S17 { trail_: None, line2_col3: (-41i32), max_len_of: ((),) } }
}
impl S17 {
    pub fn make() -> Self { hit(33); S17 { trail_: None, line2_col3: (-112i32), max_len_of: ((),) } }
}
impl Zoo for S17 {
    const RT: bool = false;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S17 { trail_: Zoo::arb(g), line2_col3: Zoo::arb(g), max_len_of: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "S17") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.trail_.eqv(&o.trail_) && self.line2_col3.eqv(&o.line2_col3) && self.max_len_of.eqv(&o.max_len_of) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.trail_.same(&o.trail_) && self.line2_col3.same(&o.line2_col3) && self.max_len_of.same(&o.max_len_of) }
    fn de_desc() -> D { D::named("S17") }
}
impl StructRef for S17 {
    type Slots = (<Option<S2> as StructRef>::Slots, (Option<i32>, (Option<((),)>, ())));
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.extend(<Option<S2> as StructRef>::leaves());
        v.push(Leaf { names: vec!["LINE2_COL3"], fit: <i32 as Zoo>::fit });
        v.push(Leaf { names: vec!["MAX_LEN_OF", "alias 0"], fit: <((),) as Zoo>::fit });
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        if !Option::is_none(&self.trail_) {
        v.extend(self.trail_.fields());
        }
        v.push(("LINE2_COL3".to_string(), self.line2_col3.model(), self.line2_col3.is_opt()));
        if !skip_half(&self.max_len_of) {
        v.push(("MAX_LEN_OF".to_string(), self.max_len_of.model(), self.max_len_of.is_opt()));
        }
        v.retain(|x| !x.2);
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if ["LINE2_COL3"].contains(&k) { s.1.0 = Some(<i32 as Zoo>::de(v)?); return Ok(true); }
        if ["MAX_LEN_OF", "alias 0"].contains(&k) { s.1.1.0 = Some(<((),) as Zoo>::de(v)?); return Ok(true); }
        if <Option<S2> as StructRef>::offer(&mut s.0, k, v)? { return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        let v0 = <Option<S2> as StructRef>::complete(std::mem::take(&mut s.0), end)?;
        let v1 = match s.1.0.take() { Some(x) => x, None => match <i32 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v2 = match s.1.1.0.take() { Some(x) => x, None => match <((),) as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        Ok(S17 { trail_: v0, line2_col3: v1, max_len_of: v2 })
    }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(default, rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S18 {
    #[deser(default = "S18::dflt_type", rename = "")]
    pub r#type: Option<BTreeMap<bool, ()>>,
    #[deser(rename = "$ref")]
    pub n0: HashMap<char, BTreeMap<u8, ()>>,
    pub big_int: E0,
    #[deser(skip_serializing_if = "skip_half")]
    pub user_id: (bool, (String,),),
    #[deser(flatten)]
    pub nested_emitter: S11,
    #[deser(flatten)]
    pub x: Box<S10>,
}
impl Default for S18 {
    fn default() -> Self { hit(34); S18 { r#type: Some(Default::default()), n0: Default::default(), big_int: E0::XAxis, user_id: (false, (String::from("x y"),),), nested_emitter: S11 { x: S6 { out: S2 { first_name: false } }, longer_field_name_here: [Box::new(String::from("é")), Box::new(String::from("dflt")), Box::new(String::from(""))], kind: S7 { r#type: E0::Unknown, kind: E1::Done }, user_id: Some(Some(44.68f64)), slot: String::from("é"), state: S7 { r#type: E0::A, kind: E1::HTTPServer } }, x: Box::new(S10 { r#type: Default::default() }) } }
}
impl S18 {
    pub fn make() -> Self { hit(35); S18 { r#type: Some(Default::default()), n0: Default::default(), big_int: E0::Unknown, user_id: (true, (String::from("x y"),),), nested_emitter: S11 { x: S6 { out: S2 { first_name: false } }, longer_field_name_here: [Box::new(String::from("x y")), Box::new(String::from("")), Box::new(String::from("é"))], kind: S7 { r#type: E0::Unknown, kind: E1::Bb }, user_id: Some(None), slot: String::from("x y"), state: S7 { r#type: E0::Unknown, kind: E1::Bb } }, x: Box::new(S10 { r#type: Default::default() }) } }
    fn dflt_type() -> Option<BTreeMap<bool, ()>> { hit(36); Some(Default::default()) }
}
impl Zoo for S18 {
    const RT: bool = false;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S18 { r#type: Zoo::arb(g), n0: Zoo::arb(g), big_int: Zoo::arb(g), user_id: Zoo::arb(g), nested_emitter: Zoo::arb(g), x: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "S18") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.r#type.eqv(&o.r#type) && self.n0.eqv(&o.n0) && self.big_int.eqv(&o.big_int) && self.user_id.eqv(&o.user_id) && self.nested_emitter.eqv(&o.nested_emitter) && self.x.eqv(&o.x) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.r#type.same(&o.r#type) && self.n0.same(&o.n0) && self.big_int.same(&o.big_int) && self.user_id.same(&o.user_id) && self.nested_emitter.same(&o.nested_emitter) && self.x.same(&o.x) }
    fn de_desc() -> D { D::named("S18") }
}
impl StructRef for S18 {
    type Slots = (Option<Option<BTreeMap<bool, ()>>>, (Option<HashMap<char, BTreeMap<u8, ()>>>, (Option<E0>, (Option<(bool, (String,),)>, (<S11 as StructRef>::Slots, (<Box<S10> as StructRef>::Slots, ()))))));
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.push(Leaf { names: vec![""], fit: <Option<BTreeMap<bool, ()>> as Zoo>::fit });
        v.push(Leaf { names: vec!["$ref"], fit: <HashMap<char, BTreeMap<u8, ()>> as Zoo>::fit });
        v.push(Leaf { names: vec!["BIG_INT"], fit: <E0 as Zoo>::fit });
        v.push(Leaf { names: vec!["USER_ID"], fit: <(bool, (String,),) as Zoo>::fit });
        v.extend(<S11 as StructRef>::leaves());
        v.extend(<Box<S10> as StructRef>::leaves());
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        v.push(("".to_string(), self.r#type.model(), self.r#type.is_opt()));
        v.push(("$ref".to_string(), self.n0.model(), self.n0.is_opt()));
        v.push(("BIG_INT".to_string(), self.big_int.model(), self.big_int.is_opt()));
        if !skip_half(&self.user_id) {
        v.push(("USER_ID".to_string(), self.user_id.model(), self.user_id.is_opt()));
        }
        v.extend(self.nested_emitter.fields());
        v.extend(self.x.fields());
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if [""].contains(&k) { s.0 = Some(<Option<BTreeMap<bool, ()>> as Zoo>::de(v)?); return Ok(true); }
        if ["$ref"].contains(&k) { s.1.0 = Some(<HashMap<char, BTreeMap<u8, ()>> as Zoo>::de(v)?); return Ok(true); }
        if ["BIG_INT"].contains(&k) { s.1.1.0 = Some(<E0 as Zoo>::de(v)?); return Ok(true); }
        if ["USER_ID"].contains(&k) { s.1.1.1.0 = Some(<(bool, (String,),) as Zoo>::de(v)?); return Ok(true); }
        if <S11 as StructRef>::offer(&mut s.1.1.1.1.0, k, v)? { return Ok(true); }
        if <Box<S10> as StructRef>::offer(&mut s.1.1.1.1.1.0, k, v)? { return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        let v4 = <S11 as StructRef>::complete(std::mem::take(&mut s.1.1.1.1.0), end)?;
        let v5 = <Box<S10> as StructRef>::complete(std::mem::take(&mut s.1.1.1.1.1.0), end)?;
        if s.0.is_none() { s.0 = Some(S18::dflt_type()); }
        if s.1.0.is_none() || s.1.1.0.is_none() || s.1.1.1.0.is_none() {
            let d = <S18 as Default>::default();
            if s.1.0.is_none() { s.1.0 = Some(d.n0); }
            if s.1.1.0.is_none() { s.1.1.0 = Some(d.big_int); }
            if s.1.1.1.0.is_none() { s.1.1.1.0 = Some(d.user_id); }
        }
        let v0 = match s.0.take() { Some(x) => x, None => match <Option<BTreeMap<bool, ()>> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v1 = match s.1.0.take() { Some(x) => x, None => match <HashMap<char, BTreeMap<u8, ()>> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v2 = match s.1.1.0.take() { Some(x) => x, None => match <E0 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v3 = match s.1.1.1.0.take() { Some(x) => x, None => match <(bool, (String,),) as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        Ok(S18 { r#type: v0, n0: v1, big_int: v2, user_id: v3, nested_emitter: v4, x: v5 })
    }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(skip_serializing_optionals, rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S19 {
    #[deser(flatten)]
    pub max_len_of: S6,
    #[deser(skip_serializing_if = "skip_half", default, rename = "Ünï")]
    pub y1: S10,
    pub is_active: N5,
    #[deser(alias = "@index")]
    pub index: Option<[(); 2]>,
    pub r#fn: Vec<bool>,
    #[deser(flatten)]
    pub r#type: S14,
    #[deser(alias = "Out")]
    #[deser(alias = "@out")]
    pub out: [f64; 1],
    #[deser(rename = "unused", flatten)]
    pub x: S9,
}
impl Default for S19 {
    fn default() -> Self { hit(37); S19 { max_len_of: S6 { out: S2 { first_name: true } }, y1: S10 { r#type: Default::default() }, is_active: N5(N3(13.47f64)), index: Some([(), ()]), r#fn: vec![], r#type: S14 { descriptor: S10 { r#type: Default::default() } }, out: [70.75f64], x: S9 { big_int: [[false, true, true], [true, false, false]], value: Some(Some(14u8)) } } }
}
impl S19 {
    pub fn make() -> Self { hit(38); S19 { max_len_of: S6 { out: S2 { first_name: false } }, y1: S10 { r#type: Default::default() }, is_active: N5(N3(59.47f64)), index: Some([(), ()]), r#fn: vec![false, true], r#type: S14 { descriptor: S10 { r#type: Default::default() } }, out: [16.51f64], x: S9 { big_int: [[true, true, true], [true, false, true]], value: None } } }
}
impl Zoo for S19 {
    const RT: bool = false;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S19 { max_len_of: Zoo::arb(g), y1: Zoo::arb(g), is_active: Zoo::arb(g), index: Zoo::arb(g), r#fn: Zoo::arb(g), r#type: Zoo::arb(g), out: Zoo::arb(g), x: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "S19") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.max_len_of.eqv(&o.max_len_of) && self.y1.eqv(&o.y1) && self.is_active.eqv(&o.is_active) && self.index.eqv(&o.index) && self.r#fn.eqv(&o.r#fn) && self.r#type.eqv(&o.r#type) && self.out.eqv(&o.out) && self.x.eqv(&o.x) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.max_len_of.same(&o.max_len_of) && self.y1.same(&o.y1) && self.is_active.same(&o.is_active) && self.index.same(&o.index) && self.r#fn.same(&o.r#fn) && self.r#type.same(&o.r#type) && self.out.same(&o.out) && self.x.same(&o.x) }
    fn de_desc() -> D { D::named("S19") }
}
impl StructRef for S19 {
    type Slots = (<S6 as StructRef>::Slots, (Option<S10>, (Option<N5>, (Option<Option<[(); 2]>>, (Option<Vec<bool>>, (<S14 as StructRef>::Slots, (Option<[f64; 1]>, (<S9 as StructRef>::Slots, ()))))))));
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.extend(<S6 as StructRef>::leaves());
        v.push(Leaf { names: vec!["Ünï"], fit: <S10 as Zoo>::fit });
        v.push(Leaf { names: vec!["IS-ACTIVE"], fit: <N5 as Zoo>::fit });
        v.push(Leaf { names: vec!["INDEX", "@index"], fit: <Option<[(); 2]> as Zoo>::fit });
        v.push(Leaf { names: vec!["FN"], fit: <Vec<bool> as Zoo>::fit });
        v.extend(<S14 as StructRef>::leaves());
        v.push(Leaf { names: vec!["OUT", "Out", "@out"], fit: <[f64; 1] as Zoo>::fit });
        v.extend(<S9 as StructRef>::leaves());
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        v.extend(self.max_len_of.fields());
        if !skip_half(&self.y1) {
        v.push(("Ünï".to_string(), self.y1.model(), self.y1.is_opt()));
        }
        v.push(("IS-ACTIVE".to_string(), self.is_active.model(), self.is_active.is_opt()));
        v.push(("INDEX".to_string(), self.index.model(), self.index.is_opt()));
        v.push(("FN".to_string(), self.r#fn.model(), self.r#fn.is_opt()));
        v.extend(self.r#type.fields());
        v.push(("OUT".to_string(), self.out.model(), self.out.is_opt()));
        v.extend(self.x.fields());
        v.retain(|x| !x.2);
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if ["Ünï"].contains(&k) { s.1.0 = Some(<S10 as Zoo>::de(v)?); return Ok(true); }
        if ["IS-ACTIVE"].contains(&k) { s.1.1.0 = Some(<N5 as Zoo>::de(v)?); return Ok(true); }
        if ["INDEX", "@index"].contains(&k) { s.1.1.1.0 = Some(<Option<[(); 2]> as Zoo>::de(v)?); return Ok(true); }
        if ["FN"].contains(&k) { s.1.1.1.1.0 = Some(<Vec<bool> as Zoo>::de(v)?); return Ok(true); }
        if ["OUT", "Out", "@out"].contains(&k) { s.1.1.1.1.1.1.0 = Some(<[f64; 1] as Zoo>::de(v)?); return Ok(true); }
        if <S6 as StructRef>::offer(&mut s.0, k, v)? { return Ok(true); }
        if <S14 as StructRef>::offer(&mut s.1.1.1.1.1.0, k, v)? { return Ok(true); }
        if <S9 as StructRef>::offer(&mut s.1.1.1.1.1.1.1.0, k, v)? { return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        let v0 = <S6 as StructRef>::complete(std::mem::take(&mut s.0), end)?;
        let v5 = <S14 as StructRef>::complete(std::mem::take(&mut s.1.1.1.1.1.0), end)?;
        let v7 = <S9 as StructRef>::complete(std::mem::take(&mut s.1.1.1.1.1.1.1.0), end)?;
        if s.1.0.is_none() { s.1.0 = Some(Default::default()); }
        let v1 = match s.1.0.take() { Some(x) => x, None => match <S10 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v2 = match s.1.1.0.take() { Some(x) => x, None => match <N5 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v3 = match s.1.1.1.0.take() { Some(x) => x, None => match <Option<[(); 2]> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v4 = match s.1.1.1.1.0.take() { Some(x) => x, None => match <Vec<bool> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v6 = match s.1.1.1.1.1.1.0.take() { Some(x) => x, None => match <[f64; 1] as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        Ok(S19 { max_len_of: v0, y1: v1, is_active: v2, index: v3, r#fn: v4, r#type: v5, out: v6, x: v7 })
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
#[allow(non_camel_case_types, clippy::upper_case_acronyms)]
#[deser(rename_all = "lowercase")]
pub enum E20 {
    #[deser(alias = "Other_alias0")]
    Other,
}
impl E20 {
    pub const NAMES: &'static [(E20, &'static [&'static str])] = &[(E20::Other, &["other", "Other_alias0"])];
}
impl Default for E20 { fn default() -> Self { E20::Other } }
impl Zoo for E20 {
    fn arb(g: &mut Gen) -> Self { g.r.pick(Self::NAMES).0 }
    fn model(&self) -> M { M::atom(A::Str(Self::NAMES.iter().find(|x| x.0 == *self).unwrap().1[0].into()), D::default()) }
    fn fit(g: &mut Gen) -> Tr { let n = g.r.pick(Self::NAMES).1; Tr::A(A::Str(g.r.pick(n).to_string())) }
    fn de(n: &N) -> Result<Self, Fail> {
        match atom_of(n)? {
            A::Str(s) => match Self::NAMES.iter().find(|x| x.1.contains(&s.as_str())) { Some(x) => Ok(x.0), None => fail(Unexpected, n.start) },
            _ => fail(Unexpected, n.start),
        }
    }
    fn eqv(&self, o: &Self) -> bool { self == o }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(rename = "x::Y")]
#[deser(skip_serializing_optionals)]
#[deser(rename_all = "snake_case")]
pub struct S21 {
    #[deser(flatten)]
    pub line2_col3: S10,
    #[deser(alias = "N0")]
    #[deser(alias = "@n0")]
    pub n0: S16,
    #[deser(default)]
    pub name: HashMap<u8, S8>,
}
impl Default for S21 {
    fn default() -> Self { hit(39); S21 { line2_col3: S10 { r#type: Default::default() }, n0: S16 { trail_: None, value: E1::XAxis, big_int: [Some(true)], line2_col3: Box::new(String::from("")), y1: S13 {  } }, name: Default::default() } }
}
impl S21 {
    pub fn make() -> Self { hit(40); S21 { line2_col3: S10 { r#type: Default::default() }, n0: S16 { trail_: Some((-104i8)), value: E1::Done, big_int: [Some(true)], line2_col3: Box::new(String::from("")), y1: S13 {  } }, name: Default::default() } }
}
impl Zoo for S21 {
    const RT: bool = false;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S21 { line2_col3: Zoo::arb(g), n0: Zoo::arb(g), name: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "x::Y") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.line2_col3.eqv(&o.line2_col3) && self.n0.eqv(&o.n0) && self.name.eqv(&o.name) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.line2_col3.same(&o.line2_col3) && self.n0.same(&o.n0) && self.name.same(&o.name) }
    fn de_desc() -> D { D::named("x::Y") }
}
impl StructRef for S21 {
    type Slots = (<S10 as StructRef>::Slots, (Option<S16>, (Option<HashMap<u8, S8>>, ())));
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.extend(<S10 as StructRef>::leaves());
        v.push(Leaf { names: vec!["n0", "N0", "@n0"], fit: <S16 as Zoo>::fit });
        v.push(Leaf { names: vec!["name"], fit: <HashMap<u8, S8> as Zoo>::fit });
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        v.extend(self.line2_col3.fields());
        v.push(("n0".to_string(), self.n0.model(), self.n0.is_opt()));
        v.push(("name".to_string(), self.name.model(), self.name.is_opt()));
        v.retain(|x| !x.2);
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if ["n0", "N0", "@n0"].contains(&k) { s.1.0 = Some(<S16 as Zoo>::de(v)?); return Ok(true); }
        if ["name"].contains(&k) { s.1.1.0 = Some(<HashMap<u8, S8> as Zoo>::de(v)?); return Ok(true); }
        if <S10 as StructRef>::offer(&mut s.0, k, v)? { return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        let v0 = <S10 as StructRef>::complete(std::mem::take(&mut s.0), end)?;
        if s.1.1.0.is_none() { s.1.1.0 = Some(Default::default()); }
        let v1 = match s.1.0.take() { Some(x) => x, None => match <S16 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v2 = match s.1.1.0.take() { Some(x) => x, None => match <HashMap<u8, S8> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        Ok(S21 { line2_col3: v0, n0: v1, name: v2 })
    }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(skip_serializing_optionals)]
pub struct S22 {
}
impl Default for S22 {
    fn default() -> Self { hit(41); S22 {  } }
}
impl S22 {
    pub fn make() -> Self { hit(42); S22 {  } }
}
impl Zoo for S22 {
    const RT: bool = true;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S22 {  } }
    fn model(&self) -> M { struct_model(self, "S22") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true }
    fn same(&self, o: &Self) -> bool { let _ = o; true }
    fn de_desc() -> D { D::named("S22") }
}
impl StructRef for S22 {
    type Slots = ();
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        v.retain(|x| !x.2);
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        Ok(S22 {  })
    }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(default = "S23::make")]
pub struct S23 {
    #[deser(default = "S23::dflt_two__us")]
    pub two__us: i64,
    #[deser(flatten)]
    #[deser(skip_serializing_if = "skip_half")]
    pub r#async: S18,
    #[deser(flatten)]
    pub state: S7,
    #[deser(default)]
    pub sink: Option<S11>,
    #[deser(alias = "user_id_alias")]
    pub user_id: HashMap<u8, ((),)>,
    #[deser(default, skip_serializing_if = "skip_half")]
    pub self_: HashMap<char, bool>,
    #[deser(default = "S23::dflt_type")]
    pub r#type: [N15; 1],
    pub x: f64,
}
impl Default for S23 {
    fn default() -> Self { hit(43); S23 { two__us: (-70i64), r#async: S18 { r#type: None, n0: Default::default(), big_int: E0::Unknown, user_id: (false, (String::from("dflt"),),), nested_emitter: S11 { x: S6 { out: S2 { first_name: false } }, longer_field_name_here: [Box::new(String::from("é")), Box::new(String::from("")), Box::new(String::from(""))], kind: S7 { r#type: E0::XAxis, kind: E1::HTTPServer }, user_id: Some(Some(63.24f64)), slot: String::from("é"), state: S7 { r#type: E0::Unknown, kind: E1::Other } }, x: Box::new(S10 { r#type: Default::default() }) }, state: S7 { r#type: E0::Bb, kind: E1::Done }, sink: Some(S11 { x: S6 { out: S2 { first_name: true } }, longer_field_name_here: [Box::new(String::from("dflt")), Box::new(String::from("é")), Box::new(String::from("é"))], kind: S7 { r#type: E0::A, kind: E1::XAxis }, user_id: Some(Some(77.40f64)), slot: String::from("dflt"), state: S7 { r#type: E0::A, kind: E1::XAxis } }), user_id: Default::default(), self_: Default::default(), r#type: [N15(None)], x: 43.25f64 } }
}
impl S23 {
    pub fn make() -> Self { hit(44); S23 { two__us: (-54i64), r#async: S18 { r#type: Some(Default::default()), n0: Default::default(), big_int: E0::Unknown, user_id: (false, (String::from("dflt"),),), nested_emitter: S11 { x: S6 { out: S2 { first_name: false } }, longer_field_name_here: [Box::new(String::from("dflt")), Box::new(String::from("x y")), Box::new(String::from("é"))], kind: S7 { r#type: E0::XAxis, kind: E1::HTTPServer }, user_id: None, slot: String::from("é"), state: S7 { r#type: E0::A, kind: E1::XAxis } }, x: Box::new(S10 { r#type: Default::default() }) }, state: S7 { r#type: E0::Bb, kind: E1::Bb }, sink: None, user_id: Default::default(), self_: Default::default(), r#type: [N15(Some(Some((-111isize))))], x: 25.12f64 } }
    fn dflt_two__us() -> i64 { hit(45); (-65i64) }
    fn dflt_type() -> [N15; 1] { hit(46); [N15(None)] }
}
impl Zoo for S23 {
    const RT: bool = false;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S23 { two__us: Zoo::arb(g), r#async: Zoo::arb(g), state: Zoo::arb(g), sink: Zoo::arb(g), user_id: Zoo::arb(g), self_: Zoo::arb(g), r#type: Zoo::arb(g), x: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "S23") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.two__us.eqv(&o.two__us) && self.r#async.eqv(&o.r#async) && self.state.eqv(&o.state) && self.sink.eqv(&o.sink) && self.user_id.eqv(&o.user_id) && self.self_.eqv(&o.self_) && self.r#type.eqv(&o.r#type) && self.x.eqv(&o.x) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.two__us.same(&o.two__us) && self.r#async.same(&o.r#async) && self.state.same(&o.state) && self.sink.same(&o.sink) && self.user_id.same(&o.user_id) && self.self_.same(&o.self_) && self.r#type.same(&o.r#type) && self.x.same(&o.x) }
    fn de_desc() -> D { D::named("S23") }
}
impl StructRef for S23 {
    type Slots = (Option<i64>, (<S18 as StructRef>::Slots, (<S7 as StructRef>::Slots, (Option<Option<S11>>, (Option<HashMap<u8, ((),)>>, (Option<HashMap<char, bool>>, (Option<[N15; 1]>, (Option<f64>, ()))))))));
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.push(Leaf { names: vec!["two__us"], fit: <i64 as Zoo>::fit });
        v.extend(<S18 as StructRef>::leaves());
        v.extend(<S7 as StructRef>::leaves());
        v.push(Leaf { names: vec!["sink"], fit: <Option<S11> as Zoo>::fit });
        v.push(Leaf { names: vec!["user_id", "user_id_alias"], fit: <HashMap<u8, ((),)> as Zoo>::fit });
        v.push(Leaf { names: vec!["self_"], fit: <HashMap<char, bool> as Zoo>::fit });
        v.push(Leaf { names: vec!["type"], fit: <[N15; 1] as Zoo>::fit });
        v.push(Leaf { names: vec!["x"], fit: <f64 as Zoo>::fit });
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        v.push(("two__us".to_string(), self.two__us.model(), self.two__us.is_opt()));
        if !skip_half(&self.r#async) {
        v.extend(self.r#async.fields());
        }
        v.extend(self.state.fields());
        v.push(("sink".to_string(), self.sink.model(), self.sink.is_opt()));
        v.push(("user_id".to_string(), self.user_id.model(), self.user_id.is_opt()));
        if !skip_half(&self.self_) {
        v.push(("self_".to_string(), self.self_.model(), self.self_.is_opt()));
        }
        v.push(("type".to_string(), self.r#type.model(), self.r#type.is_opt()));
        v.push(("x".to_string(), self.x.model(), self.x.is_opt()));
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if ["two__us"].contains(&k) { s.0 = Some(<i64 as Zoo>::de(v)?); return Ok(true); }
        if ["sink"].contains(&k) { s.1.1.1.0 = Some(<Option<S11> as Zoo>::de(v)?); return Ok(true); }
        if ["user_id", "user_id_alias"].contains(&k) { s.1.1.1.1.0 = Some(<HashMap<u8, ((),)> as Zoo>::de(v)?); return Ok(true); }
        if ["self_"].contains(&k) { s.1.1.1.1.1.0 = Some(<HashMap<char, bool> as Zoo>::de(v)?); return Ok(true); }
        if ["type"].contains(&k) { s.1.1.1.1.1.1.0 = Some(<[N15; 1] as Zoo>::de(v)?); return Ok(true); }
        if ["x"].contains(&k) { s.1.1.1.1.1.1.1.0 = Some(<f64 as Zoo>::de(v)?); return Ok(true); }
        if <S18 as StructRef>::offer(&mut s.1.0, k, v)? { return Ok(true); }
        if <S7 as StructRef>::offer(&mut s.1.1.0, k, v)? { return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        let v1 = <S18 as StructRef>::complete(std::mem::take(&mut s.1.0), end)?;
        let v2 = <S7 as StructRef>::complete(std::mem::take(&mut s.1.1.0), end)?;
        if s.0.is_none() { s.0 = Some(S23::dflt_two__us()); }
        if s.1.1.1.0.is_none() { s.1.1.1.0 = Some(Default::default()); }
        if s.1.1.1.1.1.0.is_none() { s.1.1.1.1.1.0 = Some(Default::default()); }
        if s.1.1.1.1.1.1.0.is_none() { s.1.1.1.1.1.1.0 = Some(S23::dflt_type()); }
        if s.1.1.1.1.0.is_none() || s.1.1.1.1.1.1.1.0.is_none() {
            let d = S23::make();
            if s.1.1.1.1.0.is_none() { s.1.1.1.1.0 = Some(d.user_id); }
            if s.1.1.1.1.1.1.1.0.is_none() { s.1.1.1.1.1.1.1.0 = Some(d.x); }
        }
        let v0 = match s.0.take() { Some(x) => x, None => match <i64 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v3 = match s.1.1.1.0.take() { Some(x) => x, None => match <Option<S11> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v4 = match s.1.1.1.1.0.take() { Some(x) => x, None => match <HashMap<u8, ((),)> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v5 = match s.1.1.1.1.1.0.take() { Some(x) => x, None => match <HashMap<char, bool> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v6 = match s.1.1.1.1.1.1.0.take() { Some(x) => x, None => match <[N15; 1] as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v7 = match s.1.1.1.1.1.1.1.0.take() { Some(x) => x, None => match <f64 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        Ok(S23 { two__us: v0, r#async: v1, state: v2, sink: v3, user_id: v4, self_: v5, r#type: v6, x: v7 })
    }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(default)]
#[deser(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S24 {
    pub two__us: (HashMap<char, i16>, Box<String>,),
    #[deser(flatten)]
    pub r#async: S10,
    #[deser(alias = "alias 1", alias = "Fn", default)]
    pub r#fn: (),
    #[deser(skip_serializing_if = "Vec::is_empty", default = "S24::dflt_kind", alias = "alias 0", alias = "Kind")]
    pub kind: Vec<Option<f64>>,
    pub n0: Option<HashMap<u8, i32>>,
    #[deser(alias = "@out")]
    pub out: E0,
}
impl Default for S24 {
    fn default() -> Self { hit(47); S24 { two__us: (Default::default(), Box::new(String::from("dflt")),), r#async: S10 { r#type: Default::default() }, r#fn: (), kind: vec![], n0: Some(Default::default()), out: E0::A } }
}
impl S24 {
    pub fn make() -> Self { hit(48); S24 { two__us: (Default::default(), Box::new(String::from("")),), r#async: S10 { r#type: Default::default() }, r#fn: (), kind: vec![Some(54.85f64), Some(29.70f64)], n0: Some(Default::default()), out: E0::A } }
    fn dflt_kind() -> Vec<Option<f64>> { hit(49); vec![None, Some(67.12f64)] }
}
impl Zoo for S24 {
    const RT: bool = false;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S24 { two__us: Zoo::arb(g), r#async: Zoo::arb(g), r#fn: Zoo::arb(g), kind: Zoo::arb(g), n0: Zoo::arb(g), out: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "S24") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.two__us.eqv(&o.two__us) && self.r#async.eqv(&o.r#async) && self.r#fn.eqv(&o.r#fn) && self.kind.eqv(&o.kind) && self.n0.eqv(&o.n0) && self.out.eqv(&o.out) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.two__us.same(&o.two__us) && self.r#async.same(&o.r#async) && self.r#fn.same(&o.r#fn) && self.kind.same(&o.kind) && self.n0.same(&o.n0) && self.out.same(&o.out) }
    fn de_desc() -> D { D::named("S24") }
}
impl StructRef for S24 {
    type Slots = (Option<(HashMap<char, i16>, Box<String>,)>, (<S10 as StructRef>::Slots, (Option<()>, (Option<Vec<Option<f64>>>, (Option<Option<HashMap<u8, i32>>>, (Option<E0>, ()))))));
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.push(Leaf { names: vec!["TWO__US"], fit: <(HashMap<char, i16>, Box<String>,) as Zoo>::fit });
        v.extend(<S10 as StructRef>::leaves());
        v.push(Leaf { names: vec!["FN", "Fn", "alias 1"], fit: <() as Zoo>::fit });
        v.push(Leaf { names: vec!["KIND", "alias 0", "Kind"], fit: <Vec<Option<f64>> as Zoo>::fit });
        v.push(Leaf { names: vec!["N0"], fit: <Option<HashMap<u8, i32>> as Zoo>::fit });
        v.push(Leaf { names: vec!["OUT", "@out"], fit: <E0 as Zoo>::fit });
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        v.push(("TWO__US".to_string(), self.two__us.model(), self.two__us.is_opt()));
        v.extend(self.r#async.fields());
        v.push(("FN".to_string(), self.r#fn.model(), self.r#fn.is_opt()));
        if !Vec::is_empty(&self.kind) {
        v.push(("KIND".to_string(), self.kind.model(), self.kind.is_opt()));
        }
        v.push(("N0".to_string(), self.n0.model(), self.n0.is_opt()));
        v.push(("OUT".to_string(), self.out.model(), self.out.is_opt()));
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if ["TWO__US"].contains(&k) { s.0 = Some(<(HashMap<char, i16>, Box<String>,) as Zoo>::de(v)?); return Ok(true); }
        if ["FN", "Fn", "alias 1"].contains(&k) { s.1.1.0 = Some(<() as Zoo>::de(v)?); return Ok(true); }
        if ["KIND", "alias 0", "Kind"].contains(&k) { s.1.1.1.0 = Some(<Vec<Option<f64>> as Zoo>::de(v)?); return Ok(true); }
        if ["N0"].contains(&k) { s.1.1.1.1.0 = Some(<Option<HashMap<u8, i32>> as Zoo>::de(v)?); return Ok(true); }
        if ["OUT", "@out"].contains(&k) { s.1.1.1.1.1.0 = Some(<E0 as Zoo>::de(v)?); return Ok(true); }
        if <S10 as StructRef>::offer(&mut s.1.0, k, v)? { return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        let v1 = <S10 as StructRef>::complete(std::mem::take(&mut s.1.0), end)?;
        if s.1.1.0.is_none() { s.1.1.0 = Some(Default::default()); }
        if s.1.1.1.0.is_none() { s.1.1.1.0 = Some(S24::dflt_kind()); }
        if s.0.is_none() || s.1.1.1.1.0.is_none() || s.1.1.1.1.1.0.is_none() {
            let d = <S24 as Default>::default();
            if s.0.is_none() { s.0 = Some(d.two__us); }
            if s.1.1.1.1.0.is_none() { s.1.1.1.1.0 = Some(d.n0); }
            if s.1.1.1.1.1.0.is_none() { s.1.1.1.1.1.0 = Some(d.out); }
        }
        let v0 = match s.0.take() { Some(x) => x, None => match <(HashMap<char, i16>, Box<String>,) as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v2 = match s.1.1.0.take() { Some(x) => x, None => match <() as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v3 = match s.1.1.1.0.take() { Some(x) => x, None => match <Vec<Option<f64>> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v4 = match s.1.1.1.1.0.take() { Some(x) => x, None => match <Option<HashMap<u8, i32>> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v5 = match s.1.1.1.1.1.0.take() { Some(x) => x, None => match <E0 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        Ok(S24 { two__us: v0, r#async: v1, r#fn: v2, kind: v3, n0: v4, out: v5 })
    }
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct N25(pub Box<char>);
impl Default for N25 { fn default() -> Self { N25(Box::new('b')) } }
impl Zoo for N25 {
    const RT: bool = <Box<char> as Zoo>::RT;
    fn arb(g: &mut Gen) -> Self { N25(Zoo::arb(g)) }
    fn model(&self) -> M { self.0.model() }
    fn fit(g: &mut Gen) -> Tr { <Box<char> as Zoo>::fit(g) }
    fn de(n: &N) -> Result<Self, Fail> { <Box<char> as Zoo>::de(n).map(N25) }
    fn eqv(&self, o: &Self) -> bool { self.0.eqv(&o.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) }
    fn is_opt(&self) -> bool { self.0.is_opt() }
    fn de_desc() -> D { <Box<char> as Zoo>::de_desc() }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(rename_all = "snake_case")]
pub struct S26 {
    #[deser(skip_serializing_if = "skip_half", rename = "back\\slash")]
    pub r#fn: S8,
    pub descriptor: Option<Vec<String>>,
    #[deser(alias = "@x")]
    #[deser(alias = "X")]
    #[deser(alias = "alias 1")]
    pub x: Box<char>,
    #[deser(alias = "big_int_alias")]
    pub big_int: String,
    #[deser(flatten, rename = "unused")]
    pub data: Box<S17>,
}
impl Default for S26 {
    fn default() -> Self { hit(50); S26 { r#fn: S8 { r#type: Some(Box::new((40i16))), a_b_c: S4 { slot: S2 { first_name: true }, data: N3(21.25f64), self_: Some(vec![(40i64)]), r#match: vec![], is_active: S2 { first_name: true }, r#async: S2 { first_name: true } }, index: (Some(String::from("é")), S7 { r#type: E0::Unknown, kind: E1::XAxis },) }, descriptor: None, x: Box::new('b'), big_int: String::from("x y"), data: Box::new(S17 { trail_: Some(S2 { first_name: false }), line2_col3: (100i32), max_len_of: ((),) }) } }
}
impl S26 {
    pub fn make() -> Self { hit(51); S26 { r#fn: S8 { r#type: None, a_b_c: S4 { slot: S2 { first_name: false }, data: N3(3.42f64), self_: None, r#match: vec![N3(64.18f64), N3(93.39f64)], is_active: S2 { first_name: true }, r#async: S2 { first_name: false } }, index: (Some(String::from("")), S7 { r#type: E0::Unknown, kind: E1::HTTPServer },) }, descriptor: Some(vec![String::from("é")]), x: Box::new('a'), big_int: String::from(""), data: Box::new(S17 { trail_: Some(S2 { first_name: true }), line2_col3: (1i32), max_len_of: ((),) }) } }
}
impl Zoo for S26 {
    const RT: bool = false;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S26 { r#fn: Zoo::arb(g), descriptor: Zoo::arb(g), x: Zoo::arb(g), big_int: Zoo::arb(g), data: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "S26") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.r#fn.eqv(&o.r#fn) && self.descriptor.eqv(&o.descriptor) && self.x.eqv(&o.x) && self.big_int.eqv(&o.big_int) && self.data.eqv(&o.data) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.r#fn.same(&o.r#fn) && self.descriptor.same(&o.descriptor) && self.x.same(&o.x) && self.big_int.same(&o.big_int) && self.data.same(&o.data) }
    fn de_desc() -> D { D::named("S26") }
}
impl StructRef for S26 {
    type Slots = (Option<S8>, (Option<Option<Vec<String>>>, (Option<Box<char>>, (Option<String>, (<Box<S17> as StructRef>::Slots, ())))));
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.push(Leaf { names: vec!["back\\slash"], fit: <S8 as Zoo>::fit });
        v.push(Leaf { names: vec!["descriptor"], fit: <Option<Vec<String>> as Zoo>::fit });
        v.push(Leaf { names: vec!["x", "X", "alias 1", "@x"], fit: <Box<char> as Zoo>::fit });
        v.push(Leaf { names: vec!["big_int", "big_int_alias"], fit: <String as Zoo>::fit });
        v.extend(<Box<S17> as StructRef>::leaves());
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        if !skip_half(&self.r#fn) {
        v.push(("back\\slash".to_string(), self.r#fn.model(), self.r#fn.is_opt()));
        }
        v.push(("descriptor".to_string(), self.descriptor.model(), self.descriptor.is_opt()));
        v.push(("x".to_string(), self.x.model(), self.x.is_opt()));
        v.push(("big_int".to_string(), self.big_int.model(), self.big_int.is_opt()));
        v.extend(self.data.fields());
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if ["back\\slash"].contains(&k) { s.0 = Some(<S8 as Zoo>::de(v)?); return Ok(true); }
        if ["descriptor"].contains(&k) { s.1.0 = Some(<Option<Vec<String>> as Zoo>::de(v)?); return Ok(true); }
        if ["x", "X", "alias 1", "@x"].contains(&k) { s.1.1.0 = Some(<Box<char> as Zoo>::de(v)?); return Ok(true); }
        if ["big_int", "big_int_alias"].contains(&k) { s.1.1.1.0 = Some(<String as Zoo>::de(v)?); return Ok(true); }
        if <Box<S17> as StructRef>::offer(&mut s.1.1.1.1.0, k, v)? { return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        let v4 = <Box<S17> as StructRef>::complete(std::mem::take(&mut s.1.1.1.1.0), end)?;
        let v0 = match s.0.take() { Some(x) => x, None => match <S8 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v1 = match s.1.0.take() { Some(x) => x, None => match <Option<Vec<String>> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v2 = match s.1.1.0.take() { Some(x) => x, None => match <Box<char> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v3 = match s.1.1.1.0.take() { Some(x) => x, None => match <String as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        Ok(S26 { r#fn: v0, descriptor: v1, x: v2, big_int: v3, data: v4 })
    }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(rename = "x::Y")]
#[deser(skip_serializing_optionals)]
#[deser(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S27 {
}
impl Default for S27 {
    fn default() -> Self { hit(52); S27 {  } }
}
impl S27 {
    pub fn make() -> Self { hit(53); S27 {  } }
}
impl Zoo for S27 {
    const RT: bool = true;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S27 {  } }
    fn model(&self) -> M { struct_model(self, "x::Y") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true }
    fn same(&self, o: &Self) -> bool { let _ = o; true }
    fn de_desc() -> D { D::named("x::Y") }
}
impl StructRef for S27 {
    type Slots = ();
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        v.retain(|x| !x.2);
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        Ok(S27 {  })
    }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(skip_serializing_optionals, default, rename_all = "UPPERCASE")]
pub struct S28 {
    #[deser(alias = "@first_name", alias = "first_name_alias")]
    pub first_name: BTreeMap<bool, N15>,
    #[deser(flatten)]
    pub r#match: S12,
    #[deser(default)]
    #[deser(skip_serializing_if = "skip_half")]
    pub value: S4,
    #[deser(default)]
    #[deser(alias = "self_", alias = "@self_")]
    #[deser(alias = "alias 0")]
    pub self_: E20,
    #[deser(default = "S28::dflt_slot")]
    pub slot: f64,
    pub line2_col3: S12,
    #[deser(flatten)]
    pub r#fn: Box<S14>,
    pub longer_field_name_here: S22,
}
impl Default for S28 {
    fn default() -> Self { hit(54); S28 { first_name: Default::default(), r#match: S12 { two__us: 31.58f64, slot: String::from(""), user_id: None, name: Some(E0::Unknown), nested_emitter: N3(9.41f64), descriptor: N3(20.46f64) }, value: S4 { slot: S2 { first_name: false }, data: N3(58.67f64), self_: None, r#match: vec![N3(42.59f64)], is_active: S2 { first_name: false }, r#async: S2 { first_name: true } }, self_: E20::Other, slot: 84.37f64, line2_col3: S12 { two__us: 33.88f64, slot: String::from("dflt"), user_id: None, name: None, nested_emitter: N3(3.48f64), descriptor: N3(36.96f64) }, r#fn: Box::new(S14 { descriptor: S10 { r#type: Default::default() } }), longer_field_name_here: S22 {  } } }
}
impl S28 {
    pub fn make() -> Self { hit(55); S28 { first_name: Default::default(), r#match: S12 { two__us: 70.56f64, slot: String::from("é"), user_id: Some(Some(6.42f64)), name: Some(E0::XAxis), nested_emitter: N3(92.22f64), descriptor: N3(70.64f64) }, value: S4 { slot: S2 { first_name: true }, data: N3(25.72f64), self_: Some(vec![(-98i64), (115i64)]), r#match: vec![N3(50.65f64), N3(18.27f64)], is_active: S2 { first_name: true }, r#async: S2 { first_name: false } }, self_: E20::Other, slot: 99.17f64, line2_col3: S12 { two__us: 22.17f64, slot: String::from(""), user_id: Some(Some(5.93f64)), name: Some(E0::Unknown), nested_emitter: N3(83.72f64), descriptor: N3(4.70f64) }, r#fn: Box::new(S14 { descriptor: S10 { r#type: Default::default() } }), longer_field_name_here: S22 {  } } }
    fn dflt_slot() -> f64 { hit(56); 78.64f64 }
}
impl Zoo for S28 {
    const RT: bool = false;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S28 { first_name: Zoo::arb(g), r#match: Zoo::arb(g), value: Zoo::arb(g), self_: Zoo::arb(g), slot: Zoo::arb(g), line2_col3: Zoo::arb(g), r#fn: Zoo::arb(g), longer_field_name_here: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "S28") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.first_name.eqv(&o.first_name) && self.r#match.eqv(&o.r#match) && self.value.eqv(&o.value) && self.self_.eqv(&o.self_) && self.slot.eqv(&o.slot) && self.line2_col3.eqv(&o.line2_col3) && self.r#fn.eqv(&o.r#fn) && self.longer_field_name_here.eqv(&o.longer_field_name_here) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.first_name.same(&o.first_name) && self.r#match.same(&o.r#match) && self.value.same(&o.value) && self.self_.same(&o.self_) && self.slot.same(&o.slot) && self.line2_col3.same(&o.line2_col3) && self.r#fn.same(&o.r#fn) && self.longer_field_name_here.same(&o.longer_field_name_here) }
    fn de_desc() -> D { D::named("S28") }
}
impl StructRef for S28 {
    type Slots = (Option<BTreeMap<bool, N15>>, (<S12 as StructRef>::Slots, (Option<S4>, (Option<E20>, (Option<f64>, (Option<S12>, (<Box<S14> as StructRef>::Slots, (Option<S22>, ()))))))));
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.push(Leaf { names: vec!["FIRST_NAME", "@first_name", "first_name_alias"], fit: <BTreeMap<bool, N15> as Zoo>::fit });
        v.extend(<S12 as StructRef>::leaves());
        v.push(Leaf { names: vec!["VALUE"], fit: <S4 as Zoo>::fit });
        v.push(Leaf { names: vec!["SELF_", "alias 0", "@self_", "self_"], fit: <E20 as Zoo>::fit });
        v.push(Leaf { names: vec!["SLOT"], fit: <f64 as Zoo>::fit });
        v.push(Leaf { names: vec!["LINE2_COL3"], fit: <S12 as Zoo>::fit });
        v.extend(<Box<S14> as StructRef>::leaves());
        v.push(Leaf { names: vec!["LONGER_FIELD_NAME_HERE"], fit: <S22 as Zoo>::fit });
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        v.push(("FIRST_NAME".to_string(), self.first_name.model(), self.first_name.is_opt()));
        v.extend(self.r#match.fields());
        if !skip_half(&self.value) {
        v.push(("VALUE".to_string(), self.value.model(), self.value.is_opt()));
        }
        v.push(("SELF_".to_string(), self.self_.model(), self.self_.is_opt()));
        v.push(("SLOT".to_string(), self.slot.model(), self.slot.is_opt()));
        v.push(("LINE2_COL3".to_string(), self.line2_col3.model(), self.line2_col3.is_opt()));
        v.extend(self.r#fn.fields());
        v.push(("LONGER_FIELD_NAME_HERE".to_string(), self.longer_field_name_here.model(), self.longer_field_name_here.is_opt()));
        v.retain(|x| !x.2);
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if ["FIRST_NAME", "@first_name", "first_name_alias"].contains(&k) { s.0 = Some(<BTreeMap<bool, N15> as Zoo>::de(v)?); return Ok(true); }
        if ["VALUE"].contains(&k) { s.1.1.0 = Some(<S4 as Zoo>::de(v)?); return Ok(true); }
        if ["SELF_", "alias 0", "@self_", "self_"].contains(&k) { s.1.1.1.0 = Some(<E20 as Zoo>::de(v)?); return Ok(true); }
        if ["SLOT"].contains(&k) { s.1.1.1.1.0 = Some(<f64 as Zoo>::de(v)?); return Ok(true); }
        if ["LINE2_COL3"].contains(&k) { s.1.1.1.1.1.0 = Some(<S12 as Zoo>::de(v)?); return Ok(true); }
        if ["LONGER_FIELD_NAME_HERE"].contains(&k) { s.1.1.1.1.1.1.1.0 = Some(<S22 as Zoo>::de(v)?); return Ok(true); }
        if <S12 as StructRef>::offer(&mut s.1.0, k, v)? { return Ok(true); }
        if <Box<S14> as StructRef>::offer(&mut s.1.1.1.1.1.1.0, k, v)? { return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        let v1 = <S12 as StructRef>::complete(std::mem::take(&mut s.1.0), end)?;
        let v6 = <Box<S14> as StructRef>::complete(std::mem::take(&mut s.1.1.1.1.1.1.0), end)?;
        if s.1.1.0.is_none() { s.1.1.0 = Some(Default::default()); }
        if s.1.1.1.0.is_none() { s.1.1.1.0 = Some(Default::default()); }
        if s.1.1.1.1.0.is_none() { s.1.1.1.1.0 = Some(S28::dflt_slot()); }
        if s.0.is_none() || s.1.1.1.1.1.0.is_none() || s.1.1.1.1.1.1.1.0.is_none() {
            let d = <S28 as Default>::default();
            if s.0.is_none() { s.0 = Some(d.first_name); }
            if s.1.1.1.1.1.0.is_none() { s.1.1.1.1.1.0 = Some(d.line2_col3); }
            if s.1.1.1.1.1.1.1.0.is_none() { s.1.1.1.1.1.1.1.0 = Some(d.longer_field_name_here); }
        }
        let v0 = match s.0.take() { Some(x) => x, None => match <BTreeMap<bool, N15> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v2 = match s.1.1.0.take() { Some(x) => x, None => match <S4 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v3 = match s.1.1.1.0.take() { Some(x) => x, None => match <E20 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v4 = match s.1.1.1.1.0.take() { Some(x) => x, None => match <f64 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v5 = match s.1.1.1.1.1.0.take() { Some(x) => x, None => match <S12 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v7 = match s.1.1.1.1.1.1.1.0.take() { Some(x) => x, None => match <S22 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        Ok(S28 { first_name: v0, r#match: v1, value: v2, self_: v3, slot: v4, line2_col3: v5, r#fn: v6, longer_field_name_here: v7 })
    }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(rename = "")]
pub struct S29 {
    #[deser(alias = "alias 0", alias = "alias 1", skip_serializing_if = "skip_half")]
    #[deser(alias = "index_alias")]
    pub index: Option<N3>,
    #[deser(skip_serializing_if = "skip_half", flatten)]
    pub key: S7,
    #[deser(alias = "N0")]
    pub n0: String,
}
impl Default for S29 {
    fn default() -> Self { hit(57); S29 { index: None, key: S7 { r#type: E0::XAxis, kind: E1::Bb }, n0: String::from("dflt") } }
}
impl S29 {
    pub fn make() -> Self { hit(58); S29 { index: Some(N3(5.69f64)), key: S7 { r#type: E0::A, kind: E1::Done }, n0: String::from("é") } }
}
impl Zoo for S29 {
    const RT: bool = false;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S29 { index: Zoo::arb(g), key: Zoo::arb(g), n0: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.index.eqv(&o.index) && self.key.eqv(&o.key) && self.n0.eqv(&o.n0) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.index.same(&o.index) && self.key.same(&o.key) && self.n0.same(&o.n0) }
    fn de_desc() -> D { D::named("") }
}
impl StructRef for S29 {
    type Slots = (Option<Option<N3>>, (<S7 as StructRef>::Slots, (Option<String>, ())));
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.push(Leaf { names: vec!["index", "alias 0", "alias 1", "index_alias"], fit: <Option<N3> as Zoo>::fit });
        v.extend(<S7 as StructRef>::leaves());
        v.push(Leaf { names: vec!["n0", "N0"], fit: <String as Zoo>::fit });
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        if !skip_half(&self.index) {
        v.push(("index".to_string(), self.index.model(), self.index.is_opt()));
        }
        if !skip_half(&self.key) {
        v.extend(self.key.fields());
        }
        v.push(("n0".to_string(), self.n0.model(), self.n0.is_opt()));
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if ["index", "alias 0", "alias 1", "index_alias"].contains(&k) { s.0 = Some(<Option<N3> as Zoo>::de(v)?); return Ok(true); }
        if ["n0", "N0"].contains(&k) { s.1.1.0 = Some(<String as Zoo>::de(v)?); return Ok(true); }
        if <S7 as StructRef>::offer(&mut s.1.0, k, v)? { return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        let v1 = <S7 as StructRef>::complete(std::mem::take(&mut s.1.0), end)?;
        let v0 = match s.0.take() { Some(x) => x, None => match <Option<N3> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v2 = match s.1.1.0.take() { Some(x) => x, None => match <String as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        Ok(S29 { index: v0, key: v1, n0: v2 })
    }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(skip_serializing_optionals)]
pub struct S30 {
    #[deser(flatten)]
    pub kind: S9,
    #[deser(flatten)]
    pub max_len_of: Box<S4>,
    #[deser(rename = "a.b")]
    #[deser(skip_serializing_if = "skip_half", alias = "field_x_alias")]
    pub field_x: f64,
    #[deser(alias = "alias 0")]
    pub nested_emitter: Option<N3>,
}
impl Default for S30 {
    fn default() -> Self { hit(59); S30 { kind: S9 { big_int: [[true, false, true], [true, false, true]], value: None }, max_len_of: Box::new(S4 { slot: S2 { first_name: false }, data: N3(96.87f64), self_: None, r#match: vec![N3(71.46f64)], is_active: S2 { first_name: false }, r#async: S2 { first_name: false } }), field_x: 57.63f64, nested_emitter: Some(N3(29.15f64)) } }
}
impl S30 {
    pub fn make() -> Self { hit(60); S30 { kind: S9 { big_int: [[true, false, false], [true, true, true]], value: None }, max_len_of: Box::new(S4 { slot: S2 { first_name: true }, data: N3(22.37f64), self_: None, r#match: vec![], is_active: S2 { first_name: false }, r#async: S2 { first_name: false } }), field_x: 55.54f64, nested_emitter: Some(N3(1.95f64)) } }
}
impl Zoo for S30 {
    const RT: bool = false;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S30 { kind: Zoo::arb(g), max_len_of: Zoo::arb(g), field_x: Zoo::arb(g), nested_emitter: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "S30") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.kind.eqv(&o.kind) && self.max_len_of.eqv(&o.max_len_of) && self.field_x.eqv(&o.field_x) && self.nested_emitter.eqv(&o.nested_emitter) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.kind.same(&o.kind) && self.max_len_of.same(&o.max_len_of) && self.field_x.same(&o.field_x) && self.nested_emitter.same(&o.nested_emitter) }
    fn de_desc() -> D { D::named("S30") }
}
impl StructRef for S30 {
    type Slots = (<S9 as StructRef>::Slots, (<Box<S4> as StructRef>::Slots, (Option<f64>, (Option<Option<N3>>, ()))));
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.extend(<S9 as StructRef>::leaves());
        v.extend(<Box<S4> as StructRef>::leaves());
        v.push(Leaf { names: vec!["a.b", "field_x_alias"], fit: <f64 as Zoo>::fit });
        v.push(Leaf { names: vec!["nested_emitter", "alias 0"], fit: <Option<N3> as Zoo>::fit });
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        v.extend(self.kind.fields());
        v.extend(self.max_len_of.fields());
        if !skip_half(&self.field_x) {
        v.push(("a.b".to_string(), self.field_x.model(), self.field_x.is_opt()));
        }
        v.push(("nested_emitter".to_string(), self.nested_emitter.model(), self.nested_emitter.is_opt()));
        v.retain(|x| !x.2);
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if ["a.b", "field_x_alias"].contains(&k) { s.1.1.0 = Some(<f64 as Zoo>::de(v)?); return Ok(true); }
        if ["nested_emitter", "alias 0"].contains(&k) { s.1.1.1.0 = Some(<Option<N3> as Zoo>::de(v)?); return Ok(true); }
        if <S9 as StructRef>::offer(&mut s.0, k, v)? { return Ok(true); }
        if <Box<S4> as StructRef>::offer(&mut s.1.0, k, v)? { return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        let v0 = <S9 as StructRef>::complete(std::mem::take(&mut s.0), end)?;
        let v1 = <Box<S4> as StructRef>::complete(std::mem::take(&mut s.1.0), end)?;
        let v2 = match s.1.1.0.take() { Some(x) => x, None => match <f64 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        let v3 = match s.1.1.1.0.take() { Some(x) => x, None => match <Option<N3> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        Ok(S30 { kind: v0, max_len_of: v1, field_x: v2, nested_emitter: v3 })
    }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(rename_all = "UPPERCASE", rename = "x::Y", default)]
pub struct S31 {
    #[deser(alias = "Async")]
    pub r#async: BTreeMap<bool, N3>,
}
impl Default for S31 {
    fn default() -> Self { hit(61); S31 { r#async: Default::default() } }
}
impl S31 {
    pub fn make() -> Self { hit(62); S31 { r#async: Default::default() } }
}
impl Zoo for S31 {
    const RT: bool = true;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S31 { r#async: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "x::Y") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.r#async.eqv(&o.r#async) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.r#async.same(&o.r#async) }
    fn de_desc() -> D { D::named("x::Y") }
}
impl StructRef for S31 {
    type Slots = (Option<BTreeMap<bool, N3>>, ());
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.push(Leaf { names: vec!["ASYNC", "Async"], fit: <BTreeMap<bool, N3> as Zoo>::fit });
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        v.push(("ASYNC".to_string(), self.r#async.model(), self.r#async.is_opt()));
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if ["ASYNC", "Async"].contains(&k) { s.0 = Some(<BTreeMap<bool, N3> as Zoo>::de(v)?); return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        if s.0.is_none() {
            let d = <S31 as Default>::default();
            if s.0.is_none() { s.0 = Some(d.r#async); }
        }
        let v0 = match s.0.take() { Some(x) => x, None => match <BTreeMap<bool, N3> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        Ok(S31 { r#async: v0 })
    }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(rename_all = "SCREAMING_SNAKE_CASE")]
#[deser(rename = "Ren Amed")]
pub struct S32 {
    #[deser(flatten)]
    pub state: Box<S22>,
    #[deser(flatten)]
    pub longer_field_name_here: S13,
}
impl Default for S32 {
    fn default() -> Self { hit(63); S32 { state: Box::new(S22 {  }), longer_field_name_here: S13 {  } } }
}
impl S32 {
    pub fn make() -> Self { hit(64); S32 { state: Box::new(S22 {  }), longer_field_name_here: S13 {  } } }
}
impl Zoo for S32 {
    const RT: bool = true;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S32 { state: Zoo::arb(g), longer_field_name_here: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "Ren Amed") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.state.eqv(&o.state) && self.longer_field_name_here.eqv(&o.longer_field_name_here) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.state.same(&o.state) && self.longer_field_name_here.same(&o.longer_field_name_here) }
    fn de_desc() -> D { D::named("Ren Amed") }
}
impl StructRef for S32 {
    type Slots = (<Box<S22> as StructRef>::Slots, (<S13 as StructRef>::Slots, ()));
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.extend(<Box<S22> as StructRef>::leaves());
        v.extend(<S13 as StructRef>::leaves());
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        v.extend(self.state.fields());
        v.extend(self.longer_field_name_here.fields());
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if <Box<S22> as StructRef>::offer(&mut s.0, k, v)? { return Ok(true); }
        if <S13 as StructRef>::offer(&mut s.1.0, k, v)? { return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        let v0 = <Box<S22> as StructRef>::complete(std::mem::take(&mut s.0), end)?;
        let v1 = <S13 as StructRef>::complete(std::mem::take(&mut s.1.0), end)?;
        Ok(S32 { state: v0, longer_field_name_here: v1 })
    }
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct N33(pub Box<char>);
impl Default for N33 { fn default() -> Self { N33(Box::new('y')) } }
impl Zoo for N33 {
    const RT: bool = <Box<char> as Zoo>::RT;
    fn arb(g: &mut Gen) -> Self { N33(Zoo::arb(g)) }
    fn model(&self) -> M { self.0.model() }
    fn fit(g: &mut Gen) -> Tr { <Box<char> as Zoo>::fit(g) }
    fn de(n: &N) -> Result<Self, Fail> { <Box<char> as Zoo>::de(n).map(N33) }
    fn eqv(&self, o: &Self) -> bool { self.0.eqv(&o.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) }
    fn is_opt(&self) -> bool { self.0.is_opt() }
    fn de_desc() -> D { <Box<char> as Zoo>::de_desc() }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(skip_serializing_optionals, rename_all = "UPPERCASE", default = "S34::make")]
pub struct S34 {
    #[deser(skip_serializing_if = "Option::is_none")]
    pub field_x: Option<Vec<char>>,
    #[deser(flatten)]
    pub data: S6,
    #[deser(flatten)]
    pub r#async: S16,
}
impl Default for S34 {
    fn default() -> Self { hit(65); S34 { field_x: Some(vec![]), data: S6 { out: S2 { first_name: true } }, r#async: S16 { trail_: Some((97i8)), value: E1::A, big_int: [Some(true)], line2_col3: Box::new(String::from("é")), y1: S13 {  } } } }
}
impl S34 {
    pub fn make() -> Self { hit(66); S34 { field_x: None, data: S6 { out: S2 { first_name: true } }, r#async: S16 { trail_: Some((-94i8)), value: E1::Bb, big_int: [Some(true)], line2_col3: Box::new(String::from("é")), y1: S13 {  } } } }
}
impl Zoo for S34 {
    const RT: bool = false;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S34 { field_x: Zoo::arb(g), data: Zoo::arb(g), r#async: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "S34") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.field_x.eqv(&o.field_x) && self.data.eqv(&o.data) && self.r#async.eqv(&o.r#async) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.field_x.same(&o.field_x) && self.data.same(&o.data) && self.r#async.same(&o.r#async) }
    fn de_desc() -> D { D::named("S34") }
}
impl StructRef for S34 {
    type Slots = (Option<Option<Vec<char>>>, (<S6 as StructRef>::Slots, (<S16 as StructRef>::Slots, ())));
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.push(Leaf { names: vec!["FIELD_X"], fit: <Option<Vec<char>> as Zoo>::fit });
        v.extend(<S6 as StructRef>::leaves());
        v.extend(<S16 as StructRef>::leaves());
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        if !Option::is_none(&self.field_x) {
        v.push(("FIELD_X".to_string(), self.field_x.model(), self.field_x.is_opt()));
        }
        v.extend(self.data.fields());
        v.extend(self.r#async.fields());
        v.retain(|x| !x.2);
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if ["FIELD_X"].contains(&k) { s.0 = Some(<Option<Vec<char>> as Zoo>::de(v)?); return Ok(true); }
        if <S6 as StructRef>::offer(&mut s.1.0, k, v)? { return Ok(true); }
        if <S16 as StructRef>::offer(&mut s.1.1.0, k, v)? { return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        let v1 = <S6 as StructRef>::complete(std::mem::take(&mut s.1.0), end)?;
        let v2 = <S16 as StructRef>::complete(std::mem::take(&mut s.1.1.0), end)?;
        if s.0.is_none() {
            let d = S34::make();
            if s.0.is_none() { s.0 = Some(d.field_x); }
        }
        let v0 = match s.0.take() { Some(x) => x, None => match <Option<Vec<char>> as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        Ok(S34 { field_x: v0, data: v1, r#async: v2 })
    }
}

#[derive(Debug, Serialize, Deserialize)]
#[deser(rename = "")]
#[deser(default = "S35::make", rename_all = "kebab-case")]
pub struct S35 {
    #[deser(alias = "key_alias")]
    pub key: N33,
}
impl Default for S35 {
    fn default() -> Self { hit(67); S35 { key: N33(Box::new('c')) } }
}
impl S35 {
    pub fn make() -> Self { hit(68); S35 { key: N33(Box::new('y')) } }
}
impl Zoo for S35 {
    const RT: bool = true;
    fn arb(g: &mut Gen) -> Self { let _ = &g; S35 { key: Zoo::arb(g) } }
    fn model(&self) -> M { struct_model(self, "") }
    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }
    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }
    fn eqv(&self, o: &Self) -> bool { let _ = o; true && self.key.eqv(&o.key) }
    fn same(&self, o: &Self) -> bool { let _ = o; true && self.key.same(&o.key) }
    fn de_desc() -> D { D::named("") }
}
impl StructRef for S35 {
    type Slots = (Option<N33>, ());
    fn leaves() -> Vec<Leaf> {
        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];
        v.push(Leaf { names: vec!["key", "key_alias"], fit: <N33 as Zoo>::fit });
        v
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];
        v.push(("key".to_string(), self.key.model(), self.key.is_opt()));
        v
    }
    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {
        let _ = (&s, v);
        if ["key", "key_alias"].contains(&k) { s.0 = Some(<N33 as Zoo>::de(v)?); return Ok(true); }
        Ok(false)
    }
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {
        let _ = (&s, end);
        #[allow(unused_mut)] let mut s = s;
        if s.0.is_none() {
            let d = S35::make();
            if s.0.is_none() { s.0 = Some(d.key); }
        }
        let v0 = match s.0.take() { Some(x) => x, None => match <N33 as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };
        Ok(S35 { key: v0 })
    }
}

pub const HITS: usize = 69;
pub fn visit<V: Visitor>(v: &mut V) {
    v.visit::<S2>();
    v.visit::<S4>();
    v.visit::<S6>();
    v.visit::<S7>();
    v.visit::<S8>();
    v.visit::<S9>();
    v.visit::<S10>();
    v.visit::<S11>();
    v.visit::<S12>();
    v.visit::<S13>();
    v.visit::<S14>();
    v.visit::<S16>();
    v.visit::<S17>();
    v.visit::<S18>();
    v.visit::<S19>();
    v.visit::<S21>();
    v.visit::<S22>();
    v.visit::<S23>();
    v.visit::<S24>();
    v.visit::<S26>();
    v.visit::<S27>();
    v.visit::<S28>();
    v.visit::<S29>();
    v.visit::<S30>();
    v.visit::<S31>();
    v.visit::<S32>();
    v.visit::<S34>();
    v.visit::<S35>();
    v.visit::<E0>();
    v.visit::<E1>();
    v.visit::<E20>();
    v.visit::<N3>();
    v.visit::<N5>();
    v.visit::<N15>();
    v.visit::<N25>();
    v.visit::<N33>();
}
