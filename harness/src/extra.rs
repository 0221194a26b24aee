//! Borrowed values, which only serialize.
use crate::gen::{self, Gen};
use crate::model::*;
use crate::util::Rng;
use crate::zoo::Zoo;
use deser::ser::{Serialize, SerializeHandle};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap};

fn seq(items: Vec<M>, name: &str) -> M {
    M { k: MK::Seq(items), d: D::named(name) }
}
fn text(s: &str) -> M {
    M::atom(A::Str(s.to_string()), D::named("str"))
}
fn bytes(s: &[u8], name: &str) -> M {
    M::atom(A::Bytes(s.to_vec()), D::named(name))
}

/// Calls `f` with random borrowed values and their models.
pub fn each(r: &mut Rng, json: bool, f: &mut dyn FnMut(&str, &dyn Serialize, M)) {
    let strings: Vec<String> = (0..r.below(5)).map(|_| gen::string(r)).collect();
    let s = gen::string(r);
    let b = gen::bytes(r);
    let nums: Vec<u16> = (0..r.below(6)).map(|_| r.u64() as u16).collect();
    let strs: Vec<&str> = strings.iter().map(|x| x.as_str()).collect();

    f("&str", &&*s, text(&s));
    f("&&str", &&&*s, text(&s));
    f("Cow borrowed", &Cow::Borrowed(&*s), text(&s));
    f("Cow owned", &Cow::<str>::Owned(s.clone()), text(&s));
    f("&String", &&s, s.model());
    f("&[u16]", &&nums[..], seq(nums.iter().map(|x| x.model()).collect(), "slice"));
    f("&Vec<u16>", &&nums, nums.model());
    f("&[&str]", &&strs[..], seq(strs.iter().map(|x| text(x)).collect(), "slice"));
    f("Vec<&str>", &strs, seq(strs.iter().map(|x| text(x)).collect(), "Vec"));
    f(
        "Option<&str>",
        &Some(&*s),
        M { k: text(&s).k, d: D::named("optional") },
    );
    f("Option<&u8> none", &None::<&u8>, M::atom(A::Null, D::named("optional")));
    let nested: Vec<&[u16]> = nums.chunks(2).collect();
    f(
        "Vec<&[u16]>",
        &nested,
        seq(nested.iter().map(|c| seq(c.iter().map(|x| x.model()).collect(), "slice")).collect(), "Vec"),
    );
    let map: BTreeMap<&str, &[u16]> = strs.iter().map(|s| (*s, &nums[..])).collect();
    f(
        "BTreeMap<&str, &[u16]>",
        &map,
        M {
            k: MK::Map(
                map.iter()
                    .map(|(k, v)| (text(k), seq(v.iter().map(|x| x.model()).collect(), "slice")))
                    .collect(),
            ),
            d: D::named("BTreeMap"),
        },
    );
    let hm: HashMap<Cow<str>, &u16> = strs.iter().map(|s| Cow::Borrowed(*s)).zip(&nums).collect();
    f(
        "HashMap<Cow<str>, &u16>",
        &hm,
        M { k: MK::Map(hm.iter().map(|(k, v)| (text(k), v.model())).collect()), d: D::unord("HashMap") },
    );
    let set: BTreeSet<&str> = strs.iter().copied().collect();
    f("BTreeSet<&str>", &set, seq(set.iter().map(|x| text(x)).collect(), "BTreeSet"));
    let mut n = r.u64();
    let m = n.model();
    f("&mut u64", &&mut n, m);
    let bx: Box<&[u16]> = Box::new(&nums[..]);
    f("Box<&[u16]>", &bx, seq(nums.iter().map(|x| x.model()).collect(), "slice"));
    let big: Vec<(u8, Option<String>)> = Vec::arb(&mut Gen { r, budget: 20, json });
    f(
        "(&str, &[..], Box)",
        &(&*s, &big[..], Box::new(7u8)),
        seq(
            vec![text(&s), seq(big.iter().map(|x| x.model()).collect(), "slice"), 7u8.model()],
            "tuple",
        ),
    );
    f("handle borrowed", &*SerializeHandle::to(&big), big.model());
    f("handle boxed", &*SerializeHandle::boxed(&*s), text(&s));
    if !json {
        f("&[u8]", &&b[..], bytes(&b, "bytes"));
        f("&Vec<u8>", &&b, bytes(&b, "ByteVec"));
        let vb: Vec<&[u8]> = b.chunks(3).collect();
        f("Vec<&[u8]>", &vb, seq(vb.iter().map(|x| bytes(x, "bytes")).collect(), "Vec"));
    }
}
