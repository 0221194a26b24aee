//! Running the drivers and recording what a consumer sees.
use crate::model::*;
use deser::de::{Deserialize, DeserializeDriver, SinkHandle};
use deser::ser::{Serialize, SerializeDriver};
use deser::Error;

pub struct SerRun {
    pub trace: Vec<Traced>,
    pub err: Option<Error>,
    /// the driver kept going beyond the cap
    pub runaway: bool,
}

pub fn ser_run(v: &dyn Serialize, cap: usize) -> SerRun {
    let mut d = SerializeDriver::new(v);
    let mut trace = vec![];
    loop {
        if trace.len() > cap {
            return SerRun { trace, err: None, runaway: true };
        }
        match d.next() {
            Err(e) => return SerRun { trace, err: Some(e), runaway: false },
            Ok(None) => break,
            Ok(Some((ev, desc, st))) => trace.push(Traced {
                ev: Ev::of(&ev),
                d: D::of(desc),
                depth: st.depth(),
                top: st.top_descriptor().map(D::of),
            }),
        }
    }
    // once more: nothing may follow
    for _ in 0..2 {
        if !matches!(d.next(), Ok(None)) {
            return SerRun { trace, err: None, runaway: true };
        }
    }
    if d.state().depth() != 0 || d.state().top_descriptor().is_some() {
        return SerRun { trace, err: None, runaway: true };
    }
    SerRun { trace, err: None, runaway: false }
}

/// The plain events of a value; panics if it cannot be serialized.
pub fn ser_events(v: &dyn Serialize) -> Result<Vec<Ev>, Error> {
    let mut d = SerializeDriver::new(v);
    let mut out = vec![];
    while let Some((ev, _, _)) = d.next()? {
        out.push(Ev::of(&ev));
        if out.len() > 5_000_000 {
            return Err(Error::new(deser::ErrorKind::Unexpected, "endless event stream"));
        }
    }
    Ok(out)
}

pub struct Fed<T> {
    pub out: Option<T>,
    pub err: Option<(Error, usize)>,
}

impl<T> Fed<T> {
    pub fn fail(&self) -> Option<Fail> {
        self.err.as_ref().map(|(e, at)| Fail { kind: e.kind(), at: *at })
    }
}

/// Feeds events until the end or the first error.
pub fn feed<T: Deserialize>(evs: &[Ev]) -> Fed<T> {
    let mut out = None;
    let err = {
        let mut d = DeserializeDriver::new(&mut out);
        feed_driver(&mut d, evs)
    };
    Fed { out, err }
}

pub fn feed_sink(sink: SinkHandle<'_>, evs: &[Ev]) -> Option<(Error, usize)> {
    let mut d = DeserializeDriver::from_sink(sink);
    feed_driver(&mut d, evs)
}

pub fn feed_driver(d: &mut DeserializeDriver, evs: &[Ev]) -> Option<(Error, usize)> {
    for (i, e) in evs.iter().enumerate() {
        if let Err(err) = d.emit(e.event()) {
            return Some((err, i));
        }
    }
    None
}

/// Checks grammar of a stream on the fly.
#[derive(Default)]
pub struct Grammar {
    stack: Vec<(bool, bool)>, // (is_map, expects_key)
    done: bool,
}

impl Grammar {
    pub fn step(&mut self, e: &Ev) -> Result<(), String> {
        if self.done {
            return Err("event after the end".into());
        }
        match e {
            Ev::MapEnd => match self.stack.pop() {
                Some((true, true)) => {}
                x => return Err(format!("map end in {:?}", x)),
            },
            Ev::SeqEnd => match self.stack.pop() {
                Some((false, _)) => {}
                x => return Err(format!("seq end in {:?}", x)),
            },
            _ => {
                match e {
                    Ev::MapStart => self.stack.push((true, true)),
                    Ev::SeqStart => self.stack.push((false, false)),
                    _ => {}
                }
                if matches!(e, Ev::MapStart | Ev::SeqStart) {
                    return Ok(());
                }
            }
        }
        // a value was completed
        match self.stack.last_mut() {
            None => self.done = true,
            Some((true, k)) => *k = !*k,
            _ => {}
        }
        Ok(())
    }
    pub fn complete(&self) -> bool {
        self.done
    }
}
