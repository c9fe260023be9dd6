//! What the library delivers, in the terms of the references.
use crate::generate::{Ev, Style};
use std::borrow::Cow;
use std::collections::BTreeMap;
use yam_core::parsing::*;
use yam_core::prelude::*;

pub type PE<'a> = (Event<'a>, Span);
pub struct Run<'a> { pub evs: Vec<PE<'a>>, pub err: Option<YamlError>, pub capped: bool }

pub fn cap(text: &str) -> usize { 16 * text.len() + 64 }

pub fn pull(text: &str) -> Run<'_> {
    let mut p = Parser::new_from_str(text);
    let mut evs = vec![];
    let n = cap(text);
    loop {
        match p.next_event() {
            None => return Run { evs, err: None, capped: false },
            Some(Err(e)) => return Run { evs, err: Some(e), capped: false },
            Some(Ok(e)) => evs.push(e),
        }
        if evs.len() > n { return Run { evs, err: None, capped: true }; }
    }
}

#[derive(Default)]
pub struct Rec<'a>(pub Vec<PE<'a>>);
impl<'a> SpannedEventReceiver<'a> for Rec<'a> {
    fn on_event(&mut self, ev: Event<'a>, span: Span) { self.0.push((ev, span)); }
}
#[derive(Default)]
pub struct RecPlain<'a>(pub Vec<Event<'a>>);
impl<'a> EventReceiver<'a> for RecPlain<'a> {
    fn on_event(&mut self, ev: Event<'a>) { self.0.push(ev); }
}

fn tag(t: &Option<Cow<'_, Tag>>) -> Option<(String, String)> { t.as_ref().map(|t| (t.handle.clone(), t.suffix.clone())) }
pub fn style(s: ScalarType) -> Style {
    match s {
        ScalarType::Plain => Style::Plain,
        ScalarType::Folded => Style::Folded,
        ScalarType::Literal => Style::Literal,
        ScalarType::SingleQuote => Style::Single,
        ScalarType::DoubleQuote => Style::Double,
    }
}
/// events of the documents (stream start and end left out); anchors renumbered by definition
pub fn view(evs: &[PE<'_>]) -> Result<Vec<Ev>, String> {
    let mut ids: BTreeMap<usize, usize> = BTreeMap::new();
    let mut out = vec![];
    let def = |id: usize, ids: &mut BTreeMap<usize, usize>| -> Result<usize, String> {
        if id == 0 { return Ok(0); }
        let n = ids.len() + 1;
        if ids.insert(id, n).is_some() { return Err(format!("anchor id {id} is given to two nodes")); }
        Ok(n)
    };
    for (e, _) in evs {
        out.push(match e {
            Event::StreamStart | Event::StreamEnd | Event::Nothing | Event::Comment(_) => continue,
            Event::DocumentStart(b) => Ev::Doc(*b),
            Event::DocumentEnd => Ev::DocEnd,
            Event::Alias(id) => Ev::Alias(*ids.get(id).ok_or(format!("alias to id {id}, which no node has"))?),
            Event::Scalar(s) => {
                let anchor = def(s.anchor_id, &mut ids)?;
                Ev::Scalar { style: style(s.scalar_type), value: s.value.to_string(), anchor, tag: tag(&s.tag) }
            }
            Event::SequenceStart(a, t) => { let a = def(*a, &mut ids)?; Ev::Seq(a, tag(t)) }
            Event::SequenceEnd => Ev::SeqEnd,
            Event::MappingStart(a, t) => { let a = def(*a, &mut ids)?; Ev::Map(a, tag(t)) }
            Event::MappingEnd => Ev::MapEnd,
        });
    }
    Ok(out)
}
