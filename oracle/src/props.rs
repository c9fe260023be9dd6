//! One check per property.
use crate::generate::*;
use crate::lib_view::*;
use crate::refs::{self, Core};
use crate::rng::Rng;
use std::borrow::Cow;
use yam_core::node::{YamlData, YamlScalar};
use yam_core::parsing::parser_iter::YamEvent;
use yam_core::parsing::*;
use yam_core::prelude::*;

#[derive(Debug)]
pub struct Fail { pub input: String, pub detail: String }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Text, Document }
pub struct Input { pub kind: Kind, pub text: String, pub doc: Option<Doc> }

/// share of generated documents (of 8 cases), focus
fn plan(prop: &str) -> (u64, Focus) {
    match prop {
        "P01" | "P02" => (3, Focus::Any),
        "P19" => (4, Focus::Any),
        "P03" => (6, Focus::Anchors),
        "P04" => (6, Focus::Tags),
        "P05" | "P06" => (1, Focus::Any),
        "P07" => (4, Focus::Any),
        "P08" => (3, Focus::Escapes),
        "P09" => (6, Focus::Escapes),
        "P11" => (5, Focus::Any),
        "P13" => (8, Focus::Quoted),
        "P14" => (8, Focus::Block),
        "P15" => (8, Focus::Any),
        _ => (0, Focus::Any),
    }
}

fn focus_for(prop: &str, seed: u64, idx: u64, f: Focus) -> Focus {
    let _ = seed;
    match (prop, idx % 16 / 8) {
        ("P15", 1) => [Focus::Flow, Focus::Block, Focus::Anchors, Focus::Tags, Focus::Quoted, Focus::Escapes, Focus::Simple][(idx / 16 % 7) as usize],
        ("P07" | "P11" | "P01" | "P02" | "P19", 1) => [Focus::Flow, Focus::Block, Focus::Anchors, Focus::Tags, Focus::Quoted][(idx / 16 % 5) as usize],
        ("P13", 1) => Focus::Escapes,
        _ => f,
    }
}

pub fn make(prop: &str, seed: u64, idx: u64) -> Input {
    let (share, focus) = plan(prop);
    let pseed = seed.wrapping_add(prop.bytes().fold(0u64, |a, b| a * 31 + b as u64) << 20);
    if idx % 8 < share {
        let d = document(pseed, idx, focus_for(prop, seed, idx, focus));
        return Input { kind: Kind::Document, text: d.text.clone(), doc: Some(d) };
    }
    let mut r = Rng::new(pseed ^ 0xABCD, idx);
    let text = if r.n(48) == 0 { long(&mut r) } else { match r.n(10) {
        0..=3 => soup(&mut r),
        4 | 5 => small(idx / 8),
        _ => {
            let f = r.pick(&[Focus::Any, Focus::Flow, Focus::Block, Focus::Anchors, Focus::Tags, Focus::Quoted, Focus::Escapes]);
            let t = document(pseed ^ 0x77, idx, f).text;
            mutate(&mut r, &t)
        }
    } };
    Input { kind: Kind::Text, text, doc: None }
}

pub fn kind(prop: &str, seed: u64, idx: u64) -> Kind {
    match prop {
        "P10" | "P12" | "P21" => Kind::Document,
        _ => make(prop, seed, idx).kind,
    }
}
pub fn input(prop: &str, seed: u64, idx: u64) -> String {
    match prop {
        "P10" => p10_input(seed, idx).1,
        "P12" => format!("node operations of case {idx}: {:?}", random_yaml(&mut Rng::new(seed, idx), 3)),
        "P21" => p21_input(seed, idx),
        _ => make(prop, seed, idx).text,
    }
}

type R = Result<Option<u64>, Fail>;
fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3); }
    h
}
fn fail<T>(i: &str, d: impl Into<String>) -> Result<T, Fail> { Err(Fail { input: i.to_string(), detail: d.into() }) }
macro_rules! ensure { ($i:expr, $c:expr, $($a:tt)*) => { if !$c { return fail($i, format!($($a)*)); } } }

pub fn case(prop: &str, seed: u64, idx: u64) -> R {
    match prop {
        "P10" => return p10(seed, idx),
        "P12" => return p12(seed, idx),
        "P21" => return p21(seed, idx),
        _ => {}
    }
    let inp = make(prop, seed, idx);
    let mut r = Rng::new(seed ^ 0x5151, idx);
    let t = &inp.text;
    let nontrivial = match prop {
        "P01" => p01(t)?,
        "P02" => p02(t, &mut r)?,
        "P03" => p03(&inp, &mut r)?,
        "P04" => p04(&inp, &mut r)?,
        "P05" => p05(t)?,
        "P06" => p06(t)?,
        "P07" => p07(&inp)?,
        "P08" => p08(t)?,
        "P09" => p09(&inp, &mut r)?,
        "P11" => p11(t)?,
        "P13" => scalars(&inp, &[Style::Plain, Style::Single, Style::Double])?,
        "P14" => scalars(&inp, &[Style::Literal, Style::Folded])?,
        "P15" => p15(&inp)?,
        "P19" => p19(t)?,
        _ => panic!("no such property: {prop}"),
    };
    Ok(if nontrivial { Some(hash(t)) } else { None })
}

// ------------------------------------------------------------------------------------ P01
#[derive(PartialEq, Debug)]
enum Fr { Stream, Doc(u8), Seq, Map(bool) }
/// the events follow  StreamStart (DocumentStart node DocumentEnd)* StreamEnd
fn grammar(evs: &[PE<'_>], complete: bool) -> Result<(), String> {
    let mut st: Vec<Fr> = vec![];
    let mut ended = false;
    for (i, (e, _)) in evs.iter().enumerate() {
        let bad = || Err(format!("event {i} {e:?} cannot follow {:?}", evs[..i].iter().map(|x| x.0.as_simple_str()).collect::<Vec<_>>()));
        if ended { return bad(); }
        fn node(st: &mut [Fr]) -> bool {
            match st.last_mut() {
                Some(Fr::Doc(n)) if *n == 0 => { *n = 1; true }
                Some(Fr::Seq) => true,
                Some(Fr::Map(v)) => { *v = !*v; true }
                _ => false,
            }
        }
        match e {
            Event::StreamStart => { if i != 0 { return bad(); } st.push(Fr::Stream); }
            Event::StreamEnd => { if st != [Fr::Stream] { return bad(); } ended = true; }
            Event::DocumentStart(_) => { if st.last() != Some(&Fr::Stream) { return bad(); } st.push(Fr::Doc(0)); }
            Event::DocumentEnd => { if st.last() != Some(&Fr::Doc(1)) { return bad(); } st.pop(); }
            Event::Alias(_) | Event::Scalar(_) => { if !node(&mut st) { return bad(); } }
            Event::SequenceStart(..) => { if !node(&mut st) { return bad(); } st.push(Fr::Seq); }
            Event::MappingStart(..) => { if !node(&mut st) { return bad(); } st.push(Fr::Map(false)); }
            Event::SequenceEnd => { if st.last() != Some(&Fr::Seq) { return bad(); } st.pop(); }
            Event::MappingEnd => { if st.last() != Some(&Fr::Map(false)) { return bad(); } st.pop(); }
            Event::Nothing | Event::Comment(_) => return bad(),
        }
    }
    if complete && !ended { return Err("no error, but the stream did not end".into()); }
    Ok(())
}
fn p01(t: &str) -> Result<bool, Fail> {
    let run = pull(t);
    ensure!(t, !run.capped, "events without end");
    if let Err(m) = grammar(&run.evs, run.err.is_none()) { return fail(t, m); }
    if run.err.is_none() {
        // nothing follows the end
        let mut p = Parser::new_from_str(t);
        while p.next_event().is_some() {}
        for _ in 0..3 { ensure!(t, p.next_event().is_none(), "an event after the end of the stream"); }
        // what a receiver gets is a complete stream as well
        let mut rec = Rec::default();
        let r = Parser::new_from_str(t).load(&mut rec, true);
        ensure!(t, r.is_ok(), "load fails, pulling does not: {r:?}");
        if let Err(m) = grammar(&rec.0, true) { return fail(t, format!("load: {m}")); }
    }
    Ok(run.evs.len() > 3)
}

// ------------------------------------------------------------------------------------ P02
fn p02(t: &str, r: &mut Rng) -> Result<bool, Fail> {
    let a = pull(t);
    ensure!(t, !a.capped, "events without end");
    // iterator
    let mut it = vec![];
    let mut it_err = None;
    for e in Parser::new_from_str(t) {
        match e { Ok(e) => it.push(e), Err(e) => { it_err = Some(e); break; } }
    }
    ensure!(t, it == a.evs && it_err == a.err, "iterator differs from next_event\n{it:?} {it_err:?}\n{:?} {:?}", a.evs, a.err);
    // peeking changes nothing and announces the next event
    let mut p = Parser::new_from_str(t);
    let mut k = 0;
    loop {
        let mut seen = None;
        for _ in 0..r.n(3) {
            match p.peek() {
                None => { ensure!(t, k == a.evs.len() && a.err.is_none(), "peek ends the stream early, at event {k}"); }
                Some(Ok(e)) => {
                    ensure!(t, a.evs.get(k) == Some(e), "peek at event {k}: {e:?}, next_event gives {:?}", a.evs.get(k));
                    seen = Some(e.clone());
                }
                Some(Err(e)) => {
                    ensure!(t, k == a.evs.len() && a.err.as_ref() == Some(&e), "peek fails at event {k}: {e:?}, next_event: {:?}", a.evs.get(k));
                    return peek_load(t, &a).map(|()| true);
                }
            }
        }
        match p.next_event() {
            None => { ensure!(t, k == a.evs.len() && a.err.is_none() && seen.is_none(), "stream ends early after peeking"); break; }
            Some(Ok(e)) => { ensure!(t, a.evs.get(k) == Some(&e) && seen.as_ref().is_none_or(|s| *s == e), "event {k} after peeking: {e:?}"); k += 1; }
            Some(Err(e)) => { ensure!(t, k == a.evs.len() && a.err.as_ref() == Some(&e), "error after peeking: {e:?}"); break; }
        }
    }
    peek_load(t, &a)?;
    // one document at a time
    let mut p = Parser::new_from_str(t);
    let mut rec = Rec::default();
    let mut guard = 0;
    let mut err = None;
    while !rec.0.iter().any(|e| e.0 == Event::StreamEnd) && guard < t.len() + 3 {
        guard += 1;
        if r.p(50) && guard > 1 {
            if let Some(Err(e)) = p.peek() { err = Some(e); break; }
        }
        if let Err(e) = p.load(&mut rec, false) { err = Some(e); break; }
    }
    ensure!(t, rec.0 == a.evs && err == a.err, "load(.., false) repeated differs from next_event\n{:?} {err:?}\n{:?} {:?}", rec.0, a.evs, a.err);
    Ok(a.evs.len() > 3)
}
fn peek_load(t: &str, a: &Run<'_>) -> Result<(), Fail> {
    for peeks in 0..2 {
        let mut p = Parser::new_from_str(t);
        for _ in 0..peeks { let _ = p.peek(); }
        let mut rec = Rec::default();
        let err = p.load(&mut rec, true).err();
        ensure!(t, rec.0 == a.evs && err == a.err, "load ({peeks} peeks before) differs from next_event\n{:?} {err:?}\n{:?} {:?}", rec.0, a.evs, a.err);
    }
    let mut rec = RecPlain::default();
    let err = Parser::new(StrSource::new(t)).load(&mut rec, true).err();
    ensure!(t, rec.0.iter().eq(a.evs.iter().map(|e| &e.0)) && err == a.err, "load into an EventReceiver differs from next_event");
    Ok(())
}

// ------------------------------------------------------------------------------------ P03
fn p03(inp: &Input, r: &mut Rng) -> Result<bool, Fail> {
    let t = &inp.text;
    let run = pull(t);
    // ids: positive, fresh, and an alias only names a node of its own document that began earlier
    let mut all = std::collections::BTreeSet::new();
    let mut here = std::collections::BTreeSet::new();
    for (e, _) in &run.evs {
        match e {
            Event::DocumentStart(_) => here.clear(),
            Event::Scalar(ScalarValue { anchor_id: a, .. }) | Event::SequenceStart(a, _) | Event::MappingStart(a, _) if *a != 0 => {
                ensure!(t, all.insert(*a), "anchor id {a} used twice");
                here.insert(*a);
            }
            Event::Alias(a) => ensure!(t, here.contains(a), "alias to {a}, which no earlier node of the document has"),
            _ => {}
        }
    }
    let Some(doc) = &inp.doc else { return Ok(!here.is_empty()) };
    ensure!(t, run.err.is_none(), "valid document refused: {:?}", run.err);
    let proj = |v: &[Ev]| -> Vec<(char, usize)> {
        v.iter().map(|e| match e {
            Ev::Scalar { anchor, .. } => ('s', *anchor),
            Ev::Seq(a, _) => ('[', *a),
            Ev::Map(a, _) => ('{', *a),
            Ev::Alias(a) => ('*', *a),
            Ev::Doc(_) => ('-', 0),
            _ => (' ', 0),
        }).collect()
    };
    let v = match view(&run.evs) { Ok(v) => v, Err(m) => return fail(t, m) };
    ensure!(t, proj(&v) == proj(&doc.evs), "anchors and aliases\n  are  {:?}\n  want {:?}", proj(&v), proj(&doc.evs));
    // aliases without their anchor
    let al: Vec<&Place> = doc.places.iter().filter(|p| matches!(doc.evs[p.ev], Ev::Alias(_))).collect();
    if !al.is_empty() {
        let p = al[r.n(al.len())];
        let bad = format!("{}*nobody{}", &t[..p.start], &t[p.end..]);
        let run = pull(&bad);
        ensure!(&bad, run.err.is_some(), "alias to an anchor that does not exist is accepted");
        ensure!(&bad, run.evs.iter().filter(|e| matches!(e.0, Event::Alias(_))).count() == al.iter().position(|q| q.start == p.start).unwrap(), "the unknown alias is not reported where it stands");
        // an anchor does not outlive its document
        let name = &t[p.start + 1..p.end];
        let two = format!("&{name} x\n...\n---\n*{name}\n");
        ensure!(&two, pull(&two).err.is_some(), "alias to an anchor of the previous document is accepted");
        let mut rec = Rec::default();
        ensure!(&two, Parser::new_from_str(&two).load(&mut rec, true).is_err(), "load: alias to an anchor of the previous document is accepted");
    }
    Ok(doc.evs.iter().any(|e| matches!(e, Ev::Alias(_))))
}

// ------------------------------------------------------------------------------------ P04
fn p04(inp: &Input, r: &mut Rng) -> Result<bool, Fail> {
    let t = &inp.text;
    let run = pull(t);
    let Some(doc) = &inp.doc else { return p04_negative(r) };
    ensure!(t, run.err.is_none(), "valid document refused: {:?}", run.err);
    let proj = |v: &[Ev]| -> Vec<Option<(String, String)>> {
        v.iter().filter_map(|e| match e {
            Ev::Scalar { tag, .. } => Some(tag.clone()),
            Ev::Seq(_, t) | Ev::Map(_, t) => Some(t.clone()),
            _ => None,
        }).collect()
    };
    let v = match view(&run.evs) { Ok(v) => v, Err(m) => return fail(t, m) };
    ensure!(t, proj(&v) == proj(&doc.evs), "tags\n  are  {:?}\n  want {:?}", proj(&v), proj(&doc.evs));
    Ok(proj(&v).iter().any(Option::is_some))
}
fn tags_of(evs: &[PE<'_>]) -> Vec<Option<(String, String)>> {
    view(evs).unwrap_or_default().iter().filter_map(|e| match e {
        Ev::Scalar { tag, .. } => Some(tag.clone()),
        Ev::Seq(_, t) | Ev::Map(_, t) => Some(t.clone()),
        _ => None,
    }).collect()
}
fn p04_negative(r: &mut Rng) -> Result<bool, Fail> {
    let h = r.pick(&["!e!", "!x-1!", "!abc!"]);
    let other = r.pick(&["!f!", "!y!"]);
    let p = r.pick(&["tag:x:", "!p-", "tag:example.com,2000:"]);
    let body = r.pick(&["a", "[a, b]", "{a: b}", "\n- a\n- b", "\nk: v"]);
    let lead = r.pick(&["", "# c\n", "\n", "%YAML 1.2\n", "%FOO x\n"]);
    let t = match r.n(8) {
        0 => format!("{lead}%TAG {other} {p}\n--- {h}t {body}\n"),               // another handle is declared
        1 => format!("--- {h}t {body}\n"),
        2 => format!("{lead}%TAG {h} {p}\n--- {h}t {body}\n...\n--- {h}t {body}\n"), // a directive ends with its document
        3 => format!("{lead}%TAG {h} {p}\n%TAG {h} {p}\n--- {h}t {body}\n"),
        4 => format!("%YAML 1.2\n%TAG {h} {p}\n%YAML 1.2\n--- {h}t {body}\n"),
        5 => format!("{lead}%TAG {h} {p}\n%TAG {other} {p}\n%TAG {h} tag:y:\n--- {body}\n"),
        6 => {
            // the same, with the directives kept
            let t = format!("{lead}%TAG {h} {p}\n--- {h}t {body}\n...\n--- {h}t {body}\n");
            let mut q = Parser::new_from_str(&t).keep_tags(true);
            let mut rec = Rec::default();
            let e = q.load(&mut rec, true);
            ensure!(&t, e.is_ok(), "keep_tags: {e:?}");
            let want = Some((p.to_string(), "t".to_string()));
            ensure!(&t, tags_of(&rec.0).iter().filter(|x| **x == want).count() == 2, "keep_tags: {:?}", rec.0);
            return Ok(true);
        }
        _ => {
            // a later document may give a handle another prefix
            let t = format!("{lead}%TAG {h} {p}\n--- {h}t {body}\n...\n%TAG {h} tag:z:\n--- {h}u {body}\n");
            for keep in [false, true] {
                let mut q = Parser::new_from_str(&t).keep_tags(keep);
                let mut rec = Rec::default();
                let e = q.load(&mut rec, true);
                ensure!(&t, e.is_ok(), "{e:?}");
                let v = tags_of(&rec.0);
                let (a, b) = (Some((p.to_string(), "t".to_string())), Some(("tag:z:".to_string(), "u".to_string())));
                ensure!(&t, v.contains(&a) && v.contains(&b), "tags are {v:?}");
            }
            return Ok(true);
        }
    };
    let run = pull(&t);
    ensure!(&t, run.err.is_some(), "accepted: {:?}", run.evs);
    Ok(true)
}

// ------------------------------------------------------------------------------------ P05
fn p05(t: &str) -> Result<bool, Fail> {
    for text in variants(t) {
        let a = pull(&text);
        ensure!(&text, !a.capped, "more than {} events", cap(&text));
        let mut n = 0;
        let mut it = ParserIter::from_str_ref(&text);
        while it.next().is_some() { n += 1; ensure!(&text, n <= cap(&text), "ParserIter: more than {n} events"); }
        let mut rec = Rec::default();
        let _ = Parser::new_from_str(&text).load(&mut rec, true);
        let _ = Yaml::load_from(&text);
    }
    Ok(t.len() > 2)
}
fn variants(t: &str) -> Vec<String> {
    let mut v = vec![t.to_string()];
    if t.len() < 12 { v.push(t.repeat(7)); }
    v
}
// ------------------------------------------------------------------------------------ P06
fn p06(t: &str) -> Result<bool, Fail> {
    for text in variants(t) {
        let a = pull(&text);
        if a.capped { return Ok(false); }
        let mut p = Parser::new_from_str(&text);
        let mut n = 0;
        loop {
            n += 1;
            let _ = p.peek().map(|x| x.is_ok());
            match p.next_event() { None | Some(Err(_)) => break, Some(Ok((Event::Alias(i), _))) => { let _ = p.get_anchor(i); } Some(Ok(_)) => {} }
            if n > cap(&text) { break; }
        }
        let mut it = ParserIter::from_str_ref(&text);
        for _ in 0..cap(&text) { if it.next().is_none() { break; } }
        for multi in [true, false] {
            let mut rec = Rec::default();
            let mut p = Parser::new_from_str(&text);
            let _ = p.load(&mut rec, multi);
        }
        if let Ok(v) = Yaml::load_from(&text) { for y in &v { touch(y); } }
        let _ = Yaml::load_single(&text);
        for (e, _) in &a.evs { if let Event::Scalar(s) = e { let _ = YamlScalar::<f64>::parse_from_scalar(s.clone()); let _ = s.is_null(); } }
    }
    Ok(t.len() > 2)
}
fn touch(y: &Yaml<'_>) {
    let _ = (y.as_bool(), y.as_i64(), y.as_f64(), y.as_str(), y.get_tag(), y.get_type(), y.is_null(), y.is_collection(), y.is_non_empty_collection());
    if let Ok(s) = y.as_sequence() { s.iter().for_each(touch); }
    if let Ok(m) = y.as_mapping() { for e in m { touch(&e.key); touch(&e.value); } }
    if let YamlData::Tagged(_, b) = &y.0 { touch(b); }
    let z = y.clone();
    let _ = z == *y;
}

// ------------------------------------------------------------------------------------ P07
fn mark_ok(t: &str, m: &Marker) -> Result<(), String> {
    if m.pos > t.len() { return Err(format!("{m:?} lies outside the input of {} bytes", t.len())); }
    let (l, c) = refs::line_col(t.as_bytes(), m.pos);
    if (m.line as usize, m.col as usize) == (l, c) { return Ok(()); }
    if m.pos == t.len() && (m.line as usize, m.col as usize) == (l + 1, 1) { return Ok(()); }
    Err(format!("{m:?}: offset {} is line {l} column {c}", m.pos))
}
fn p07(inp: &Input) -> Result<bool, Fail> {
    let t = &inp.text;
    let run = pull(t);
    let mut last = 0;
    for (e, s) in &run.evs {
        for m in [&s.start, &s.end] { if let Err(x) = mark_ok(t, m) { return fail(t, format!("{} {s:?}: {x}", e.as_simple_str())); } }
        ensure!(t, s.start.pos <= s.end.pos, "{e:?}: span ends before it starts: {s:?}");
        let _ = &mut last;
    }
    if let Some(YamlError::ScannerErr { mark, info }) = &run.err {
        if let Err(x) = mark_ok(t, mark) { return fail(t, format!("error {info:?}: {x}")); }
    }
    if let (Some(doc), None) = (&inp.doc, &run.err) {
        let evs: Vec<&PE<'_>> = run.evs.iter().filter(|e| !matches!(e.0, Event::StreamStart | Event::StreamEnd)).collect();
        if evs.len() == doc.evs.len() {
            for p in &doc.places {
                let (e, s) = evs[p.ev];
                ensure!(t, s.start.pos == p.start, "{e:?} starts at {}, reported at {:?}", p.start, s.start);
                if matches!(&doc.evs[p.ev], Ev::Scalar { style: Style::Single | Style::Double, .. }) {
                    // the span of a quoted scalar takes in the blanks and the comment after it
                    let rest = t.get(p.end..s.end.pos);
                    ensure!(t, rest.is_some_and(|r| !r.contains(['\n', '\r']) && (r.trim_matches([' ', '\t']).is_empty() || r.trim_start_matches([' ', '\t']).starts_with('#'))), "{e:?} ends at {}, reported at {:?}", p.end, s.end);
                    continue;
                }
                ensure!(t, s.end.pos == p.end, "{e:?} ends at {}, reported at {:?}", p.end, s.end);
            }
        }
    }
    Ok(run.evs.len() > 3)
}

// ------------------------------------------------------------------------------------ P08
fn p08(t: &str) -> Result<bool, Fail> {
    let run = pull(t);
    let mut n = 0;
    let mut chk = |s: &str| -> Result<(), Fail> {
        n += 1;
        if let Err(e) = std::str::from_utf8(s.as_bytes()) { return fail(t, format!("text that is not UTF-8: {:?}: {e}", s.as_bytes())); }
        Ok(())
    };
    for (e, _) in &run.evs {
        match e {
            Event::Scalar(s) => {
                chk(&s.value)?;
                if let Some(g) = &s.tag { chk(&g.handle)?; chk(&g.suffix)?; }
            }
            Event::SequenceStart(_, Some(g)) | Event::MappingStart(_, Some(g)) => { chk(&g.handle)?; chk(&g.suffix)?; }
            _ => {}
        }
    }
    // anchors, by way of aliases
    let mut p = Parser::new_from_str(t);
    let mut k = 0;
    while let Some(Ok((e, _))) = p.next_event() {
        if let Event::Alias(id) = e { if let Some(a) = p.get_anchor(id) { let a = a.to_string(); if let Err(e) = std::str::from_utf8(a.as_bytes()) { return fail(t, format!("anchor name is not UTF-8: {e}")); } } }
        k += 1;
        if k > cap(t) { break; }
    }
    Ok(n > 0 && !t.is_ascii() || t.contains('\\') || t.contains('%'))
}

// ------------------------------------------------------------------------------------ P09
fn p09(inp: &Input, r: &mut Rng) -> Result<bool, Fail> {
    if inp.doc.is_some() { return scalars(inp, &[Style::Double]).map(|x| x && inp.text.contains('\\')); }
    // single escapes, also ones that are not allowed
    let hex = |r: &mut Rng, n: usize| -> String { (0..n).map(|_| r.pick(&["0", "1", "4", "8", "9", "a", "b", "C", "d", "D", "e", "F", "0", "0", "g", "-", "+", " "])).collect() };
    match r.n(4) {
        3 => {
            // several escapes in a row, halves of surrogate pairs among them
            let n = r.r(2, 5);
            let mut src = String::new();
            for _ in 0..n {
                match r.n(7) {
                    0 => src.push_str(&format!("\\u{:04X}", 0xd800 + r.n(0x400))),
                    1 => src.push_str(&format!("\\u{:04x}", 0xdc00 + r.n(0x400))),
                    2 => src.push_str(&format!("\\U{:08x}", r.n(0x110400))),
                    3 => src.push_str(&format!("\\x{:02x}", r.n(0x100))),
                    4 => src.push_str(&format!("\\u{:04x}", r.n(0x10000))),
                    5 => src.push_str(r.pick(&["\\n", "\\t", "\\\\", "\\\"", "\\N", "\\/", "\\ ", "\\0", "\\e"])),
                    _ => src.push_str(r.pick(&["a", " ", "é", "'", "0", "1F"])),
                }
            }
            dq(&format!("a{src}z"))
        }
        0 => {
            // tag URI escapes
            let n = r.r(1, 4);
            let mut u = String::new();
            for _ in 0..n {
                match r.n(4) {
                    0 => u.push_str(r.pick(&["a", "x.y", "-"])),
                    1 => { let c = char::from_u32(r.n(0x3000) as u32).unwrap_or('a'); let mut b = [0; 4]; for x in c.encode_utf8(&mut b).bytes() { u.push_str(&format!("%{x:02X}")); } }
                    2 => { let c = char::from_u32(r.n(0x110000) as u32).unwrap_or('é'); let mut b = [0; 4]; for x in c.encode_utf8(&mut b).bytes() { u.push_str(&format!("%{x:02x}")); } }
                    _ => { u.push('%'); let h = hex(r, 2); u.push_str(h.trim()); }
                }
            }
            let (t, verbatim) = if r.p(50) { (format!("!{u} x"), false) } else { (format!("!<{u}> x"), true) };
            let run = pull(&t);
            let got = tags_of(&run.evs).into_iter().next().flatten();
            match refs::uri_decode(&u) {
                Ok(v) if !u.contains(['g', '+', ' ']) && !(u.contains('-') && u.contains("%-")) => {
                    ensure!(&t, run.err.is_none(), "valid tag refused: {:?}", run.err);
                    let want = if verbatim { (String::new(), v) } else { ("!".to_string(), v) };
                    ensure!(&t, got.as_ref() == Some(&want), "tag is {got:?}, expected {want:?}");
                }
                Ok(_) => {}
                Err(()) => ensure!(&t, run.err.is_some(), "invalid URI escape accepted: {got:?}"),
            }
            Ok(true)
        }
        1 => {
            let c = r.pick(&["x", "u", "U", "x", "u", "U", "X"]);
            let n = match c { "x" => 2, "u" => 4, _ => 8 };
            let h = if c == "U" && r.p(70) { format!("{:08X}", r.n(0x130000)) } else if c == "u" && r.p(60) { format!("{:04x}", r.n(0x10000)) } else { let k = n - r.n(10) / 9; hex(r, k) };
            let src = format!("{}\\{c}{h}{}", r.pick(&["", "a"]), r.pick(&["", "z", " b"]));
            dq(&src)
        }
        _ => {
            let c = match r.n(3) { 0 => r.pick(&['\'', '1', 'c', 'A', 'B', 'T', '-', 'é', 'q', 'z', '[', 'R', 'E', 'V', 'F', 'l', 'p', '日']), 1 => (r.n(0x5f) as u8 + 0x20) as char, _ => r.pick(&['0', 'a', 'b', 't', 'n', 'v', 'f', 'r', 'e', ' ', '"', '/', '\\', 'N', '_', 'L', 'P']) };
            if "xuU".contains(c) { return Ok(false); }
            dq(&format!("{}\\{c}{}", r.pick(&["", "a", "é"]), r.pick(&["", "z", "日"])))
        }
    }
}
fn dq(src: &str) -> Result<bool, Fail> {
    let t = format!("\"{src}\"");
    let run = pull(&t);
    let got = run.evs.iter().find_map(|e| if let Event::Scalar(s) = &e.0 { Some(s.value.to_string()) } else { None });
    match refs::double_quoted(src) {
        Ok(v) => {
            ensure!(&t, run.err.is_none(), "valid escape refused: {:?}", run.err);
            ensure!(&t, got.as_ref() == Some(&v), "value is {got:?}, expected {v:?}");
        }
        Err(()) => ensure!(&t, run.err.is_some(), "invalid escape accepted: {got:?}"),
    }
    Ok(true)
}

// ------------------------------------------------------------------------------------ P13, P14
fn scalars(inp: &Input, styles: &[Style]) -> Result<bool, Fail> {
    // the break that ends the last line may be missing
    let t: &str = match inp.text.strip_suffix("\r\n").or(inp.text.strip_suffix(['\n', '\r'])) {
        Some(s) if hash(&inp.text) % 3 == 0 && !s.ends_with([' ', '\t', '\n', '\r', '|', '>', '-', '+', '?', ':']) && !s.ends_with(|c: char| c.is_ascii_digit()) => s,
        _ => &inp.text,
    };
    let doc = inp.doc.as_ref().unwrap();
    let run = pull(t);
    ensure!(t, run.err.is_none(), "valid document refused: {:?}", run.err);
    let proj = |v: &[Ev]| -> Vec<(Style, String)> {
        v.iter().filter_map(|e| match e { Ev::Scalar { style, value, .. } if styles.contains(style) => Some((*style, value.clone())), _ => None }).collect()
    };
    let v = match view(&run.evs) { Ok(v) => v, Err(m) => return fail(t, m) };
    let (a, b) = (proj(&v), proj(&doc.evs));
    if a != b {
        let k = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        return fail(t, format!("scalar {k}\n  is   {:?}\n  want {:?}", a.get(k), b.get(k)));
    }
    Ok(b.iter().any(|s| s.1.len() > 1))
}
fn p15(inp: &Input) -> Result<bool, Fail> {
    let t = &inp.text;
    let doc = inp.doc.as_ref().unwrap();
    let run = pull(t);
    ensure!(t, run.err.is_none(), "valid document refused: {:?}", run.err);
    let v = match view(&run.evs) { Ok(v) => v, Err(m) => return fail(t, m) };
    if v != doc.evs {
        let k = v.iter().zip(&doc.evs).position(|(x, y)| x != y).unwrap_or(v.len().min(doc.evs.len()));
        return fail(t, format!("event {k}\n  is   {:?}\n  want {:?}", v.get(k), doc.evs.get(k)));
    }
    Ok(v.len() > 3)
}

// ------------------------------------------------------------------------------------ P10
fn p10_input(seed: u64, idx: u64) -> (Rng, String) {
    let mut r = Rng::new(seed ^ 0x1010, idx);
    let words = ["null", "Null", "NULL", "~", "", "true", "True", "TRUE", "false", "False", "FALSE", ".inf", ".Inf", ".INF", "+.inf", "-.Inf", ".nan", ".NaN", ".NAN",
        "nUll", "tRUE", "yes", "no", "on", "inf", "nan", "NaN", "-.nan", "+.nan", ".iNF", "infinity", "0x", "0o", "0b1", "1_000", "+", "-", ".", "e5", "--1", "+-1", "-+1", "0x-1", "0o+7", "0x+1F",
        "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "+9223372036854775807", "+9223372036854775808", "0x7fffffffffffffff", "0x8000000000000000", "0o777777777777777777777", "0o1000000000000000000000",
        "00", "-0", "+0", "0123", "1e5", "1E+5", "1.e-3", ".5", "-.5", "+.5e1", "1.", "1.5.2", "1e", "1e+", "0o8", "0xg", "0O7", "0X1F", "nulL", "NUL", "truE", "falsE", "fALSE", "~~", "Null ", "٣", "１", "1e400", "-1e400", "4.9e-324", "0x1F ", "tru", "falsee", ".infx", "x.inf", ".na", "-.INF", "+.INF"];
    let s = match r.n(6) {
        0 => r.pick(&words).to_string(),
        1 => { let n = r.r(1, 25); (0..n).map(|_| r.pick(&["0", "1", "2", "9", "7", "5"])).collect() }
        2 => { let n = r.r(1, 8); (0..n).map(|_| r.pick(&["0", "1", "9", "x", "o", "+", "-", ".", "e", "E", "a", "F", "8", "_"])).collect() }
        3 => { // near a float
            let d = |r: &mut Rng, n: usize| -> String { (0..r.n(n)).map(|_| r.pick(&["0", "1", "9", "5"])).collect() };
            let (a, b, c) = (d(&mut r, 4), d(&mut r, 4), d(&mut r, 3));
            format!("{}{a}{}{b}{}{c}", r.pick(&["", "+", "-"]), r.pick(&["", ".", "."]), r.pick(&["", "e", "E", "e+", "E-", "e-"]))
        }
        4 => { let p = r.pick(&["0x", "0o", "+0x", "-0o", "0x0", "0X"]); let n = r.n(24); let b: String = (0..n).map(|_| r.pick(&["0", "1", "7", "7", "f", "A", "8", "3", "2"])).collect(); format!("{p}{b}") }
        _ => { let w = r.pick(&words); let mut cs: Vec<char> = w.chars().collect(); let i = r.n(cs.len() + 1); match r.n(3) { 0 => cs.insert(i, r.pick(&['0', '+', '-', '.', 'e', 'x', 'n', 'N', ' ', 'é'])), 1 if i < cs.len() => { cs.remove(i); } _ if i < cs.len() => { let c = cs[i]; cs[i] = if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() } } _ => {} } cs.into_iter().collect() }
    };
    (r, s)
}
fn same_core(s: &YamlScalar<'_>, c: &Core, v: &str) -> bool {
    match (s, c) {
        (YamlScalar::Null(_), Core::Null) => true,
        (YamlScalar::Bool(a), Core::Bool(b)) => a == b,
        (YamlScalar::Integer(a), Core::Int(b)) => a == b,
        (YamlScalar::FloatingPoint(a), Core::Float(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
        (YamlScalar::String(a), Core::Str) => a == v,
        _ => false,
    }
}
fn p10(seed: u64, idx: u64) -> R {
    let (mut r, s) = p10_input(seed, idx);
    let want = refs::core(&s);
    let got = YamlScalar::<f64>::parse_from_cow(Cow::Borrowed(&s));
    ensure!(&s, same_core(&got, &want, &s), "plain scalar resolves to {got:?}, expected {want:?}");
    let parse = |st: ScalarType, tag: Option<Tag>| YamlScalar::<f64>::parse_from_cow_and_metadata(Cow::Owned(s.clone()), st, tag.map(Cow::Owned));
    for st in [ScalarType::SingleQuote, ScalarType::DoubleQuote, ScalarType::Literal, ScalarType::Folded] {
        let g = parse(st, None);
        ensure!(&s, matches!(&g, Some(YamlScalar::String(v)) if *v == s), "scalar of style {st:?} resolves to {g:?}, not to its text");
    }
    let g = parse(ScalarType::Plain, None);
    ensure!(&s, g.as_ref().is_some_and(|g| same_core(g, &want, &s)), "untagged plain scalar resolves to {g:?}, expected {want:?}");
    for (h, x) in [("!", "local"), ("", "int"), ("!e!", "bool"), ("tag:yaml.org,2002", "int"), ("tag:yaml.org,2022:", "str"), ("tag:yaml.org,2002:s", "str"), ("tag:example.com,2002:", "float"), ("!!", "null")] {
        let g = parse(ScalarType::Plain, Some(Tag::new(h, x)));
        ensure!(&s, g.as_ref().is_some_and(|g| same_core(g, &want, &s)), "plain scalar with the tag {h:?} {x:?} resolves to {g:?}, expected {want:?}");
        let st = r.pick(&[ScalarType::SingleQuote, ScalarType::DoubleQuote, ScalarType::Literal, ScalarType::Folded]);
        for h in [h, "tag:yaml.org,2002:"] {
            let g = parse(st, Some(Tag::new(h, x)));
            ensure!(&s, matches!(&g, Some(YamlScalar::String(v)) if *v == s), "scalar of style {st:?} with the tag {h:?} {x:?} resolves to {g:?}, not to its text");
        }
    }
    for suffix in ["bool", "int", "float", "null", "str", "custom", "seq"] {
        let g = parse(ScalarType::Plain, Some(Tag::new("tag:yaml.org,2002:", suffix)));
        let w: Option<Core> = match (suffix, &want) {
            ("str", _) => Some(Core::Str),
            ("bool", Core::Bool(_)) | ("int", Core::Int(_)) | ("null", Core::Null) => Some(want.clone()),
            ("float", _) => refs::float_of(&s).map(Core::Float),
            _ => None,
        };
        let ok = match (&g, &w) { (None, None) => true, (Some(a), Some(b)) => same_core(a, b, &s), _ => false };
        ensure!(&s, ok, "!!{suffix} resolves to {g:?}, expected {w:?}");
    }
    // the same through a document
    let safe = !s.is_empty() && s.is_ascii() && s.chars().all(|c| c.is_ascii_alphanumeric() || "+.~_".contains(c)) || s.strip_prefix('-').is_some_and(|x| !x.is_empty() && x.chars().all(|c| c.is_ascii_alphanumeric() || c == '.'));
    if safe && s != "..." {
        let y = Yaml::load_single(&s);
        let ok = matches!(&y, Ok(Yaml(YamlData::Scalar(x))) if same_core(x, &want, &s));
        ensure!(&s, ok, "loading the document gives {y:?}, expected {want:?}");
        let d = if r.p(50) { format!("- {s}\n") } else { format!("[{s}]") };
        let y = Yaml::load_single(&d);
        let ok = matches!(&y, Ok(Yaml(YamlData::Sequence(v))) if v.len() == 1 && matches!(&v[0].0, YamlData::Scalar(x) if same_core(x, &want, &s)));
        ensure!(&d, ok, "loading gives {y:?}, expected {want:?}");
        for suffix in ["bool", "int", "float", "null", "str", "custom"] {
            let d = format!("!!{suffix} {s}");
            let y = Yaml::load_single(&d);
            let w: Option<Core> = match (suffix, &want) {
                ("str", _) => Some(Core::Str),
                ("bool", Core::Bool(_)) | ("int", Core::Int(_)) | ("null", Core::Null) => Some(want.clone()),
                ("float", _) => refs::float_of(&s).map(Core::Float),
                _ => None,
            };
            let ok = match (&y, &w) { (Ok(Yaml(YamlData::BadValue)), None) => true, (Ok(Yaml(YamlData::Scalar(x))), Some(c)) => same_core(x, c, &s), _ => false };
            ensure!(&d, ok, "loading gives {y:?}, expected {w:?}");
        }
        let d = format!("!local {s}");
        let y = Yaml::load_single(&d);
        let ok = matches!(&y, Ok(Yaml(YamlData::Tagged(t, x))) if t.handle == "!" && t.suffix == "local" && matches!(&x.0, YamlData::Scalar(x) if same_core(x, &want, &s)));
        ensure!(&d, ok, "loading gives {y:?}, expected {want:?} with its tag");
        let y = Yaml::load_single(format!("\"{s}\""));
        ensure!(&s, matches!(&y, Ok(Yaml(YamlData::Scalar(YamlScalar::String(v)))) if *v == s), "quoted: {y:?}");
    }
    let sv = ScalarValue { value: Cow::Owned(s.clone()), scalar_type: ScalarType::Plain, anchor_id: 0, tag: None };
    let g = YamlScalar::<f64>::parse_from_scalar(sv);
    ensure!(&s, g.as_ref().is_some_and(|g| same_core(g, &want, &s)), "parse_from_scalar gives {g:?}, expected {want:?}");
    Ok(Some(hash(&s)))
}

// ------------------------------------------------------------------------------------ P11
fn eq_node(a: &Yaml<'_>, b: &Yaml<'_>) -> bool {
    match (&a.0, &b.0) {
        (YamlData::BadValue, YamlData::BadValue) => true,
        (YamlData::Scalar(YamlScalar::FloatingPoint(x)), YamlData::Scalar(YamlScalar::FloatingPoint(y))) => x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan(),
        (YamlData::Scalar(x), YamlData::Scalar(y)) => x == y,
        (YamlData::Sequence(x), YamlData::Sequence(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| eq_node(p, q)),
        (YamlData::Mapping(x), YamlData::Mapping(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| eq_node(&p.key, &q.key) && eq_node(&p.value, &q.value)),
        (YamlData::Tagged(t, x), YamlData::Tagged(u, y)) => t.handle == u.handle && t.suffix == u.suffix && eq_node(x, y),
        (YamlData::Alias(x), YamlData::Alias(y)) => x == y,
        _ => false,
    }
}
fn to_yaml(c: Core, v: &str) -> Yaml<'static> {
    Yaml(YamlData::Scalar(match c {
        Core::Null => YamlScalar::Null(std::marker::PhantomData),
        Core::Bool(b) => YamlScalar::Bool(b),
        Core::Int(i) => YamlScalar::Integer(i),
        Core::Float(f) => YamlScalar::FloatingPoint(f),
        Core::Str => YamlScalar::String(Cow::Owned(v.to_string())),
    }))
}
fn tagged(n: Yaml<'static>, t: &Option<Cow<'_, Tag>>) -> Yaml<'static> {
    match t {
        Some(t) if t.handle != "tag:yaml.org,2002:" => Yaml(YamlData::Tagged(Cow::Owned(t.as_ref().clone()), Box::new(n))),
        _ => n,
    }
}
struct Build<'a, 'b> { evs: &'b [PE<'a>], k: usize, anchors: std::collections::BTreeMap<usize, Yaml<'static>> }
impl Build<'_, '_> {
    fn node(&mut self) -> Yaml<'static> {
        let e = self.evs[self.k].0.clone();
        self.k += 1;
        match e {
            Event::Alias(id) => self.anchors.get(&id).cloned().unwrap_or(Yaml(YamlData::BadValue)),
            Event::Scalar(s) => {
                let v = s.value.to_string();
                let core = match &s.tag {
                    _ if s.scalar_type != ScalarType::Plain => Some(Core::Str),
                    Some(t) if t.handle == "tag:yaml.org,2002:" => match (t.suffix.as_str(), refs::core(&v)) {
                        ("str", _) => Some(Core::Str),
                        ("bool", c @ Core::Bool(_)) | ("int", c @ Core::Int(_)) | ("null", c @ Core::Null) => Some(c),
                        ("float", _) => refs::float_of(&v).map(Core::Float),
                        _ => None,
                    },
                    _ => Some(refs::core(&v)),
                };
                let n = tagged(core.map_or(Yaml(YamlData::BadValue), |c| to_yaml(c, &v)), &s.tag);
                if s.anchor_id != 0 { self.anchors.insert(s.anchor_id, n.clone()); }
                n
            }
            Event::SequenceStart(a, t) => {
                let mut v = vec![];
                while self.evs[self.k].0 != Event::SequenceEnd { v.push(self.node()); }
                self.k += 1;
                let n = tagged(Yaml(YamlData::Sequence(v)), &t);
                if a != 0 { self.anchors.insert(a, n.clone()); }
                n
            }
            Event::MappingStart(a, t) => {
                let mut v = vec![];
                while self.evs[self.k].0 != Event::MappingEnd { let k = self.node(); let x = self.node(); v.push(YamlEntry::new(k, x)); }
                self.k += 1;
                let n = tagged(Yaml(YamlData::Mapping(v)), &t);
                if a != 0 { self.anchors.insert(a, n.clone()); }
                n
            }
            e => panic!("not a node: {e:?}"),
        }
    }
}
fn p11(t: &str) -> Result<bool, Fail> {
    let run = pull(t);
    if run.capped { return Ok(false); }
    let got = Yaml::load_from(t);
    if let Some(e) = run.err {
        ensure!(t, got.as_ref().err() == Some(&e), "events end with {e:?}, loading gives {got:?}");
        return Ok(false);
    }
    if grammar(&run.evs, true).is_err() { return Ok(false); }
    let mut want = vec![];
    let mut b = Build { evs: &run.evs, k: 0, anchors: Default::default() };
    while b.k < run.evs.len() {
        if matches!(run.evs[b.k].0, Event::DocumentStart(_)) { b.k += 1; let n = b.node(); want.push(n); } else { b.k += 1; }
    }
    let same = |v: &[Yaml<'_>]| v.len() == want.len() && v.iter().zip(&want).all(|(a, b)| eq_node(a, b));
    ensure!(t, got.as_ref().is_ok_and(|v| same(v)), "loaded {got:?}\n  want {want:?}");
    let g = YamlLoader::<Yaml>::load_from_parser(&mut Parser::new_from_str(t));
    ensure!(t, g.as_ref().is_ok_and(|v| same(v)), "load_from_parser: {g:?}\n  want {want:?}");
    let one = |g: Result<Yaml<'_>, YamlError>, name: &str| -> Result<(), Fail> {
        match (&g, want.first()) {
            (Ok(a), Some(b)) if eq_node(a, b) => Ok(()),
            (Err(YamlError::NoDocument), None) => Ok(()),
            _ => fail(t, format!("{name}: {g:?}, expected the first of {want:?}")),
        }
    };
    one(Yaml::load_single(t), "load_single")?;
    one(YamlLoader::<Yaml>::load_single_from_parser(&mut Parser::new_from_str(t)), "load_single_from_parser")?;
    one(YamlLoader::<Yaml>::load_single_source(StrSource::new(t)), "load_single_source")?;
    // documents one by one from one parser
    let mut p = Parser::new_from_str(t);
    for w in &want {
        let g = YamlLoader::<Yaml>::load_single_from_parser(&mut p);
        ensure!(t, g.as_ref().is_ok_and(|g| eq_node(g, w)) || has_alias_across(&run.evs), "load_single_from_parser in turn: {g:?}, expected {w:?}");
    }
    Ok(run.evs.len() > 4)
}
fn has_alias_across(_: &[PE<'_>]) -> bool { false }

// ------------------------------------------------------------------------------------ P12
fn random_scalar(r: &mut Rng) -> Yaml<'static> {
    match r.n(6) {
        0 => Yaml(YamlData::Scalar(YamlScalar::Null(std::marker::PhantomData))),
        1 => Yaml(YamlData::Scalar(YamlScalar::Bool(r.p(50)))),
        2 => Yaml(YamlData::Scalar(YamlScalar::Integer(r.pick(&[0, 1, 2, -1, i64::MAX, i64::MIN, 3])))),
        3 => Yaml(YamlData::Scalar(YamlScalar::FloatingPoint(r.pick(&[0.0, 1.0, -1.5, f64::INFINITY, 2.0])))),
        _ => Yaml(YamlData::Scalar(YamlScalar::String(Cow::Owned(r.pick(&["a", "b", "0", "1", "", "é", "key"]).to_string())))),
    }
}
fn random_yaml(r: &mut Rng, depth: usize) -> Yaml<'static> {
    match if depth == 0 { r.n(7) } else { r.n(12) } {
        0..=4 => random_scalar(r),
        5 => Yaml(YamlData::BadValue),
        6 => Yaml(YamlData::Alias(r.n(5))),
        7 | 8 => { let n = r.n(4); Yaml(YamlData::Sequence((0..n).map(|_| random_yaml(r, depth - 1)).collect())) }
        9 | 10 => { let n = r.n(5); Yaml(YamlData::Mapping((0..n).map(|_| { let k = if r.p(80) { random_scalar(r) } else { random_yaml(r, depth - 1) }; YamlEntry::new(k, random_yaml(r, depth - 1)) }).collect())) }
        _ => { let h = r.pick(&["!", "tag:x:", "", "!t", "tag:x:t"]); let s = r.pick(&["t", "u", "", "tu", "!t"]); Yaml(YamlData::Tagged(Cow::Owned(Tag::new(h, s)), Box::new(random_yaml(r, depth - 1)))) }
    }
}
/// one small change somewhere in the tree
fn mutate_node(r: &mut Rng, y: &mut Yaml<'static>) {
    match &mut y.0 {
        YamlData::Sequence(v) if !v.is_empty() => match r.n(5) {
            0 => { let k = r.n(v.len()); v.remove(k); }
            1 => { let k = r.n(v.len()); let x = v[k].clone(); v.push(x); }
            2 => v.reverse(),
            _ => { let k = r.n(v.len()); mutate_node(r, &mut v[k]) }
        },
        YamlData::Mapping(v) if !v.is_empty() => match r.n(7) {
            0 => { let k = r.n(v.len()); v.remove(k); }
            1 => { let k = r.n(v.len()); let x = v[k].clone(); v.push(x); }
            2 => v.reverse(),
            3 => { let k = r.n(v.len()); let e = v[k].clone(); v[k] = YamlEntry::new(e.value, e.key); }
            4 => { let k = r.n(v.len()); mutate_node(r, &mut v[k].key) }
            _ => { let k = r.n(v.len()); mutate_node(r, &mut v[k].value) }
        },
        YamlData::Tagged(t, x) => match r.n(5) {
            0 => { let mut g = t.as_ref().clone(); if let Some(c) = g.suffix.chars().next() { g.suffix.remove(0); g.handle.push(c); } *t = Cow::Owned(g) }
            1 => { let mut g = t.as_ref().clone(); if let Some(c) = g.handle.pop() { g.suffix.insert(0, c); } *t = Cow::Owned(g) }
            2 => { let mut g = t.as_ref().clone(); std::mem::swap(&mut g.suffix, &mut g.handle); *t = Cow::Owned(g) }
            3 => { let i = (**x).clone(); *y = i }
            _ => mutate_node(r, x),
        },
        YamlData::Alias(n) => if r.p(50) { *n += 1 } else { *y = Yaml(YamlData::Scalar(YamlScalar::Integer(*n as i64))) },
        YamlData::Scalar(YamlScalar::Integer(n)) => match r.n(3) {
            0 => *n = n.wrapping_add(1),
            1 => *y = Yaml(YamlData::Scalar(YamlScalar::FloatingPoint(*n as f64))),
            _ => *y = Yaml(YamlData::Scalar(YamlScalar::String(Cow::Owned(n.to_string())))),
        },
        YamlData::Scalar(YamlScalar::String(t)) => { let mut t = t.to_string(); if r.p(50) { t.push(' ') } else { t = t.to_uppercase() } *y = Yaml(YamlData::Scalar(YamlScalar::String(Cow::Owned(t)))) }
        YamlData::Scalar(YamlScalar::Bool(b)) => *b = !*b,
        YamlData::Sequence(_) => *y = Yaml(YamlData::Mapping(vec![])),
        YamlData::Mapping(_) => *y = Yaml(YamlData::Sequence(vec![])),
        YamlData::BadValue => *y = Yaml(YamlData::Scalar(YamlScalar::Null(std::marker::PhantomData))),
        YamlData::Scalar(_) => *y = Yaml(YamlData::BadValue),
    }
}
fn spanned(y: &Yaml<'static>, k: &mut usize) -> SpannedYaml<'static> {
    *k += 1;
    let span = Span::new(Marker::new(*k, *k as u32, 1), Marker::new(*k + 1, *k as u32 + 1, 1));
    let yaml = match &y.0 {
        YamlData::BadValue => YamlData::BadValue,
        YamlData::Scalar(s) => YamlData::Scalar(s.clone()),
        YamlData::Sequence(v) => YamlData::Sequence(v.iter().map(|x| spanned(x, k)).collect()),
        YamlData::Mapping(v) => YamlData::Mapping(v.iter().map(|e| { let a = spanned(&e.key, k); YamlEntry::new(a, spanned(&e.value, k)) }).collect()),
        YamlData::Tagged(t, x) => YamlData::Tagged(t.clone(), Box::new(spanned(x, k))),
        YamlData::Alias(n) => YamlData::Alias(*n),
    };
    SpannedYaml { span, yaml }
}
fn unspanned(y: &SpannedYaml<'static>) -> Yaml<'static> {
    Yaml(match &y.yaml {
        YamlData::BadValue => YamlData::BadValue,
        YamlData::Scalar(s) => YamlData::Scalar(s.clone()),
        YamlData::Sequence(v) => YamlData::Sequence(v.iter().map(unspanned).collect()),
        YamlData::Mapping(v) => YamlData::Mapping(v.iter().map(|e| YamlEntry::new(unspanned(&e.key), unspanned(&e.value))).collect()),
        YamlData::Tagged(t, x) => YamlData::Tagged(t.clone(), Box::new(unspanned(x))),
        YamlData::Alias(n) => YamlData::Alias(*n),
    })
}
/// The accessors of a node with spans agree with those of the same node without.
fn p12_spanned(i: &str, y: &Yaml<'static>) -> Result<(), Fail> {
    let q = spanned(y, &mut 0);
    let same = |a: &Vec<SpannedYaml<'static>>, b: &Vec<Yaml<'static>>| a.len() == b.len() && a.iter().zip(b).all(|(p, q)| eq_node(&unspanned(p), q));
    let samem = |a: &Vec<YamlEntry<'static, SpannedYaml<'static>>>, b: &Vec<YamlEntry<'static, Yaml<'static>>>| a.len() == b.len() && a.iter().zip(b).all(|(p, q)| eq_node(&unspanned(&p.key), &q.key) && eq_node(&unspanned(&p.value), &q.value));
    let mut m = q.clone();
    let mut w = y.clone();
    ensure!(i, m.span == q.span && eq_node(&unspanned(&m), y), "spanned: a clone differs");
    ensure!(i, q.get_type() == y.get_type(), "spanned: get_type is {:?}", q.get_type());
    ensure!(i, (q.is_bad_value(), q.is_null(), q.is_string(), q.is_bool(), q.is_floating_point(), q.is_integer(), q.is_alias(), q.is_mapping(), q.is_sequence(), q.is_collection(), q.is_non_empty_collection())
        == (y.is_bad_value(), y.is_null(), y.is_string(), y.is_bool(), y.is_floating_point(), y.is_integer(), y.is_alias(), y.is_mapping(), y.is_sequence(), y.is_collection(), y.is_non_empty_collection()), "spanned: a predicate");
    ensure!(i, q.as_bool() == y.as_bool() && m.as_bool_mut() == w.as_bool_mut() && q.clone().into_bool() == y.as_bool(), "spanned: as_bool");
    ensure!(i, q.as_i64() == y.as_i64() && m.as_i64_mut() == w.as_i64_mut() && q.clone().into_i64() == y.as_i64(), "spanned: as_i64");
    let bits = |x: Option<f64>| x.map(f64::to_bits);
    ensure!(i, bits(q.as_f64()) == bits(y.as_f64()) && bits(m.as_f64_mut().map(|x| *x)) == bits(y.as_f64()) && bits(q.clone().into_f64()) == bits(y.as_f64()), "spanned: as_f64");
    ensure!(i, q.as_str() == y.as_str() && m.as_str_mut().map(|x| &*x) == y.as_str() && q.clone().into_string().as_deref() == y.as_str(), "spanned: as_str");
    ensure!(i, match (q.as_sequence(), y.as_sequence()) { (Ok(a), Ok(b)) => same(a, b) && same(q.sequence(), b), (Err(a), Err(b)) => a == b, _ => false }, "spanned: as_sequence");
    ensure!(i, match (m.as_sequence_mut(), y.as_sequence()) { (Ok(a), Ok(b)) => same(a, b), (Err(a), Err(b)) => a == b, _ => false }, "spanned: as_sequence_mut");
    ensure!(i, match (q.clone().into_sequence(), y.as_sequence()) { (Some(a), Ok(b)) => same(&a, b) && same(m.sequence_mut(), b), (None, Err(_)) => true, _ => false }, "spanned: into_sequence");
    ensure!(i, match (q.as_mapping(), y.as_mapping()) { (Ok(a), Ok(b)) => samem(a, b) && samem(q.mapping(), b), (Err(a), Err(b)) => a == b, _ => false }, "spanned: as_mapping");
    ensure!(i, match (m.as_mapping_mut(), y.as_mapping()) { (Ok(a), Ok(b)) => samem(a, b), (Err(a), Err(b)) => a == b, _ => false }, "spanned: as_mapping_mut");
    ensure!(i, match (q.clone().into_mapping(), y.as_mapping()) { (Some(a), Ok(b)) => samem(&a, b) && samem(m.mapping_mut(), b), (None, Err(_)) => true, _ => false }, "spanned: into_mapping");
    ensure!(i, q.get_tag() == y.get_tag(), "spanned: get_tag");
    let t = m.take();
    ensure!(i, eq_node(&unspanned(&t), y) && m.is_bad_value(), "spanned: take");
    let g = q.clone().into_tagged(Cow::Owned(Tag::new("!", "q")));
    ensure!(i, g.span == q.span && matches!(&g.yaml, YamlData::Tagged(t, x) if **t == Tag::new("!", "q") && eq_node(&unspanned(x), y)), "spanned: into_tagged");
    ensure!(i, SpannedYaml::<f64>::null().is_null() && SpannedYaml::<f64>::bad_value().is_bad_value() && SpannedYaml::<f64>::bad_span_value(q.span).span == q.span, "spanned: constructors");
    ensure!(i, SpannedYaml::<f64>::key_from_usize(7).as_i64() == Some(7) && SpannedYaml::<f64>::key_from_str("k").as_str() == Some("k"), "spanned: keys");
    let mut m = q.clone();
    if let Some(x) = m.as_bool_mut() { *x = !*x; ensure!(i, m.as_bool() == y.as_bool().map(|b| !b), "spanned: as_bool_mut write"); }
    if let Some(x) = m.as_i64_mut() { *x = 77; ensure!(i, m.as_i64() == Some(77), "spanned: as_i64_mut write"); }
    if let Some(x) = m.as_f64_mut() { *x = 7.5; ensure!(i, m.as_f64() == Some(7.5), "spanned: as_f64_mut write"); }
    if let Some(x) = m.as_str_mut() { x.make_ascii_uppercase(); ensure!(i, m.as_str() == y.as_str().map(|s| s.to_ascii_uppercase()).as_deref(), "spanned: as_str_mut write"); }
    Ok(())
}
fn p12(seed: u64, idx: u64) -> R {
    let mut r = Rng::new(seed, idx);
    let y = random_yaml(&mut r, 3);
    let inp = format!("{y:?}");
    let i: &str = &inp;
    let ty = match &y.0 {
        YamlData::Scalar(YamlScalar::Null(_)) => NodeType::Null,
        YamlData::Scalar(YamlScalar::Bool(_)) => NodeType::Bool,
        YamlData::Scalar(YamlScalar::Integer(_)) => NodeType::Integer,
        YamlData::Scalar(YamlScalar::FloatingPoint(_)) => NodeType::Floating,
        YamlData::Scalar(YamlScalar::String(_)) => NodeType::String,
        YamlData::Sequence(_) => NodeType::Sequence,
        YamlData::Mapping(_) => NodeType::Mapping,
        YamlData::Alias(_) => NodeType::Alias,
        YamlData::BadValue | YamlData::Tagged(..) => NodeType::Bad,
    };
    ensure!(i, y.get_type() == ty, "get_type is {:?}", y.get_type());
    let preds = [(NodeType::Bad, y.is_bad_value()), (NodeType::Null, y.is_null()), (NodeType::String, y.is_string()), (NodeType::Bool, y.is_bool()), (NodeType::Floating, y.is_floating_point()), (NodeType::Integer, y.is_integer()), (NodeType::Alias, y.is_alias()), (NodeType::Mapping, y.is_mapping()), (NodeType::Sequence, y.is_sequence())];
    for (t, b) in preds { ensure!(i, b == (t == ty), "the predicate for {t:?} is {b}"); }
    ensure!(i, y.is_collection() == matches!(ty, NodeType::Mapping | NodeType::Sequence), "is_collection");
    let nonempty = match &y.0 { YamlData::Sequence(s) => !s.is_empty(), YamlData::Mapping(m) => !m.is_empty(), _ => false };
    ensure!(i, y.is_non_empty_collection() == nonempty, "is_non_empty_collection");
    // values
    let b = if let YamlData::Scalar(YamlScalar::Bool(b)) = &y.0 { Some(*b) } else { None };
    let n = if let YamlData::Scalar(YamlScalar::Integer(b)) = &y.0 { Some(*b) } else { None };
    let f = if let YamlData::Scalar(YamlScalar::FloatingPoint(b)) = &y.0 { Some(*b) } else { None };
    let s = if let YamlData::Scalar(YamlScalar::String(b)) = &y.0 { Some(b.to_string()) } else { None };
    let mut m = y.clone();
    ensure!(i, m == y && y == m, "a clone is not equal");
    ensure!(i, y.as_bool() == b && y.clone().into_bool() == b && m.as_bool_mut().map(|x| *x) == b, "as_bool");
    ensure!(i, y.as_i64() == n && y.clone().into_i64() == n && m.as_i64_mut().map(|x| *x) == n, "as_i64");
    ensure!(i, y.as_f64() == f && y.clone().into_f64() == f && m.as_f64_mut().map(|x| *x) == f, "as_f64");
    ensure!(i, y.as_str() == s.as_deref() && y.clone().into_string() == s && m.as_str_mut().map(|x| x.to_string()) == s, "as_str");
    let sq = if let YamlData::Sequence(v) = &y.0 { Some(v) } else { None };
    let mp = if let YamlData::Mapping(v) = &y.0 { Some(v) } else { None };
    ensure!(i, y.as_sequence().ok() == sq && y.clone().into_sequence().as_ref() == sq && m.as_sequence_mut().ok().map(|x| &*x) == sq, "as_sequence");
    ensure!(i, y.as_mapping().ok() == mp && y.clone().into_mapping().as_ref() == mp && m.as_mapping_mut().ok().map(|x| &*x) == mp, "as_mapping");
    ensure!(i, sq.is_some() || y.as_sequence() == Err(YamlAccessError::ExpectedSequence), "as_sequence error");
    ensure!(i, mp.is_some() || y.as_mapping() == Err(YamlAccessError::ExpectedMapping), "as_mapping error");
    if let Some(v) = sq { ensure!(i, y.sequence() == v && m.sequence_mut() == v, "sequence()"); }
    if let Some(v) = mp { ensure!(i, y.mapping() == v && m.mapping_mut() == v, "mapping()"); }
    let tg = if let YamlData::Tagged(t, _) = &y.0 { Some(t.as_ref().clone()) } else { None };
    ensure!(i, y.get_tag() == tg, "get_tag is {:?}", y.get_tag());
    ensure!(i, m == y, "looking through mutable references changed the node");
    // writing through them
    let mut m = y.clone();
    if let Some(x) = m.as_bool_mut() { *x = !*x; ensure!(i, m.as_bool() == b.map(|b| !b), "as_bool_mut write"); }
    let mut m = y.clone();
    if let Some(x) = m.as_i64_mut() { *x = 77; ensure!(i, m == Yaml::from(77i64), "as_i64_mut write"); }
    let mut m = y.clone();
    if let Some(x) = m.as_f64_mut() { *x = 7.5; ensure!(i, m == Yaml::from(7.5f64), "as_f64_mut write"); }
    let mut m = y.clone();
    if let Some(x) = m.as_str_mut() { x.make_ascii_uppercase(); ensure!(i, m.as_str() == s.as_ref().map(|s| s.to_ascii_uppercase()).as_deref(), "as_str_mut write"); }
    // index
    let panics = |f: &dyn Fn()| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
    for k in 0..4usize {
        let want: Option<&Yaml> = match &y.0 {
            YamlData::Sequence(v) => v.get(k),
            YamlData::Mapping(v) => v.iter().find(|e| e.key == Yaml::from(k as i64)).map(|e| &e.value),
            _ => None,
        };
        match want {
            Some(w) => {
                ensure!(i, &y[k] == w, "[{k}] is {:?}", y[k]);
                let mut m = y.clone();
                m[k] = Yaml::from("new");
                ensure!(i, m[k] == Yaml::from("new"), "[{k}] = .. is lost");
                ensure!(i, diff(&y, &m) <= 1, "[{k}] = .. changes another entry: {m:?}");
            }
            None => ensure!(i, panics(&|| { let _ = &y[k]; }), "[{k}] of a missing entry"),
        }
    }
    for k in ["a", "0", "key", "zz", ""] {
        let want: Option<&Yaml> = match &y.0 { YamlData::Mapping(v) => v.iter().find(|e| e.key == Yaml::from(k)).map(|e| &e.value), _ => None };
        match want {
            Some(w) => {
                ensure!(i, &y[k] == w, "[{k:?}] is {:?}", y[k]);
                let mut m = y.clone();
                m[k] = Yaml::from("new");
                ensure!(i, m[k] == Yaml::from("new"), "[{k:?}] = .. is lost");
                ensure!(i, diff(&y, &m) <= 1, "[{k:?}] = .. changes another entry: {m:?}");
            }
            None => ensure!(i, panics(&|| { let _ = &y[k]; }), "[{k:?}] of a missing entry"),
        }
    }
    // take, tagging, equality
    let mut m = y.clone();
    let t = m.take();
    ensure!(i, t == y && m == Yaml::bad_value(), "take");
    let t = y.clone().into_tagged(Cow::Owned(Tag::new("!", "q")));
    ensure!(i, matches!(&t.0, YamlData::Tagged(g, b) if **g == Tag::new("!", "q") && **b == y) && t.get_tag() == Some(Tag::new("!", "q")) && t != y, "into_tagged");
    p12_spanned(i, &y)?;
    let mut z = y.clone();
    for _ in 0..1 + r.n(2) { mutate_node(&mut r, &mut z); }
    ensure!(i, (y == z) == eq_node(&y, &z) && (z == y) == eq_node(&y, &z), "equality with {z:?}");
    let z = random_yaml(&mut r, 3);
    ensure!(i, (y == z) == eq_node(&y, &z) && (z == y) == eq_node(&y, &z), "equality with {z:?}");
    ensure!(i, Yaml::<f64>::null().is_null() && Yaml::<f64>::bad_value().is_bad_value() && Yaml::<f64>::bad_span_value(Span::default()).is_bad_value(), "constructors");
    ensure!(i, y.clone().with_start(Marker::default()).with_end(Marker::default()).with_span(Span::default()) == y, "positions change the node");
    let u = r.n(1000);
    ensure!(i, Yaml::<f64>::key_from_usize(u) == Yaml::from(u as i64) && Yaml::<f64>::key_from_str("k") == Yaml::from("k"), "keys");
    Ok(Some(hash(i)))
}
/// entries at the top that differ
fn diff(a: &Yaml<'_>, b: &Yaml<'_>) -> usize {
    match (&a.0, &b.0) {
        (YamlData::Sequence(x), YamlData::Sequence(y)) if x.len() == y.len() => x.iter().zip(y).filter(|(p, q)| p != q).count(),
        (YamlData::Mapping(x), YamlData::Mapping(y)) if x.len() == y.len() => x.iter().zip(y).filter(|(p, q)| p.key != q.key || p.value != q.value).count(),
        _ => 99,
    }
}

// ------------------------------------------------------------------------------------ P19
fn p19(t: &str) -> Result<bool, Fail> {
    let run = pull(t);
    if run.capped { return Ok(false); }
    // the events of the first document
    let mut want = vec![];
    let mut complete = false;
    for (e, _) in &run.evs {
        match e {
            Event::StreamStart => {}
            Event::DocumentStart(_) if want.is_empty() => want.push(YamEvent::DocStart),
            Event::DocumentStart(_) | Event::StreamEnd => break,
            Event::DocumentEnd => { want.push(YamEvent::DocEnd); complete = true; break; }
            Event::Alias(a) => want.push(YamEvent::Alias(*a)),
            Event::Scalar(s) => want.push(YamEvent::Scalar(s.clone())),
            Event::SequenceStart(a, t) => want.push(YamEvent::SeqStart(*a, t.clone())),
            Event::SequenceEnd => want.push(YamEvent::SeqEnd),
            Event::MappingStart(a, t) => want.push(YamEvent::MapStart(*a, t.clone())),
            Event::MappingEnd => want.push(YamEvent::MapEnd),
            Event::Nothing | Event::Comment(_) => {}
        }
    }
    let owned = t.to_string();
    let mut it = ParserIter::from_str_ref(&owned);
    let mut got = vec![];
    while let Some(e) = it.next() { got.push(e); if got.len() > cap(t) { return fail(t, "events without end"); } }
    ensure!(t, got == want, "ParserIter yields\n  {got:?}\n  want {want:?}");
    for _ in 0..4 { ensure!(t, it.next().is_none(), "an event after the end of the iteration"); }
    let _ = complete;
    let mut it = ParserIter::new(StrSource::new(t));
    for w in &want { let g = it.next(); ensure!(t, g.as_ref() == Some(w), "{g:?} for {w:?}"); }
    ensure!(t, it.next().is_none(), "more events than the document has");
    Ok(want.len() > 3)
}

// ------------------------------------------------------------------------------------ P21
fn p21_input(seed: u64, idx: u64) -> String {
    let mut r = Rng::new(seed ^ 0x2121, idx);
    let n = r.n(30);
    (0..n).map(|_| match r.n(4) {
        0 => r.pick(&['a', 'Z', '9', '_', '-', ':', '#', '.', '?', '!', '%', '@']),
        1 => r.pick(&[' ', '\t', '\n', '\r', '\0', ' ', ' ']),
        2 => r.pick(&['-', '.', '[', ']', '{', '}', ',', '"', '\'', '-', '.']),
        _ => r.pick(&['é', '日', '😀', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10ffff}', '\u{85}', '\u{2028}', '\u{feff}']),
    }).collect()
}
fn p21(seed: u64, idx: u64) -> R {
    let text = p21_input(seed, idx);
    let mut r = Rng::new(seed ^ 0x2122, idx);
    let d = text.as_bytes();
    let i = &text;
    let mut s = StrSource::new(&text);
    let mut p = 0usize;
    let pk = |q: usize| d.get(q).copied().unwrap_or(0);
    let blank = |c: u8| c == b' ' || c == b'\t';
    let brk = |c: u8| c == b'\n' || c == b'\r';
    let flow = |c: u8| b",[]{}".contains(&c);
    for step in 0..40 {
        let at = |m: &str| format!("step {step}, offset {p}: {m}");
        for k in 0..6 {
            ensure!(i, s.peekz(k) == pk(p + k), "{}", at(&format!("peekz({k}) is {}", s.peekz(k))));
            ensure!(i, s.peek_checked(k) == d.get(p + k).copied(), "{}", at(&format!("peek_checked({k})")));
            if p + k < d.len() { ensure!(i, unsafe { s.peek_unsafe(k) } == d[p + k], "{}", at("peek_unsafe")); }
        }
        let far = r.n(1000);
        ensure!(i, s.peek_checked(far) == d.get(p + far).copied(), "{}", at("peek_checked"));
        ensure!(i, s.buf_is_empty() == (p >= d.len()), "{}", at("buf_is_empty"));
        ensure!(i, (4..1 << 28).contains(&s.buf_max_len()), "{}", at("buf_max_len"));
        if text.is_char_boundary(p) {
            let c = text[p..].chars().next();
            if let Some(c) = c { ensure!(i, s.peek_char() == c, "{}", at(&format!("peek_char is {:?}", s.peek_char()))); } else { let _ = s.peek_char(); }
        } else { let _ = s.peek_char(); }
        let three = |c: u8| pk(p) == c && pk(p + 1) == c && pk(p + 2) == c;
        let bobz = |c: u8| blank(c) || brk(c) || c == 0;
        for c in [b'-', b'.', 0, b'a'] {
            ensure!(i, s.next_is_three(c) == three(c), "{}", at("next_is_three"));
            ensure!(i, s.next_next_byte_is(c) == (pk(p + 1) == c), "{}", at("next_next_byte_is"));
        }
        ensure!(i, s.next_is_document_indicator() == ((three(b'-') || three(b'.')) && bobz(pk(p + 3))), "{}", at("next_is_document_indicator"));
        for fl in [false, true] {
            let want = !(pk(p) == b':' && (bobz(pk(p + 1)) || fl && flow(pk(p + 1)))) && !(fl && flow(pk(p)));
            ensure!(i, s.next_can_be_plain_scalar(fl) == want, "{}", at("next_can_be_plain_scalar"));
        }
        let run = |f: &dyn Fn(u8) -> bool| d[p.min(d.len())..].iter().take_while(|c| f(**c)).count();
        match r.n(8) {
            0 => { let k = r.n(3).min(d.len() - p.min(d.len())); s.skip(k); p += k; }
            1 => { let n = run(&blank); ensure!(i, s.skip_while_blank() == n, "{}", at("skip_while_blank")); p += n; }
            2 => { let n = run(&|c| !brk(c) && c != 0); ensure!(i, s.skip_while_non_breakz() == n, "{}", at("skip_while_non_breakz")); p += n; }
            3 => {
                let n = run(&|c| c.is_ascii_alphanumeric() || c == b'-' || c == b'_');
                let mut o = b"pre".to_vec();
                ensure!(i, s.fetch_while_is_alpha(&mut o) == n, "{}", at("fetch_while_is_alpha"));
                ensure!(i, o == [b"pre", &d[p..p + n]].concat(), "{}", at("fetch_while_is_alpha: bytes"));
                p += n;
            }
            4 => {
                let n = run(&|c| !brk(c));
                let mut o = b"pre".to_vec();
                s.push_non_breakz_chr(&mut o);
                ensure!(i, o == [b"pre", &d[p..p + n]].concat(), "{}", at("push_non_breakz_chr: bytes"));
                p += n;
            }
            5 => {
                let n = run(&|c| !brk(c));
                let mut o = vec![];
                s.skip_and_accumulate_to_eol(&mut o);
                ensure!(i, o == d[p..p + n], "{}", at("skip_and_accumulate_to_eol"));
                p += n;
            }
            _ => {
                let (tabs, ws) = (r.p(50), r.p(50));
                let (n, res) = s.skip_ws_to_eol(tabs, ws);
                // blanks, then a comment if blanks came before it
                let w = run(&|c| c == b' ' || tabs && c == b'\t');
                let (mut want, mut err) = (w, false);
                if pk(p + w) == b'#' {
                    if w > 0 || ws {
                        want = w + d[p + w..].iter().take_while(|c| !brk(**c) && **c != 0).count();
                        // what follows a comment is a break or the end; a NUL ends it as well
                    } else { err = true; }
                }
                ensure!(i, n as usize == want && res.is_err() == err, "{}", at(&format!("skip_ws_to_eol({tabs}, {ws}) = {n}, {}", res.is_err())));
                p += n as usize;
            }
        }
    }
    Ok(if text.is_empty() { None } else { Some(hash(&text)) })
}
