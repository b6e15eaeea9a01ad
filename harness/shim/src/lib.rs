//! Non-generic entry points to jotdown, compiled with the same instrumentation as jotdown itself
//! (jotdown's renderer and iterator adapters are generic, so their code is generated in the crate
//! that instantiates them; instantiating them here keeps that code instrumented and keeps the
//! monitors themselves uninstrumented).
use jotdown::html::{Indentation, Renderer};
use jotdown::{Attributes, Event, ParseAttributesError, Parser, Render};
use std::ops::Range;

pub type Spanned<'s> = (Event<'s>, Range<usize>);

#[inline(never)]
pub fn parser(src: &str) -> Parser<'_> {
    Parser::new(src)
}

#[inline(never)]
pub fn next<'s>(p: &mut Parser<'s>) -> Option<Event<'s>> {
    p.next()
}

#[inline(never)]
pub fn next_offset<'s>(p: &mut jotdown::OffsetIter<'s>) -> Option<Spanned<'s>> {
    p.next()
}

#[inline(never)]
pub fn clone_parser<'s>(p: &Parser<'s>) -> Parser<'s> {
    p.clone()
}

#[inline(never)]
pub fn events(src: &str) -> Vec<Event<'_>> {
    Parser::new(src).collect()
}

#[inline(never)]
pub fn spanned(src: &str) -> Vec<Spanned<'_>> {
    Parser::new(src).into_offset_iter().collect()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Format {
    Default,
    Minified,
    Indented { string: String, level: usize },
}

#[inline(never)]
pub fn renderer<'s>(f: &Format) -> Renderer<'s> {
    match f {
        Format::Default => Renderer::default(),
        Format::Minified => Renderer::minified(),
        Format::Indented { string, level } => Renderer::indented(Indentation {
            string: string.clone(),
            initial_level: *level,
        }),
    }
}

/// Render a whole event vector with `push_events`.
#[inline(never)]
pub fn render(events: Vec<Event<'_>>, f: &Format) -> Result<String, std::fmt::Error> {
    let mut out = String::new();
    renderer(f).push_events(events.into_iter(), &mut out)?;
    Ok(out)
}

/// Render one event at a time with `push_event`.
#[inline(never)]
pub fn render_each(events: Vec<Event<'_>>, f: &Format) -> Result<String, std::fmt::Error> {
    let mut out = String::new();
    let mut r = renderer(f);
    for e in events {
        r.push_event(e, &mut out)?;
    }
    Ok(out)
}

#[inline(never)]
pub fn render_to_string(events: Vec<Event<'_>>) -> String {
    jotdown::html::render_to_string(events.into_iter())
}

#[inline(never)]
pub fn render_src(src: &str) -> String {
    jotdown::html::render_to_string(Parser::new(src))
}

#[inline(never)]
pub fn write_events_dyn(
    events: Vec<Event<'_>>,
    f: &Format,
    out: &mut dyn std::io::Write,
) -> std::io::Result<()> {
    renderer(f).write_events(events.into_iter(), out)
}

#[inline(never)]
pub fn write_each_dyn(
    events: Vec<Event<'_>>,
    f: &Format,
    out: &mut dyn std::io::Write,
) -> std::io::Result<()> {
    let mut r = renderer(f);
    for e in events {
        r.write_event(e, &mut *out)?;
    }
    Ok(())
}

#[inline(never)]
pub fn push_events_dyn(
    events: Vec<Event<'_>>,
    f: &Format,
    out: &mut dyn std::fmt::Write,
) -> std::fmt::Result {
    renderer(f).push_events(events.into_iter(), out)
}

#[inline(never)]
pub fn attributes(s: &str) -> Result<Attributes<'_>, ParseAttributesError> {
    Attributes::try_from(s)
}

/// Parse to the end without keeping the events.
#[inline(never)]
pub fn count(src: &str) -> usize {
    Parser::new(src).count()
}

/// Parse and render to the end, keeping only the output.
#[inline(never)]
pub fn html(src: &str, f: &Format) -> String {
    let mut out = String::new();
    renderer(f).push_events(Parser::new(src), &mut out).expect("a string accepts everything");
    out
}
