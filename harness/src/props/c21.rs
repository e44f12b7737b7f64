//! Reports written to a writer which takes little at a time, is interrupted, or fails.
use super::c13::{build, element, gen_sources, note, rep, words};
use crate::driver::*;
use crate::reporting::*;
use crate::src::Src;
use beancount_parser_lima::*;
use std::io::{self, ErrorKind as Io, Write};

pub const PROP: Prop = Prop {
    id: "C21",
    rule: "a case counts as non-trivial when the writer failed before the reports were complete, or took less than it was given, or was interrupted; distinct by the sources, reports and faults",
    quick: 200_000,
    thorough: 6_000_000,
    run,
    bounds_memory: false,
    known: no_known,
};

/// takes `room` bytes in all, then fails with `kind`, or takes nothing more if there is none
struct Faulty {
    got: Vec<u8>,
    room: usize,
    kind: Option<Io>,
    /// at most so many at a time
    most: usize,
    /// before which of the calls there is an interruption: every nth
    interrupt: usize,
    calls: usize,
    failed: bool,
    short: bool,
}

impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupt > 0 && self.calls % self.interrupt == 0 {
            self.short = true;
            return Err(Io::Interrupted.into());
        }
        let n = b.len().min(self.most).min(self.room);
        if n == 0 && !b.is_empty() {
            self.failed = true;
            return match self.kind {
                Some(k) => Err(io::Error::new(k, "no more")),
                None => Ok(0),
            };
        }
        self.short |= n < b.len();
        self.got.extend_from_slice(&b[..n]);
        self.room -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

const KINDS: &[Io] = &[Io::BrokenPipe, Io::StorageFull, Io::Other, Io::PermissionDenied, Io::TimedOut, Io::WouldBlock, Io::UnexpectedEof, Io::InvalidData];

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let (sources, mut model) = gen_sources(s, ctx, &text);
    let synthetic = s.chance(1, 3);
    let mut syn = SyntheticSources::new(&sources);
    if synthetic {
        let t = text(s);
        let span = syn.create_synthetic_span("made up", &t);
        model.push(Source { id: span.source, name: "made up".into(), file: Some("made up".into()), text: t });
    }
    enum What {
        Report(Rep),
        Errors(Vec<AnnotatedError>),
        Warnings(Vec<AnnotatedWarning>),
    }
    let n = s.upto(4, 12);
    let n = s.range(1, n);
    let (what, reps) = match s.weighted(&[2, 3, 2]) {
        0 => {
            ctx.class("a report");
            let r = rep(s, &model);
            (What::Report(r.clone()), vec![r])
        }
        1 => {
            ctx.class("errors");
            let (es, reps): (Vec<_>, Vec<_>) = (0..n)
                .map(|_| {
                    let e = element(s, &model).error(words(s));
                    build(s, &model, e, true)
                })
                .unzip();
            (What::Errors(es), reps)
        }
        _ => {
            ctx.class("warnings");
            let (es, reps): (Vec<_>, Vec<_>) = (0..n)
                .map(|_| {
                    let e = element(s, &model).warning(words(s));
                    build(s, &model, e, false)
                })
                .unzip();
            (What::Warnings(es), reps)
        }
    };
    note(ctx, &model, &reps);
    let mut whole = Vec::new();
    macro_rules! write_to {
        ($on:expr, $w:expr) => {
            match &what {
                What::Report(r) if r.error => $on.write_report::<_, ErrorKind, _>($w, r),
                What::Report(r) => $on.write_report::<_, WarningKind, _>($w, r),
                What::Errors(es) => $on.write_errors_or_warnings($w, es.clone()),
                What::Warnings(es) => $on.write_errors_or_warnings($w, es.clone()),
            }
        };
    }
    if synthetic { write_to!(syn, &mut whole) } else { write_to!(sources, &mut whole) }.map_err(|e| format!("writing failed: {e}"))?;
    let room = match s.weighted(&[6, 2, 2, 1]) {
        0 => s.below(whole.len() + 1),
        1 => whole.len() - s.below(8.min(whole.len()) + 1),
        2 => usize::MAX,
        _ => whole.len() + s.below(3),
    };
    let kind = if s.chance(1, 8) { None } else { Some(*s.pick(KINDS)) };
    let most = *s.pick(&[usize::MAX, 1, 2, 3, 7, 64]);
    let interrupt = if s.chance(1, 3) { s.range(2, 9) } else { 0 };
    ctx.input(format!("{}--- room for {room} of {} bytes, {most} at a time, then {kind:?}; interrupted every {interrupt}, synthetic {synthetic}", ctx.sample, whole.len()));
    let mut w = Faulty { got: vec![], room, kind, most, interrupt, calls: 0, failed: false, short: false };
    let r = if synthetic { write_to!(syn, &mut w) } else { write_to!(sources, &mut w) };
    ctx.nontrivial = w.failed || w.short;
    if !whole.starts_with(&w.got) {
        return Err(format!("what has been written is not the start of the report: {:?}", String::from_utf8_lossy(&w.got)));
    }
    match r {
        Ok(()) if w.got.len() < whole.len() => return Err(format!("only {} of {} bytes have been written, and no error is returned", w.got.len(), whole.len())),
        Ok(()) => {}
        Err(e) if room >= whole.len() => return Err(format!("there was room for all, but: {e}")),
        Err(e) if e.kind() != kind.unwrap_or(Io::WriteZero) => return Err(format!("the writer failed with {kind:?}, but the error returned is {:?}", e.kind())),
        Err(_) => {}
    }
    // and there is no harm done
    let mut again = Vec::new();
    if synthetic { write_to!(syn, &mut again) } else { write_to!(sources, &mut again) }.map_err(|e| format!("writing again failed: {e}"))?;
    if again != whole {
        return Err("another report is written after the failure".into());
    }
    Ok(())
}
