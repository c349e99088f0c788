//! Drives the implementation and writes down what it does in terms of the
//! reference model's types.
use crate::refm::{B, E, Frame, Preamble, StepR};
use gift::block as gb;
use gift::{Decoder, Error};
use std::io::Read;

pub fn ek(e: &Error) -> E {
    match e {
        Error::Io(e) => E::Io(e.kind()),
        Error::TryFromInt(_) => E::TryFromInt,
        Error::MalformedHeader => E::MalformedHeader,
        Error::UnsupportedVersion(v) => E::UnsupportedVersion(*v),
        Error::InvalidBlockCode => E::InvalidBlockCode,
        Error::InvalidBlockSequence => E::InvalidBlockSequence,
        Error::MalformedGraphicControlExtension => E::MalformedGce,
        Error::UnexpectedEndOfFile => E::Eof,
        Error::InvalidLzwData => E::InvalidLzw,
        Error::TooLargeImage => E::TooLarge,
        Error::IncompleteImageData => E::Incomplete,
        Error::InvalidFrameDimensions => E::InvalidFrameDims,
        Error::MissingColorTable => E::MissingColorTable,
        Error::InvalidColorIndex => E::InvalidColorIndex,
        Error::InvalidRasterDimensions => E::InvalidRasterDims,
        #[allow(unreachable_patterns)]
        e => E::Other(format!("{e:?}")),
    }
}

pub fn bk(b: &gb::Block) -> B {
    match b {
        gb::Block::Header(b) => B::Header(b.version()),
        gb::Block::LogicalScreenDesc(b) => B::Lsd {
            w: b.screen_width(),
            h: b.screen_height(),
            flags: b.flags(),
            bg: b.background_color_idx(),
            aspect: b.pixel_aspect_ratio(),
        },
        gb::Block::GlobalColorTable(b) => B::Gct(b.colors().to_vec()),
        gb::Block::PlainText(b) => B::Text(b.sub_blocks().to_vec()),
        gb::Block::GraphicControl(b) => B::Gce {
            flags: b.flags(),
            delay: b.delay_time_cs(),
            tidx: b.transparent_color_idx(),
        },
        gb::Block::Comment(b) => B::Comment(b.comments().to_vec()),
        gb::Block::Application(b) => B::App(b.app_data().to_vec()),
        gb::Block::Unknown(b) => {
            assert_eq!(b.ext_id().len(), 1, "extension identifier");
            B::Unknown(b.ext_id()[0], b.sub_blocks().to_vec())
        }
        gb::Block::ImageDesc(b) => B::Desc {
            l: b.left(),
            t: b.top(),
            w: b.width(),
            h: b.height(),
            flags: b.flags(),
        },
        gb::Block::LocalColorTable(b) => B::Lct(b.colors().to_vec()),
        gb::Block::ImageData(b) => B::Data(b.data().to_vec()),
        gb::Block::Trailer(_) => B::Trailer,
    }
}

pub fn mk_gce(flags: u8, delay: u16, tidx: u8) -> gb::GraphicControl {
    let mut g = gb::GraphicControl::default();
    g.set_flags(flags);
    g.set_delay_time_cs(delay);
    g.set_transparent_color_idx(tidx);
    g
}

pub fn desc(l: u16, t: u16, w: u16, h: u16, flags: u8) -> gb::ImageDesc {
    gb::ImageDesc::default()
        .with_left(l)
        .with_top(t)
        .with_width(w)
        .with_height(h)
        .with_flags(flags)
}

pub fn lsd(w: u16, h: u16, flags: u8, bg: u8, a: u8) -> gb::LogicalScreenDesc {
    gb::LogicalScreenDesc::default()
        .with_screen_width(w)
        .with_screen_height(h)
        .with_flags(flags)
        .with_background_color_idx(bg)
        .with_pixel_aspect_ratio(a)
}

pub fn image_data(px: &[u8]) -> gb::ImageData {
    let mut d = gb::ImageData::new(px.len());
    d.data_mut().extend_from_slice(px);
    d
}

pub fn comment(s: &[Vec<u8>]) -> gb::Comment {
    let mut c = gb::Comment::default();
    for s in s {
        c.add_comment(s);
    }
    c
}

pub fn app(s: &[Vec<u8>]) -> gb::Application {
    let mut c = gb::Application::default();
    for s in s {
        c.add_app_data(s);
    }
    c
}

/// Build a block through the public constructors
pub fn to_block(b: &B) -> gb::Block {
    match b {
        B::Header(v) => gb::Header::with_version(*v).into(),
        B::Lsd { w, h, flags, bg, aspect } => {
            lsd(*w, *h, *flags, *bg, *aspect).into()
        }
        B::Gct(c) => gb::GlobalColorTable::with_colors(c).into(),
        B::Lct(c) => gb::LocalColorTable::with_colors(c).into(),
        B::Text(s) => {
            let mut t = gb::PlainText::default();
            for s in s {
                t.add_sub_block(s);
            }
            t.into()
        }
        B::Gce { flags, delay, tidx } => mk_gce(*flags, *delay, *tidx).into(),
        B::Comment(s) => comment(s).into(),
        B::App(s) => app(s).into(),
        B::Unknown(id, s) => {
            let mut t = gb::Unknown::default();
            t.add_sub_block(&[*id]);
            for s in s {
                t.add_sub_block(s);
            }
            t.into()
        }
        B::Desc { l, t, w, h, flags } => desc(*l, *t, *w, *h, *flags).into(),
        B::Data(px) => image_data(px).into(),
        B::Trailer => gb::Trailer::default().into(),
    }
}

pub fn fr(f: &gb::Frame) -> Frame {
    Frame {
        gce: f
            .graphic_control_ext
            .map(|g| (g.flags(), g.delay_time_cs(), g.transparent_color_idx())),
        l: f.image_desc.left(),
        t: f.image_desc.top(),
        w: f.image_desc.width(),
        h: f.image_desc.height(),
        flags: f.image_desc.flags(),
        lct: f.local_color_table.as_ref().map(|t| t.colors().to_vec()),
        px: f.image_data.data().to_vec(),
    }
}

pub fn to_frame(f: &Frame) -> gb::Frame {
    gb::Frame::new(
        f.gce.map(|(a, b, c)| mk_gce(a, b, c)),
        desc(f.l, f.t, f.w, f.h, f.flags),
        f.lct.as_ref().map(|c| gb::LocalColorTable::with_colors(c)),
        image_data(&f.px),
    )
}

pub fn pre(p: &gb::Preamble) -> Preamble {
    let l = p.logical_screen_desc;
    Preamble {
        version: p.header.version(),
        w: l.screen_width(),
        h: l.screen_height(),
        flags: l.flags(),
        bg: l.background_color_idx(),
        aspect: l.pixel_aspect_ratio(),
        gct: p.global_color_table.as_ref().map(|t| t.colors().to_vec()),
        loop_ext: p.loop_count_ext.as_ref().map(|a| a.app_data().to_vec()),
        comments: p.comments.iter().map(|c| c.comments().to_vec()).collect(),
    }
}

pub fn to_pre(p: &Preamble) -> gb::Preamble {
    gb::Preamble {
        header: gb::Header::with_version(p.version),
        logical_screen_desc: lsd(p.w, p.h, p.flags, p.bg, p.aspect),
        global_color_table: p
            .gct
            .as_ref()
            .map(|c| gb::GlobalColorTable::with_colors(c)),
        loop_count_ext: p.loop_ext.as_ref().map(|a| app(a)),
        comments: p.comments.iter().map(|c| comment(c)).collect(),
    }
}

pub fn st(s: &gift::Step) -> StepR {
    let r = s.raster();
    StepR {
        w: r.width(),
        h: r.height(),
        rgba: r.as_u8_slice().to_vec(),
        delay: s.delay_time_cs().unwrap_or(0),
        transparent: s.transparent_color(),
    }
}

/// What an iterator did
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Obs<T> {
    pub items: Vec<T>,
    pub err: Option<E>,
    /// None was returned directly after the items (or the error)
    pub ended: bool,
}

/// Iterate to the first None, at most `max` calls
pub fn drain<I, T, U>(
    it: &mut I,
    max: usize,
    f: impl Fn(&T) -> U,
) -> Obs<U>
where
    I: Iterator<Item = gift::Result<T>>,
{
    let mut o = Obs { items: vec![], err: None, ended: false };
    for _ in 0..max {
        match it.next() {
            Some(Ok(t)) => {
                if o.err.is_some() {
                    return o;
                }
                o.items.push(f(&t))
            }
            Some(Err(e)) => {
                if o.err.is_some() {
                    return o;
                }
                o.err = Some(ek(&e));
            }
            None => {
                o.ended = true;
                return o;
            }
        }
    }
    o
}

pub type Lim = Option<Option<usize>>;

thread_local! {
    /// Decode without limit where the default would do
    static UNLIMITED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Set decoders of files within the default limit to have none, or not
pub fn set_unlimited(on: bool) {
    UNLIMITED.set(on);
}

pub fn decoder<R: Read>(r: R, lim: Lim) -> Decoder<R> {
    match lim {
        None if UNLIMITED.get() => Decoder::new(r).max_image_sz(None),
        None => Decoder::new(r),
        Some(l) => Decoder::new(r).max_image_sz(l),
    }
}

pub fn lim_value(lim: Lim) -> Option<usize> {
    match lim {
        None => Some(crate::refm::DEFAULT_LIMIT),
        Some(l) => l,
    }
}

pub fn obs_blocks<R: Read>(r: R, lim: Lim, max: usize) -> Obs<B> {
    drain(&mut decoder(r, lim).into_blocks(), max, bk)
}

pub fn obs_frames<R: Read>(r: R, lim: Lim, max: usize) -> Obs<Frame> {
    drain(&mut decoder(r, lim).into_frames(), max, fr)
}

/// Frames after reading the preamble
pub fn obs_pre_frames<R: Read>(
    r: R,
    lim: Lim,
    max: usize,
) -> (Result<Option<Preamble>, E>, Obs<Frame>) {
    let mut f = decoder(r, lim).into_frames();
    let p = f.preamble();
    let p = match p {
        Ok(p) => Ok(p.as_ref().map(pre)),
        Err(e) => {
            return (
                Err(ek(&e)),
                Obs { items: vec![], err: None, ended: true },
            );
        }
    };
    (p, drain(&mut f, max, fr))
}

pub fn obs_steps<R: Read>(r: R, lim: Lim, max: usize) -> Obs<StepR> {
    drain(&mut decoder(r, lim).into_steps(), max, st)
}
