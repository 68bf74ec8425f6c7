use arbitrary::{Arbitrary, Unstructured};
use sherman::{Constant, Index, Slice};
use std::fmt::{self, Debug, Formatter};
use std::panic::{RefUnwindSafe, UnwindSafe};

/// Index types the commands are generated for
pub trait Ix: Index + Debug + UnwindSafe + RefUnwindSafe + for<'d> Arbitrary<'d> + 'static {
    const MAX: i128;
    const WIDTH: usize;
    const NAME: &'static str;
    fn to_i(self) -> i128;
    fn from_i(v: i128) -> Option<Self>;
}
macro_rules! ix {
    ($($t:ident)*) => { $(impl Ix for $t {
        const MAX: i128 = if ($t::MAX as u128) > i128::MAX as u128 { i128::MAX } else { $t::MAX as i128 };
        const WIDTH: usize = ($t::BITS / 8) as usize;
        const NAME: &'static str = stringify!($t);
        fn to_i(self) -> i128 { self.try_into().unwrap_or(i128::MAX) }
        fn from_i(v: i128) -> Option<Self> { v.try_into().ok() }
    })* }
}
ix!(u8 u16 u32 u64 usize);

/// Slice types the commands are generated for
pub trait Sv<I>: Slice<I> + Debug + Clone + PartialEq + UnwindSafe + RefUnwindSafe + for<'d> Arbitrary<'d> + 'static {
    const NAME: &'static str;
    /// extent in `text` of the debug form of a value, and the value
    fn parse(text: &str) -> Option<(Self, usize, usize)>;
    fn join(l: Self, lsize: i128, r: Self, rsize: i128) -> Result<Self, ()>;
    /// another value of the type
    fn other(&self) -> Self;
}

#[derive(Copy, Clone, PartialEq, Eq)]
pub struct Letter(pub char);
impl Debug for Letter {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<'d> Arbitrary<'d> for Letter {
    fn arbitrary(u: &mut Unstructured<'d>) -> arbitrary::Result<Self> {
        Ok(Letter((b'A' + u.int_in_range(0_u8..=25)?) as char))
    }
}

fn span(text: &str, head: &str, tail: char) -> Option<(usize, usize)> {
    let a = text.find(head)?;
    let b = a + text[a..].find(tail)? + 1;
    Some((a, b))
}

pub type Const = Constant<Letter>;
impl<I: Ix> Sv<I> for Const {
    const NAME: &'static str = "Constant<char>";
    fn parse(text: &str) -> Option<(Self, usize, usize)> {
        let (a, b) = span(text, "Constant('", ')')?;
        Some((Constant(Letter(text[a..b].chars().nth(10)?)), a, b))
    }
    fn join(l: Self, _: i128, r: Self, _: i128) -> Result<Self, ()> {
        if l == r { Ok(l) } else { Err(()) }
    }
    fn other(&self) -> Self {
        Constant(Letter(if self.0 .0 == 'A' { 'B' } else { 'A' }))
    }
}

/// never joins
#[derive(Debug, Copy, Clone, PartialEq, Eq, Arbitrary)]
pub struct Solo(pub u8);
impl<I> Slice<I> for Solo {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: I) -> Self {
        *self
    }
    fn try_join(self, other: Self) -> Result<Self, (Self, Self)> {
        Err((self, other))
    }
}
impl<I: Ix> Sv<I> for Solo {
    const NAME: &'static str = "Solo";
    fn parse(text: &str) -> Option<(Self, usize, usize)> {
        let (a, b) = span(text, "Solo(", ')')?;
        Some((Solo(text[a + 5..b - 1].parse().ok()?), a, b))
    }
    fn join(_: Self, _: i128, _: Self, _: i128) -> Result<Self, ()> {
        Err(())
    }
    fn other(&self) -> Self {
        Solo(self.0 ^ 1)
    }
}

/// a stretch of text that remembers the piece cut off it, joins only with its continuation
#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub struct Seg<I>(pub u8, pub I, pub Option<I>);
impl<I: Ix> Seg<I> {
    fn new(tag: u8) -> Self {
        Seg(tag, I::from_i(0).unwrap(), None)
    }
}
impl<I: Ix> Slice<I> for Seg<I> {
    const MAY_JOIN: bool = true;
    // (tag, first, end if it was cut there)
    fn split_at(&mut self, at: I) -> Self {
        let cut = I::from_i(self.1.to_i() + at.to_i()).unwrap();
        let r = Seg(self.0, cut, self.2);
        self.2 = Some(cut);
        r
    }
    fn try_join(self, other: Self) -> Result<Self, (Self, Self)> {
        if self.0 == other.0 && self.2 == Some(other.1) {
            Ok(Seg(self.0, self.1, other.2))
        } else {
            Err((self, other))
        }
    }
}
impl<'d, I: Ix> Arbitrary<'d> for Seg<I> {
    fn arbitrary(u: &mut Unstructured<'d>) -> arbitrary::Result<Self> {
        Ok(Seg::new(u8::arbitrary(u)?))
    }
}
impl<I: Ix> Sv<I> for Seg<I> {
    const NAME: &'static str = "Seg";
    fn parse(text: &str) -> Option<(Self, usize, usize)> {
        let (a, mut b) = span(text, "Seg(", ')')?;
        let inner = if text[a..b].contains("Some(") {
            b += 1;
            text[a + 4..b - 1].to_string()
        } else {
            text[a + 4..b - 1].to_string()
        };
        let p: Vec<&str> = inner.split(", ").collect();
        let end = match *p.get(2)? {
            "None" => None,
            s => Some(I::from_i(s.strip_prefix("Some(")?.strip_suffix(")")?.parse().ok()?)?),
        };
        Some((Seg(p[0].parse().ok()?, I::from_i(p[1].parse().ok()?)?, end), a, b))
    }
    fn join(l: Self, _: i128, r: Self, _: i128) -> Result<Self, ()> {
        l.try_join(r).map_err(|_| ())
    }
    fn other(&self) -> Self {
        Seg(self.0 ^ 1, self.1, self.2)
    }
}
