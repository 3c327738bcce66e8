//! C01 for concrete types: each shape of restyle the library implements the
//! trait for, made of concrete types instead of expressions.

use stylish::{Background, Foreground, Intensity, Restyle, Style, StyleDiff};

use crate::{
    engine::{Case, Src},
    model::*,
};

trait Shape: Restyle {
    fn make(src: &mut Src) -> Self;
    fn model(&self, s: St) -> St;
}

/// User-defined restyles without fields.
#[derive(Default)]
struct Loud;
#[derive(Default)]
struct Calm;
/// One that keeps the style.
#[derive(Default)]
struct Keep;

impl Restyle for Loud {
    fn apply(&self, style: Style) -> Style {
        style.with(Foreground(COLORS[2])).with(Intensity::Bold)
    }
}

impl Restyle for Calm {
    fn apply(&self, _: Style) -> Style {
        Style::default()
    }
}

/// A large one, which undoes itself if applied twice.
struct Wide([u64; 40]);

impl Restyle for Wide {
    fn apply(&self, style: Style) -> Style {
        assert!(self.0.iter().all(|&n| n == 7));
        style.with(SwapRestyle)
    }
}

impl Shape for Wide {
    fn make(_: &mut Src) -> Self {
        Wide([7; 40])
    }
    fn model(&self, s: St) -> St {
        SwapRestyle.model(s)
    }
}

impl Restyle for Keep {
    fn apply(&self, style: Style) -> Style {
        style
    }
}

macro_rules! fieldless {
    ($($t:ident $s:ident => $e:expr;)*) => {$(
        impl Shape for $t {
            fn make(_: &mut Src) -> Self { $t }
            fn model(&self, $s: St) -> St { $e }
        }
    )*}
}

fieldless! {
    Loud s => St { fg: 2, int: 1, ..s };
    Calm _s => PLAIN;
    Keep s => s;
    SwapRestyle s => St { fg: s.bg, bg: s.fg, ..s };
}

impl Shape for () {
    fn make(_: &mut Src) -> Self {}
    #[inline(never)]
    fn model(&self, s: St) -> St {
        s
    }
}

impl Shape for Foreground {
    #[inline(never)]
    fn make(src: &mut Src) -> Self {
        Foreground(COLORS[src.below(17) as usize])
    }
    #[inline(never)]
    fn model(&self, s: St) -> St {
        St { fg: color_index(self.0), ..s }
    }
}

impl Shape for Background {
    #[inline(never)]
    fn make(src: &mut Src) -> Self {
        Background(COLORS[src.below(17) as usize])
    }
    #[inline(never)]
    fn model(&self, s: St) -> St {
        St { bg: color_index(self.0), ..s }
    }
}

impl Shape for Intensity {
    #[inline(never)]
    fn make(src: &mut Src) -> Self {
        INTENSITIES[src.below(3) as usize]
    }
    #[inline(never)]
    fn model(&self, s: St) -> St {
        St { int: intensity_index(*self), ..s }
    }
}

impl Shape for Style {
    #[inline(never)]
    fn make(src: &mut Src) -> Self {
        St::generate(src).real()
    }
    #[inline(never)]
    fn model(&self, _: St) -> St {
        St::of(*self)
    }
}

impl Shape for StyleDiff {
    #[inline(never)]
    fn make(src: &mut Src) -> Self {
        let mut pick = |n: u64| match src.below(n + 1) {
            0 => None,
            v => Some((v - 1) as u8),
        };
        diff(pick(17), pick(17), pick(3))
    }
    #[inline(never)]
    fn model(&self, s: St) -> St {
        St {
            fg: self.foreground.map_or(s.fg, color_index),
            bg: self.background.map_or(s.bg, color_index),
            int: self.intensity.map_or(s.int, intensity_index),
        }
    }
}

impl<T: Shape> Shape for Option<T> {
    #[inline(never)]
    fn make(src: &mut Src) -> Self {
        src.chance(2, 3).then(|| T::make(src))
    }
    #[inline(never)]
    fn model(&self, s: St) -> St {
        self.as_ref().map_or(s, |t| t.model(s))
    }
}

impl<T: Shape> Shape for Box<T> {
    #[inline(never)]
    fn make(src: &mut Src) -> Self {
        Box::new(T::make(src))
    }
    #[inline(never)]
    fn model(&self, s: St) -> St {
        (**self).model(s)
    }
}

impl<T: Shape, U: Shape> Shape for (T, U) {
    #[inline(never)]
    fn make(src: &mut Src) -> Self {
        (T::make(src), U::make(src))
    }
    #[inline(never)]
    fn model(&self, s: St) -> St {
        self.1.model(self.0.model(s))
    }
}

impl<T: Shape, U: Shape, V: Shape> Shape for (T, U, V) {
    #[inline(never)]
    fn make(src: &mut Src) -> Self {
        (T::make(src), U::make(src), V::make(src))
    }
    #[inline(never)]
    fn model(&self, s: St) -> St {
        self.2.model(self.1.model(self.0.model(s)))
    }
}

fn one<T: Shape + 'static>(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let start = St::generate(src);
    let list: Vec<T> = src.list(1, 4, 1, |src| T::make(src));
    let t = &list[0];
    let want = t.model(start);
    let all = list.iter().fold(start, |s, t| t.model(s));
    case.repr(|| format!("{start:?} restyled by a {}", std::any::type_name::<T>()));
    case.nontrivial = want != start || all != start;
    let s = start.real();
    let boxed: Box<[&T]> = list.iter().collect();
    for (how, got, want) in [
        ("apply", t.apply(s), want),
        ("with a reference", s.with(t), want),
        ("through a trait object", s.with(t as &dyn Restyle), want),
        ("through a boxed trait object", s.with(Box::new(t) as Box<dyn Restyle + '_>), want),
        ("as an option", s.with(Some(t)), want),
        ("before unit", s.with((t, ())), want),
        ("after unit", s.with(((), t)), want),
        ("between units", s.with(((), t, ())), want),
        ("as a slice", s.with(&list[..]), all),
        ("as a slice of references", s.with(&boxed[..]), all),
        ("as a boxed slice", s.with(boxed), all),
        ("as a boxed slice of values", s.with(list.into_boxed_slice()), all),
    ] {
        if St::of(got) != want {
            let t = std::any::type_name::<T>();
            return Err(format!("{how}: {start:?} restyled by a {t} is {:?}, expected {want:?}", St::of(got)));
        }
    }
    Ok(())
}

/// The same for the types there are many of.
fn brief<T: Shape + 'static>(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let start = St::generate(src);
    let t = T::make(src);
    let (want, got) = (t.model(start), St::of(t.apply(start.real())));
    verdict(case, start, want, got, std::any::type_name::<T>)
}

fn verdict(case: &mut Case, start: St, want: St, got: St, name: fn() -> &'static str) -> Result<(), String> {
    case.repr(|| format!("{start:?} restyled by a {}", name()));
    case.nontrivial = want != start;
    if got != want {
        return Err(format!("{start:?} restyled by a {} is {got:?}, expected {want:?}", name()));
    }
    Ok(())
}

type Check = fn(&mut Src, &mut Case) -> Result<(), String>;

macro_rules! leaves {
    ($m:ident) => {
        $m! { [(), Foreground, Intensity, Style, StyleDiff, Loud, SwapRestyle, Wide, Option<Background>, Box<Calm>] }
    };
}
macro_rules! few {
    ($m:ident) => {
        $m! { [(), Foreground, Loud, Option<Background>] }
    };
}
macro_rules! singles {
    ([$($a:ty),*]) => { &[$(one::<$a>, brief::<Option<$a>>, brief::<Box<$a>>, brief::<Option<Box<$a>>>),*] };
}
macro_rules! pairs {
    ($bs:tt) => { each!(pairs_of $bs $bs) };
}
macro_rules! each {
    ($m:ident $bs:tt [$($a:ty),*]) => { &[$($m!($a, $bs)),*] };
}
macro_rules! pairs_of {
    ($a:ty, [$($b:ty),*]) => { &[$(brief::<($a, $b)>),*] };
}
macro_rules! triples {
    ($bs:tt) => { each!(triples_of [$bs $bs] $bs) };
}
macro_rules! triples_of {
    ($a:ty, [[$($b:ty),*] $cs:tt]) => { &[$(triples_at!($a, $b, $cs)),*] };
}
macro_rules! triples_at {
    ($a:ty, $b:ty, [$($c:ty),*]) => { &[$(brief::<($a, $b, $c)> as Check),*] };
}

const SINGLES: &[Check] = leaves!(singles);
const PAIRS: &[&[Check]] = leaves!(pairs);
const TRIPLES: &[&[&[Check]]] = few!(triples);
const NESTED: &[Check] = &[
    brief::<Background>,
    brief::<Keep>,
    brief::<Calm>,
    brief::<((Foreground, Loud), Calm)>,
    brief::<(Foreground, (Loud, Calm))>,
    brief::<(Option<Foreground>, Option<Background>, Option<Intensity>)>,
    brief::<((), (), (Loud, Keep))>,
    brief::<((Loud, Keep), ((), Calm), Option<((), Loud)>)>,
    brief::<Option<Option<Foreground>>>,
    brief::<Box<(Style, StyleDiff)>>,
    brief::<(Box<Calm>, Box<((), Loud)>)>,
    brief::<Option<(SwapRestyle, Loud, SwapRestyle)>>,
    brief::<(Wide, Loud, Option<Wide>)>,
    brief::<Option<(Wide, (Loud, Wide), Wide)>>,
    brief::<((Foreground, Background, Intensity), (Keep, Keep), StyleDiff)>,
];

pub fn c01_shapes(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let check = match src.weighted(&[2, 6, 6, 1]) {
        0 => *src.pick(SINGLES),
        1 => {
            let of = *src.pick(PAIRS);
            *src.pick(of)
        }
        2 => {
            let of = *src.pick(TRIPLES);
            let of = *src.pick(of);
            *src.pick(of)
        }
        _ => *src.pick(NESTED),
    };
    check(src, case)
}
