//! The values of the templates.

use std::fmt;

use vsim::rng::{mix, Rng};

use crate::ctx;

/// Displays a text in pieces
#[derive(Clone, Debug)]
pub struct P(Vec<String>);

#[derive(Debug)]
pub struct Failed;

impl fmt::Display for Failed {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("injected")
    }
}

impl std::error::Error for Failed {}

impl P {
    fn new(rng: &mut Rng, max: usize) -> P {
        const TEXTS: &[&str] = &["PIECE", "PIECE<b>", "PIECE&", "PIECE é", "PIECE😀", "PIECE\"'", "PIECE \n", ""];
        P((0..rng.below(max + 1)).map(|_| rng.pick(TEXTS).repeat(*rng.pick(&[1, 1, 1, 2, 40]))).collect())
    }

    /// May yield an error instead
    pub fn get(&self) -> Result<&P, Failed> {
        ctx::op(2).map_err(|()| Failed)?;
        Ok(self)
    }
}

impl fmt::Display for P {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for p in &self.0 {
            ctx::op(1).map_err(|()| fmt::Error)?;
            f.write_str(p)?;
        }
        ctx::op(3).map_err(|()| fmt::Error)
    }
}

#[derive(Clone, Debug)]
pub struct Vals {
    pub a: P,
    pub b: P,
    pub items: Vec<P>,
    pub opt: Option<P>,
    pub flag: bool,
    pub n: u32,
}

impl Vals {
    pub fn new(seed: u64) -> Vals {
        let mut rng = Rng::new(mix(seed, 5));
        let many = rng.chance(1, 12);
        Vals {
            a: P::new(&mut rng, 3),
            b: P::new(&mut rng, 3),
            items: (0..if many { rng.range(50, 400) } else { rng.below(4) }).map(|_| P::new(&mut rng, 2)).collect(),
            opt: rng.chance(1, 2).then(|| P::new(&mut rng, 2)),
            flag: rng.chance(1, 2),
            n: rng.below(1000) as u32,
        }
    }
}
