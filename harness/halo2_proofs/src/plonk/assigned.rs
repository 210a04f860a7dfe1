use ff::Field;
/// a value assigned to a cell, possibly an unevaluated fraction
#[derive(Clone, Copy, Debug)]
pub enum Assigned<F> {
    Zero,
    Trivial(F),
    Rational(F, F),
}
impl<F: Field> From<&F> for Assigned<F> {
    fn from(v: &F) -> Self {
        Assigned::Trivial(*v)
    }
}
impl<F: Field> From<&Assigned<F>> for Assigned<F> {
    fn from(v: &Assigned<F>) -> Self {
        *v
    }
}
impl<F: Field> From<F> for Assigned<F> {
    fn from(v: F) -> Self {
        Assigned::Trivial(v)
    }
}
impl<F: Field> From<(F, F)> for Assigned<F> {
    fn from((a, b): (F, F)) -> Self {
        Assigned::Rational(a, b)
    }
}
impl<F: Field> Assigned<F> {
    pub fn evaluate(self) -> F {
        match self {
            Assigned::Zero => F::ZERO,
            Assigned::Trivial(x) => x,
            Assigned::Rational(n, d) => {
                if d == F::ONE {
                    n
                } else {
                    n * d.invert().unwrap_or(F::ZERO)
                }
            }
        }
    }
}
