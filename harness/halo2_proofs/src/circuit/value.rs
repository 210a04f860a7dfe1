use crate::plonk::{Assigned, Error};
use ff::Field;
use std::ops::{Add, Mul, Neg, Sub};

/// a value that may be unknown
#[derive(Clone, Copy, Debug)]
pub struct Value<V> {
    inner: Option<V>,
}
impl<V> Default for Value<V> {
    fn default() -> Self {
        Self::unknown()
    }
}
impl<V> Value<V> {
    pub const fn unknown() -> Self {
        Self { inner: None }
    }
    pub const fn known(v: V) -> Self {
        Self { inner: Some(v) }
    }
    pub fn assign(self) -> Result<V, Error> {
        self.inner.ok_or(Error::Synthesis)
    }
    pub fn into_option(self) -> Option<V> {
        self.inner
    }
    pub fn as_ref(&self) -> Value<&V> {
        Value { inner: self.inner.as_ref() }
    }
    pub fn as_mut(&mut self) -> Value<&mut V> {
        Value { inner: self.inner.as_mut() }
    }
    pub fn is_none(&self) -> bool {
        self.inner.is_none()
    }
    pub fn assert_if_known<F: FnOnce(&V) -> bool>(&self, f: F) {
        if let Some(v) = self.inner.as_ref() {
            assert!(f(v));
        }
    }
    pub fn error_if_known_and<F: FnOnce(&V) -> bool>(&self, f: F) -> Result<(), Error> {
        match self.inner.as_ref() {
            Some(v) if f(v) => Err(Error::Synthesis),
            _ => Ok(()),
        }
    }
    pub fn map<W, F: FnOnce(V) -> W>(self, f: F) -> Value<W> {
        Value { inner: self.inner.map(f) }
    }
    pub fn and_then<W, F: FnOnce(V) -> Value<W>>(self, f: F) -> Value<W> {
        match self.inner {
            Some(v) => f(v),
            None => Value::unknown(),
        }
    }
    pub fn zip<W>(self, o: Value<W>) -> Value<(V, W)> {
        Value { inner: self.inner.zip(o.inner) }
    }
}
impl<V, W> Value<(V, W)> {
    pub fn unzip(self) -> (Value<V>, Value<W>) {
        match self.inner {
            Some((v, w)) => (Value::known(v), Value::known(w)),
            None => (Value::unknown(), Value::unknown()),
        }
    }
}
impl<V: Copy> Value<&V> {
    pub fn copied(self) -> Value<V> {
        Value { inner: self.inner.copied() }
    }
}
impl<V: Clone> Value<&V> {
    pub fn cloned(self) -> Value<V> {
        Value { inner: self.inner.cloned() }
    }
}
impl<V: Copy, const LEN: usize> Value<[V; LEN]> {
    pub fn transpose_array(self) -> [Value<V>; LEN] {
        let mut r = [Value::unknown(); LEN];
        if let Some(vs) = self.inner {
            for (e, v) in r.iter_mut().zip(vs) {
                *e = Value::known(v);
            }
        }
        r
    }
}
impl<V, I: IntoIterator<Item = V>> Value<I>
where
    I::IntoIter: ExactSizeIterator,
{
    pub fn transpose_vec(self, length: usize) -> Vec<Value<V>> {
        match self.inner {
            Some(vs) => vs.into_iter().map(Value::known).collect(),
            None => (0..length).map(|_| Value::unknown()).collect(),
        }
    }
}
impl<A, V: FromIterator<A>> FromIterator<Value<A>> for Value<V> {
    fn from_iter<I: IntoIterator<Item = Value<A>>>(i: I) -> Self {
        Value { inner: i.into_iter().map(|v| v.inner).collect() }
    }
}
impl<V: Neg> Neg for Value<V> {
    type Output = Value<V::Output>;
    fn neg(self) -> Self::Output {
        Value { inner: self.inner.map(|v| -v) }
    }
}
macro_rules! op {
    ($tr:ident, $f:ident) => {
        impl<V, O> $tr for Value<V>
        where
            V: $tr<Output = O>,
        {
            type Output = Value<O>;
            fn $f(self, rhs: Self) -> Value<O> {
                Value { inner: self.inner.zip(rhs.inner).map(|(a, b)| a.$f(b)) }
            }
        }
        impl<V, O> $tr for &Value<V>
        where
            for<'v> &'v V: $tr<Output = O>,
        {
            type Output = Value<O>;
            fn $f(self, rhs: Self) -> Value<O> {
                Value { inner: self.inner.as_ref().zip(rhs.inner.as_ref()).map(|(a, b)| a.$f(b)) }
            }
        }
        impl<V, O> $tr<Value<&V>> for Value<V>
        where
            for<'v> V: $tr<&'v V, Output = O>,
        {
            type Output = Value<O>;
            fn $f(self, rhs: Value<&V>) -> Value<O> {
                Value { inner: self.inner.zip(rhs.inner).map(|(a, b)| a.$f(b)) }
            }
        }
        impl<V, O> $tr<Value<V>> for Value<&V>
        where
            for<'v> &'v V: $tr<V, Output = O>,
        {
            type Output = Value<O>;
            fn $f(self, rhs: Value<V>) -> Value<O> {
                Value { inner: self.inner.zip(rhs.inner).map(|(a, b)| a.$f(b)) }
            }
        }
        impl<V, O> $tr<&Value<V>> for Value<V>
        where
            for<'v> V: $tr<&'v V, Output = O>,
        {
            type Output = Value<O>;
            fn $f(self, rhs: &Self) -> Value<O> {
                self.$f(rhs.as_ref())
            }
        }
        impl<V, O> $tr<Value<V>> for &Value<V>
        where
            for<'v> &'v V: $tr<V, Output = O>,
        {
            type Output = Value<O>;
            fn $f(self, rhs: Value<V>) -> Value<O> {
                self.as_ref().$f(rhs)
            }
        }
    };
}
op!(Add, add);
op!(Sub, sub);
op!(Mul, mul);
impl<V> Value<V> {
    pub fn to_field<F: Field>(&self) -> Value<Assigned<F>>
    where
        for<'v> Assigned<F>: From<&'v V>,
    {
        Value { inner: self.inner.as_ref().map(|v| v.into()) }
    }
    pub fn into_field<F: Field>(self) -> Value<Assigned<F>>
    where
        V: Into<Assigned<F>>,
    {
        Value { inner: self.inner.map(|v| v.into()) }
    }
    pub fn square(self) -> Value<V>
    where
        V: Field,
    {
        self.map(|v| v.square())
    }
    pub fn double(self) -> Value<V>
    where
        V: Field,
    {
        self.map(|v| v.double())
    }
    pub fn cube(self) -> Value<V>
    where
        V: Field,
    {
        self.map(|v| v.cube())
    }
}
impl<F: Field> Value<Assigned<F>> {
    pub fn evaluate(self) -> Value<F> {
        self.map(|v| v.evaluate())
    }
}
