pub trait Array { type Item; }
impl<T, const N: usize> Array for [T; N] { type Item = T; }
pub type SmallVec<A> = Vec<<A as Array>::Item>;
