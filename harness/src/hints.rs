//! Iterators that say more or less of how much they have.

pub const HINTS: usize = 9;
pub const SIZES: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 129, 300];

pub struct Hinted<T> {
    left: std::vec::IntoIter<T>,
    kind: usize,
}

/// An iterator over `v` with a truthful size hint of one of the kinds.
pub fn hinted<T>(v: Vec<T>, kind: usize) -> Hinted<T> {
    Hinted { left: v.into_iter(), kind }
}

impl<T> Iterator for Hinted<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.left.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.left.len();
        match self.kind {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(n)),
            3 => (n.min(1), None),
            4 => (n / 2, Some(2 * n)),
            5 => (n.saturating_sub(1), Some(n + 1)),
            6 => (n, None),
            7 => (0, Some(usize::MAX)),
            _ => (n.min(2), Some(n.max(2))),
        }
    }
}
