//! Buffer implementations used to present bytes to the decoder.
use bytes::Buf;
/// counts what is consumed from the inner buffer
pub struct Count<B> {
    pub b: B,
    pub total: usize,
}
impl<B: Buf> Count<B> {
    pub fn new(b: B) -> Self {
        let total = b.remaining();
        Count { b, total }
    }
    pub fn consumed(&self) -> usize {
        self.total - self.b.remaining()
    }
}
impl<B: Buf> Buf for Count<B> {
    fn remaining(&self) -> usize {
        self.b.remaining()
    }
    fn chunk(&self) -> &[u8] {
        self.b.chunk()
    }
    fn advance(&mut self, n: usize) {
        self.b.advance(n)
    }
    fn copy_to_bytes(&mut self, len: usize) -> bytes::Bytes {
        self.b.copy_to_bytes(len)
    }
}
/// a buffer made of segments with given boundaries (absolute, ascending offsets)
pub struct Seg<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub cuts: Vec<usize>,
}
impl<'a> Seg<'a> {
    pub fn new(b: &'a [u8], mut cuts: Vec<usize>) -> Self {
        cuts.retain(|c| *c > 0 && *c < b.len());
        cuts.sort();
        cuts.dedup();
        Seg { b, pos: 0, cuts }
    }
}
impl<'a> Buf for Seg<'a> {
    fn remaining(&self) -> usize {
        self.b.len() - self.pos
    }
    fn chunk(&self) -> &[u8] {
        let i = self.cuts.partition_point(|c| *c <= self.pos);
        let end = self.cuts.get(i).copied().unwrap_or(self.b.len());
        &self.b[self.pos..end]
    }
    fn advance(&mut self, n: usize) {
        assert!(n <= self.remaining(), "advance past the end");
        self.pos += n;
    }
}
