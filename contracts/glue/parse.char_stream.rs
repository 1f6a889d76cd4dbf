impl CharStream {
    /// Characters consumed so far.
    pub open spec fn pos(&self) -> int { self.inner.contents@.len() - self.inner.stream@.len() }
    pub open spec fn text(&self) -> Seq<char> { self.inner.contents@ }
    pub open spec fn fname(&self) -> Option<Seq<char>> { match self.inner.file { Some(f) => Some(f@), None => None } }
    /// What is left is the rest of the text, and line and column describe the position.
    pub open spec fn wf(&self) -> bool {
        &&& self.inner.stream@.len() <= self.inner.contents@.len() <= 0x7fff_ffff_ffff_ffff
        &&& self.inner.stream@ == self.inner.contents@.skip(self.pos())
        &&& self.inner.line == ln(self.text(), self.pos())
        &&& self.inner.col == cl(self.text(), self.pos())
    }
    pub open spec fn src(&self, o: &CharStream) -> bool { self.inner.contents == o.inner.contents && self.inner.file == o.inner.file }
}
