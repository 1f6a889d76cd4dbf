fn parse::char_stream::CharStream::from_string_impl [C15]
  ret r
  ens[C15] r matches Ok(s) && s.wf() && s.pos() == 0 && s.inner.file == file && s.inner.contents == contents
  tail
    assert(contents@.skip(0) =~= contents@);
fn parse::char_stream::CharStream::from_string [C15]
  ret r
  ens[C15] r matches Ok(s) && s.wf() && s.pos() == 0 && s.fname() is None && s.inner.contents == contents
fn parse::char_stream::CharStream::from_file [C15 C16]
  ret r
  ens[C16] r matches Ok(s) ==> s.wf() && s.pos() == 0 && s.fname() == Some(path@) && fs_read(path@) == Ok::<Seq<char>, Seq<char>>(s.text())
  ens[C16] r matches Err(e) ==> fs_read(path@) == Err::<Seq<char>, Seq<char>>(e.disp())
fn parse::char_stream::CharStream::peek [C15]
  ret r
  req self.wf()
  ens[C15] r == at(self.text(), self.pos())
fn parse::char_stream::CharStream::file [C15]
  ret r
  ens[C15] r == self.inner.file
fn parse::char_stream::CharStream::line [C15]
  ret r
  ens[C15] r == self.inner.line
fn parse::char_stream::CharStream::col [C15]
  ret r
  ens[C15] r == self.inner.col
fn parse::char_stream::CharStream::set_line
  ens[C15] final(self).inner.line == value && final(self).inner.col == old(self).inner.col && final(self).inner.stream == old(self).inner.stream && final(self).src(old(self))
fn parse::char_stream::CharStream::set_col
  ens[C15] final(self).inner.col == value && final(self).inner.line == old(self).inner.line && final(self).inner.stream == old(self).inner.stream && final(self).src(old(self))
fn parse::char_stream::<CharStream as Iterator>::next [C12 C15]
  ret r
  req old(self).wf()
  ens[C15] final(self).wf() && final(self).src(old(self))
  ens[C15] r == at(old(self).text(), old(self).pos())
  ens[C15] final(self).pos() == old(self).pos() + if r is Some { 1int } else { 0 }
  entry
    lemma_pos(self.text(), self.pos()); lemma_pos(self.text(), self.pos() + 1);
    assert(self.pos() < self.text().len() ==> self.text().skip(self.pos()).skip(1) =~= self.text().skip(self.pos() + 1));
