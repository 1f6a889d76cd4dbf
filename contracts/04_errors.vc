fn error::<OverError as From<io::Error>>::from [C14]
  impl VxFrom<io::Error>
  spec
    open spec fn from_rel(t: io::Error, r: OverError) -> bool { r is IoError && r->IoError_0@ == t.disp() }
fn error::<OverError as From<ParseError>>::from [C15]
  impl VxFrom<ParseError>
  spec
    open spec fn from_rel(t: ParseError, r: OverError) -> bool { r is ParseError && r->ParseError_0@ == t.disp() }
fn parse::error::<ParseError as From<io::Error>>::from [C16]
  impl VxFrom<io::Error>
  spec
    open spec fn from_rel(t: io::Error, r: ParseError) -> bool { r.file is None && r.kind is IoError && r.kind->IoError_0@ == t.disp() }
fn parse::error::<ParseError as From<{ParseIntError,ParseBigIntError}>>::from [C08]
  impl VxFrom<$T>
  spec
    open spec fn from_rel(t: $T, r: ParseError) -> bool { r.file is None && r.kind is ParseIntError && r.kind->ParseIntError_0@ == t.disp() }
fn parse::error::ParseError::from_over [C09 C15]
  ret r
  ens[C15] r.file == file && r.kind is OverError && r.kind->OverError_0@ == over_at(e.disp(), line as int, col as int)
  tail[C15]
    assert(vx_ret.kind->OverError_0@ =~= over_at(e.disp(), line as int, col as int));
fn error::<OverError as fmt::Display>::fmt [C15]
  link pub fn vx_link__$F(x: &OverError, s: &mut fmt::Formatter) -> (r: fmt::Result) ensures r is Ok && final(s).buf@ == old(s).buf@ + x.disp() { $F(x, s) }
  ret r
  ens[C15] r is Ok && final(f).buf@ == old(f).buf@ + over_disp(*vx_self)
  tail[C15]
    assert(f.buf@ =~= old(f).buf@ + over_disp(*vx_self));
fn parse::error::parse_err [C15]
  ret r
  ens[C15] r matches Err(e) && e.file == file && e.kind == kind
fn parse::<{UnaryOp=un,BinaryOp=bin} as fmt::Display>::fmt [C15]
  link pub fn vx_link__$F(x: &$T, s: &mut fmt::Formatter) -> (r: fmt::Result) ensures r is Ok && final(s).buf@ == old(s).buf@ + x.disp() { $F(x, s) }
  ret r
  literals
  ens[C15] r is Ok && final(f).buf@ == old(f).buf@ + quoted($U_char(*vx_self))
  tail[C15]
    reveal_strlit("'");
    assert(f.buf@ =~= old(f).buf@ + quoted($U_char(*vx_self)));
fn parse::error::<ParseError as fmt::Display>::fmt [C15]
  link pub fn vx_link__$F(x: &ParseError, s: &mut fmt::Formatter) -> (r: fmt::Result) ensures r is Ok && final(s).buf@ == old(s).buf@ + x.disp() { $F(x, s) }
  ret r
  ens[C15] r is Ok && final(f).buf@ == old(f).buf@ + pe_disp(pe(*vx_self))
  before[C15] vx_write 0
    assert(vx_s@ =~= k_disp(ek(vx_self.kind)) || (vx_self.file matches Some(p) && vx_s@ =~= p@ + ": "@));
  tail[C15]
    assert(f.buf@ =~= old(f).buf@ + pe_disp(pe(*vx_self)));
fn parse::<UnaryOp as PartialEq>::eq [C09]
  link pub fn vx_link__$F(a: &UnaryOp, b: &UnaryOp) -> (r: bool) ensures r == a.eq_rel(b) { $F(a, b) }
  ret r
  ens[C09] r == (*vx_self == *other)
fn parse::<BinaryOp as PartialEq>::eq [C09]
  link pub fn vx_link__$F(a: &BinaryOp, b: &BinaryOp) -> (r: bool) ensures r == a.eq_rel(b) { $F(a, b) }
  ret r
  ens[C09] r == (*vx_self == *other)
